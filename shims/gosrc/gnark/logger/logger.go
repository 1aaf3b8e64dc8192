// Package logger: says nothing.
package logger

type Event struct{}
type L struct{}

func (Event) Msg(string)                  {}
func (Event) Msgf(string, ...interface{}) {}
func (e Event) Err(error) Event           { return e }
func (e Event) Str(string, string) Event  { return e }
func (e Event) Int(string, int) Event     { return e }
func (L) Info() Event                     { return Event{} }
func (L) Debug() Event                    { return Event{} }
func (L) Warn() Event                     { return Event{} }
func (L) Error() Event                    { return Event{} }
func (L) Err(error) Event                 { return Event{} }
func Logger() L                           { return L{} }
