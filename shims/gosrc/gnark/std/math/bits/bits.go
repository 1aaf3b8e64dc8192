// Package bits: binary conversions with the same constraints as gnark's.
package bits

import (
	"math/big"

	"github.com/consensys/gnark/constraint/solver"
	"github.com/consensys/gnark/frontend"
)

type config struct {
	n                  int
	freeOut, freeIn    bool
	omitModulusCheck   bool
}
type BaseConversionOption func(*config) error

func WithNbDigits(n int) BaseConversionOption {
	return func(c *config) error {
		if n <= 0 {
			panic("nbDigits <= 0")
		}
		c.n = n
		return nil
	}
}
func WithUnconstrainedOutputs() BaseConversionOption {
	return func(c *config) error { c.freeOut = true; return nil }
}
func WithUnconstrainedInputs() BaseConversionOption {
	return func(c *config) error { c.freeIn = true; return nil }
}
func OmitModulusCheck() BaseConversionOption {
	return func(c *config) error { c.omitModulusCheck = true; return nil }
}

// Bits is the hint behind ToBinary.
func Bits(_ *big.Int, in, out []*big.Int) error {
	for i := range out {
		out[i].SetUint64(uint64(in[0].Bit(i)))
	}
	return nil
}
func init() { solver.RegisterHint(Bits) }

type limiter interface {
	MustBeLessOrEqCst(aBits []frontend.Variable, bound *big.Int, aForDebug frontend.Variable)
}

func ToBinary(api frontend.API, v frontend.Variable, opts ...BaseConversionOption) []frontend.Variable {
	c := config{n: api.Compiler().FieldBitLen()}
	for _, o := range opts {
		if err := o(&c); err != nil {
			panic(err)
		}
	}
	bits := make([]frontend.Variable, c.n)
	if k, ok := api.Compiler().ConstantValue(v); ok {
		for i := range bits {
			bits[i] = k.Bit(i)
		}
		return bits
	}
	bits, err := api.Compiler().NewHint(Bits, c.n, v)
	if err != nil {
		panic(err)
	}
	var sum frontend.Variable = 0
	w := big.NewInt(1)
	for i := range bits {
		sum = api.MulAcc(sum, bits[i], w)
		w.Lsh(w, 1)
		if !c.freeOut {
			api.AssertIsBoolean(bits[i])
		}
	}
	api.AssertIsEqual(sum, v)
	if !c.omitModulusCheck && c.n == api.Compiler().FieldBitLen() {
		if l, ok := api.Compiler().(limiter); ok {
			l.MustBeLessOrEqCst(bits, new(big.Int).Sub(api.Compiler().Field(), big.NewInt(1)), v)
		}
	}
	return bits
}
func FromBinary(api frontend.API, bits []frontend.Variable, opts ...BaseConversionOption) frontend.Variable {
	var c config
	for _, o := range opts {
		if err := o(&c); err != nil {
			panic(err)
		}
	}
	var sum frontend.Variable = 0
	w := big.NewInt(1)
	for i := range bits {
		if !c.freeIn {
			api.AssertIsBoolean(bits[i])
		}
		sum = api.MulAcc(sum, bits[i], w)
		w.Lsh(w, 1)
	}
	return sum
}
