// Package solver: the registry of hints.
package solver

import (
	"fmt"
	"hash/fnv"
	"math/big"
	"reflect"
	"runtime"
)

type HintID uint32
type Hint func(field *big.Int, inputs []*big.Int, outputs []*big.Int) error

var registry = map[HintID]Hint{}

func GetHintName(f Hint) string { return runtime.FuncForPC(reflect.ValueOf(f).Pointer()).Name() }
func GetHintID(f Hint) HintID {
	h := fnv.New32a()
	h.Write([]byte(GetHintName(f)))
	return HintID(h.Sum32())
}
func RegisterHint(fs ...Hint) {
	for _, f := range fs {
		registry[GetHintID(f)] = f
	}
}
func RegisterNamedHint(f Hint, id HintID) { registry[id] = f }
func GetRegisteredHint(id HintID) Hint {
	if f, ok := registry[id]; ok {
		return f
	}
	return func(*big.Int, []*big.Int, []*big.Int) error { return fmt.Errorf("no hint %d", id) }
}
