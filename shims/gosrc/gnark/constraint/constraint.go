// Package constraint: what ecgo uses of gnark's package of this name.
package constraint

import "math/big"

// Element is a field element of up to six words.
type Element [6]uint64

func (z *Element) IsZero() bool { return *z == Element{} }

// Field is the arithmetic that a field offers on elements.
type Field interface {
	FromInterface(interface{}) Element
	ToBigInt(Element) *big.Int
	Mul(a, b Element) Element
	Add(a, b Element) Element
	Sub(a, b Element) Element
	Neg(a Element) Element
	Inverse(a Element) (Element, bool)
	One() Element
	IsOne(Element) bool
	String(Element) string
	Uint64(Element) (uint64, bool)
}

// What ecgo only names.
type ConstraintSystem interface{}
type BlueprintID uint32
type Blueprint interface{}
type GkrInfo struct{}
