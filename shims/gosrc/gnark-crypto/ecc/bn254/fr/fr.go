// Package fr: the scalar field of BN254, on canonical representatives.
package fr

import (
	"errors"
	"math/big"
)

type Element [4]uint64

var mod, _ = new(big.Int).SetString("21888242871839275222246405745257275088548364400416034343698204186575808495617", 10)

func Modulus() *big.Int { return new(big.Int).Set(mod) }
func (z *Element) big() *big.Int {
	r := new(big.Int)
	for i := 3; i >= 0; i-- {
		r.Lsh(r, 64).Or(r, new(big.Int).SetUint64(z[i]))
	}
	return r
}
func (z *Element) SetBigInt(x *big.Int) *Element {
	r := new(big.Int).Mod(x, mod)
	m := new(big.Int).SetUint64(^uint64(0))
	for i := range z {
		z[i] = new(big.Int).And(r, m).Uint64()
		r.Rsh(r, 64)
	}
	return z
}
func (z *Element) SetInterface(x interface{}) (*Element, error) {
	switch v := x.(type) {
	case Element:
		*z = v
	case *Element:
		*z = *v
	default:
		return nil, errors.New("not an element")
	}
	return z, nil
}
func (z *Element) BigInt(r *big.Int) *big.Int { return r.Set(z.big()) }
func (z *Element) Mul(a, b *Element) *Element { return z.SetBigInt(new(big.Int).Mul(a.big(), b.big())) }
func (z *Element) Add(a, b *Element) *Element { return z.SetBigInt(new(big.Int).Add(a.big(), b.big())) }
func (z *Element) Sub(a, b *Element) *Element { return z.SetBigInt(new(big.Int).Sub(a.big(), b.big())) }
func (z *Element) Neg(a *Element) *Element    { return z.SetBigInt(new(big.Int).Neg(a.big())) }
func (z *Element) Inverse(a *Element) *Element {
	if a.IsZero() {
		*z = Element{}
		return z
	}
	return z.SetBigInt(new(big.Int).ModInverse(a.big(), mod))
}
func (z *Element) IsZero() bool   { return *z == Element{} }
func (z *Element) IsOne() bool    { return *z == Element{1} }
func (z *Element) IsUint64() bool { return z[1]|z[2]|z[3] == 0 }
func (z *Element) Uint64() uint64 { return z[0] }
func (z *Element) String() string { return z.big().String() }
func One() Element                { return Element{1} }
