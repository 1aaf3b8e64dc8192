// Programs of builder operations, run on ecgo's builder (L03, see specs/GoBuild.tla).
package main

import (
	"encoding/hex"
	"fmt"

	"github.com/PolyhedraZK/ExpanderCompilerCollection/ecgo"
	"github.com/PolyhedraZK/ExpanderCompilerCollection/ecgo/builder"
	"github.com/PolyhedraZK/ExpanderCompilerCollection/ecgo/field"
	"github.com/PolyhedraZK/ExpanderCompilerCollection/ecgo/rust/wrapper"
	"github.com/consensys/gnark/constraint/solver"
	"github.com/consensys/gnark/frontend"
	"github.com/consensys/gnark/std/math/bits"
)

type opd struct {
	K string `json:"k"`
	V string `json:"v"`
	I int    `json:"i"`
}
type op struct {
	O string `json:"o"`
	A []opd  `json:"a"`
	N int    `json:"n"`
	H string `json:"h"`
	F int    `json:"f"`
	M string `json:"m"`
	K []opd  `json:"c"`
	S []int  `json:"s"`
}
type program struct {
	Fns  [][]op `json:"fns"`
	Main []op   `json:"main"`
	Nx   int    `json:"nx"`
	Ny   int    `json:"ny"`
	Form int    `json:"form"`
}
type vs = []frontend.Variable

var cur program
var words = []string{"", "1", "11", "12123456789", "1234567892ab", "ab", "true", "a b"}

const k0 = 3

func nth(k []int, i int) int { return k[i%len(k)] }
func number(x opd, k []int) int {
	if x.K == "k" {
		return nth(k, x.I)
	}
	return x.I
}
func cat(c []int, s ...int) []int { return append(append([]int{k0}, c...), s...) }
func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}
func lens(x []vs) (s []int, all vs) {
	for _, y := range x {
		s = append(s, len(y))
		all = append(all, y...)
	}
	return
}
func fun(api frontend.API, f int, v vs, k []int) vs { return body(api, cur.Fns[f], v, k) }

// functions for simple calls
func s0(api frontend.API, v vs) vs { return fun(api, 0, v, cat(nil)) }
func s1(api frontend.API, v vs) vs { return fun(api, 1, v, cat(nil)) }
func s2(api frontend.API, v vs) vs { return fun(api, 2, v, cat(nil)) }
func s3(api frontend.API, v vs) vs { return fun(api, 3, v, cat(nil)) }
func s4(api frontend.API, v vs) vs { return fun(api, 4, v, cat(nil)) }
func s5(api frontend.API, v vs) vs { return fun(api, 5, v, cat(nil)) }
func s6(api frontend.API, v vs) vs { return fun(api, 6, v, cat(nil)) }

var simple []builder.SubCircuitSimpleFunc

func init() { simple = []builder.SubCircuitSimpleFunc{s0, s1, s2, s3, s4, s5, s6} }

// functions for memorized calls
func m0(api frontend.API, x frontend.Variable, xs vs, k int) vs {
	return fun(api, 0, append(vs{x}, xs...), cat([]int{k}, len(xs)))
}
func m1(api frontend.API, xs []vs, b bool, s string) []vs {
	l, all := lens(xs)
	r := fun(api, 1, all, cat([]int{b2i(b), word(s)}, l...))
	n := len(r) / 3
	return []vs{r[:n], {}, r[n:]}
}
func m2(api frontend.API, x frontend.Variable, k uint8, j int64) frontend.Variable {
	r := fun(api, 2, vs{x}, cat([]int{int(k), int(j)}))
	return api.Add(r[len(r)-1], r[0])
}
func m3(api frontend.API, xs vs) { fun(api, 3, xs, cat(nil, len(xs))) }
func m4(api frontend.API, x frontend.Variable, ys ...frontend.Variable) vs {
	return fun(api, 4, append(vs{x}, ys...), cat(nil, len(ys)))
}
func m5(api frontend.API, xs [][]vs) [][]vs {
	var all vs
	var sizes []int
	for _, x := range xs {
		l, a := lens(x)
		sizes = append(sizes, l...)
		all = append(all, a...)
	}
	r := fun(api, 5, all, cat([]int{len(xs[0])}, sizes...))
	return [][]vs{{r[:1]}, {}, {{}, r[1:]}}
}
func m6(api frontend.API, s string, x frontend.Variable, t string, u bool) frontend.Variable {
	r := fun(api, 6, vs{x}, cat([]int{word(s), word(t), b2i(u)}))
	return api.Add(r[len(r)-1], r[0])
}
func word(s string) int {
	for i, w := range words {
		if s == w {
			return i
		}
	}
	panic("word " + s)
}
func groups(v vs, s []int) (r []vs) {
	for _, n := range s {
		r = append(r, v[:n:n])
		v = v[n:]
	}
	return
}
func flat(x []vs) vs { _, all := lens(x); return all }

func invoke(api frontend.API, o op, a vs, k []int) vs {
	var c []int
	for _, x := range o.K {
		c = append(c, number(x, k))
	}
	e := api.(ecgo.API)
	switch o.M {
	case "inline":
		return fun(api, o.F, a, cat(c, o.S...))
	case "simple":
		if o.N == 1 {
			return builder.MemorizedSimpleFunc(simple[o.F])(api, a)
		}
		return e.MemorizedSimpleCall(simple[o.F], a)
	}
	switch o.F {
	case 0:
		return builder.Memorized1DFunc(m0)(api, a[0], a[1:], c[0])
	case 1:
		return flat(builder.Memorized2DFunc(m1)(api, groups(a, o.S), c[0] == 1, words[c[1]]))
	case 2:
		return vs{builder.Memorized0DFunc(m2)(api, a[0], uint8(c[0]), int64(c[1]))}
	case 3:
		builder.MemorizedVoidFunc(m3)(api, a)
		return nil
	case 4:
		in := make([]interface{}, len(a))
		for i, x := range a {
			in[i] = x
		}
		return e.MemorizedCall(m4, in...).(vs)
	case 5:
		g := groups(a, o.S)
		xs := [][]vs{g[:c[0]]}
		for g = g[c[0]:]; len(g) > 0; g = g[1:] {
			xs = append(xs, g[:1])
		}
		var r vs
		for _, x := range builder.Memorized3DFunc(m5)(api, xs) {
			r = append(r, flat(x)...)
		}
		return r
	}
	return vs{e.MemorizedCall(m6, words[c[0]], a[0], words[c[1]], c[2] == 1).(frontend.Variable)}
}

func body(api frontend.API, b []op, v vs, k []int) vs {
	v = append(vs{}, v...)
	if len(v) == 0 {
		v = append(v, 7)
	}
	for at, o := range b {
		var a vs
		for j, x := range o.A {
			switch x.K {
			case "v":
				a = append(a, v[x.I%len(v)])
			case "c":
				n := big_(x.V)
				switch (at + j) % 4 {
				case 0:
					a = append(a, n)
				case 1:
					a = append(a, *n)
				case 2:
					a = append(a, n.String())
				default:
					a = append(a, field.GetFieldFromOrder(api.Compiler().Field()).FromInterface(n))
				}
			default:
				n := number(x, k)
				if x.K == "m" {
					n = -n
				}
				switch {
				case (at+j)%3 == 0:
					a = append(a, int64(n))
				case n >= 0 && (at+j)%3 == 1:
					a = append(a, uint16(n))
				default:
					a = append(a, n)
				}
			}
		}
		var r vs
		one := func(x frontend.Variable) { r = vs{x} }
		e := api.(ecgo.API)
		switch o.O {
		case "add":
			one(api.Add(a[0], a[1], a[2:]...))
		case "sub":
			one(api.Sub(a[0], a[1], a[2:]...))
		case "mul":
			one(api.Mul(a[0], a[1], a[2:]...))
		case "mac":
			one(api.MulAcc(a[0], a[1], a[2]))
		case "neg":
			one(api.Neg(a[0]))
		case "div":
			one(api.Div(a[0], a[1]))
		case "divu":
			one(api.DivUnchecked(a[0], a[1]))
		case "inv":
			one(api.Inverse(a[0]))
		case "xor":
			one(api.Xor(a[0], a[1]))
		case "or":
			one(api.Or(a[0], a[1]))
		case "and":
			one(api.And(a[0], a[1]))
		case "sel":
			one(api.Select(a[0], a[1], a[2]))
		case "look":
			one(api.Lookup2(a[0], a[1], a[2], a[3], a[4], a[5]))
		case "isz":
			one(api.IsZero(a[0]))
		case "cmp":
			one(api.Cmp(a[0], a[1]))
		case "tobin":
			n := api.Compiler().FieldBitLen()
			if o.N > 0 {
				n = o.N
			}
			// (gnark keeps the low bits of a constant; a program checks that itself)
			if c, ok := api.ConstantValue(a[0]); ok && c.BitLen() > n {
				panic("does not fit")
			}
			if o.N > 0 {
				r = api.ToBinary(a[0], o.N)
			} else {
				r = api.ToBinary(a[0])
			}
		case "frombin":
			one(api.FromBinary(a...))
		case "cv":
			if c, ok := api.ConstantValue(a[0]); ok {
				one(c)
			} else {
				one(a[0])
			}
		case "first":
			one(e.ToFirstLayer(a[0]))
		case "single":
			one(e.ToSingleVariable(a[0]))
		case "hint":
			r, _ = api.Compiler().NewHint(hints[o.H], o.N, a...)
		case "gate":
			one(e.CustomGate(uint64(solver.GetHintID(hints[o.H])), a...))
		case "aeq":
			api.AssertIsEqual(a[0], a[1])
		case "ane":
			api.AssertIsDifferent(a[0], a[1])
		case "ab":
			api.AssertIsBoolean(a[0])
		case "crumb":
			api.AssertIsCrumb(a[0])
		case "le":
			api.AssertIsLessOrEqual(a[0], a[1])
		case "defer":
			var c []int
			for _, x := range o.K {
				c = append(c, number(x, k))
			}
			f := o.F
			api.Compiler().Defer(func(api frontend.API) error {
				fun(api, f, a, cat(c))
				return nil
			})
		case "call":
			r = invoke(api, o, a, k)
		default:
			panic("operation " + o.O)
		}
		v = append(v, r...)
	}
	return v
}

var hints = map[string]solver.Hint{"vp.lin": lin, "vp.sq": sq, "vp.fail": fail}

func define(api frontend.API, x, y vs) error {
	for _, v := range body(api, cur.Main, append(append(vs{}, x...), y...), cat(nil)) {
		api.(ecgo.API).Output(v)
	}
	return nil
}

type plain struct {
	X []frontend.Variable
	Y []frontend.Variable `gnark:",public"`
}
type turned struct {
	Y []frontend.Variable `gnark:",public"`
	X []frontend.Variable
}
type nested struct {
	A struct {
		Y frontend.Variable `gnark:",public"`
		X [1]frontend.Variable
	}
	X []frontend.Variable
	P struct{ Y []frontend.Variable } `gnark:",public"`
}

func (c *plain) Define(api frontend.API) error  { return define(api, c.X, c.Y) }
func (c *turned) Define(api frontend.API) error { return define(api, c.X, c.Y) }
func (c *nested) Define(api frontend.API) error {
	return define(api, append(vs{c.A.X[0]}, c.X...), append(vs{c.A.Y}, c.P.Y...))
}

func build(q request) map[string]any {
	cur = q.Prog
	return guard(func() map[string]any {
		wrapper.Last = nil
		x, y := make(vs, cur.Nx), make(vs, cur.Ny)
		var c frontend.Circuit
		switch {
		case cur.Form == 1:
			c = &turned{X: x, Y: y}
		case cur.Form == 2 && cur.Nx > 0 && cur.Ny > 0:
			n := &nested{X: x[1:]}
			n.P.Y = y[1:]
			c = n
		default:
			c = &plain{X: x, Y: y}
		}
		_, err := ecgo.Compile(field.GetFieldById(q.Cfg).Field(), c)
		if wrapper.Last == nil {
			return map[string]any{"said": "err", "msg": fmt.Sprint(err)}
		}
		ids := map[string]string{}
		id := func(n string, f solver.Hint) { ids[fmt.Sprint(uint64(solver.GetHintID(f)))] = n }
		id("vp.lin", lin)
		id("vp.sq", sq)
		id("vp.fail", fail)
		id("vp.bits", bits.Bits)
		id("Identity", builder.IdentityHint)
		return map[string]any{"said": "ok", "b": hex.EncodeToString(wrapper.Last), "cfg": wrapper.LastConfig, "ids": ids}
	})
}
