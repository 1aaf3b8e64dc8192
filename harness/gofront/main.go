// The Go side of L02: reads requests, one per line, and answers them with ecgo's packages.
package main

import (
	"bufio"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"math/big"
	"os"

	"github.com/PolyhedraZK/ExpanderCompilerCollection/ecgo/field"
	"github.com/PolyhedraZK/ExpanderCompilerCollection/ecgo/irsource"
	"github.com/PolyhedraZK/ExpanderCompilerCollection/ecgo/irwg"
	"github.com/PolyhedraZK/ExpanderCompilerCollection/ecgo/layered"
	"github.com/PolyhedraZK/ExpanderCompilerCollection/ecgo/test"
	"github.com/consensys/gnark/constraint"
	"github.com/consensys/gnark/constraint/solver"
	"github.com/consensys/gnark/frontend"
)

type assignment struct {
	P []frontend.Variable `gnark:",public"`
	X []frontend.Variable
}

func (*assignment) Define(frontend.API) error { return nil }

type mixed struct {
	X []frontend.Variable
	Q struct {
		P []frontend.Variable
	} `gnark:",public"`
}

func (*mixed) Define(frontend.API) error { return nil }

// numbers of a caller's own types
type own struct{ v *big.Int }
type own2 struct{ v *big.Int }

func (o own) ToBigIntRegular(r *big.Int) *big.Int   { return r.Set(o.v) }
func (o *own2) ToBigIntRegular(r *big.Int) *big.Int { return r.Set(o.v) }

// a number in one of the forms that an assignment may hold
type num struct {
	F string `json:"f"`
	V string `json:"v"`
}

func (n num) get() frontend.Variable {
	b, ok := new(big.Int).SetString(n.V, 10)
	if !ok {
		panic("number " + n.V)
	}
	i, u := b.Int64(), b.Uint64()
	signed := func(bits uint) bool { return b.IsInt64() && i >= -1<<(bits-1) && i <= 1<<(bits-1)-1 }
	short := func(bits uint) bool { return b.IsUint64() && (bits == 64 || u < 1<<bits) }
	based := func(prefix string, base int) string {
		if b.Sign() < 0 {
			return "-" + prefix + new(big.Int).Neg(b).Text(base)
		}
		return prefix + b.Text(base)
	}
	switch n.F {
	case "big":
		return *b
	case "str":
		return n.V
	case "hex":
		return based("0x", 16)
	case "oct":
		return based("0o", 8)
	case "bin":
		return based("0b", 2)
	case "val":
		return own{b}
	case "pval":
		return &own2{b}
	case "bytes":
		if b.Sign() >= 0 {
			return b.Bytes()
		}
	case "int":
		if signed(64) {
			return int(i)
		}
	case "i64":
		if signed(64) {
			return i
		}
	case "i32":
		if signed(32) {
			return int32(i)
		}
	case "i16":
		if signed(16) {
			return int16(i)
		}
	case "i8":
		if signed(8) {
			return int8(i)
		}
	case "uint":
		if short(64) {
			return uint(u)
		}
	case "u64":
		if short(64) {
			return u
		}
	case "u32":
		if short(32) {
			return uint32(u)
		}
	case "u16":
		if short(16) {
			return uint16(u)
		}
	case "u8":
		if short(8) {
			return uint8(u)
		}
	}
	return b
}

type insn struct {
	Type       int      `json:"t"`
	X, Y       int      ``
	Inputs     []int    `json:"in"`
	NumOutputs int      `json:"no"`
	Extra      string   `json:"e"`
	Coef       []string `json:"cf"`
	Const      string   `json:"c"`
}
type circ struct {
	I []insn   `json:"i"`
	K [][2]int `json:"k"`
	Z []int    `json:"z"`
	N int      `json:"n"`
}
type request struct {
	Kind string `json:"kind"`
	// src
	Cfg  uint64          `json:"cfg"`
	Npub int             `json:"npub"`
	Nz   int             `json:"nz"`
	C    map[string]circ `json:"c"`
	// ws
	Ws    string            `json:"ws"`
	Lay   string            `json:"lay"`
	Asg   [][2][]num        `json:"asg"`
	Mixed bool              `json:"mixed"`
	Runs  [][2]int          `json:"runs"`
	Hints map[string]uint32 `json:"hints"`
	// build
	Prog program `json:"run"`
}

func unhex(s string) []byte {
	b, err := hex.DecodeString(s)
	if err != nil {
		panic(err)
	}
	return b
}
func big_(s string) *big.Int {
	b, ok := new(big.Int).SetString(s, 10)
	if !ok {
		panic("number " + s)
	}
	return b
}
func strs(v []*big.Int) []string {
	r := make([]string, len(v))
	for i, x := range v {
		r[i] = x.String()
	}
	return r
}
func u64(s string) uint64 { return big_(s).Uint64() }

func lin(p *big.Int, in, out []*big.Int) error {
	s := big.NewInt(0)
	for j, x := range in {
		s.Add(s, new(big.Int).Mul(x, big.NewInt(int64(j+1))))
	}
	for i := range out {
		// (no need to be reduced)
		out[i] = new(big.Int).Add(s, big.NewInt(int64(i+1)))
	}
	return nil
}
func sq(p *big.Int, in, out []*big.Int) error {
	for i := range out {
		out[i] = new(big.Int).Mul(in[0], in[0])
		out[i].Add(out[i], new(big.Int).Mul(in[len(in)-1], big.NewInt(int64(i+1))))
		out[i].Mod(out[i], p)
	}
	return nil
}
func fail(p *big.Int, in, out []*big.Int) error {
	if in[0].Cmp(big.NewInt(1)) == 0 {
		return errors.New("vp hint failed")
	}
	for i := range out {
		out[i] = new(big.Int).Set(in[0])
	}
	return nil
}

func guard(f func() map[string]any) (r map[string]any) {
	defer func() {
		if e := recover(); e != nil {
			r = map[string]any{"said": "panic", "msg": fmt.Sprint(e)}
		}
	}()
	return f()
}

func src(q request) map[string]any {
	return guard(func() map[string]any {
		f := field.GetFieldById(q.Cfg)
		rc := &irsource.RootCircuit{NumPublicInputs: q.Npub, ExpectedNumOutputZeroes: q.Nz, Field: f, Circuits: map[uint64]*irsource.Circuit{}}
		for id, c := range q.C {
			x := &irsource.Circuit{Outputs: c.Z, NumInputs: c.N}
			for _, k := range c.K {
				x.Constraints = append(x.Constraints, irsource.Constraint{Typ: k[0], Var: k[1]})
			}
			for _, i := range c.I {
				y := irsource.Instruction{Type: i.Type, X: i.X, Y: i.Y, Inputs: i.Inputs, NumOutputs: i.NumOutputs, ExtraId: u64(i.Extra)}
				for _, c := range i.Coef {
					y.LinCombCoef = append(y.LinCombCoef, f.FromInterface(big_(c)))
				}
				if i.Const != "" {
					y.Const = f.FromInterface(big_(i.Const))
				} else {
					y.Const = constraint.Element{}
				}
				x.Instructions = append(x.Instructions, y)
			}
			rc.Circuits[u64(id)] = x
		}
		return map[string]any{"said": "ok", "b": hex.EncodeToString(irsource.SerializeRootCircuit(rc))}
	})
}

func ws(q request) map[string]any {
	solver.RegisterNamedHint(lin, solver.HintID(q.Hints["vp.lin"]))
	solver.RegisterNamedHint(sq, solver.HintID(q.Hints["vp.sq"]))
	solver.RegisterNamedHint(fail, solver.HintID(q.Hints["vp.fail"]))
	var rc *irwg.RootCircuit
	var lc *layered.RootCircuit
	res := map[string]any{}
	res["read"] = guard(func() map[string]any {
		rc = irwg.DeserializeRootCircuit(unhex(q.Ws))
		return map[string]any{"said": "ok", "b": hex.EncodeToString(rc.Serialize())}
	})
	res["readlay"] = guard(func() map[string]any {
		lc = layered.DeserializeRootCircuit(unhex(q.Lay))
		return map[string]any{"said": "ok", "b": hex.EncodeToString(lc.Serialize())}
	})
	if rc == nil || lc == nil {
		return res
	}
	var as []frontend.Circuit
	for _, a := range q.Asg {
		var x, p []frontend.Variable
		for _, v := range a[0] {
			x = append(x, v.get())
		}
		for _, v := range a[1] {
			p = append(p, v.get())
		}
		if q.Mixed {
			m := &mixed{X: x}
			m.Q.P = p
			as = append(as, m)
		} else {
			as = append(as, &assignment{P: p, X: x})
		}
	}
	show := func(w *irwg.Witness, err error) map[string]any {
		if err != nil {
			return map[string]any{"said": "err"}
		}
		r := map[string]any{"said": "ok", "num": w.NumWitnesses, "a": w.NumInputsPerWitness, "b": w.NumPublicInputsPerWitness,
			"v": strs(w.Values), "ser": hex.EncodeToString(w.Serialize())}
		many := test.CheckCircuitMultiWitness(lc, w)
		r["many"] = many
		if w.NumWitnesses == 1 {
			r["outs"] = strs(test.EvalCircuit(lc, w))
			r["check"] = test.CheckCircuit(lc, w)
		}
		return r
	}
	var one, bat []map[string]any
	for i, a := range as {
		one = append(one, guard(func() map[string]any {
			if i%2 == 0 {
				return show(rc.SolveInput(a, 3))
			}
			return show(rc.SolveInputAuto(a))
		}))
	}
	for _, r := range q.Runs {
		bat = append(bat, guard(func() map[string]any { return show(rc.SolveInputs(as[r[0] : r[0]+r[1]])) }))
	}
	res["one"] = one
	res["bat"] = bat
	return res
}

func main() {
	in, err := os.Open(os.Args[1])
	if err != nil {
		panic(err)
	}
	out, err := os.Create(os.Args[2])
	if err != nil {
		panic(err)
	}
	rd := bufio.NewReaderSize(in, 1<<20)
	wr := bufio.NewWriter(out)
	for {
		line, err := rd.ReadBytes('\n')
		if len(line) > 0 {
			var q request
			if e := json.Unmarshal(line, &q); e != nil {
				panic(e)
			}
			var r map[string]any
			switch q.Kind {
			case "src":
				r = src(q)
			case "build":
				r = build(q)
			default:
				r = ws(q)
			}
			b, e := json.Marshal(r)
			if e != nil {
				panic(e)
			}
			wr.Write(b)
			wr.WriteByte('\n')
		}
		if err != nil {
			break
		}
	}
	wr.Flush()
	out.Close()
}
