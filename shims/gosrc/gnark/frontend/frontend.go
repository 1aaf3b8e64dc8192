// Package frontend: the interfaces of gnark's front end that ecgo implements and uses.
package frontend

import (
	"math/big"

	"github.com/consensys/gnark/constraint"
	"github.com/consensys/gnark/constraint/solver"
	"github.com/consensys/gnark/frontend/schema"
)

type Variable interface{}
type Circuit interface{ Define(api API) error }
type API interface {
	Add(i1, i2 Variable, in ...Variable) Variable
	MulAcc(a, b, c Variable) Variable
	Neg(i1 Variable) Variable
	Sub(i1, i2 Variable, in ...Variable) Variable
	DivUnchecked(i1, i2 Variable) Variable
	Div(i1, i2 Variable) Variable
	Inverse(i1 Variable) Variable
	Mul(i1, i2 Variable, in ...Variable) Variable
	ToBinary(i1 Variable, n ...int) []Variable
	FromBinary(b ...Variable) Variable
	Xor(a, b Variable) Variable
	Or(a, b Variable) Variable
	And(a, b Variable) Variable
	Select(b Variable, i1, i2 Variable) Variable
	Lookup2(b0, b1 Variable, i0, i1, i2, i3 Variable) Variable
	IsZero(i1 Variable) Variable
	Cmp(i1, i2 Variable) Variable
	AssertIsEqual(i1, i2 Variable)
	AssertIsDifferent(i1, i2 Variable)
	AssertIsBoolean(i1 Variable)
	AssertIsCrumb(i1 Variable)
	AssertIsLessOrEqual(v Variable, bound Variable)
	Println(a ...Variable)
	Compiler() Compiler
	NewHint(f solver.Hint, nbOutputs int, inputs ...Variable) ([]Variable, error)
	ConstantValue(v Variable) (*big.Int, bool)
}
type Compiler interface {
	MarkBoolean(v Variable)
	IsBoolean(v Variable) bool
	Field() *big.Int
	FieldBitLen() int
	Commit(...Variable) (Variable, error)
	ConstantValue(v Variable) (*big.Int, bool)
	NewHint(f solver.Hint, nbOutputs int, inputs ...Variable) ([]Variable, error)
	NewHintForId(id solver.HintID, nbOutputs int, inputs ...Variable) ([]Variable, error)
	Defer(cb func(api API) error)
	InternalVariable(wireID uint32) Variable
	ToCanonicalVariable(Variable) CanonicalVariable
	SetGkrInfo(constraint.GkrInfo) error
	AddInstruction(bID constraint.BlueprintID, calldata []uint32) []uint32
	AddBlueprint(b constraint.Blueprint) constraint.BlueprintID
}
type Builder interface {
	API
	Compiler
	Compile() (constraint.ConstraintSystem, error)
	PublicVariable(schema.LeafInfo) Variable
	SecretVariable(schema.LeafInfo) Variable
}
type Committer interface {
	Commit(toCommit ...Variable) (Variable, error)
}
type Rangechecker interface{ Check(v Variable, bits int) }
type CanonicalVariable interface{ Compress(to *[]uint32) }
type CompileConfig struct {
	Capacity                  int
	IgnoreUnconstrainedInputs bool
	CompressThreshold         int
}
type CompileOption func(opt *CompileConfig) error
