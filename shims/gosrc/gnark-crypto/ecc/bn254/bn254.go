// Package bn254: names the scalar field.
package bn254

import (
	"math/big"

	"github.com/consensys/gnark-crypto/ecc/bn254/fr"
)

type id struct{}

func (id) ScalarField() *big.Int { return fr.Modulus() }

var ID id
