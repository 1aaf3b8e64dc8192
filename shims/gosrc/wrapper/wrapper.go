// Package wrapper stands for the C library behind ecgo/rust: keeps what would be compiled.
package wrapper

import "errors"

var Last []byte
var LastConfig uint64

func CompileWithRustLib(s []byte, configId uint64) ([]byte, []byte, error) {
	Last, LastConfig = s, configId
	return nil, nil, errors.New("not compiled")
}
func ProveCircuitFile(circuitFilename string, witnessBytes []byte, configId uint64) []byte {
	return nil
}
func VerifyCircuitFile(circuitFilename string, witnessBytes []byte, proofBytes []byte, configId uint64) bool {
	return false
}
