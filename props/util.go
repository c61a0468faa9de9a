package props

import (
	"golang.org/x/crypto/sha3"
)

// refKeccak is Keccak-256 from x/crypto, independent of the repository's.
func refKeccak(b []byte) []byte {
	h := sha3.NewLegacyKeccak256()
	h.Write(b)
	return h.Sum(nil)
}
