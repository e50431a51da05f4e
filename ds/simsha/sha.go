// Package simsha stands in for sha256 where the system shortens a hash to eight bytes:
// masking those bytes makes collisions, which the property must hold for, reachable.
package simsha

import (
	"crypto/sha256"
	"encoding/binary"

	"verif.local/ds/simknob"
)

func mask(h [32]byte) [32]byte {
	if simknob.HashMask != ^uint64(0) {
		x := binary.BigEndian.Uint64(h[:8]) & simknob.HashMask
		binary.BigEndian.PutUint64(h[:8], x)
	}
	return h
}

func Sum256(b []byte) [32]byte { return mask(sha256.Sum256(b)) }
