// Package sha256 stands in for crypto/sha256 in the native build of the code under test: it records the digests.
package sha256

import (
	"crypto/sha256"
	"hash"

	"pol/zzverif/nd"
)

const (
	Size      = sha256.Size
	BlockSize = sha256.BlockSize
)

type tracer struct{ hash.Hash }

func (t tracer) Sum(b []byte) []byte {
	d := nd.Freeze(t.Hash.Sum(nil))
	nd.Trace(d)
	return append(b, d...)
}

func New() hash.Hash { return tracer{sha256.New()} }

func Sum256(b []byte) (res [Size]byte) {
	d := sha256.Sum256(b)
	copy(res[:], nd.Freeze(d[:]))
	nd.Trace(res[:])
	return res
}
