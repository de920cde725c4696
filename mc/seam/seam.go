// Package seam puts a switch in front of the secure random source. Its import
// path sorts before that of every other package outside the standard library,
// so it is initialised before the code under test, which may therefore also
// keep a reference to crypto/rand.Reader from its own initialisation.
package seam

import (
	"crypto/rand"
	"io"
)

// Cur is the source in use; nil stands for the system's.
var Cur io.Reader

type source struct{ sys io.Reader }

func (s *source) Read(b []byte) (int, error) {
	if Cur != nil {
		return Cur.Read(b)
	}
	return s.sys.Read(b)
}

func init() { rand.Reader = &source{rand.Reader} }
