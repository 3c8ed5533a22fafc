// Package vcrand stands in for crypto/rand in a steered native run.
package vcrand

import (
	"errors"

	"vharness/vsched"
)

func Read(b []byte) (int, error) {
	if vsched.CrandFails() {
		return 0, errors.New("no randomness")
	}
	vsched.Crand(b)
	return len(b), nil
}

type reader struct{}

func (reader) Read(b []byte) (int, error) { return Read(b) }

var Reader = reader{}
