// Package vsyscall stands in for syscall in a steered native run.
package vsyscall

import (
	"syscall"

	"vharness/shim/vsys"
)

type (
	Errno   = syscall.Errno
	Rusage  = syscall.Rusage
	Timeval = syscall.Timeval
)

const (
	RUSAGE_SELF     = syscall.RUSAGE_SELF
	RUSAGE_CHILDREN = syscall.RUSAGE_CHILDREN
	ENOENT          = syscall.ENOENT
	EINVAL          = syscall.EINVAL
)

func Getrusage(who int, r *Rusage) error { return vsys.Rusage(who, r) }
