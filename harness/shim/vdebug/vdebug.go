// Package vdebug stands in for runtime/debug in a steered native run.
package vdebug

import (
	"runtime/debug"

	"vharness/shim/vsys"
)

type GCStats = debug.GCStats

func ReadGCStats(s *GCStats) { vsys.GCStats(s) }
func Stack() []byte          { return debug.Stack() }
func FreeOSMemory()          {}
