// Package vrand stands in for math/rand in a steered native run.
package vrand

import (
	"math/rand"

	"vharness/vsched"
)

type (
	Source   = rand.Source
	Source64 = rand.Source64
	Rand     = rand.Rand
)

type src struct{}

func (src) Int63() int64   { return int64(vsched.Rand63()) }
func (src) Uint64() uint64 { return vsched.Rand63() << 1 }
func (src) Seed(int64)     {}

func NewSource(seed int64) Source { return src{} }
func New(s Source) *Rand          { return rand.New(s) }
func Seed(int64)                  {}
func Int63() int64                { return int64(vsched.Rand63()) }
func Int() int                    { return int(vsched.Rand63()) }
func Uint64() uint64              { return vsched.Rand63() << 1 }
func Uint32() uint32              { return uint32(vsched.Rand63() >> 31) }
func Int31() int32                { return int32(vsched.Rand63() >> 32) }
func Intn(n int) int              { return int(vsched.Rand63() % uint64(n)) }
func Int63n(n int64) int64        { return int64(vsched.Rand63() % uint64(n)) }
func Float64() float64            { return float64(vsched.Rand63()>>10) / (1 << 53) }
