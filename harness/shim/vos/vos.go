// Package vos stands in for os in a steered native run.
package vos

import (
	"os"

	"vharness/shim/vsys"
)

type (
	File      = vsys.File
	FileInfo  = os.FileInfo
	FileMode  = os.FileMode
	PathError = os.PathError
)

var (
	ErrNotExist   = os.ErrNotExist
	ErrExist      = os.ErrExist
	ErrPermission = os.ErrPermission
	Args          = os.Args
)

func Open(name string) (*File, error)      { return vsys.Open(name) }
func ReadFile(name string) ([]byte, error) { return vsys.ReadFile(name) }
func Getpid() int                          { return 4242 }
func Getppid() int                         { return 4241 }
func Getenv(string) string                 { return "" }
func IsNotExist(err error) bool            { return os.IsNotExist(err) }
func IsPermission(err error) bool          { return os.IsPermission(err) }
