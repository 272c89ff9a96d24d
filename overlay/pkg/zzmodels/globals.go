package zzmodels

import (
	"io/fs"
	"os"
)

// Package variables of packages whose initialisers are not executed.
func init() {
	os.ErrInvalid = fs.ErrInvalid
	os.ErrPermission = fs.ErrPermission
	os.ErrExist = fs.ErrExist
	os.ErrNotExist = fs.ErrNotExist
	os.ErrClosed = fs.ErrClosed
}
