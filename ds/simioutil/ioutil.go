// Package simioutil stands in for io/ioutil.
package simioutil

import (
	"io"
	"io/fs"

	"verif.local/ds/simos"
)

var Discard io.Writer = io.Discard

func ReadAll(r io.Reader) ([]byte, error)                     { return io.ReadAll(r) }
func NopCloser(r io.Reader) io.ReadCloser                     { return io.NopCloser(r) }
func ReadFile(name string) ([]byte, error)                    { return simos.ReadFile(name) }
func WriteFile(name string, b []byte, perm fs.FileMode) error { return simos.WriteFile(name, b, perm) }
func ReadDir(name string) ([]fs.FileInfo, error)              { return simos.Infos(name) }
func TempFile(dir, pat string) (*simos.File, error)           { return simos.CreateTemp(dir, pat) }
func TempDir(dir, pat string) (string, error)                 { return simos.MkdirTemp(dir, pat) }
