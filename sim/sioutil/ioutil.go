// Package sioutil replaces package io/ioutil in the instrumented code.
package sioutil

import (
	"io/fs"

	"verifsim/sos"
)

func ReadFile(name string) ([]byte, error) { return sos.ReadFile(name) }

func ReadDir(name string) ([]fs.FileInfo, error) {
	es, err := sos.ReadDir(name)
	var out []fs.FileInfo
	for _, e := range es {
		i, _ := e.Info()
		out = append(out, i)
	}
	return out, err
}

func WriteFile(name string, data []byte, perm fs.FileMode) error {
	return sos.WriteFile(name, data, perm)
}
func TempDir(dir, pattern string) (string, error)     { return sos.MkdirTemp(dir, pattern) }
func TempFile(dir, pattern string) (*sos.File, error) { return sos.CreateTemp(dir, pattern) }
