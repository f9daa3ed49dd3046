// Package sfilepath replaces package path/filepath in the instrumented code.
package sfilepath

import (
	"io/fs"
	"path/filepath"

	"verifsim/simfs"
	"verifsim/sos"
)

func Abs(path string) (string, error) {
	if filepath.IsAbs(path) {
		return filepath.Clean(path), nil
	}
	wd, err := sos.Getwd()
	if err != nil {
		return "", err
	}
	return filepath.Join(wd, path), nil
}

func EvalSymlinks(path string) (string, error) { return simfs.Cur.EvalSymlinks(path) }

func WalkDir(root string, fn fs.WalkDirFunc) error {
	return fs.WalkDir(sos.DirFS(root), ".", func(p string, d fs.DirEntry, err error) error {
		return fn(filepath.Join(root, p), d, err)
	})
}

func Walk(root string, fn filepath.WalkFunc) error {
	return WalkDir(root, func(p string, d fs.DirEntry, err error) error {
		var info fs.FileInfo
		if d != nil {
			info, _ = d.Info()
		}
		return fn(p, info, err)
	})
}

func Glob(pattern string) ([]string, error) {
	m, err := fs.Glob(sos.DirFS("/"), filepath.ToSlash(pattern[1:]))
	for i := range m {
		m[i] = "/" + m[i]
	}
	return m, err
}
