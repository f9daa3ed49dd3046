// Package sos replaces package os in the instrumented code: files, the working
// directory and standard error are simulated, and everything that would change the
// real system is refused.
package sos

import (
	"io"
	"io/fs"
	"os"
	"syscall"
	"time"

	"verifsim/simfs"
)

// File replaces os.File.
type File struct {
	h   *simfs.Handle
	std int
}

var (
	Stdin  = &File{std: 0}
	Stdout = &File{std: 1}
	Stderr = &File{std: 2}
)

func (f *File) Name() string {
	if f.h == nil {
		return []string{"/dev/stdin", "/dev/stdout", "/dev/stderr"}[f.std]
	}
	return f.h.Name()
}

func (f *File) Fd() uintptr { return uintptr(f.std) }

func (f *File) Read(b []byte) (int, error) {
	if f == nil {
		return 0, os.ErrInvalid
	}
	if f.h == nil {
		return 0, io.EOF
	}
	return f.h.Read(b)
}

func (f *File) ReadAt(b []byte, off int64) (int, error) {
	if _, err := f.Seek(off, io.SeekStart); err != nil {
		return 0, err
	}
	return io.ReadFull(f, b)
}

func (f *File) Seek(off int64, whence int) (int64, error) {
	if f.h == nil {
		return 0, syscall.ESPIPE
	}
	return f.h.Seek(off, whence)
}

func (f *File) Write(b []byte) (int, error) {
	if f == nil {
		return 0, os.ErrInvalid
	}
	if f.h != nil {
		return 0, &fs.PathError{Op: "write", Path: f.Name(), Err: syscall.EBADF}
	}
	if f.std == 2 && simfs.Cur != nil {
		return simfs.Cur.StderrWrite(b)
	}
	return len(b), nil
}

func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }

func (f *File) Close() error {
	if f == nil {
		return os.ErrInvalid
	}
	if f.h == nil {
		return nil
	}
	return f.h.Close()
}

func (f *File) Sync() error { return nil }

func (f *File) Stat() (fs.FileInfo, error) {
	if f.h == nil {
		return nil, os.ErrInvalid
	}
	return f.h.Stat()
}

func (f *File) ReadDir(n int) ([]fs.DirEntry, error) { return f.h.ReadDir() }

func (f *File) Readdir(n int) ([]fs.FileInfo, error) {
	es, err := f.h.ReadDir()
	var out []fs.FileInfo
	for _, e := range es {
		i, _ := e.Info()
		out = append(out, i)
	}
	return out, err
}

func (f *File) Readdirnames(n int) ([]string, error) {
	es, err := f.h.ReadDir()
	var out []string
	for _, e := range es {
		out = append(out, e.Name())
	}
	return out, err
}

func cur() *simfs.FS {
	if simfs.Cur == nil {
		panic("sos: file system used outside a simulation")
	}
	return simfs.Cur
}

func Open(name string) (*File, error) {
	h, err := cur().Open(name)
	if err != nil {
		return nil, err
	}
	return &File{h: h}, nil
}

func OpenFile(name string, flag int, perm fs.FileMode) (*File, error) {
	if flag != os.O_RDONLY {
		return nil, &fs.PathError{Op: "open", Path: name, Err: syscall.EROFS}
	}
	return Open(name)
}

func ReadFile(name string) ([]byte, error)   { return cur().ReadFile(name) }
func Stat(name string) (fs.FileInfo, error)  { return cur().Stat(name) }
func Lstat(name string) (fs.FileInfo, error) { return cur().Lstat(name) }
func SameFile(a, b fs.FileInfo) bool         { return simfs.Same(a, b) }
func Getwd() (string, error)                 { return cur().Getwd() }
func ReadDir(name string) ([]fs.DirEntry, error) {
	h, err := cur().Open(name)
	if err != nil {
		return nil, err
	}
	return h.ReadDir()
}

type dirFS string

func (d dirFS) Open(name string) (fs.File, error) {
	if !fs.ValidPath(name) {
		return nil, &fs.PathError{Op: "open", Path: name, Err: fs.ErrInvalid}
	}
	return Open(string(d) + "/" + name)
}

func (d dirFS) ReadFile(name string) ([]byte, error) {
	if !fs.ValidPath(name) {
		return nil, &fs.PathError{Op: "readfile", Path: name, Err: fs.ErrInvalid}
	}
	return ReadFile(string(d) + "/" + name)
}

func (d dirFS) Stat(name string) (fs.FileInfo, error) {
	if !fs.ValidPath(name) {
		return nil, &fs.PathError{Op: "stat", Path: name, Err: fs.ErrInvalid}
	}
	return Stat(string(d) + "/" + name)
}

func DirFS(dir string) fs.FS { return dirFS(dir) }

func refuse(op, name string) error {
	return &fs.PathError{Op: op, Path: name, Err: syscall.EROFS}
}

func Readlink(name string) (string, error) { return cur().Readlink(name) }
func Create(name string) (*File, error)    { return nil, refuse("open", name) }
func CreateTemp(dir, pattern string) (*File, error) {
	return nil, refuse("createtemp", dir)
}
func WriteFile(name string, data []byte, perm fs.FileMode) error { return refuse("open", name) }
func Remove(name string) error                                   { return refuse("remove", name) }
func RemoveAll(name string) error                                { return refuse("unlinkat", name) }
func Rename(a, b string) error                                   { return refuse("rename", a) }
func Mkdir(name string, perm fs.FileMode) error                  { return refuse("mkdir", name) }
func MkdirAll(name string, perm fs.FileMode) error               { return refuse("mkdir", name) }
func MkdirTemp(dir, pattern string) (string, error)              { return "", refuse("mkdirtemp", dir) }
func Link(a, b string) error                                     { return refuse("link", a) }
func Symlink(a, b string) error                                  { return refuse("symlink", a) }
func Truncate(name string, size int64) error                     { return refuse("truncate", name) }
func Chmod(name string, m fs.FileMode) error                     { return refuse("chmod", name) }
func Chown(name string, u, g int) error                          { return refuse("chown", name) }
func Lchown(name string, u, g int) error                         { return refuse("lchown", name) }
func Chtimes(name string, a, m time.Time) error                  { return refuse("chtimes", name) }
func Chdir(dir string) error                                     { return refuse("chdir", dir) }
func CopyFS(dir string, fsys fs.FS) error                        { return refuse("copyfs", dir) }
func Exit(code int)                                              { panic("os.Exit called by the code under test") }
func Getenv(key string) string                                   { return "" }
func LookupEnv(key string) (string, bool)                        { return "", false }
func Setenv(key, v string) error                                 { return nil }
func Unsetenv(key string) error                                  { return nil }
func Clearenv()                                                  {}
func Environ() []string                                          { return nil }
