// Package simfs is the simulated file system, working directory and standard error.
package simfs

import (
	"fmt"
	"io"
	"io/fs"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"time"

	"verifsim/simrt"
)

// Fault is one injected fault: it applies to the Nth call (1-based; 0: every call) of
// Op ("read", "stat", "getwd", "stderr", "readdir") on Path (as the kernel sees it,
// absolute and clean; "" matches any).
type Fault struct {
	Op    string `json:"op"`
	Path  string `json:"path,omitempty"`
	Nth   int    `json:"nth,omitempty"`
	Kind  string `json:"kind"`            // an errno name, or torn, zero, flip, mix, midread, short
	N     int    `json:"n,omitempty"`     // byte offset or count the kind uses
	Len   int    `json:"len,omitempty"`   // zero: how many bytes
	Other string `json:"other,omitempty"` // mix: the content the tail is taken from
}

// Latency makes every operation on a path (or, without one, every operation) take a
// while of simulated time.
type Latency struct {
	Path string `json:"path,omitempty"`
	NS   int64  `json:"ns"`
}

func (f *FS) wait(p string) {
	for _, l := range f.Slow {
		if l.Path == "" || l.Path == p {
			f.Slept++
			simrt.Sleep(l.NS)
			return
		}
	}
}

// File is a regular file: a list of versions of its content, one of which is current.
type File struct {
	Versions []Version
	Cur      int
	changes  int // how often it was replaced
}

// Replace makes another version the current one.
func (f *File) Replace(v int) {
	f.Cur = v
	f.changes++
}

// Version is what reading a file gives: its text, or an error.
type Version struct {
	Text  string
	Err   string // errno name; "" if readable
	ErrAt int    // >0: the error comes when ErrAt-1 bytes (or all) have been read
}

// Read is one entry of the log of file reads.
type Read struct {
	Path    string
	Text    string // what the reader got
	Err     string // errno name, if it failed
	Mid     bool   // it failed after it had given some of the content
	Label   int    // of the reading task
	Fault   string // kind of the fault that fired
	Step    int64
	Version int
}

// Write is one write to standard error.
type Write struct {
	Text  string // what arrived
	Full  string // what was passed
	Err   string
	Label int
	Task  int
}

// FS is one simulated machine's files.
type FS struct {
	Cwd    string
	Files  map[string]*File
	Dirs   map[string]bool
	Links  map[string]string
	Faults []Fault
	Chunk  int // maximum bytes a File.Read returns; 0: unlimited
	Slow   []Latency
	Slept  int

	Reads   []Read
	Stderrs []Write
	Fired   []int // times each fault fired
	matched []int // calls that matched each fault
	Ops     int
	Failed  []string      // "op path" of every call that failed otherwise than for lack of a file
	Late    func() string // non-nil once no operation is allowed any more: describes a violation
	Lates   []string
	handles []*Handle
}

// Cur is the file system of the current simulation.
var Cur *FS

// New returns an empty file system.
func New(cwd string) *FS {
	f := &FS{Cwd: cwd, Files: map[string]*File{}, Dirs: map[string]bool{"/": true}, Links: map[string]string{}}
	f.MkdirAll(cwd)
	return f
}

// MkdirAll adds a directory and its parents.
func (f *FS) MkdirAll(p string) {
	for p = filepath.Clean(p); ; p = filepath.Dir(p) {
		f.Dirs[p] = true
		if p == "/" {
			return
		}
	}
}

// Put adds a file.
func (f *FS) Put(p string, versions ...Version) {
	p = filepath.Clean(p)
	f.MkdirAll(filepath.Dir(p))
	f.Files[p] = &File{Versions: versions}
}

// Start prepares the fault counters; call it before the run.
func (f *FS) Start() {
	f.Fired = make([]int, len(f.Faults))
	f.matched = make([]int, len(f.Faults))
	f.Reads = make([]Read, 0, 64)
	f.Stderrs = make([]Write, 0, 16)
	f.Lates, f.handles = nil, nil
}

// Unclosed lists the files that tasks with one of the labels (any, if there are none)
// have opened and not closed.
func (f *FS) Unclosed(labels ...int) []string {
	var out []string
	for _, h := range f.handles {
		ok := len(labels) == 0
		for _, l := range labels {
			ok = ok || h.label == l
		}
		if ok && !h.closed {
			out = append(out, h.path)
		}
	}
	return out
}

var errnos = map[string]syscall.Errno{
	"ENOENT": syscall.ENOENT, "EACCES": syscall.EACCES, "EIO": syscall.EIO, "EMFILE": syscall.EMFILE,
	"EISDIR": syscall.EISDIR, "ELOOP": syscall.ELOOP, "ENOTDIR": syscall.ENOTDIR, "EINTR": syscall.EINTR,
	"ENAMETOOLONG": syscall.ENAMETOOLONG, "EPERM": syscall.EPERM, "ESTALE": syscall.ESTALE, "EPIPE": syscall.EPIPE,
	"ENOSPC": syscall.ENOSPC, "EINVAL": syscall.EINVAL, "ENFILE": syscall.ENFILE, "EROFS": syscall.EROFS,
	"ENXIO": syscall.ENXIO,
}

// Errno is the error number of a name.
func Errno(name string) syscall.Errno {
	if e, ok := errnos[name]; ok {
		return e
	}
	return syscall.EIO
}

func pathErr(op, p, name string) error {
	return &fs.PathError{Op: op, Path: p, Err: Errno(name)}
}

func (f *FS) op(what string) {
	f.Ops++
	if f.Late != nil {
		if s := f.Late(); s != "" && !simrt.Aborting() {
			f.Lates = append(f.Lates, s+": "+what)
		}
	}
	simrt.Op(what)
}

// fault returns the fault to inject into a call, or nil.
func (f *FS) fault(op, p string) *Fault {
	var hit *Fault
	for i := range f.Faults {
		ft := &f.Faults[i]
		if ft.Op != op || (ft.Path != "" && ft.Path != p) {
			continue
		}
		f.matched[i]++
		if ft.Nth == 0 || ft.Nth == f.matched[i] {
			if hit == nil {
				hit = ft
				f.Fired[i]++
				f.Failed = append(f.Failed, op+" "+p)
				simrt.Event("fault " + ft.Kind + " " + op + " " + p)
			}
		}
	}
	return hit
}

// Abs makes p absolute against the working directory, without faults.
func (f *FS) Abs(p string) string {
	if !strings.HasPrefix(p, "/") {
		p = f.Cwd + "/" + p
	}
	return filepath.Clean(p)
}

// resolve follows symbolic links and checks the directories on the way, like the
// kernel does: "a/../b" needs a to be a directory.
func (f *FS) resolve(p string) (string, string) { return f.lookup(p, true) }

// lookup is resolve; unless follow is set, a link that p itself names is not followed.
func (f *FS) lookup(p string, follow bool) (string, string) {
	if p == "" {
		return "", "ENOENT"
	}
	if strings.IndexByte(p, 0) >= 0 {
		return "", "EINVAL"
	}
	if !strings.HasPrefix(p, "/") {
		p = f.Cwd + "/" + p
	}
	if len(p) >= 4096 {
		return "", "ENAMETOOLONG"
	}
	parts := strings.Split(p, "/")
	trail := strings.HasSuffix(p, "/")
	at := "/"
	links := 0
	for i := 0; i < len(parts); i++ {
		c := parts[i]
		if c == "" || c == "." {
			if c == "." && !f.Dirs[at] {
				return "", "ENOTDIR"
			}
			continue
		}
		if !f.Dirs[at] {
			if f.Files[at] != nil {
				return "", "ENOTDIR"
			}
			return "", "ENOENT"
		}
		if c == ".." {
			at = filepath.Dir(at)
			continue
		}
		if len(c) > 255 {
			return "", "ENAMETOOLONG"
		}
		next := filepath.Join(at, c)
		if target, ok := f.Links[next]; ok {
			if i == len(parts)-1 && !follow {
				return next, ""
			}
			if links++; links > 40 {
				return "", "ELOOP"
			}
			rest := append(strings.Split(target, "/"), parts[i+1:]...)
			if strings.HasPrefix(target, "/") {
				at = "/"
			}
			parts, i = rest, -1
			continue
		}
		at = next
	}
	if f.Dirs[at] {
		return at, ""
	}
	if f.Files[at] != nil {
		if trail {
			return "", "ENOTDIR"
		}
		return at, ""
	}
	return "", "ENOENT"
}

// KindOf is "file", "dir" or "" for what p names, without faults.
func (f *FS) KindOf(p string) string {
	at, errno := f.resolve(p)
	if errno != "" {
		return ""
	}
	if f.Dirs[at] {
		return "dir"
	}
	return "file"
}

// Content is the content of the regular file p names, without faults.
func (f *FS) Content(p string) (string, bool) {
	at, errno := f.resolve(p)
	if errno != "" || f.Dirs[at] {
		return "", false
	}
	v := f.Files[at].Versions[f.Files[at].Cur]
	return v.Text, v.Err == ""
}

// Info implements fs.FileInfo.
type Info struct {
	name string
	size int64
	dir  bool
	link bool
	at   string // what it is, under whatever name
	mod  int
}

// Same tells whether two Infos are about the same file.
func Same(a, b fs.FileInfo) bool {
	x, ok1 := a.(Info)
	y, ok2 := b.(Info)
	return ok1 && ok2 && x.at != "" && x.at == y.at
}

func (i Info) Name() string       { return i.name }
func (i Info) Size() int64        { return i.size }
func (i Info) IsDir() bool        { return i.dir }
func (i Info) ModTime() time.Time { return time.Unix(1600000000, int64(i.mod)*1e7) }
func (i Info) Sys() interface{}   { return nil }
func (i Info) Mode() fs.FileMode {
	if i.dir {
		return fs.ModeDir | 0o755
	}
	if i.link {
		return fs.ModeSymlink | 0o777
	}
	return 0o644
}
func (i Info) Type() fs.FileMode          { return i.Mode().Type() }
func (i Info) Info() (fs.FileInfo, error) { return i, nil }

// Stat is stat(2).
func (f *FS) Stat(p string) (fs.FileInfo, error) { return f.stat("stat", p) }

// Lstat is lstat(2).
func (f *FS) Lstat(p string) (fs.FileInfo, error) { return f.stat("lstat", p) }

// Readlink is readlink(2).
func (f *FS) Readlink(p string) (string, error) {
	i, err := f.Lstat(p)
	if err != nil {
		return "", err
	}
	if i.Mode()&fs.ModeSymlink == 0 {
		return "", pathErr("readlink", p, "EINVAL")
	}
	return f.Links[i.(Info).at], nil
}

func (f *FS) stat(op, p string) (fs.FileInfo, error) {
	f.op(op + " " + p)
	clean := f.Abs(p)
	f.wait(clean)
	if ft := f.fault("stat", clean); ft != nil {
		return nil, pathErr(op, p, ft.Kind)
	}
	at, errno := f.lookup(p, op == "stat")
	if errno != "" {
		if errno != "ENOENT" && errno != "ENOTDIR" {
			f.Failed = append(f.Failed, "stat "+f.Abs(p))
		}
		return nil, pathErr(op, p, errno)
	}
	return f.info(filepath.Base(p), at), nil
}

func (f *FS) info(name, at string) Info {
	if target, ok := f.Links[at]; ok {
		return Info{name: name, size: int64(len(target)), link: true, at: at}
	}
	if f.Dirs[at] {
		return Info{name: name, size: 4096, dir: true, at: at}
	}
	fl := f.Files[at]
	return Info{name: name, size: int64(len(fl.Versions[fl.Cur].Text)), at: at, mod: fl.changes}
}

// Open opens p for reading and returns its content (nil for a directory).
func (f *FS) Open(p string) (*Handle, error) {
	f.op("open " + p)
	clean := f.Abs(p)
	f.wait(clean)
	rec := Read{Path: clean, Step: simrt.Steps()}
	if t := simrt.Cur(); t != nil {
		rec.Label = t.Label
	}
	failed := func(errno, kind string) (*Handle, error) {
		rec.Err, rec.Fault = errno, kind
		f.Reads = append(f.Reads, rec)
		return nil, pathErr("open", p, errno)
	}
	ft := f.fault("read", clean)
	if ft != nil {
		if _, isErr := errnos[ft.Kind]; isErr {
			return failed(ft.Kind, ft.Kind)
		}
	}
	at, errno := f.resolve(p)
	if errno != "" {
		return failed(errno, "")
	}
	h := &Handle{fs: f, name: p, path: at, label: rec.Label}
	if f.Dirs[at] {
		h.dir = true
		f.handles = append(f.handles, h)
		return h, nil
	}
	fl := f.Files[at]
	v := fl.Versions[fl.Cur]
	rec.Version = fl.Cur
	if v.Err != "" && v.ErrAt == 0 {
		return failed(v.Err, "")
	}
	data := v.Text
	h.failAt = -1
	if v.Err != "" {
		h.failAt, h.failErr = v.ErrAt-1, v.Err
		if h.failAt > len(data) {
			h.failAt = len(data)
		}
		rec.Err, rec.Mid = v.Err, true
	}
	if ft != nil {
		rec.Fault = ft.Kind
		if ft.Kind == "midread" {
			h.failAt = ft.N
			if h.failAt > len(data) {
				h.failAt = len(data)
			}
			h.failErr = "EIO"
			rec.Err = "EIO"
		} else {
			data = Corrupt(data, ft)
		}
	}
	rec.Text = data
	h.data = data
	f.handles = append(f.handles, h)
	f.Reads = append(f.Reads, rec)
	return h, nil
}

// Corrupt applies a content fault.
func Corrupt(data string, ft *Fault) string {
	n := ft.N
	if n > len(data) {
		n = len(data)
	}
	switch ft.Kind {
	case "torn":
		return data[:n]
	case "zero":
		b := []byte(data)
		for i := n; i < len(b) && i < n+ft.Len; i++ {
			b[i] = 0
		}
		return string(b)
	case "flip":
		b := []byte(data)
		if n < len(b) {
			b[n] ^= byte(1 << uint(ft.Len&7))
		}
		return string(b)
	case "mix":
		if n > len(ft.Other) {
			return data[:n]
		}
		return data[:n] + ft.Other[n:]
	case "drop":
		end := n + ft.Len
		if end > len(data) {
			end = len(data)
		}
		return data[:n] + data[end:]
	case "set":
		return ft.Other
	case "deep":
		// before, opening, middle, closing, after: nested Len deep
		part := strings.Split(ft.Other, "\x1f")
		for len(part) < 5 {
			part = append(part, "")
		}
		return part[0] + strings.Repeat(part[1], ft.Len) + part[2] + strings.Repeat(part[3], ft.Len) + part[4]
	}
	return data
}

// Handle is an open file.
type Handle struct {
	fs      *FS
	name    string
	path    string
	data    string
	dir     bool
	pos     int
	failAt  int
	failErr string
	closed  bool
	label   int
}

func (h *Handle) Name() string { return h.name }
func (h *Handle) IsDir() bool  { return h.dir }

func (h *Handle) Read(b []byte) (int, error) {
	h.fs.op("read " + h.name)
	h.fs.wait(h.path)
	if h.closed {
		return 0, fs.ErrClosed
	}
	if h.dir {
		return 0, pathErr("read", h.name, "EISDIR")
	}
	end := len(h.data)
	if h.failAt >= 0 && h.failAt < end {
		end = h.failAt
	}
	if h.pos >= end {
		if h.failAt >= 0 {
			return 0, pathErr("read", h.name, h.failErr)
		}
		if len(b) == 0 {
			return 0, nil
		}
		return 0, io.EOF
	}
	n := end - h.pos
	if c := h.fs.Chunk; c > 0 && n > c {
		n = c
	}
	if n > len(b) {
		n = len(b)
	}
	copy(b, h.data[h.pos:h.pos+n])
	h.pos += n
	return n, nil
}

func (h *Handle) Seek(off int64, whence int) (int64, error) {
	switch whence {
	case io.SeekStart:
		h.pos = int(off)
	case io.SeekCurrent:
		h.pos += int(off)
	case io.SeekEnd:
		h.pos = len(h.data) + int(off)
	}
	if h.pos < 0 {
		h.pos = 0
		return 0, pathErr("seek", h.name, "EINVAL")
	}
	return int64(h.pos), nil
}

func (h *Handle) Stat() (fs.FileInfo, error) {
	h.fs.op("fstat " + h.name)
	return Info{name: filepath.Base(h.name), size: int64(len(h.data)), dir: h.dir, at: h.path}, nil
}

func (h *Handle) Close() error {
	if h.closed {
		return fs.ErrClosed
	}
	h.closed = true
	return nil
}

// ReadDir lists a directory.
func (h *Handle) ReadDir() ([]fs.DirEntry, error) {
	if !h.dir {
		return nil, pathErr("readdirent", h.name, "ENOTDIR")
	}
	if ft := h.fs.fault("readdir", h.path); ft != nil {
		return nil, pathErr("readdirent", h.name, ft.Kind)
	}
	return h.fs.list(h.path), nil
}

func (f *FS) list(dir string) []fs.DirEntry {
	var out []fs.DirEntry
	for d := range f.Dirs {
		if d != "/" && filepath.Dir(d) == dir {
			out = append(out, f.info(filepath.Base(d), d))
		}
	}
	for p := range f.Files {
		if filepath.Dir(p) == dir {
			out = append(out, f.info(filepath.Base(p), p))
		}
	}
	for p := range f.Links {
		if filepath.Dir(p) == dir {
			out = append(out, f.info(filepath.Base(p), p))
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Name() < out[j].Name() })
	return out
}

// ReadFile reads the whole of p.
func (f *FS) ReadFile(p string) ([]byte, error) {
	h, err := f.Open(p)
	if err != nil {
		return nil, err
	}
	defer h.Close()
	var out []byte
	buf := make([]byte, len(h.data)+16)
	for {
		n, err := h.Read(buf)
		out = append(out, buf[:n]...)
		if err == io.EOF {
			if out == nil {
				out = []byte{}
			}
			return out, nil
		}
		if err != nil {
			return out, err
		}
	}
}

// Getwd is the working directory.
func (f *FS) Getwd() (string, error) {
	f.op("getwd")
	if ft := f.fault("getwd", ""); ft != nil {
		return "", fmt.Errorf("getwd: %w", Errno(ft.Kind))
	}
	return f.Cwd, nil
}

// EvalSymlinks follows the links in p.
func (f *FS) EvalSymlinks(p string) (string, error) {
	f.op("evalsymlinks " + p)
	if ft := f.fault("stat", f.Abs(p)); ft != nil {
		return "", pathErr("lstat", p, ft.Kind)
	}
	at, errno := f.resolve(p)
	if errno != "" {
		return "", pathErr("lstat", p, errno)
	}
	return at, nil
}

// StderrWrite is a write to standard error.
func (f *FS) StderrWrite(b []byte) (int, error) {
	f.op("stderr")
	w := Write{Full: string(b), Text: string(b)}
	if t := simrt.Cur(); t != nil {
		w.Label, w.Task = t.Label, t.ID
	}
	if ft := f.fault("stderr", ""); ft != nil {
		n := 0
		errno := ft.Kind
		if ft.Kind == "short" {
			n, errno = ft.N, "ENOSPC"
			if n > len(b) {
				n = len(b)
			}
		}
		w.Text, w.Err = string(b[:n]), errno
		f.Stderrs = append(f.Stderrs, w)
		return n, pathErr("write", "/dev/stderr", errno)
	}
	f.Stderrs = append(f.Stderrs, w)
	simrt.Event("stderr " + w.Full)
	return len(b), nil
}
