// Package vos stands in for package os in instrumented code: a file system in
// memory that records every operation and can be told to fail. Without an
// installed file system, calls go to the real one.
package vos

import (
	"io"
	"io/fs"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"verif.local/shim/vsched"
)

// Event is one operation that changed or synchronised something.
type Event struct {
	Op    string // create, trunc, write, rename, remove, fsync, fsyncdir, mkdir, link
	Path  string
	Path2 string
	Ino   int
	Off   int64
	Data  []byte
	Size  int64
	Gid   uint64
	At    time.Time
}

type inode struct {
	id   int
	data []byte
	mod  time.Time
}

// FS is the file system in memory.
type FS struct {
	mu    sync.Mutex
	dirs  map[string]bool
	files map[string]*inode
	inos  int
	tmp   int
	Log   []Event
	// Calls counts operations that may fail; Fault decides for each.
	Calls int
	Fault func(n int, op, path string) (fail bool, partial bool)
	Names []string // the operations counted by Calls
	Open  int      // handles not closed
	Hook  func(op, path string)
}

var cur atomic.Pointer[FS]

// New makes an empty file system with the given directories.
func New(dirs ...string) *FS {
	f := &FS{dirs: map[string]bool{"/": true, ".": true}, files: map[string]*inode{}}
	for _, d := range dirs {
		for d != "/" && d != "." {
			f.dirs[d] = true
			d = filepath.Dir(d)
		}
	}
	return f
}

// Install makes f the current file system (nil: the real one).
func Install(f *FS) { cur.Store(f) }

// Installed tells whether there is a file system other than the real one.
func Installed() bool { return cur.Load() != nil }

// Put creates a file with contents, unrecorded.
func (f *FS) Put(path string, data []byte) {
	f.inos++
	f.files[clean(path)] = &inode{id: f.inos, data: append([]byte(nil), data...)}
}

// Get returns the contents of a file, and whether it exists.
func (f *FS) Get(path string) ([]byte, bool) {
	f.mu.Lock()
	defer f.mu.Unlock()
	n := f.files[clean(path)]
	if n == nil {
		return nil, false
	}
	return append([]byte(nil), n.data...), true
}

// Files lists all files.
func (f *FS) Files() []string {
	f.mu.Lock()
	defer f.mu.Unlock()
	var v []string
	for p := range f.files {
		v = append(v, p)
	}
	sort.Strings(v)
	return v
}

// Events returns a copy of the log.
func (f *FS) Events() []Event {
	f.mu.Lock()
	defer f.mu.Unlock()
	return append([]Event(nil), f.Log...)
}

func clean(p string) string { return filepath.Clean(p) }

func perr(op, path string, err error) error { return &fs.PathError{Op: op, Path: path, Err: err} }

// call is the start of every operation: a scheduling point and a chance to fail.
func (f *FS) call(op, path string) (fail, partial bool) {
	vsched.Point("fs:"+op, f, nil)
	f.mu.Lock()
	n := f.Calls
	f.Calls++
	f.Names = append(f.Names, op+" "+path)
	flt, hook := f.Fault, f.Hook
	f.mu.Unlock()
	if hook != nil {
		hook(op, path)
	}
	if flt != nil {
		return flt(n, op, path)
	}
	return false, false
}

func (f *FS) log(e Event) {
	e.Gid, e.At = vsched.Gid(), time.Now()
	f.Log = append(f.Log, e)
}

// File is an open file.
type File struct {
	real   *os.File
	f      *FS
	n      *inode
	dir    string
	name   string
	off    int64
	flag   int
	closed bool
}

func wrap(r *os.File, err error) (*File, error) {
	if err != nil {
		return nil, err
	}
	return &File{real: r}, nil
}

var (
	Stdin  = &File{real: os.Stdin}
	Stdout = &File{real: os.Stdout}
	Stderr = &File{real: os.Stderr}
)

func Create(name string) (*File, error) {
	return OpenFile(name, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0o666)
}

func Open(name string) (*File, error) { return OpenFile(name, os.O_RDONLY, 0) }

func OpenFile(name string, flag int, perm fs.FileMode) (*File, error) {
	f := cur.Load()
	if f == nil {
		return wrap(os.OpenFile(name, flag, perm))
	}
	op := "open"
	if flag&os.O_CREATE != 0 {
		op = "create"
	}
	if x, _ := f.call(op, name); x {
		return nil, perr("open", name, syscall.EIO)
	}
	f.mu.Lock()
	defer f.mu.Unlock()
	p := clean(name)
	if f.dirs[p] {
		if flag&(os.O_WRONLY|os.O_RDWR) != 0 {
			return nil, perr("open", name, syscall.EISDIR)
		}
		f.Open++
		return &File{f: f, dir: p, name: name, flag: flag}, nil
	}
	n := f.files[p]
	if n == nil {
		if flag&os.O_CREATE == 0 || !f.dirs[filepath.Dir(p)] {
			return nil, perr("open", name, syscall.ENOENT)
		}
		f.inos++
		n = &inode{id: f.inos, mod: time.Now()}
		f.files[p] = n
		f.log(Event{Op: "create", Path: p, Ino: n.id})
	} else {
		if flag&os.O_CREATE != 0 && flag&os.O_EXCL != 0 {
			return nil, perr("open", name, syscall.EEXIST)
		}
		if flag&os.O_TRUNC != 0 && flag&(os.O_WRONLY|os.O_RDWR) != 0 {
			n.data = nil
			n.mod = time.Now()
			f.log(Event{Op: "trunc", Path: p, Ino: n.id})
		}
	}
	f.Open++
	return &File{f: f, n: n, name: name, flag: flag}, nil
}

func CreateTemp(dir, pattern string) (*File, error) {
	f := cur.Load()
	if f == nil {
		return wrap(os.CreateTemp(dir, pattern))
	}
	if dir == "" {
		dir = "/tmp"
	}
	pre, suf := pattern, ""
	if i := strings.LastIndexByte(pattern, '*'); i >= 0 {
		pre, suf = pattern[:i], pattern[i+1:]
	}
	f.mu.Lock()
	f.tmp++
	k := f.tmp
	f.mu.Unlock()
	return OpenFile(filepath.Join(dir, pre+"tmp"+itoa(k)+suf), os.O_RDWR|os.O_CREATE|os.O_EXCL, 0o600)
}

func itoa(n int) string {
	if n == 0 {
		return "0"
	}
	s := ""
	for ; n > 0; n /= 10 {
		s = string(rune('0'+n%10)) + s
	}
	return s
}

func (x *File) check(op string) error {
	if x == nil {
		return fs.ErrInvalid
	}
	if x.closed {
		return perr(op, x.name, fs.ErrClosed)
	}
	return nil
}

func (x *File) Name() string {
	if x.real != nil {
		return x.real.Name()
	}
	return x.name
}

func (x *File) Fd() uintptr {
	if x.real != nil {
		return x.real.Fd()
	}
	return ^uintptr(0)
}

func (x *File) Read(b []byte) (int, error) {
	if x != nil && x.real != nil {
		return x.real.Read(b)
	}
	if err := x.check("read"); err != nil {
		return 0, err
	}
	if e, _ := x.f.call("read", x.name); e {
		return 0, perr("read", x.name, syscall.EIO)
	}
	x.f.mu.Lock()
	defer x.f.mu.Unlock()
	if x.n == nil {
		return 0, perr("read", x.name, syscall.EISDIR)
	}
	if len(b) == 0 {
		return 0, nil
	}
	if x.off >= int64(len(x.n.data)) {
		return 0, io.EOF
	}
	n := copy(b, x.n.data[x.off:])
	x.off += int64(n)
	return n, nil
}

func (x *File) ReadAt(b []byte, off int64) (int, error) {
	if x != nil && x.real != nil {
		return x.real.ReadAt(b, off)
	}
	if err := x.check("read"); err != nil {
		return 0, err
	}
	if e, _ := x.f.call("read", x.name); e {
		return 0, perr("read", x.name, syscall.EIO)
	}
	x.f.mu.Lock()
	defer x.f.mu.Unlock()
	if off >= int64(len(x.n.data)) {
		return 0, io.EOF
	}
	n := copy(b, x.n.data[off:])
	if n < len(b) {
		return n, io.EOF
	}
	return n, nil
}

func (x *File) writeAt(b []byte, off int64, app bool) (int, error) {
	if err := x.check("write"); err != nil {
		return 0, err
	}
	e, part := x.f.call("write", x.name)
	x.f.mu.Lock()
	defer x.f.mu.Unlock()
	if x.n == nil || x.flag&(os.O_WRONLY|os.O_RDWR) == 0 {
		return 0, perr("write", x.name, syscall.EBADF)
	}
	if e {
		if !part {
			return 0, perr("write", x.name, syscall.ENOSPC)
		}
		b = b[:len(b)/2]
	}
	if app {
		off = int64(len(x.n.data))
	}
	end := off + int64(len(b))
	d := x.n.data
	if end > int64(len(d)) {
		d = append(d[:len(d):len(d)], make([]byte, end-int64(len(d)))...)
	} else {
		d = append([]byte(nil), d...)
	}
	copy(d[off:], b)
	x.n.data = d
	x.n.mod = time.Now()
	if len(b) > 0 {
		x.f.log(Event{Op: "write", Path: x.name, Ino: x.n.id, Off: off, Data: append([]byte(nil), b...)})
	}
	if e {
		return len(b), perr("write", x.name, syscall.ENOSPC)
	}
	return len(b), nil
}

func (x *File) Write(b []byte) (int, error) {
	if x != nil && x.real != nil {
		return x.real.Write(b)
	}
	if err := x.check("write"); err != nil {
		return 0, err
	}
	app := x.flag&os.O_APPEND != 0
	n, err := x.writeAt(b, x.off, app)
	if app {
		x.off = int64(len(x.n.data))
	} else {
		x.off += int64(n)
	}
	return n, err
}

func (x *File) WriteString(s string) (int, error) { return x.Write([]byte(s)) }

func (x *File) WriteAt(b []byte, off int64) (int, error) {
	if x != nil && x.real != nil {
		return x.real.WriteAt(b, off)
	}
	return x.writeAt(b, off, false)
}

func (x *File) ReadFrom(r io.Reader) (int64, error) {
	if x != nil && x.real != nil {
		return x.real.ReadFrom(r)
	}
	var t int64
	b := make([]byte, 4096)
	for {
		n, err := r.Read(b)
		if n > 0 {
			m, werr := x.Write(b[:n])
			t += int64(m)
			if werr != nil {
				return t, werr
			}
		}
		if err == io.EOF {
			return t, nil
		}
		if err != nil {
			return t, err
		}
	}
}

func (x *File) Seek(off int64, whence int) (int64, error) {
	if x != nil && x.real != nil {
		return x.real.Seek(off, whence)
	}
	if err := x.check("seek"); err != nil {
		return 0, err
	}
	x.f.mu.Lock()
	defer x.f.mu.Unlock()
	switch whence {
	case io.SeekCurrent:
		off += x.off
	case io.SeekEnd:
		off += int64(len(x.n.data))
	}
	if off < 0 {
		return 0, perr("seek", x.name, syscall.EINVAL)
	}
	x.off = off
	return off, nil
}

func (x *File) Truncate(size int64) error {
	if x != nil && x.real != nil {
		return x.real.Truncate(size)
	}
	if err := x.check("truncate"); err != nil {
		return err
	}
	if e, _ := x.f.call("truncate", x.name); e {
		return perr("truncate", x.name, syscall.EIO)
	}
	x.f.mu.Lock()
	defer x.f.mu.Unlock()
	d := append([]byte(nil), x.n.data...)
	if size <= int64(len(d)) {
		d = d[:size]
	} else {
		d = append(d, make([]byte, size-int64(len(d)))...)
	}
	x.n.data = d
	x.f.log(Event{Op: "trunc", Path: x.name, Ino: x.n.id, Size: size})
	return nil
}

func (x *File) Sync() error {
	if x != nil && x.real != nil {
		return x.real.Sync()
	}
	if err := x.check("sync"); err != nil {
		return err
	}
	if e, _ := x.f.call("fsync", x.name); e {
		return perr("sync", x.name, syscall.EIO)
	}
	x.f.mu.Lock()
	defer x.f.mu.Unlock()
	if x.n == nil {
		x.f.log(Event{Op: "fsyncdir", Path: x.dir})
	} else {
		x.f.log(Event{Op: "fsync", Path: x.name, Ino: x.n.id})
	}
	return nil
}

func (x *File) Close() error {
	if x != nil && x.real != nil {
		return x.real.Close()
	}
	if err := x.check("close"); err != nil {
		return err
	}
	e, _ := x.f.call("close", x.name)
	x.f.mu.Lock()
	x.closed = true
	x.f.Open--
	x.f.mu.Unlock()
	if e {
		return perr("close", x.name, syscall.EIO)
	}
	return nil
}

type info struct {
	name string
	size int64
	dir  bool
	mod  time.Time
}

func (i info) Name() string       { return i.name }
func (i info) Size() int64        { return i.size }
func (i info) IsDir() bool        { return i.dir }
func (i info) ModTime() time.Time { return i.mod }
func (i info) Sys() any           { return nil }
func (i info) Mode() fs.FileMode {
	if i.dir {
		return fs.ModeDir | 0o755
	}
	return 0o644
}

func (x *File) Stat() (fs.FileInfo, error) {
	if x != nil && x.real != nil {
		return x.real.Stat()
	}
	if err := x.check("stat"); err != nil {
		return nil, err
	}
	x.f.mu.Lock()
	defer x.f.mu.Unlock()
	if x.n == nil {
		return info{name: filepath.Base(x.dir), dir: true}, nil
	}
	return info{name: filepath.Base(x.name), size: int64(len(x.n.data)), mod: x.n.mod}, nil
}

func (x *File) Chmod(m fs.FileMode) error {
	if x != nil && x.real != nil {
		return x.real.Chmod(m)
	}
	return x.check("chmod")
}

func Stat(name string) (fs.FileInfo, error) {
	f := cur.Load()
	if f == nil {
		return os.Stat(name)
	}
	if e, _ := f.call("stat", name); e {
		return nil, perr("stat", name, syscall.EIO)
	}
	f.mu.Lock()
	defer f.mu.Unlock()
	p := clean(name)
	if f.dirs[p] {
		return info{name: filepath.Base(p), dir: true}, nil
	}
	if n := f.files[p]; n != nil {
		return info{name: filepath.Base(p), size: int64(len(n.data)), mod: n.mod}, nil
	}
	return nil, perr("stat", name, syscall.ENOENT)
}

func Lstat(name string) (fs.FileInfo, error) { return Stat(name) }

func Rename(a, b string) error {
	f := cur.Load()
	if f == nil {
		return os.Rename(a, b)
	}
	lerr := func(e error) error { return &os.LinkError{Op: "rename", Old: a, New: b, Err: e} }
	if e, _ := f.call("rename", a); e {
		return lerr(syscall.EIO)
	}
	f.mu.Lock()
	defer f.mu.Unlock()
	p, q := clean(a), clean(b)
	n := f.files[p]
	if n == nil || !f.dirs[filepath.Dir(q)] {
		return lerr(syscall.ENOENT)
	}
	if f.dirs[q] {
		return lerr(syscall.EISDIR)
	}
	delete(f.files, p)
	f.files[q] = n
	f.log(Event{Op: "rename", Path: p, Path2: q, Ino: n.id})
	return nil
}

func Link(a, b string) error {
	f := cur.Load()
	if f == nil {
		return os.Link(a, b)
	}
	lerr := func(e error) error { return &os.LinkError{Op: "link", Old: a, New: b, Err: e} }
	if e, _ := f.call("link", a); e {
		return lerr(syscall.EIO)
	}
	f.mu.Lock()
	defer f.mu.Unlock()
	p, q := clean(a), clean(b)
	n := f.files[p]
	if n == nil {
		return lerr(syscall.ENOENT)
	}
	if f.files[q] != nil {
		return lerr(syscall.EEXIST)
	}
	f.files[q] = n
	f.log(Event{Op: "link", Path: p, Path2: q, Ino: n.id})
	return nil
}

func Remove(name string) error {
	f := cur.Load()
	if f == nil {
		return os.Remove(name)
	}
	if e, _ := f.call("remove", name); e {
		return perr("remove", name, syscall.EIO)
	}
	f.mu.Lock()
	defer f.mu.Unlock()
	p := clean(name)
	n := f.files[p]
	if n == nil {
		return perr("remove", name, syscall.ENOENT)
	}
	delete(f.files, p)
	f.log(Event{Op: "remove", Path: p, Ino: n.id})
	return nil
}

func RemoveAll(name string) error {
	f := cur.Load()
	if f == nil {
		return os.RemoveAll(name)
	}
	err := Remove(name)
	if os.IsNotExist(err) {
		return nil
	}
	return err
}

func Mkdir(name string, perm fs.FileMode) error {
	f := cur.Load()
	if f == nil {
		return os.Mkdir(name, perm)
	}
	if e, _ := f.call("mkdir", name); e {
		return perr("mkdir", name, syscall.EIO)
	}
	f.mu.Lock()
	defer f.mu.Unlock()
	p := clean(name)
	if f.dirs[p] || f.files[p] != nil {
		return perr("mkdir", name, syscall.EEXIST)
	}
	f.dirs[p] = true
	return nil
}

func MkdirAll(name string, perm fs.FileMode) error {
	f := cur.Load()
	if f == nil {
		return os.MkdirAll(name, perm)
	}
	f.mu.Lock()
	defer f.mu.Unlock()
	for p := clean(name); !f.dirs[p]; p = filepath.Dir(p) {
		f.dirs[p] = true
	}
	return nil
}

func Truncate(name string, size int64) error {
	if cur.Load() == nil {
		return os.Truncate(name, size)
	}
	x, err := OpenFile(name, os.O_RDWR, 0)
	if err != nil {
		return err
	}
	defer x.Close()
	return x.Truncate(size)
}

func Chmod(name string, m fs.FileMode) error {
	if cur.Load() == nil {
		return os.Chmod(name, m)
	}
	_, err := Stat(name)
	return err
}

func ReadFile(name string) ([]byte, error) {
	if cur.Load() == nil {
		return os.ReadFile(name)
	}
	x, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer x.Close()
	return io.ReadAll(x)
}

func WriteFile(name string, data []byte, perm fs.FileMode) error {
	if cur.Load() == nil {
		return os.WriteFile(name, data, perm)
	}
	x, err := OpenFile(name, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = x.Write(data)
	if e := x.Close(); err == nil {
		err = e
	}
	return err
}

type entry struct{ info }

func (e entry) Type() fs.FileMode          { return e.Mode().Type() }
func (e entry) Info() (fs.FileInfo, error) { return e.info, nil }

func ReadDir(name string) ([]fs.DirEntry, error) {
	f := cur.Load()
	if f == nil {
		return os.ReadDir(name)
	}
	if e, _ := f.call("readdir", name); e {
		return nil, perr("readdir", name, syscall.EIO)
	}
	f.mu.Lock()
	defer f.mu.Unlock()
	d := clean(name)
	if !f.dirs[d] {
		return nil, perr("open", name, syscall.ENOENT)
	}
	var v []fs.DirEntry
	for p, n := range f.files {
		if filepath.Dir(p) == d {
			v = append(v, entry{info{name: filepath.Base(p), size: int64(len(n.data)), mod: n.mod}})
		}
	}
	sort.Slice(v, func(i, j int) bool { return v[i].Name() < v[j].Name() })
	return v, nil
}
