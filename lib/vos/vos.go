// Package os is a stand-in for the standard package of that name, for the
// storage library: files live in memory, every operation that changes
// something is counted, and can be made to fail or be the last one before a
// crash.
package os

import (
	"errors"
	"fmt"
	"io"
	"io/fs"
	real "os"
	"path"
	"sort"
	"strings"
	"sync"
	"time"
)

const (
	O_RDONLY = real.O_RDONLY
	O_WRONLY = real.O_WRONLY
	O_RDWR   = real.O_RDWR
	O_APPEND = real.O_APPEND
	O_CREATE = real.O_CREATE
	O_EXCL   = real.O_EXCL
	O_SYNC   = real.O_SYNC
	O_TRUNC  = real.O_TRUNC
)

var (
	ErrInvalid    = real.ErrInvalid
	ErrPermission = real.ErrPermission
	ErrExist      = real.ErrExist
	ErrNotExist   = real.ErrNotExist
	ErrClosed     = real.ErrClosed

	Stdin  = real.Stdin
	Stdout = real.Stdout
	Stderr = real.Stderr
	Args   = real.Args

	// ErrCrashed is what operations return after the crash.
	ErrCrashed = errors.New("the machine has stopped")
	// ErrIO is an injected failure.
	ErrIO = errors.New("input/output error")
)

type (
	FileMode  = real.FileMode
	FileInfo  = real.FileInfo
	PathError = real.PathError
	Signal    = real.Signal
)

func Getenv(k string) string   { return real.Getenv(k) }
func UserCacheDir() (string, error) { return real.UserCacheDir() }
func TempDir() string          { return real.TempDir() }
func Exit(code int)            { real.Exit(code) }
func IsNotExist(err error) bool { return real.IsNotExist(err) }
func IsExist(err error) bool   { return real.IsExist(err) }
func Getpid() int              { return real.Getpid() }
func Hostname() (string, error) { return real.Hostname() }
func Expand(s string, m func(string) string) string { return real.Expand(s, m) }
func ExpandEnv(s string) string { return real.ExpandEnv(s) }

type inode struct {
	data   []byte
	synced int // the bytes that survive when the machine stops
	dir    bool
	mtime  time.Time
	mode   FileMode
}

var (
	mu      sync.Mutex
	files   = map[string]*inode{}
	ops     []string
	crashAt = -1
	torn    int
	crashed bool
	fail    func(kind, file string) bool
)

// Reset starts over with an empty disk.
func Reset() {
	mu.Lock()
	defer mu.Unlock()
	files = map[string]*inode{}
	ops = nil
	crashAt, crashed, fail = -1, false, nil
}

// Disk is a copy of the contents of the disk.
type Disk map[string]inode

// Snapshot copies the disk.
func Snapshot() Disk {
	mu.Lock()
	defer mu.Unlock()
	d := Disk{}
	for k, v := range files {
		n := *v
		n.data = append([]byte(nil), v.data...)
		d[k] = n
	}
	return d
}

// Data returns the content of a file.
func Data(d Disk, file string) []byte { return d[file].data }

// Restore brings a copy back, and turns the machine on. (Hard links become
// copies.)
func Restore(d Disk) {
	mu.Lock()
	defer mu.Unlock()
	files = map[string]*inode{}
	for k, v := range d {
		n := v
		n.data = append([]byte(nil), v.data...)
		files[k] = &n
	}
	ops = nil
	crashAt, crashed, fail = -1, false, nil
}

// Crash stops the machine at the n-th operation from now (0 is the next one).
// It doesn't happen, except that with t > 0 a write writes a part: with 1 half
// of it, with 2 all but the last byte.
func Crash(n, t int) {
	mu.Lock()
	defer mu.Unlock()
	ops = nil
	crashAt, torn, crashed = n, t, false
}

// Crashed tells whether the crash happened.
func Crashed() bool {
	mu.Lock()
	defer mu.Unlock()
	return crashed
}

// Recover turns the machine on again. With lose, what was not synchronized is
// lost; with lose 2 half of it survives.
func Recover(lose int) {
	mu.Lock()
	defer mu.Unlock()
	for _, f := range files {
		if f.synced < len(f.data) && lose > 0 {
			n := f.synced
			if lose == 2 {
				n += (len(f.data) - n) / 2
			}
			f.data = f.data[:n]
		}
		f.synced = len(f.data)
	}
	crashAt, crashed = -1, false
	ops = nil
}

// Unsynced tells whether something would be lost.
func Unsynced() bool {
	mu.Lock()
	defer mu.Unlock()
	for _, f := range files {
		if f.synced < len(f.data) {
			return true
		}
	}
	return false
}

// Ops returns the operations since the last Crash, Recover or Reset.
func Ops() []string {
	mu.Lock()
	defer mu.Unlock()
	return append([]string(nil), ops...)
}

// Fail makes operations fail: f is called with the kind of operation (mkdir,
// create, write, sync, close, rename, remove, link, chmod, open, read, stat)
// and the name of the file.
func Fail(f func(kind, file string) bool) {
	mu.Lock()
	defer mu.Unlock()
	fail = f
}

// Files lists the files.
func Files() []string {
	mu.Lock()
	defer mu.Unlock()
	var out []string
	for k, v := range files {
		if !v.dir {
			out = append(out, k)
		}
	}
	sort.Strings(out)
	return out
}

// op announces a change. It is called with mu.
func op(kind, file string) error {
	if crashed {
		return ErrCrashed
	}
	if fail != nil && fail(kind, file) {
		return &PathError{Op: kind, Path: file, Err: ErrIO}
	}
	n := len(ops)
	ops = append(ops, kind+" "+path.Base(file))
	if n == crashAt {
		crashed = true
		return ErrCrashed
	}
	return nil
}

// look announces an operation that changes nothing.
func look(kind, file string) error {
	if crashed {
		return ErrCrashed
	}
	if fail != nil && fail(kind, file) {
		return &PathError{Op: kind, Path: file, Err: ErrIO}
	}
	return nil
}

// Hook, when set, is called before operations.
var Hook func(kind, file string)

func hook(kind, file string) {
	if h := Hook; h != nil {
		h(kind, file)
	}
}

func clean(p string) string { return path.Clean(p) }

func MkdirAll(p string, m FileMode) error {
	mu.Lock()
	defer mu.Unlock()
	p = clean(p)
	if f := files[p]; f != nil && f.dir {
		return nil
	}
	if err := op("mkdir", p); err != nil {
		return err
	}
	for d := p; d != "/" && d != "."; d = path.Dir(d) {
		if files[d] == nil {
			files[d] = &inode{dir: true, mtime: time.Now(), mode: m | fs.ModeDir}
		}
	}
	return nil
}

func Mkdir(p string, m FileMode) error { return MkdirAll(p, m) }

func MkdirTemp(dir, pat string) (string, error) {
	p := path.Join(dir, fmt.Sprintf("%s%d", pat, time.Now().UnixNano()))
	return p, MkdirAll(p, 0700)
}

type File struct {
	f      *inode
	name   string
	pos    int64
	flag   int
	closed bool
}

func OpenFile(p string, flag int, m FileMode) (*File, error) {
	hook("open", p)
	mu.Lock()
	defer mu.Unlock()
	p = clean(p)
	f := files[p]
	switch {
	case f == nil && flag&O_CREATE == 0:
		if err := look("open", p); err != nil {
			return nil, err
		}
		return nil, &PathError{Op: "open", Path: p, Err: ErrNotExist}
	case f != nil && flag&O_EXCL != 0:
		if err := look("open", p); err != nil {
			return nil, err
		}
		return nil, &PathError{Op: "open", Path: p, Err: ErrExist}
	case f == nil:
		if d := files[path.Dir(p)]; d == nil || !d.dir {
			return nil, &PathError{Op: "open", Path: p, Err: ErrNotExist}
		}
		if err := op("create", p); err != nil {
			return nil, err
		}
		f = &inode{mtime: time.Now(), mode: m}
		files[p] = f
	default:
		if err := look("open", p); err != nil {
			return nil, err
		}
		if flag&O_TRUNC != 0 && len(f.data) > 0 {
			if err := op("truncate", p); err != nil {
				return nil, err
			}
			f.data, f.synced = nil, 0
		}
	}
	return &File{f: f, name: p, flag: flag}, nil
}

func Open(p string) (*File, error)   { return OpenFile(p, O_RDONLY, 0) }
func Create(p string) (*File, error) { return OpenFile(p, O_RDWR|O_CREATE|O_TRUNC, 0666) }

func (f *File) Name() string { return f.name }

func (f *File) Write(b []byte) (int, error) {
	mu.Lock()
	defer mu.Unlock()
	if f.closed {
		return 0, ErrClosed
	}
	was := crashed
	err := op("write", f.name)
	n := len(b)
	if err != nil {
		n = 0
		if !was && crashed {
			switch torn {
			case 1:
				n = len(b) / 2
			case 2:
				n = len(b) - 1
			}
			if n < 0 {
				n = 0
			}
		}
	}
	if f.flag&O_APPEND != 0 {
		f.pos = int64(len(f.f.data))
	}
	if need := int(f.pos) + n; need > len(f.f.data) {
		f.f.data = append(f.f.data, make([]byte, need-len(f.f.data))...)
	}
	copy(f.f.data[f.pos:], b[:n])
	f.pos += int64(n)
	f.f.mtime = time.Now()
	if f.flag&O_SYNC != 0 {
		f.f.synced = len(f.f.data)
	}
	return n, err
}

func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }

func (f *File) Read(b []byte) (int, error) {
	hook("read", f.name)
	mu.Lock()
	defer mu.Unlock()
	if f.closed {
		return 0, ErrClosed
	}
	if err := look("read", f.name); err != nil {
		return 0, err
	}
	if len(b) == 0 {
		return 0, nil
	}
	if f.pos >= int64(len(f.f.data)) {
		return 0, io.EOF
	}
	n := copy(b, f.f.data[f.pos:])
	f.pos += int64(n)
	return n, nil
}

func (f *File) Seek(off int64, whence int) (int64, error) {
	mu.Lock()
	defer mu.Unlock()
	switch whence {
	case io.SeekCurrent:
		off += f.pos
	case io.SeekEnd:
		off += int64(len(f.f.data))
	}
	if off < 0 {
		return 0, ErrInvalid
	}
	f.pos = off
	return off, nil
}

func (f *File) Sync() error {
	mu.Lock()
	defer mu.Unlock()
	if err := op("sync", f.name); err != nil {
		return err
	}
	f.f.synced = len(f.f.data)
	return nil
}

func (f *File) Chmod(m FileMode) error { return nil }

func (f *File) Close() error {
	mu.Lock()
	defer mu.Unlock()
	if f.closed {
		return ErrClosed
	}
	f.closed = true
	if f.flag&(O_WRONLY|O_RDWR) != 0 {
		return look("close", f.name)
	}
	return nil
}

func (f *File) Stat() (FileInfo, error) { return Stat(f.name) }

func Rename(a, b string) error {
	hook("rename", a)
	mu.Lock()
	defer mu.Unlock()
	a, b = clean(a), clean(b)
	if files[a] == nil {
		return &PathError{Op: "rename", Path: a, Err: ErrNotExist}
	}
	if err := op("rename", b); err != nil {
		return err
	}
	files[b] = files[a]
	delete(files, a)
	return nil
}

func Link(a, b string) error {
	mu.Lock()
	defer mu.Unlock()
	a, b = clean(a), clean(b)
	if files[a] == nil {
		return &PathError{Op: "link", Path: a, Err: ErrNotExist}
	}
	if files[b] != nil {
		return &PathError{Op: "link", Path: b, Err: ErrExist}
	}
	if err := op("link", b); err != nil {
		return err
	}
	files[b] = files[a]
	return nil
}

func Remove(p string) error {
	hook("remove", p)
	mu.Lock()
	defer mu.Unlock()
	p = clean(p)
	if files[p] == nil {
		return &PathError{Op: "remove", Path: p, Err: ErrNotExist}
	}
	if err := op("remove", p); err != nil {
		return err
	}
	delete(files, p)
	return nil
}

func RemoveAll(p string) error {
	mu.Lock()
	defer mu.Unlock()
	p = clean(p)
	if err := op("remove", p); err != nil {
		return err
	}
	for k := range files {
		if k == p || strings.HasPrefix(k, p+"/") {
			delete(files, k)
		}
	}
	return nil
}

func Chmod(p string, m FileMode) error { return nil }

type info struct {
	name string
	f    inode
}

func (i info) Name() string       { return i.name }
func (i info) Size() int64        { return int64(len(i.f.data)) }
func (i info) Mode() FileMode     { return i.f.mode }
func (i info) ModTime() time.Time { return i.f.mtime }
func (i info) IsDir() bool        { return i.f.dir }
func (i info) Sys() any           { return nil }

func Stat(p string) (FileInfo, error) {
	mu.Lock()
	defer mu.Unlock()
	p = clean(p)
	if err := look("stat", p); err != nil {
		return nil, err
	}
	f := files[p]
	if f == nil {
		return nil, &PathError{Op: "stat", Path: p, Err: ErrNotExist}
	}
	return info{path.Base(p), *f}, nil
}

func Lstat(p string) (FileInfo, error) { return Stat(p) }

func ReadFile(p string) ([]byte, error) {
	f, err := Open(p)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	return io.ReadAll(f)
}

func WriteFile(p string, b []byte, m FileMode) error {
	f, err := OpenFile(p, O_WRONLY|O_CREATE|O_TRUNC, m)
	if err != nil {
		return err
	}
	_, err = f.Write(b)
	if err1 := f.Close(); err1 != nil && err == nil {
		err = err1
	}
	return err
}
