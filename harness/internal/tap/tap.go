// Package tap stands between the code under test and a filesystem: it counts the calls, makes one of them
// go wrong and shows each of them to an observer.
package tap

import (
	"errors"
	"io/fs"
	"os"
	"sync"
	"time"

	"github.com/ngicks/go-fsys-helper/vroot"

	"verif/harness/internal/fsx"
)

// ErrInjected is in every error the tap makes up.
var ErrInjected = errors.New("injected")

// Crash is what a call panics with where the process is to stop.
type Crash struct{}

// Call is one call on the filesystem or one of its files.
type Call struct {
	Op   string
	Name string
	Flag int
	Len  int
	I    int    // 1-based number of the call
	How  string // what was done to it
	Nat  bool   // it would have failed anyway
}

// Tap decides over calls. At is the number of the call to treat as How says: "fail" (not performed), "late"
// (performed, then reported failed), "short" (a write of one byte less than asked, reported failed), "crash"
// (not performed, the process stops), "crashlate" (performed, the process stops).
type Tap struct {
	mu     sync.Mutex
	N, At  int
	How    string
	Class  string // what the error made up also is (fsx.Classes), if anything
	Hit    *Call
	Before func(c Call)
	After  func(c Call, err error)
	Dead   bool
	Off    bool
}

func (t *Tap) do(op, name string, flag, n int, f func() error, short func() error) error {
	if t.Off {
		return f()
	}
	if t.Dead {
		return &fs.PathError{Op: op, Path: name, Err: ErrInjected}
	}
	t.mu.Lock()
	t.N++
	c := Call{Op: op, Name: name, Flag: flag, Len: n, I: t.N}
	hit := t.N == t.At
	t.mu.Unlock()
	if t.Before != nil {
		t.Before(c)
	}
	var err error
	bad := error(&fs.PathError{Op: op, Path: name, Err: ErrInjected})
	if e := fsx.Classes[t.Class]; e != nil {
		bad = &fs.PathError{Op: op, Path: name, Err: errors.Join(ErrInjected, e)}
	}
	if hit {
		c.How = t.How
		t.Hit = &c
		switch t.How {
		case "fail":
			err = bad
			if op == "close" {
				_ = f()
			}
		case "late":
			if err = f(); err == nil {
				err = bad
			} else {
				c.Nat = true
			}
		case "short":
			if short == nil {
				c.How = "late"
				if err = f(); err == nil {
					err = bad
				} else {
					c.Nat = true
				}
			} else if err = short(); err == nil {
				err = bad
			}
		case "crash", "crashlate":
			if t.How == "crashlate" {
				_ = f()
			} else if op == "close" {
				_ = f()
			}
			t.Dead = true
			if t.After != nil {
				t.After(c, ErrInjected)
			}
			panic(Crash{})
		}
	} else {
		err = f()
	}
	if t.After != nil {
		t.After(c, err)
	}
	return err
}

// Fs is a filesystem under a tap.
type Fs struct {
	In fsx.FS
	T  *Tap
}

var _ vroot.Fs[vroot.File] = (*Fs)(nil)

func (f *Fs) open(op, name string, flag int, do func() (vroot.File, error)) (vroot.File, error) {
	var h vroot.File
	err := f.T.do(op, name, flag, 0, func() (err error) { h, err = do(); return }, nil)
	if err != nil {
		if h != nil {
			h.Close()
		}
		return nil, err
	}
	return &File{h, f.T, name}, nil
}

func (f *Fs) Close() error { return nil }
func (f *Fs) Name() string { return f.In.Name() }
func (f *Fs) Chmod(n string, m fs.FileMode) error {
	return f.T.do("chmod", n, int(m), 0, func() error { return f.In.Chmod(n, m) }, nil)
}
func (f *Fs) Chown(n string, u, g int) error {
	return f.T.do("chown", n, 0, 0, func() error { return f.In.Chown(n, u, g) }, nil)
}
func (f *Fs) Chtimes(n string, a, m time.Time) error {
	return f.T.do("chtimes", n, 0, 0, func() error { return f.In.Chtimes(n, a, m) }, nil)
}
func (f *Fs) Lchown(n string, u, g int) error {
	return f.T.do("lchown", n, 0, 0, func() error { return f.In.Lchown(n, u, g) }, nil)
}
func (f *Fs) Link(o, n string) error {
	return f.T.do("link", n, 0, 0, func() error { return f.In.Link(o, n) }, nil)
}
func (f *Fs) Mkdir(n string, m fs.FileMode) error {
	return f.T.do("mkdir", n, int(m), 0, func() error { return f.In.Mkdir(n, m) }, nil)
}
func (f *Fs) MkdirAll(n string, m fs.FileMode) error {
	return f.T.do("mkdirall", n, int(m), 0, func() error { return f.In.MkdirAll(n, m) }, nil)
}
func (f *Fs) Remove(n string) error {
	return f.T.do("remove", n, 0, 0, func() error { return f.In.Remove(n) }, nil)
}
func (f *Fs) RemoveAll(n string) error {
	return f.T.do("removeall", n, 0, 0, func() error { return f.In.RemoveAll(n) }, nil)
}
func (f *Fs) Rename(o, n string) error {
	return f.T.do("rename", n, 0, 0, func() error { return f.In.Rename(o, n) }, nil)
}
func (f *Fs) Symlink(o, n string) error {
	return f.T.do("symlink", n, 0, 0, func() error { return f.In.Symlink(o, n) }, nil)
}
func (f *Fs) Create(n string) (vroot.File, error) {
	return f.open("create", n, os.O_RDWR|os.O_CREATE|os.O_TRUNC, func() (vroot.File, error) { return f.In.Create(n) })
}
func (f *Fs) Open(n string) (vroot.File, error) {
	return f.open("open", n, 0, func() (vroot.File, error) { return f.In.Open(n) })
}
func (f *Fs) OpenFile(n string, flag int, m fs.FileMode) (vroot.File, error) {
	op := "open"
	if flag&os.O_CREATE != 0 {
		op = "create"
	}
	return f.open(op, n, flag, func() (vroot.File, error) { return f.In.OpenFile(n, flag, m) })
}
func (f *Fs) ReadLink(n string) (s string, err error) {
	err = f.T.do("readlink", n, 0, 0, func() (err error) { s, err = f.In.ReadLink(n); return }, nil)
	return
}
func (f *Fs) Stat(n string) (i fs.FileInfo, err error) {
	err = f.T.do("stat", n, 0, 0, func() (err error) { i, err = f.In.Stat(n); return }, nil)
	if err != nil {
		i = nil
	}
	return
}
func (f *Fs) Lstat(n string) (i fs.FileInfo, err error) {
	err = f.T.do("lstat", n, 0, 0, func() (err error) { i, err = f.In.Lstat(n); return }, nil)
	if err != nil {
		i = nil
	}
	return
}

// File is a file under a tap.
type File struct {
	vroot.File
	t    *Tap
	name string
}

func (f *File) Write(b []byte) (n int, err error) {
	err = f.t.do("write", f.name, 0, len(b), func() (err error) { n, err = f.File.Write(b); return }, func() (err error) {
		if len(b) > 0 {
			n, err = f.File.Write(b[:len(b)-1])
		}
		return
	})
	return
}
func (f *File) WriteAt(b []byte, o int64) (n int, err error) {
	err = f.t.do("write", f.name, 0, len(b), func() (err error) { n, err = f.File.WriteAt(b, o); return }, func() (err error) {
		if len(b) > 0 {
			n, err = f.File.WriteAt(b[:len(b)-1], o)
		}
		return
	})
	return
}
func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }
func (f *File) Read(b []byte) (n int, err error) {
	e := f.t.do("read", f.name, 0, len(b), func() error { n, err = f.File.Read(b); return nil }, nil)
	if e != nil {
		return 0, e
	}
	return
}
func (f *File) ReadAt(b []byte, o int64) (n int, err error) {
	e := f.t.do("read", f.name, 0, len(b), func() error { n, err = f.File.ReadAt(b, o); return nil }, nil)
	if e != nil {
		return 0, e
	}
	return
}
func (f *File) Seek(o int64, w int) (n int64, err error) {
	err = f.t.do("seek", f.name, 0, 0, func() (err error) { n, err = f.File.Seek(o, w); return }, nil)
	return
}
func (f *File) Stat() (i fs.FileInfo, err error) {
	err = f.t.do("fstat", f.name, 0, 0, func() (err error) { i, err = f.File.Stat(); return }, nil)
	return
}
func (f *File) Sync() error { return f.t.do("sync", f.name, 0, 0, f.File.Sync, nil) }
func (f *File) Truncate(n int64) error {
	return f.t.do("truncate", f.name, 0, 0, func() error { return f.File.Truncate(n) }, nil)
}
func (f *File) Chmod(m fs.FileMode) error {
	return f.t.do("chmod", f.name, int(m), 0, func() error { return f.File.Chmod(m) }, nil)
}
func (f *File) Close() error { return f.t.do("close", f.name, 0, 0, f.File.Close, nil) }
func (f *File) ReadDir(n int) (e []fs.DirEntry, err error) {
	x := f.t.do("readdir", f.name, 0, 0, func() error { e, err = f.File.ReadDir(n); return nil }, nil)
	if x != nil {
		return nil, x
	}
	return
}
func (f *File) Readdir(n int) (e []fs.FileInfo, err error) {
	x := f.t.do("readdir", f.name, 0, 0, func() error { e, err = f.File.Readdir(n); return nil }, nil)
	if x != nil {
		return nil, x
	}
	return
}
func (f *File) Readdirnames(n int) (e []string, err error) {
	x := f.t.do("readdir", f.name, 0, 0, func() error { e, err = f.File.Readdirnames(n); return nil }, nil)
	if x != nil {
		return nil, x
	}
	return
}

// Unwrap is the file below.
func (f *File) Unwrap() vroot.File { return f.File }
