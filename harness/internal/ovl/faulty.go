package ovl

import (
	"errors"
	"io/fs"
	"path/filepath"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/ngicks/go-fsys-helper/vroot"

	"verif/harness/internal/fsx"
)

// Injector counts the calls overlays make on their layers and mask stores, and
// fails the chosen one, or the chosen one and everything after it.
type Injector struct {
	mu    sync.Mutex
	on    bool
	n     int
	At    int  // index of the call to fail, -1: none
	Crash bool // everything from At on fails
	Hit   string
	Calls []string
	Trace bool
}

// Arm starts counting from zero.
func (j *Injector) Arm(at int, crash bool) {
	j.mu.Lock()
	defer j.mu.Unlock()
	j.on, j.n, j.At, j.Crash, j.Hit, j.Calls = true, 0, at, crash, "", nil
}

// Disarm lets everything through again and reports how many calls there were.
func (j *Injector) Disarm() int {
	j.mu.Lock()
	defer j.mu.Unlock()
	j.on = false
	return j.n
}

func (j *Injector) ask(call, name string) error {
	j.mu.Lock()
	defer j.mu.Unlock()
	if !j.on {
		return nil
	}
	i := j.n
	j.n++
	if j.Trace {
		j.Calls = append(j.Calls, call+" "+name)
	}
	if j.At >= 0 && (i == j.At || j.Crash && i > j.At) {
		if i == j.At {
			j.Hit = call + " " + name
		}
		return &fs.PathError{Op: call, Path: name, Err: syscall.EIO}
	}
	return nil
}

// Attach puts the injector between the overlay and every disk of s.
func (j *Injector) Attach(d *Disk, lower bool) {
	d.Wrap = func(f fsx.FS) fsx.FS { return &faultFs{FS: f, j: j, lower: lower} }
	if d.Store != nil {
		d.Store.Before = func(call string) error { return j.ask("store", call) }
	}
}

type faultFs struct {
	fsx.FS
	j     *Injector
	lower bool
}

func (f *faultFs) Chmod(n string, m fs.FileMode) error {
	if err := f.j.ask("chmod", n); err != nil {
		return err
	}
	return f.FS.Chmod(n, m)
}
func (f *faultFs) Chown(n string, u, g int) error {
	if err := f.j.ask("chown", n); err != nil {
		return err
	}
	return f.FS.Chown(n, u, g)
}
func (f *faultFs) Lchown(n string, u, g int) error {
	if err := f.j.ask("lchown", n); err != nil {
		return err
	}
	return f.FS.Lchown(n, u, g)
}
func (f *faultFs) Chtimes(n string, a, m time.Time) error {
	if err := f.j.ask("chtimes", n); err != nil {
		return err
	}
	return f.FS.Chtimes(n, a, m)
}
func (f *faultFs) Create(n string) (vroot.File, error) {
	if err := f.j.ask("create", n); err != nil {
		return nil, err
	}
	return f.wrap(n)(f.FS.Create(n))
}
func (f *faultFs) Open(n string) (vroot.File, error) {
	if err := f.j.ask("open", n); err != nil {
		return nil, err
	}
	return f.wrap(n)(f.FS.Open(n))
}
func (f *faultFs) OpenFile(n string, fl int, m fs.FileMode) (vroot.File, error) {
	if err := f.j.ask("openfile", n); err != nil {
		return nil, err
	}
	return f.wrap(n)(f.FS.OpenFile(n, fl, m))
}
func (f *faultFs) wrap(n string) func(vroot.File, error) (vroot.File, error) {
	return func(x vroot.File, err error) (vroot.File, error) {
		if err != nil {
			return nil, err
		}
		torn := strings.HasPrefix(n, "work") || strings.HasPrefix(n, "meta.sqlite3")
		return &faultFile{File: x, j: f.j, name: n, lower: f.lower, torn: torn}, nil
	}
}
func (f *faultFs) Link(o, n string) error {
	if err := f.j.ask("link", n); err != nil {
		return err
	}
	return f.FS.Link(o, n)
}
func (f *faultFs) Lstat(n string) (fs.FileInfo, error) {
	if err := f.j.ask("lstat", n); err != nil {
		return nil, err
	}
	return f.FS.Lstat(n)
}
func (f *faultFs) Stat(n string) (fs.FileInfo, error) {
	if err := f.j.ask("stat", n); err != nil {
		return nil, err
	}
	return f.FS.Stat(n)
}
func (f *faultFs) Mkdir(n string, m fs.FileMode) error {
	if err := f.j.ask("mkdir", n); err != nil {
		return err
	}
	return f.FS.Mkdir(n, m)
}
func (f *faultFs) MkdirAll(n string, m fs.FileMode) error {
	if err := f.j.ask("mkdirall", n); err != nil {
		return err
	}
	return f.FS.MkdirAll(n, m)
}
func (f *faultFs) ReadLink(n string) (string, error) {
	if err := f.j.ask("readlink", n); err != nil {
		return "", err
	}
	return f.FS.ReadLink(n)
}
func (f *faultFs) Remove(n string) error {
	if err := f.j.ask("remove", n); err != nil {
		return err
	}
	return f.FS.Remove(n)
}

// RemoveAll takes the tree down entry by entry, as a disk does.
func (f *faultFs) RemoveAll(n string) error {
	if err := f.j.ask("removeall", n); err != nil {
		return err
	}
	fi, err := f.FS.Lstat(n)
	if err != nil {
		return f.FS.RemoveAll(n)
	}
	if fi.IsDir() {
		es, err := vroot.ReadDir(f.FS, n)
		if err != nil {
			return err
		}
		for _, e := range es {
			if err := f.RemoveAll(filepath.Join(n, e.Name())); err != nil {
				return err
			}
		}
	}
	return f.FS.RemoveAll(n)
}
func (f *faultFs) Rename(o, n string) error {
	if err := f.j.ask("rename", o); err != nil {
		return err
	}
	return f.FS.Rename(o, n)
}
func (f *faultFs) Symlink(o, n string) error {
	if err := f.j.ask("symlink", n); err != nil {
		return err
	}
	return f.FS.Symlink(o, n)
}

type faultFile struct {
	vroot.File
	j     *Injector
	name  string
	lower bool
	torn  bool
}

func (f *faultFile) Fd() uintptr { return ^uintptr(0) }
func (f *faultFile) Chmod(m fs.FileMode) error {
	if err := f.j.ask("fchmod", f.name); err != nil {
		return err
	}
	return f.File.Chmod(m)
}
func (f *faultFile) Chown(u, g int) error {
	if err := f.j.ask("fchown", f.name); err != nil {
		return err
	}
	return f.File.Chown(u, g)
}
func (f *faultFile) Close() error {
	err := f.j.ask("close", f.name)
	return errors.Join(f.File.Close(), err)
}
func (f *faultFile) Read(b []byte) (int, error) {
	if err := f.j.ask("read", f.name); err != nil {
		return 0, err
	}
	if f.lower && len(b) > 1 {
		b = b[:1]
	}
	return f.File.Read(b)
}
func (f *faultFile) ReadAt(b []byte, o int64) (int, error) {
	if err := f.j.ask("readat", f.name); err != nil {
		return 0, err
	}
	return f.File.ReadAt(b, o)
}
func (f *faultFile) ReadDir(n int) ([]fs.DirEntry, error) {
	if err := f.j.ask("readdir", f.name); err != nil {
		return nil, err
	}
	return f.File.ReadDir(n)
}
func (f *faultFile) Stat() (fs.FileInfo, error) {
	if err := f.j.ask("fstat", f.name); err != nil {
		return nil, err
	}
	return f.File.Stat()
}
func (f *faultFile) Sync() error {
	if err := f.j.ask("sync", f.name); err != nil {
		return err
	}
	return f.File.Sync()
}
func (f *faultFile) Truncate(n int64) error {
	if err := f.j.ask("ftruncate", f.name); err != nil {
		return err
	}
	return f.File.Truncate(n)
}
func (f *faultFile) Write(b []byte) (int, error) {
	if err := f.j.ask("write", f.name); err != nil {
		n := 0
		if f.torn {
			n, _ = f.File.Write(b[:len(b)/2])
		}
		return n, err
	}
	return f.File.Write(b)
}
func (f *faultFile) WriteAt(b []byte, o int64) (int, error) {
	if err := f.j.ask("writeat", f.name); err != nil {
		n := 0
		if f.torn {
			n, _ = f.File.WriteAt(b[:len(b)/2], o)
		}
		return n, err
	}
	return f.File.WriteAt(b, o)
}
func (f *faultFile) WriteString(s string) (int, error) { return f.Write([]byte(s)) }
