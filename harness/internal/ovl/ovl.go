// Package ovl builds overlays over layers the specification describes.
package ovl

import (
	"errors"
	"fmt"
	"io/fs"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"github.com/ngicks/go-fsys-helper/vroot"
	"github.com/ngicks/go-fsys-helper/vroot-adapter/overlayfs"
	"github.com/ngicks/go-fsys-helper/vroot/osfs"
	"github.com/ngicks/go-fsys-helper/vroot/synthfs"

	"verif/harness/internal/fsx"
)

// Stay is a filesystem whose Close leaves it usable: a disk.
type Stay struct {
	fsx.FS
	closed int
}

func (s *Stay) Close() error { s.closed++; return nil }

// Store is a mask store that outlives the overlay using it.
type Store struct {
	mu     sync.Mutex
	w, o   map[string]bool
	Before func(call string) error // asked before every mutating call
}

func NewStore() *Store { return &Store{w: map[string]bool{}, o: map[string]bool{}} }

func clean(n string) string { return strings.TrimPrefix(filepath.Clean("/"+n), "/") }

func (s *Store) Load() (w, o []string, err error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	for n := range s.w {
		w = append(w, n)
	}
	for n := range s.o {
		o = append(o, n)
	}
	return
}

func (s *Store) do(call, n string, f func(n string)) error {
	if s.Before != nil {
		if err := s.Before(call + " " + n); err != nil {
			return err
		}
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	f(clean(n))
	return nil
}

func (s *Store) SetWhiteout(n string) error {
	return s.do("SetWhiteout", n, func(n string) {
		s.w[n] = true
		delete(s.o, n)
		for _, m := range []map[string]bool{s.w, s.o} {
			for x := range m {
				if x != n && (n == "" || strings.HasPrefix(x, n+"/")) {
					delete(m, x)
				}
			}
		}
	})
}

func (s *Store) ClearWhiteout(n string) error {
	return s.do("ClearWhiteout", n, func(n string) { delete(s.w, n) })
}

func (s *Store) SetOpaque(n string) error {
	return s.do("SetOpaque", n, func(n string) { s.o[n] = true })
}

func (s *Store) ClearOpaque(n string) error {
	return s.do("ClearOpaque", n, func(n string) { delete(s.o, n) })
}
func (s *Store) Close() error { return nil }

// Disk is one layer's storage.
type Disk struct {
	FS    fsx.FS // everything of the layer
	Canon bool
	Store *Store // nil: plain, or the database
	free  func()
	// Wrap, when set, is put around FS for the overlay.
	Wrap func(f fsx.FS) fsx.FS
	base string // what Snapshot leaves out: nothing
}

// Kind names how layers are stored.
type Kind struct {
	Name   string
	OS     bool // real directories
	Bare   bool // lowers are unrooted filesystems
	SQLite bool // the canonical stores are the default database
	Policy func() overlayfs.CopyUpPolicy
	Attach func(d *Disk, lower bool) // sees every disk before it is used
}

// NewDisk makes empty storage.
func (k Kind) NewDisk(canon, lower bool) *Disk {
	d := &Disk{Canon: canon}
	if k.OS {
		top, err := os.MkdirTemp("", "verif-ovl-")
		Must(err)
		Must(os.MkdirAll(filepath.Join(top, "p/root"), 0o755))
		d.free = func() { os.RemoveAll(top) }
		if k.Bare && lower {
			o, err := osfs.NewFs(filepath.Join(top, "p/root"))
			Must(err)
			d.FS = vroot.Widen(o)
		} else {
			r, err := osfs.NewRoot(filepath.Join(top, "p/root"))
			Must(err)
			d.FS = vroot.Widen[*osfs.File](r)
			d.free = func() { r.Close(); os.RemoveAll(top) }
		}
		o, err := osfs.NewFs(top)
		Must(err)
		Decoys(vroot.Widen(o), "p")
		Decoys(vroot.Widen(o), ".")
	} else {
		um := fs.FileMode(0o022)
		m := synthfs.NewRoot("disk", &synthfs.Option{Umask: &um})
		Must(m.Chmod(".", 0o755))
		d.FS = vroot.Widen[vroot.File](m)
		d.free = func() { m.Close() }
	}
	if canon {
		Must(d.FS.Mkdir("merged", 0o755))
		// Entries an escape from merged/ would land on.
		Decoys(d.FS, ".")
		if !k.SQLite {
			d.Store = NewStore()
		}
	}
	return d
}

// Decoys puts entries where an escaping path would land.
func Decoys(f fsx.FS, dir string) {
	Must(f.MkdirAll(filepath.Join(dir, "a"), 0o755))
	for _, n := range []string{"a/a", "a/b", "a/none", "b", "c"} {
		Must(vroot.WriteFile(f, filepath.Join(dir, n), []byte("decoy"), 0o644))
	}
}

func Must(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "harness:", err)
		os.Exit(3)
	}
}

// Source opens d as a layer.
func (d *Disk) Source() (*overlayfs.DataSource, error) {
	f := fsx.FS(&Stay{FS: d.FS})
	if d.Wrap != nil {
		f = d.Wrap(f)
	}
	switch {
	case !d.Canon:
		return overlayfs.NewDataSource(f), nil
	case d.Store != nil:
		return overlayfs.NewDataSourceCanonicalStore(f, d.Store)
	default:
		return overlayfs.NewDataSourceCanonical(f)
	}
}

// Snapshot describes everything on the disk, except in the named directories
// and files.
func (d *Disk) Snapshot(skip ...string) (string, error) {
	var out []string
	var rec func(p string) error
	rec = func(p string) error {
		for _, s := range skip {
			if p == s {
				return nil
			}
		}
		fi, err := d.FS.Lstat(p)
		if err != nil {
			return err
		}
		line := fmt.Sprintf("%s %v %d", p, fi.Mode(), fi.ModTime().UnixNano())
		if p == "." && len(skip) > 0 {
			line = fmt.Sprintf("%s %v", p, fi.Mode())
		}
		switch {
		case fi.IsDir():
			out = append(out, line)
			es, err := vroot.ReadDir(d.FS, p)
			if err != nil {
				return err
			}
			for _, e := range es {
				if err := rec(filepath.Join(p, e.Name())); err != nil {
					return err
				}
			}
			return nil
		case fi.Mode()&fs.ModeSymlink != 0:
			t, err := d.FS.ReadLink(p)
			out = append(out, line+" -> "+t)
			return err
		}
		b, err := vroot.ReadFile(d.FS, p)
		out = append(out, fmt.Sprintf("%s %q", line, b))
		return err
	}
	err := rec(".")
	sort.Strings(out)
	return strings.Join(out, "\n"), err
}

// Stack is an overlay over disks.
type Stack struct {
	Kind  Kind
	Top   *Disk
	Low   []*Disk
	FS    *overlayfs.Fs
	View  fsx.FS
	snaps []string // of the lowers
	priv  string   // of the top outside its content
	subs  map[string]fsx.FS
}

type rooted struct {
	fsx.FS
	r *overlayfs.Fs
}

func OpenRoot(f fsx.FS, name string) (fsx.FS, error) {
	s, err := f.(*rooted).r.OpenRoot(name)
	if err != nil {
		return nil, err
	}
	return &rooted{FS: s, r: s}, nil
}

// Open stacks the disks.
func (s *Stack) Open() error {
	top, err := s.Top.Source()
	if err != nil {
		return fmt.Errorf("open top: %w", err)
	}
	var lows []*overlayfs.DataSource
	for _, d := range s.Low {
		l, err := d.Source()
		if err != nil {
			return fmt.Errorf("open lower: %w", err)
		}
		lows = append(lows, l)
	}
	var opt *overlayfs.Option
	if s.Kind.Policy != nil {
		opt = &overlayfs.Option{CopyUpPolicy: s.Kind.Policy()}
	}
	s.FS, err = overlayfs.New(top, lows, opt)
	if err != nil {
		return fmt.Errorf("new overlay: %w", err)
	}
	s.View = &rooted{FS: s.FS, r: s.FS}
	s.subs = map[string]fsx.FS{}
	return nil
}

// Close closes the overlay, keeping the disks.
func (s *Stack) Close() error { return s.FS.Close() }

func (s *Stack) Reopen() error {
	if err := s.Close(); err != nil {
		return fmt.Errorf("close: %w", err)
	}
	return s.Open()
}

var database = []string{"meta.sqlite3", "meta.sqlite3-journal", "meta.sqlite3-wal", "meta.sqlite3-shm"}
var private = append([]string{"merged", "work"}, database...)

// Restack freezes the top as the first lower and starts a fresh top.
func (s *Stack) Restack() error {
	if err := s.Close(); err != nil {
		return fmt.Errorf("close: %w", err)
	}
	old, err := s.Top.FS.Lstat("merged")
	if err != nil {
		return err
	}
	s.Kind.attach(s.Top, true)
	s.Low = append([]*Disk{s.Top}, s.Low...)
	s.Top = s.Kind.NewDisk(true, false)
	s.Kind.attach(s.Top, false)
	// The root of the view is the top's own: it is no entry to copy up.
	if err := s.Top.FS.Chmod("merged", old.Mode().Perm()); err != nil {
		return err
	}
	if err := s.Open(); err != nil {
		return err
	}
	return s.Mark()
}

// Mark notes what must not change from here on.
func (s *Stack) Mark() error {
	s.snaps = nil
	for _, d := range s.Low {
		x, err := d.Snapshot(s.skipLow(d)...)
		if err != nil {
			return err
		}
		s.snaps = append(s.snaps, x)
	}
	var err error
	s.priv, err = s.Top.Snapshot(private...)
	return err
}

// A canonical lower's database may be touched by opening it.
func (s *Stack) skipLow(d *Disk) []string {
	if d.Canon && d.Store == nil {
		return database
	}
	return nil
}

// Check reports a lower or a private part that changed, and debris.
func (s *Stack) Check() error {
	for i, d := range s.Low {
		x, err := d.Snapshot(s.skipLow(d)...)
		if err != nil {
			return err
		}
		if x != s.snaps[i] {
			return fmt.Errorf("lower %d changed: before\n%s\nafter\n%s", i, s.snaps[i], x)
		}
	}
	x, err := s.Top.Snapshot(private...)
	if err != nil {
		return err
	}
	if x != s.priv {
		return fmt.Errorf("the top outside its content changed: before\n%s\nafter\n%s", s.priv, x)
	}
	es, err := vroot.ReadDir(s.Top.FS, "work")
	if err != nil {
		return err
	}
	if len(es) > 0 {
		return fmt.Errorf("staged file %q left behind", es[0].Name())
	}
	return nil
}

// Sub is the sub-root at b, kept open while its directory lives.
func (s *Stack) Sub(b string) (fsx.FS, error) {
	if f, ok := s.subs[b]; ok {
		return f, nil
	}
	f, err := OpenRoot(s.View, b)
	if err == nil {
		s.subs[b] = f
	}
	return f, err
}

// Free drops the disks.
func (s *Stack) Free() {
	for _, d := range append([]*Disk{s.Top}, s.Low...) {
		d.free()
	}
}

// New builds an overlay with a fresh top over the given layers. layers may be
// empty.
func (k Kind) New(layers [][]fsx.Node) (*Stack, error) {
	s := &Stack{Kind: k}
	for _, l := range layers {
		d := k.NewDisk(false, true)
		k.attach(d, true)
		s.Low = append(s.Low, d)
		t := fsx.ToTree(l)
		if err := fsx.Build(d.FS, t); err != nil {
			s.Top = k.NewDisk(true, false)
			s.Free()
			return nil, fmt.Errorf("building a lower: %w", err)
		}
	}
	s.Top = k.NewDisk(true, false)
	k.attach(s.Top, false)
	if err := s.Open(); err != nil {
		return nil, err
	}
	return s, s.Mark()
}

func (k Kind) attach(d *Disk, lower bool) {
	if k.Attach != nil {
		k.Attach(d, lower)
	}
}

// Debris names something staged and not published.
func (s *Stack) Debris() string {
	es, err := vroot.ReadDir(s.Top.FS, "work")
	if err == nil && len(es) > 0 {
		return "work/" + es[0].Name()
	}
	return ""
}

// Inst wraps s for replay.
func (s *Stack) Inst() *fsx.Inst {
	in := &fsx.Inst{}
	sync := func() { in.FS = s.View }
	sync()
	in.Sub = s.Sub
	in.OpenRoot = OpenRoot
	in.Close = func() { s.Close(); s.Free() }
	in.Reopen = func() error { defer sync(); return s.Reopen() }
	in.Restack = func() error { defer sync(); return s.Restack() }
	in.Check = s.Check
	in.After = func(c fsx.Case, got string, want fsx.Tree) error {
		// A sub-root addresses its directory by name: it ends with it.
		for _, p := range c.D.Rm {
			delete(s.subs, fsx.Key(p))
		}
		if c.Op.O == "rename" {
			clear(s.subs)
		}
		return nil
	}
	return in
}

var ErrInjected = errors.New("injected failure")
