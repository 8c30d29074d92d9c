package main

import (
	"fmt"
	"io"
	"io/fs"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/ngicks/go-fsys-helper/vroot"
	"github.com/ngicks/go-fsys-helper/vroot-adapter/sftpfs"
	"github.com/ngicks/go-fsys-helper/vroot/memfs"
	"github.com/ngicks/go-fsys-helper/vroot/osfs"
	"github.com/ngicks/go-fsys-helper/vroot/synthfs"
	"github.com/pkg/sftp"

	"verif/harness/internal/fsx"
)

// rooted is a rooted filesystem with its concrete type erased.
type rooted struct {
	fsx.FS
	open func(string) (fsx.FS, error)
}

func rootOf[F vroot.File, R vroot.Root[F, R]](r R) fsx.FS {
	return &rooted{FS: vroot.Widen[F](r), open: func(n string) (fsx.FS, error) {
		s, err := r.OpenRoot(n)
		if err != nil {
			return nil, err
		}
		return rootOf[F, R](s), nil
	}}
}

func openRoot(f fsx.FS, name string) (fsx.FS, error) { return f.(*rooted).open(name) }

func must(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "harness:", err)
		os.Exit(3)
	}
}

// decoys puts entries where an escaping path would land.
func decoys(f fsx.FS, dir string) {
	must(f.MkdirAll(filepath.Join(dir, "a"), 0o755))
	for _, n := range []string{"a/a", "a/b", "a/none", "b", "c"} {
		must(vroot.WriteFile(f, filepath.Join(dir, n), []byte("decoy"), 0o644))
	}
}

// outside lists everything of f below dir but the tree at skip.
func outside(f fsx.FS, dir, skip string) (string, error) {
	var out []string
	var rec func(p string) error
	rec = func(p string) error {
		if p == skip {
			return nil
		}
		fi, err := f.Lstat(p)
		if err != nil {
			return err
		}
		line := fmt.Sprintf("%s %v %d", p, fi.Mode(), fi.ModTime().UnixNano())
		if fi.IsDir() {
			out = append(out, line)
			es, err := vroot.ReadDir(f, p)
			if err != nil {
				return err
			}
			for _, e := range es {
				if err := rec(filepath.Join(p, e.Name())); err != nil {
					return err
				}
			}
			return nil
		}
		b, err := vroot.ReadFile(f, p)
		out = append(out, fmt.Sprintf("%s %q", line, b))
		return err
	}
	err := rec(dir)
	sort.Strings(out)
	return strings.Join(out, "\n"), err
}

func guard(in *fsx.Inst, f fsx.FS, dir, skip string) {
	before, err := outside(f, dir, skip)
	must(err)
	in.Check = func() error {
		now, err := outside(f, dir, skip)
		if err != nil {
			return fmt.Errorf("outside the root: %w", err)
		}
		if now != before {
			return fmt.Errorf("something outside the root changed: before\n%s\nafter\n%s", before, now)
		}
		return nil
	}
}

// An os.Root-backed view orders its checks by component: a name with a missing
// component fails as missing even when a later ".." would leave the root.
func acceptOS(c fsx.Case, got string) bool {
	return c.Op.X == "escmid" && got != "ok"
}

// sftpPipe connects a client to an in-process server over pipes.
func sftpPipe() (*sftp.Client, func()) {
	cr, sw, err := os.Pipe()
	must(err)
	sr, cw, err := os.Pipe()
	must(err)
	srv, err := sftp.NewServer(struct {
		io.Reader
		io.WriteCloser
	}{sr, sw})
	must(err)
	done := make(chan struct{})
	go func() { srv.Serve(); sw.Close(); close(done) }()
	c, err := sftp.NewClientPipe(cr, cw)
	must(err)
	return c, func() { cw.Close(); <-done; cr.Close(); sr.Close() }
}

// box makes root dir "p/q/r/s/root" below a fresh top, with decoys around.
func box() (top, dir string, f fsx.FS) {
	top, err := os.MkdirTemp("", "verif-tree-")
	must(err)
	must(os.MkdirAll(filepath.Join(top, "p/q/r/s/root"), 0o755))
	o, err := osfs.NewFs(top)
	must(err)
	f = vroot.Widen(o)
	decoys(f, "p/q/r/s")
	decoys(f, "p/q/r")
	decoys(f, ".")
	return top, "p/q/r/s/root", f
}

func newSynth() *synthfs.Root {
	um := fs.FileMode(0o022)
	r := synthfs.NewRoot("syn", &synthfs.Option{Umask: &um})
	must(r.Chmod(".", 0o755))
	return r
}

// osInst builds t below a fresh box and wraps an os root there.
func osInst(t fsx.Tree, wrap func(r *osfs.Root) fsx.FS) (*fsx.Inst, error) {
	top, dir, f := box()
	r, err := osfs.NewRoot(filepath.Join(top, dir))
	must(err)
	look := rootOf[*osfs.File](r)
	in := &fsx.Inst{Look: look, Abs: fsx.Abs(top), OpenRoot: openRoot,
		Close: func() { r.Close(); os.RemoveAll(top) }}
	if err := fsx.Build(look, t, in.Abs); err != nil {
		in.Close()
		return nil, err
	}
	in.Raw = r
	in.FS = wrap(r)
	in.Sub = func(b string) (fsx.FS, error) { return openRoot(in.FS, b) }
	guard(in, f, ".", dir)
	return in, nil
}

// memInst builds t at "p/root" of a memory tree and wraps a sub-root there.
func memInst(t fsx.Tree, wrap func(r *synthfs.Root) fsx.FS) (*fsx.Inst, error) {
	m := newSynth()
	must(m.MkdirAll("p/root", 0o755))
	decoys(m, "p")
	decoys(m, ".")
	r, err := m.OpenRoot("p/root")
	must(err)
	look := rootOf[vroot.File](r)
	in := &fsx.Inst{Look: look, OpenRoot: openRoot, Close: func() { m.Close() }}
	if err := fsx.Build(look, t); err != nil {
		return nil, err
	}
	in.Raw = r
	in.FS = wrap(r)
	in.Sub = func(b string) (fsx.FS, error) { return openRoot(in.FS, b) }
	guard(in, m, ".", "p/root")
	return in, nil
}

// ioInst makes in an instance driven through an io/fs view.
func ioInst(in *fsx.Inst, err error) func(func(*fsx.Inst) fs.FS) (*fsx.Inst, error) {
	return func(view func(*fsx.Inst) fs.FS) (*fsx.Inst, error) {
		if err != nil {
			return nil, err
		}
		in.FS = in.Look
		v := view(in)
		in.Sub = func(string) (fsx.FS, error) { return nil, nil }
		in.Exec = func(op fsx.Op) (any, error) {
			f := v
			if len(op.B) > 0 {
				var err error
				if f, err = fs.Sub(v, fsx.Key(op.B)); err != nil {
					return nil, err
				}
			}
			return ioExec(in, f, op)
		}
		return in, nil
	}
}

func ioExec(in *fsx.Inst, f fs.FS, op fsx.Op) (any, error) {
	p := fsx.Spell(op.P, op.X)
	switch op.O {
	case "read":
		fi, err := fs.Stat(f, p)
		if err != nil {
			return nil, err
		}
		if fi.IsDir() {
			es, err := fs.ReadDir(f, p)
			if err != nil {
				return nil, err
			}
			l := [][2]string{}
			for i, e := range es {
				if i > 0 && es[i-1].Name() >= e.Name() {
					return nil, fmt.Errorf("WRONG listing order %q, %q", es[i-1].Name(), e.Name())
				}
				k := "f"
				if e.IsDir() {
					k = "d"
				} else if e.Type()&fs.ModeSymlink != 0 {
					k = "l"
				}
				l = append(l, [2]string{e.Name(), k})
			}
			return map[string]any{"k": "d", "l": l}, nil
		}
		b, err := fs.ReadFile(f, p)
		if err != nil {
			return nil, err
		}
		h, err := f.Open(p)
		if err != nil {
			return nil, err
		}
		defer h.Close()
		b2, err := io.ReadAll(h)
		if err != nil {
			return nil, err
		}
		if string(b) != string(b2) {
			return nil, fmt.Errorf("WRONG ReadFile %q, Open and read %q", b, b2)
		}
		return map[string]any{"k": "f", "d": string(b)}, nil
	case "stat":
		fi, err := fs.Stat(f, p)
		if err != nil {
			return nil, err
		}
		return fsx.Info(fi), nil
	case "lstat":
		fi, err := fs.Lstat(f, p)
		if err != nil {
			return nil, err
		}
		return fsx.Info(fi), nil
	case "readlink":
		s, err := fs.ReadLink(f, p)
		if err != nil {
			return nil, err
		}
		a, t := in.Abs.Parse(s)
		return map[string]any{"k": "l", "a": a, "t": t}, nil
	case "openroot":
		s, err := fs.Sub(f, p)
		if err != nil {
			return nil, err
		}
		return ioExec(in, s, fsx.Op{O: "read"})
	case "page", "readat", "hstat", "caps":
		h, err := f.Open(p)
		if err != nil {
			return nil, err
		}
		defer h.Close()
		if op.O == "caps" && op.D == "plain" {
			h = vroot.NarrowFile(vroot.ExpandFsFile(struct{ fs.File }{h}, p))
		}
		return fsx.OnHandle(in, h, op)
	}
	return nil, fmt.Errorf("io/fs has no %q", op.O)
}

type (
	osr  = *osfs.Root
	memr = *synthfs.Root
)

func subject(name string) *fsx.Subject {
	sub := &fsx.Subject{Name: name, Modes: true, Accept: acceptOS, Light: strings.HasPrefix(name, "os") || strings.HasPrefix(name, "ro") || strings.HasPrefix(name, "io") || strings.HasPrefix(name, "from")}
	if base, ok := strings.CutSuffix(name, "+open"); ok {
		return heldOpen(subject(base))
	}
	switch name {
	case "memfs":
		sub.Accept = nil
		sub.New = func(t fsx.Tree) (*fsx.Inst, error) {
			r := memfs.New("mem")
			if err := fsx.Build(r, t); err != nil {
				return nil, err
			}
			w := rootOf[vroot.File](r)
			return &fsx.Inst{FS: w, Close: func() { r.Close() }, OpenRoot: openRoot, Sub: func(b string) (fsx.FS, error) {
				return openRoot(w, b)
			}}, nil
		}
	case "synthfs":
		sub.Accept = nil
		sub.New = func(t fsx.Tree) (*fsx.Inst, error) {
			r := newSynth()
			if err := fsx.Build(r, t); err != nil {
				return nil, err
			}
			w := rootOf[vroot.File](r)
			subs := map[string]fsx.FS{}
			// Sub-roots stay open across operations: they must keep following
			// their directory until it is removed.
			return &fsx.Inst{FS: w, Close: func() { r.Close() }, OpenRoot: openRoot, Sub: func(b string) (fsx.FS, error) {
				if s, ok := subs[b]; ok {
					return s, nil
				}
				s, err := openRoot(w, b)
				if err == nil {
					subs[b] = s
				}
				return s, err
			}, After: func(c fsx.Case, got string, want fsx.Tree) error {
				for _, p := range c.D.Rm {
					delete(subs, fsx.Key(p))
				}
				if c.Op.O == "rename" {
					clear(subs)
				}
				return nil
			}}, nil
		}
	case "osroot":
		sub.New = func(t fsx.Tree) (*fsx.Inst, error) {
			return osInst(t, func(r osr) fsx.FS { return rootOf[*osfs.File](r) })
		}
	case "ossub": // a sub-root of a root
		sub.New = func(t fsx.Tree) (*fsx.Inst, error) {
			var up osr
			in, err := osInst(t, func(r osr) fsx.FS {
				var err error
				up, err = osfs.NewRoot(filepath.Join(r.Name(), "../.."))
				must(err)
				s, err := up.OpenRoot("s/root")
				must(err)
				return rootOf[*osfs.File](s)
			})
			if err == nil {
				c := in.Close
				in.Close = func() { up.Close(); c() }
			}
			return in, err
		}
	case "osnorm":
		sub.New = func(t fsx.Tree) (*fsx.Inst, error) {
			return osInst(t, func(r osr) fsx.FS {
				return rootOf[*osfs.File](vroot.NewPathNormalizerRoot[*osfs.File](r))
			})
		}
	case "oslocal":
		sub.New = func(t fsx.Tree) (*fsx.Inst, error) {
			return osInst(t, func(r osr) fsx.FS {
				return rootOf[*osfs.File](vroot.NewPathLocalizerRoot[*osfs.File](r))
			})
		}
	case "memsub":
		sub.Accept = nil
		sub.New = func(t fsx.Tree) (*fsx.Inst, error) {
			return memInst(t, func(r memr) fsx.FS { return rootOf[vroot.File](r) })
		}
	case "memnorm":
		sub.New = func(t fsx.Tree) (*fsx.Inst, error) {
			return memInst(t, func(r memr) fsx.FS {
				return rootOf[vroot.File](vroot.NewPathNormalizerRoot[vroot.File](r))
			})
		}
	case "roos":
		sub.New = func(t fsx.Tree) (*fsx.Inst, error) {
			return osInst(t, func(r osr) fsx.FS {
				return rootOf[*vroot.ReadOnlyFile](vroot.NewReadOnlyRoot[*osfs.File](r))
			})
		}
	case "romem":
		sub.New = func(t fsx.Tree) (*fsx.Inst, error) {
			return memInst(t, func(r memr) fsx.FS {
				return rootOf[*vroot.ReadOnlyFile](vroot.NewReadOnlyRoot[vroot.File](r))
			})
		}
	case "rofsos":
		sub.New = func(t fsx.Tree) (*fsx.Inst, error) {
			return osInst(t, func(r osr) fsx.FS {
				return vroot.Widen(vroot.NewReadOnlyFs(vroot.NewReadOnlyFs(vroot.Widen[*osfs.File](r))))
			})
		}
	case "rofsmem":
		sub.New = func(t fsx.Tree) (*fsx.Inst, error) {
			return memInst(t, func(r memr) fsx.FS { return vroot.Widen(vroot.NewReadOnlyFs[vroot.File](r)) })
		}
	case "fromioos":
		sub.New = func(t fsx.Tree) (*fsx.Inst, error) {
			return osInst(t, func(r osr) fsx.FS {
				return vroot.FromIoFs(vroot.ToIoFsRoot[*osfs.File](r).(fs.ReadLinkFS), "io")
			})
		}
	case "fromiomem":
		sub.New = func(t fsx.Tree) (*fsx.Inst, error) {
			return memInst(t, func(r memr) fsx.FS {
				return vroot.FromIoFs(vroot.ToIoFs[vroot.File](r).(fs.ReadLinkFS), "io")
			})
		}
	case "ioos":
		sub.New = func(t fsx.Tree) (*fsx.Inst, error) {
			return ioInst(osInst(t, func(r osr) fsx.FS { return nil }))(func(in *fsx.Inst) fs.FS {
				return vroot.ToIoFsRoot[*osfs.File](in.Raw.(osr))
			})
		}
	case "iomem":
		sub.New = func(t fsx.Tree) (*fsx.Inst, error) {
			return ioInst(memInst(t, func(r memr) fsx.FS { return nil }))(func(in *fsx.Inst) fs.FS {
				return vroot.ToIoFsRoot[vroot.File](in.Raw.(memr))
			})
		}
	case "iofsmem":
		sub.New = func(t fsx.Tree) (*fsx.Inst, error) {
			return ioInst(memInst(t, func(r memr) fsx.FS { return nil }))(func(in *fsx.Inst) fs.FS {
				return vroot.ToIoFs[vroot.File](in.Raw.(memr))
			})
		}
	case "iofsos":
		sub.New = func(t fsx.Tree) (*fsx.Inst, error) {
			return ioInst(osInst(t, func(r osr) fsx.FS { return nil }))(func(in *fsx.Inst) fs.FS {
				return vroot.ToIoFs(vroot.Widen[*osfs.File](in.Raw.(osr)))
			})
		}
	case "iorov":
		sub.New = func(t fsx.Tree) (*fsx.Inst, error) {
			return ioInst(memInst(t, func(r memr) fsx.FS { return nil }))(func(in *fsx.Inst) fs.FS {
				io1 := vroot.ToIoFsRoot[vroot.File](in.Raw.(memr))
				return vroot.ToIoFs(vroot.FromIoFs(io1.(fs.ReadLinkFS), "x"))
			})
		}
	case "mempre", "memsubfs", "memnormfs", "memlocalfs":
		sub.Accept = nil
		sub.New = func(t fsx.Tree) (*fsx.Inst, error) {
			r := newSynth()
			if err := fsx.Build(r, t); err != nil {
				return nil, err
			}
			in := &fsx.Inst{Look: r, Close: func() { r.Close() }}
			in.Sub = func(b string) (fsx.FS, error) {
				switch name {
				case "mempre":
					return vroot.NewPathPrefixFs[vroot.File](r, b)
				case "memsubfs": // the prefix as a chain of sub filesystems
					f, err := vroot.Sub[vroot.File](r, ".")
					if err != nil {
						return nil, err
					}
					return vroot.Sub(f, b)
				case "memnormfs":
					p, err := vroot.NewPathPrefixFs[vroot.File](r, b)
					if err != nil {
						return nil, err
					}
					return vroot.NewPathNormalizerFs[vroot.File](p), nil
				default:
					p, err := vroot.NewPathPrefixFs[vroot.File](vroot.NewPathLocalizerFs[vroot.File](r), b)
					if err != nil {
						return nil, err
					}
					return p, nil
				}
			}
			var err error
			in.FS, err = in.Sub(".")
			return in, err
		}
	case "osfs", "ospre", "sftp":
		sub.Light = true
		sub.New = func(t fsx.Tree) (*fsx.Inst, error) {
			top, dir, f := box()
			base := filepath.Join(top, dir)
			o, err := osfs.NewFs(base)
			must(err)
			look := vroot.Widen[*osfs.File](o)
			in := &fsx.Inst{Look: look, Abs: fsx.Abs(top)}
			if err := fsx.Build(look, t, in.Abs); err != nil {
				return nil, err
			}
			var client *sftp.Client
			stop := func() {}
			if name == "sftp" {
				client, stop = sftpPipe()
			}
			in.Close = func() { stop(); os.RemoveAll(top) }
			in.Sub = func(b string) (fsx.FS, error) {
				switch name {
				case "osfs":
					o, err := osfs.NewFs(filepath.Join(base, b))
					if err != nil {
						return nil, err
					}
					return vroot.Widen(o), nil
				case "ospre":
					return vroot.NewPathPrefixFs(look, b)
				default:
					return sftpfs.New(client, true, filepath.Join(base, b)), nil
				}
			}
			in.FS, err = in.Sub(".")
			guard(in, f, ".", dir)
			return in, err
		}
		if name == "sftp" {
			sub.Modes = false
			sub.Accept = func(c fsx.Case, got string) bool { return c.R != "ok" && c.R != "esc" && got != "ok" }
		}
	default:
		panic(fmt.Sprintf("no subject %q", name))
	}
	return sub
}

// heldOpen keeps a handle on every file of the tree open across operations and
// requires it to agree with the name as long as both address the same file.
func heldOpen(base *fsx.Subject) *fsx.Subject {
	sub := *base
	sub.Name += "+open"
	mk := sub.New
	sub.New = func(t fsx.Tree) (*fsx.Inst, error) {
		in, err := mk(t)
		if err != nil {
			return nil, err
		}
		held := map[string]vroot.File{}
		drop := func(k string) {
			if h, ok := held[k]; ok {
				h.Close()
				delete(held, k)
			}
		}
		up, down := in.After, in.Close
		in.Close = func() {
			for k := range held {
				drop(k)
			}
			down()
		}
		in.After = func(c fsx.Case, got string, want fsx.Tree) error {
			if up != nil {
				if err := up(c, got, want); err != nil {
					return err
				}
			}
			if c.Op.O == "rename" && c.R == "ok" || c.Op.O == "removeall" {
				for k := range held {
					drop(k)
				}
			}
			for _, p := range c.D.Rm {
				drop(fsx.Key(p))
			}
			for k, n := range want {
				if n.K != "f" {
					drop(k)
					continue
				}
				if held[k] == nil {
					h, err := in.FS.OpenFile(k, os.O_RDWR, 0)
					if err != nil {
						return fmt.Errorf("opening %s: %w", k, err)
					}
					held[k] = h
				}
				a, err := held[k].Stat()
				if err != nil {
					return fmt.Errorf("stat through the handle of %s: %w", k, err)
				}
				b, err := in.FS.Lstat(k)
				if err != nil {
					return err
				}
				if a.Size() != b.Size() || a.Size() != int64(len(n.D)) || a.Mode() != b.Mode() || a.Name() != b.Name() {
					return fmt.Errorf("%s: its handle says %s %d %v, lstat says %s %d %v", k, a.Name(), a.Size(), a.Mode(), b.Name(), b.Size(), b.Mode())
				}
			}
			return nil
		}
		return in, nil
	}
	return &sub
}
