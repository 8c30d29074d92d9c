// Command tempnames runs the histories of SimTemp on fsutil's random names and temporary file policies.
package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"io/fs"
	"os"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/ngicks/go-fsys-helper/fsutil"
	"github.com/ngicks/go-fsys-helper/vroot"

	"verif/harness/internal/fsx"
	"verif/harness/internal/rec"
	"verif/harness/internal/tap"
)

type path [][]string

func (p path) names() []string {
	var out []string
	for _, n := range p {
		out = append(out, strings.Join(n, ""))
	}
	return out
}

func (p path) String() string {
	if len(p) == 0 {
		return "."
	}
	return strings.Join(p.names(), "/")
}

func (p path) usable() bool {
	for _, n := range p.names() {
		if n == "" || n == "." || n == ".." {
			return false
		}
	}
	return true
}

func toPath(s string) [][]string {
	out := [][]string{}
	if s == "." {
		return out
	}
	for _, n := range strings.Split(s, "/") {
		cs := []string{}
		for _, r := range n {
			cs = append(cs, string(r))
		}
		out = append(out, cs)
	}
	return out
}

type config struct {
	K   string `json:"k"`
	Pol string `json:"pol"`
	Dir path   `json:"dir"`
	Sp  string `json:"sp"`
}

type call struct {
	O    string   `json:"o"`
	P    path     `json:"p"`
	Ps   []path   `json:"ps"`
	Ks   []string `json:"ks"`
	M    int      `json:"m"`
	Way  string   `json:"way"`
	Pat  string   `json:"pat"`
	Miss bool     `json:"miss"`
	G    int      `json:"g"`
	Kd   string   `json:"kd"`
	Root string   `json:"root"`
	F    int      `json:"f"`
}

type policy = fsutil.TempFilePolicy[fsx.FS, vroot.File]

func (c config) policy() policy {
	if c.Pol == "random" {
		return fsutil.NewTempFilePolicyRandom[fsx.FS, vroot.File]()
	}
	d := c.Dir.String()
	switch c.Sp {
	case "slash":
		d += "/"
	case "dot":
		d = "./" + d
	case "updown":
		d = "u/../" + d
	}
	return fsutil.NewTempFilePolicyDir[fsx.FS](d)
}

func check(err error) {
	if err != nil {
		panic("harness: " + err.Error())
	}
}

type unremovable struct {
	fsx.FS
	tried bool
}

func (u *unremovable) RemoveAll(string) error { u.tried = true; return tap.ErrInjected }
func (u *unremovable) Remove(string) error    { u.tried = true; return tap.ErrInjected }

type step map[string]any

// put makes a thing unless there is one already.
func put(f fsx.FS, name, kind string) bool {
	if _, err := f.Lstat(name); err == nil {
		return false
	}
	switch kind {
	case "file":
		check(vroot.WriteFile(f, name, []byte("there"), 0o644))
	case "dir":
		check(f.Mkdir(name, 0o755))
	case "full":
		check(f.Mkdir(name, 0o755))
		check(vroot.WriteFile(f, name+"/in", []byte("there"), 0o644))
	case "link":
		check(f.Symlink("keep", name))
	case "dangling":
		check(f.Symlink("nothing-there", name))
	case "dirlink":
		check(f.Symlink(".", name))
	}
	return true
}

func clean(c config, a call, fsk string) step {
	f, done, err := tap.Fresh(fsk)
	check(err)
	defer done()
	for i, p := range a.Ps {
		if !p.usable() || f.MkdirAll(filepath.Dir(p.String()), 0o755) != nil {
			continue
		}
		if _, err := f.Lstat(p.String()); err == nil {
			continue
		}
		put(f, p.String(), a.Ks[i])
	}
	was, err := tap.Take(f, ".")
	check(err)
	root := "."
	if a.Root == "dir" && c.Pol == "dir" {
		if fi, err := f.Lstat(c.Dir.String()); err == nil && fi.IsDir() {
			root = c.Dir.String()
		}
	}
	u := &unremovable{FS: f}
	on := f
	if a.F == 1 {
		on = u
	}
	pol := c.policy()
	err = fs.WalkDir(vroot.ToIoFs(f), root, func(path string, d fs.DirEntry, err error) error {
		return pol.WalkFunc(on, path, d, err)
	})
	left, err2 := tap.Take(f, ".")
	check(err2)
	ps := func(s tap.Snap) [][][]string {
		out := [][][]string{}
		for p := range s {
			out = append(out, toPath(p))
		}
		return out
	}
	for p, v := range left {
		if was[p] != v {
			return step{"c": a, "was": ps(was), "left": [][][]string{{{"c", "h", "a", "n", "g", "e", "d"}}}, "root": toPath(root), "bad": false, "e": "nil"}
		}
	}
	e := "nil"
	if err != nil {
		e = err.Error()
	}
	return step{"c": a, "was": ps(was), "left": ps(left), "root": toPath(root), "bad": u.tried, "e": e}
}

// crowded takes the first m names tried.
type crowded struct {
	fsx.FS
	m, n int
	kind string
	skip string
	took map[string]bool
}

func (c *crowded) take(name string) {
	name = filepath.Clean(name)
	if name == c.skip {
		return
	}
	c.n++
	if c.n <= c.m {
		if _, err := c.FS.Lstat(filepath.Dir(name)); err != nil {
			return
		}
		if put(c.FS, name, c.kind) {
			c.took[name] = true
		}
	}
}

func (c *crowded) OpenFile(name string, flag int, m fs.FileMode) (vroot.File, error) {
	if flag&os.O_CREATE != 0 {
		c.take(name)
	}
	return c.FS.OpenFile(name, flag, m)
}
func (c *crowded) Create(name string) (vroot.File, error) {
	c.take(name)
	return c.FS.Create(name)
}
func (c *crowded) Mkdir(name string, m fs.FileMode) error {
	c.take(name)
	return c.FS.Mkdir(name, m)
}
func (c *crowded) MkdirAll(name string, m fs.FileMode) error {
	c.take(name)
	return c.FS.MkdirAll(name, m)
}

var digits = regexp.MustCompile(`^\d{10}`)

// try makes one and says where it is.
func try(c config, a call, f fsx.FS, dir string) (h vroot.File, at, prefix, suffix string, own func(string) bool, err error) {
	own = func(string) bool { return true }
	pol := c.policy()
	target := filepath.Join(dir, "t.txt")
	switch a.Way {
	case "open", "mkdir":
		pat := a.Pat
		if pat == "bad" {
			pat = "a/*"
		}
		i := strings.LastIndex(pat, "*")
		prefix = pat
		if i >= 0 {
			prefix, suffix = pat[:i], pat[i+1:]
		}
		at = dir
		if a.Way == "open" {
			h, err = fsutil.OpenFileRandom(f, dir, pat, 0o644)
		} else {
			h, err = fsutil.MkdirRandom[fsx.FS, vroot.File](f, dir, pat, 0o755)
		}
	default:
		var d string
		if a.Way == "create" {
			h, d, err = pol.Create(f, target, 0o644)
		} else {
			h, d, err = pol.Mkdir(f, target, 0o755)
		}
		at = filepath.Clean(d)
		own = pol.Match
		if c.Pol == "random" {
			prefix = "t.txt."
		}
		suffix = ".tmp"
	}
	return
}

func make1(c config, a call, fsk string) step {
	if a.M > 100 && (c.Pol != "dir" || len(c.Dir) > 0) {
		fsk = "mem"
	}
	f, done, err := tap.Fresh(fsk)
	check(err)
	defer done()
	pol := a.Way == "create" || a.Way == "mkdirp"
	if pol {
		a.Pat = "p"
	}
	dir := "d"
	check(f.Mkdir("d", 0o755))
	put(f, "d/keep", "file")
	put(f, "keep", "file")
	skip := "."
	if pol && c.Pol == "dir" {
		skip = c.Dir.String()
		if len(c.Dir) > 1 {
			if !a.Miss {
				check(f.MkdirAll(filepath.Dir(skip), 0o755))
			}
		} else {
			a.Miss = false
		}
	} else if a.Miss {
		dir = "no"
	} else if len(a.P) == 1 && !pol {
		dir = ""
	}
	before, err := tap.Take(f, ".")
	check(err)
	w := &crowded{FS: f, m: a.M, kind: a.Kd, skip: skip, took: map[string]bool{}}
	h, at, prefix, suffix, own, err := try(c, a, w, dir)
	e := "nil"
	got := []map[string]any{}
	switch {
	case errors.Is(err, fsutil.ErrBadPattern):
		e = "badpattern"
	case errors.Is(err, fsutil.ErrMaxRetry):
		e = "maxretry"
	case errors.Is(err, fs.ErrNotExist):
		e = "noent"
	case err != nil:
		e = err.Error()
	}
	made := ""
	if err == nil {
		base := filepath.Base(h.Name())
		made = filepath.Join(at, base)
		_, was := before[made]
		g := map[string]any{"name": made, "new": false, "own": own(made)}
		mid, ok := strings.CutPrefix(base, prefix)
		rest, ok2 := strings.CutSuffix(mid, suffix)
		g["fits"] = ok && ok2 && len(rest) == 10 && digits.MatchString(rest)
		fi, err := f.Lstat(made)
		if err == nil && !was && !w.took[made] {
			hs, err := h.Stat()
			isdir := a.Way == "mkdir" || a.Way == "mkdirp"
			g["new"] = err == nil && fi.IsDir() == isdir && hs.IsDir() == isdir && (isdir || fi.Size() == 0 && fi.Mode().IsRegular())
			if !isdir {
				// the handle is the new file's
				n, err := h.Write([]byte("mine"))
				b, err2 := vroot.ReadFile(f, made)
				g["new"] = g["new"].(bool) && n == 4 && err == nil && err2 == nil && string(b) == "mine"
			}
		}
		h.Close()
		got = append(got, g)
	}
	after, err := tap.Take(f, ".")
	check(err)
	same := true
	for p, v := range before {
		same = same && after[p] == v
	}
	want := map[string]string{"file": "f 644 there", "dir": "d 755", "link": "l keep", "dangling": "l nothing-there", "dirlink": "l ."}[a.Kd]
	for p := range w.took {
		same = same && after[p] == want
	}
	for p := range after {
		_, was := before[p]
		same = same && (was || w.took[p] || p == made || p == skip)
	}
	return step{"c": a, "pat": a.Pat, "miss": a.Miss, "m": a.M, "e": e, "got": got, "same": same}
}

// few maps all names to a handful.
type few struct {
	fsx.FS
	slots uint64
}

var ten = regexp.MustCompile(`\d{10}`)

func (w *few) name(n string) string {
	return ten.ReplaceAllStringFunc(n, func(d string) string {
		x, _ := strconv.ParseUint(d, 10, 64)
		return fmt.Sprintf("%010d", x%w.slots)
	})
}
func (w *few) OpenFile(n string, flag int, m fs.FileMode) (vroot.File, error) {
	return w.FS.OpenFile(w.name(n), flag, m)
}
func (w *few) Mkdir(n string, m fs.FileMode) error    { return w.FS.Mkdir(w.name(n), m) }
func (w *few) Lstat(n string) (fs.FileInfo, error)    { return w.FS.Lstat(w.name(n)) }
func (w *few) Stat(n string) (fs.FileInfo, error)     { return w.FS.Stat(w.name(n)) }
func (w *few) Create(n string) (vroot.File, error)    { return w.FS.Create(w.name(n)) }
func (w *few) MkdirAll(n string, m fs.FileMode) error { return w.FS.MkdirAll(w.name(n), m) }
func (w *few) Remove(n string) error                  { return w.FS.Remove(w.name(n)) }
func (w *few) RemoveAll(n string) error               { return w.FS.RemoveAll(w.name(n)) }
func (w *few) Open(n string) (vroot.File, error)      { return w.FS.Open(w.name(n)) }

func crowd(c config, a call, fsk string) step {
	f, done, err := tap.Fresh(fsk)
	check(err)
	defer done()
	check(f.Mkdir("d", 0o755))
	put(f, "d/keep", "file")
	if c.Pol == "dir" && len(c.Dir) > 1 {
		check(f.MkdirAll(filepath.Dir(c.Dir.String()), 0o755))
	}
	if a.Pat == "bad" {
		a.Pat = "*"
	}
	w := &few{f, uint64(a.G)}
	names := make([]string, a.G)
	var wg sync.WaitGroup
	var start sync.WaitGroup
	start.Add(a.G)
	for i := range a.G {
		wg.Add(1)
		go func() {
			defer wg.Done()
			start.Done()
			start.Wait()
			h, at, _, _, _, err := try(c, a, w, "d")
			if err != nil {
				return
			}
			if a.Way == "open" || a.Way == "create" {
				fmt.Fprintf(h, "%d", i)
			}
			names[i] = filepath.Join(at, w.name(filepath.Base(h.Name())))
			h.Close()
		}()
	}
	wg.Wait()
	got := []string{}
	same := true
	for i, n := range names {
		if n == "" {
			continue
		}
		got = append(got, n)
		if a.Way == "open" || a.Way == "create" {
			b, err := vroot.ReadFile(f, n)
			same = same && err == nil && string(b) == strconv.Itoa(i)
		} else if fi, err := f.Lstat(n); err != nil || !fi.IsDir() {
			same = false
		}
	}
	b, err := vroot.ReadFile(f, "d/keep")
	same = same && err == nil && string(b) == "there"
	return step{"c": a, "got": got, "same": same, "n": a.G, "slots": a.G}
}

func main() {
	rec.Main(0, 60*time.Second, func(raw []byte, st *fsx.Stats) (any, error) {
		var s struct {
			C config `json:"c"`
			H []call `json:"h"`
		}
		if err := json.Unmarshal(raw, &s); err != nil {
			return nil, err
		}
		var h []step
		for i, a := range s.H {
			fsk := "mem"
			if i%7 == 3 || s.C.Pol == "dir" && len(s.C.Dir) == 0 {
				fsk = "os" // memfs doesn't have mkdir say that the root exists
			}
			switch a.O {
			case "match":
				if !a.P.usable() {
					continue
				}
				p := a.P.String()
				y := s.C.policy().Match(p)
				if s.C.policy().Match("./"+p) != y {
					y = !y
				}
				h = append(h, step{"c": a, "p": a.P, "y": y})
			case "clean":
				h = append(h, clean(s.C, a, fsk))
			case "make":
				h = append(h, make1(s.C, a, fsk))
			case "crowd":
				h = append(h, crowd(s.C, a, fsk))
			}
			atomic.AddInt64(&st.Steps, 1)
		}
		if len(h) == 0 {
			return nil, nil
		}
		return map[string]any{"c": s.C, "h": h, "s": json.RawMessage(raw)}, nil
	})
}
