// Command graft runs the histories of SimGraft: files and whole trees added to synthetic filesystems.
package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"io/fs"
	"path"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"testing/fstest"
	"time"

	"github.com/ngicks/go-fsys-helper/vroot"
	"github.com/ngicks/go-fsys-helper/vroot/synthfs"

	"verif/harness/internal/fsx"
	"verif/harness/internal/rec"
)

type node struct {
	P []string `json:"p"`
	K string   `json:"k"`
	M string   `json:"m"`
	D string   `json:"d"`
	T []string `json:"t"`
}

type call struct {
	O   string   `json:"o"`
	B   []string `json:"b"`
	X   string   `json:"x"`
	P   []string `json:"p"`
	Q   []string `json:"q"`
	M   string   `json:"m"`
	A   bool     `json:"a"`
	T   []string `json:"t"`
	D   string   `json:"d"`
	V   string   `json:"v"`
	Pol string   `json:"pol"`
	Src []node   `json:"src"`
	Tab []struct {
		P   []string `json:"p"`
		Dec string   `json:"dec"`
	} `json:"tab"`
	Rl  bool     `json:"rl"`
	F   []string `json:"f"`
	Fop string   `json:"fop"`
}

type event struct {
	P    []string `json:"p"`
	Ik   string   `json:"ik"`
	Im   string   `json:"im"`
	Ek   string   `json:"ek"`
	Em   string   `json:"em"`
	Same bool     `json:"same"`
	Dec  string   `json:"dec"`
}

type closed struct {
	V string `json:"v"`
	N int    `json:"n"`
}

type answer struct {
	Ok     bool     `json:"ok"`
	Hit    bool     `json:"hit"`
	Log    []event  `json:"log"`
	N      int      `json:"n"`
	Tree   []node   `json:"tree"`
	Closed []closed `json:"closed"`
	Msg    string   `json:"msg"`
}

type step struct {
	X call   `json:"x"`
	R answer `json:"r"`
}

type record struct {
	C struct {
		Um string `json:"um"`
	} `json:"c"`
	H []step          `json:"h"`
	S json.RawMessage `json:"s"`
}

func check(err error) {
	if err != nil {
		panic("harness: " + err.Error())
	}
}

func slash(p []string) string {
	if len(p) == 0 {
		return "."
	}
	return strings.Join(p, "/")
}

func list(p string) []string {
	if p == "." || p == "" {
		return []string{}
	}
	return strings.Split(p, "/")
}

func mode(s string) fs.FileMode {
	m, err := strconv.ParseUint(s, 8, 32)
	check(err)
	return fs.FileMode(m)
}

var past = time.Unix(1e9, 0)

// view is a file's bytes, counting how often it is closed.
type view struct {
	name, data string
	mode       fs.FileMode
	n          int
}

func (v *view) now() synthfs.FileView             { return synthfs.NewBytesView([]byte(v.data), v.mode, past) }
func (v *view) Open(flag int) (vroot.File, error) { return v.now().Open(flag) }
func (v *view) Stat() (fs.FileInfo, error)        { return v.now().Stat() }
func (v *view) Close() error                      { v.n++; return nil }

// source is a tree to add, one of whose calls may fail.
type source struct {
	m       fstest.MapFS
	at, op  string
	on, hit bool
}

var errSrc = errors.New("source fault")

func (s *source) fail(op, p string) error {
	if s.on && s.op == op && s.at == p {
		s.hit = true
		return &fs.PathError{Op: op, Path: p, Err: errSrc}
	}
	return nil
}

func (s *source) Open(p string) (fs.File, error) { return s.m.Open(p) }
func (s *source) Stat(p string) (fs.FileInfo, error) {
	if err := s.fail("stat", p); err != nil {
		return nil, err
	}
	return fs.Stat(s.m, p)
}

func (s *source) ReadDir(p string) ([]fs.DirEntry, error) {
	if err := s.fail("list", p); err != nil {
		return nil, err
	}
	return fs.ReadDir(s.m, p)
}

type linkSource struct{ *source }

func (s linkSource) Lstat(p string) (fs.FileInfo, error) {
	if err := s.fail("stat", p); err != nil {
		return nil, err
	}
	return fs.Lstat(s.m, p)
}

func (s linkSource) ReadLink(p string) (string, error) {
	if err := s.fail("readlink", p); err != nil {
		return "", err
	}
	return fs.ReadLink(s.m, p)
}

func build(ns []node) fstest.MapFS {
	m := fstest.MapFS{}
	for _, n := range ns {
		f := &fstest.MapFile{ModTime: past}
		switch n.K {
		case "d":
			f.Mode = fs.ModeDir | mode(n.M)
		case "l":
			f.Mode, f.Data = fs.ModeSymlink|0o777, []byte(strings.Join(n.T, "/"))
		default:
			f.Mode, f.Data = mode(n.M), []byte(n.D)
		}
		m[slash(n.P)] = f
	}
	return m
}

type run struct {
	root  *synthfs.Root
	views map[string]*view
	srcs  map[string]*source
}

func kind(i fs.FileInfo) string {
	switch {
	case i.IsDir():
		return "d"
	case i.Mode()&fs.ModeSymlink != 0:
		return "l"
	}
	return "f"
}

func perm(i fs.FileInfo) string { return fmt.Sprintf("%o", i.Mode().Perm()) }

var errDec = errors.New("decided to fail")

func (r *run) policy(x call, a *answer) synthfs.AddFunc {
	tab := map[string]string{}
	if x.Pol == "tab" {
		for _, e := range x.Tab {
			tab[slash(e.P)] = e.Dec
		}
	}
	names := map[synthfs.AddDecision]string{synthfs.AddDecisionSkip: "skip", synthfs.AddDecisionKeep: "keep", synthfs.AddDecisionOverride: "over"}
	one := func(pol string, in, ex synthfs.AddEntry) (synthfs.AddDecision, error) {
		switch pol {
		case "mk":
			return synthfs.MergeKeep(in, ex)
		case "fc":
			return synthfs.FailOnConflict(in, ex)
		case "skip":
			return synthfs.AddDecisionSkip, nil
		case "keep":
			return synthfs.AddDecisionKeep, nil
		case "over":
			return synthfs.AddDecisionOverride, nil
		case "err":
			return synthfs.AddDecisionOverride, errDec
		}
		return synthfs.MergeOverwrite(in, ex)
	}
	if x.Pol == "nil" {
		return nil
	}
	return func(in, ex synthfs.AddEntry) (synthfs.AddDecision, error) {
		pol := x.Pol
		if pol == "tab" {
			rel := strings.TrimPrefix(strings.TrimPrefix(in.Path(), slash(x.P)), "/")
			if slash(x.P) == "." {
				rel = in.Path()
			}
			if rel == "" {
				rel = "."
			}
			pol = tab[rel]
		}
		d, err := one(pol, in, ex)
		e := event{P: list(in.Path()), Ik: kind(in.Info()), Im: perm(in.Info()), Ek: "-", Same: true, Dec: names[d]}
		if ex != nil {
			e.Ek, e.Em, e.Same = kind(ex.Info()), perm(ex.Info()), ex.Path() == in.Path()
		}
		if err != nil {
			e.Dec = "err"
		}
		a.Log = append(a.Log, e)
		return d, err
	}
}

func (r *run) do(x call) (a answer) {
	a.Log = []event{}
	name, other := slash(x.P), slash(x.Q)
	if x.X == "esc" {
		name = "../" + name
	}
	fsys := r.root
	var err error
	if len(x.B) > 0 {
		fsys, err = r.root.OpenRoot(slash(x.B))
	}
	op := x.O
	if err != nil {
		op = "" // a base the tree should have but does not
	}
	switch op {
	case "mkdir":
		err = fsys.Mkdir(name, 0o755)
	case "write":
		err = vroot.WriteFile(fsys, name, []byte(x.D), 0o644)
	case "symlink":
		err = fsys.Symlink(strings.Join(x.T, "/"), name)
	case "link":
		err = fsys.Link(name, other)
	case "rename":
		err = fsys.Rename(name, other)
	case "remove":
		err = fsys.Remove(name)
	case "removeall":
		err = fsys.RemoveAll(name)
	case "addfile":
		v := &view{name: x.V, data: x.D, mode: mode(x.M)}
		r.views[x.V] = v
		err = fsys.AddFile(name, v, r.policy(x, &a))
		a.Log = []event{}
	case "addfs":
		s := &source{m: build(x.Src), at: slash(x.F), op: x.Fop, on: x.Fop != ""}
		r.srcs[x.V] = s
		var in fs.FS = s
		if x.Rl {
			in = linkSource{s}
		}
		err = fsys.AddFS(name, in, r.policy(x, &a))
		a.Hit, s.on = s.hit, false
	case "live":
		src, p, tree := strings.Cut(x.V, ":")
		if !tree {
			if v := r.views[x.V]; v != nil {
				v.data = x.D
			}
			break
		}
		if p == "" {
			p = "."
		}
		if s := r.srcs[src]; s != nil {
			s.m[p].Data = []byte(x.D)
		}
	}
	a.Ok = err == nil
	if err != nil {
		a.Msg = err.Error()
	}
	a.Tree = []node{}
	if err := r.show(".", &a.Tree); err != nil {
		a.Msg += " looking: " + err.Error()
		a.Tree = append(a.Tree, node{P: []string{"?"}, T: []string{}})
	}
	a.N = len(a.Tree)
	a.Closed = []closed{}
	for k, v := range r.views {
		a.Closed = append(a.Closed, closed{k, v.n})
	}
	sort.Slice(a.Closed, func(i, j int) bool { return a.Closed[i].V < a.Closed[j].V })
	return a
}

func (r *run) show(p string, out *[]node) error {
	fi, err := r.root.Lstat(p)
	if err != nil {
		return err
	}
	n := node{P: list(p), K: kind(fi), M: perm(fi), T: []string{}}
	at := len(*out)
	*out = append(*out, n)
	switch n.K {
	case "d":
		es, err := vroot.ReadDir(r.root, p)
		if err != nil {
			return err
		}
		for _, e := range es {
			if err := r.show(path.Join(p, e.Name()), out); err != nil {
				return err
			}
		}
	case "l":
		t, err := r.root.ReadLink(p)
		if err != nil {
			return err
		}
		(*out)[at].M, (*out)[at].T = "", strings.Split(t, "/")
	default:
		b, err := vroot.ReadFile(r.root, p)
		if err != nil {
			return err
		}
		if int64(len(b)) != fi.Size() {
			return fmt.Errorf("%s: %d bytes, size %d", p, len(b), fi.Size())
		}
		(*out)[at].D = string(b)
	}
	return nil
}

func main() {
	rec.Main(0, 60*time.Second, func(line []byte, st *fsx.Stats) (any, error) {
		var s record
		if err := json.Unmarshal(line, &s); err != nil {
			return nil, err
		}
		um := mode(s.C.Um)
		r := &run{root: synthfs.NewRoot("g", &synthfs.Option{Umask: &um}), views: map[string]*view{}, srcs: map[string]*source{}}
		for i := range s.H {
			s.H[i].R = r.do(s.H[i].X)
		}
		atomic.AddInt64(&st.Steps, int64(len(s.H)))
		s.S = line
		return s, nil
	})
}
