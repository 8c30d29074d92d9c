// Command copytree runs the scenarios of SimCopy on fsutil's tree copies, going wrong at every single call.
package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"io/fs"
	"path/filepath"
	"strconv"
	"strings"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/ngicks/go-fsys-helper/fsutil"
	"github.com/ngicks/go-fsys-helper/vroot"

	"verif/harness/internal/fsx"
	"verif/harness/internal/rec"
	"verif/harness/internal/tap"
)

type node struct {
	P []string `json:"p"`
	K string   `json:"k"`
	M string   `json:"m"`
	D string   `json:"d"`
}

type scen struct {
	K      string     `json:"k"`
	All    bool       `json:"all"`
	Sel    [][]string `json:"sel"`
	Root   []string   `json:"root"`
	Abs    bool       `json:"abs"`
	Links  bool       `json:"links"`
	Mask   string     `json:"mask"`
	Ign    bool       `json:"ign"`
	S      []node     `json:"S"`
	T      []node     `json:"T"`
	Sfs    string     `json:"sfs"`
	Dfs    string     `json:"dfs"`
	Plain  bool       `json:"plain"`
	Nolink bool       `json:"nolink"`
	F      bool       `json:"f"`
	How    string     `json:"how"`
	Class  string     `json:"class"`
	Sps    string     `json:"sps"`
	Pure   int        `json:"pure"`
	At     int        `json:"at"`
}

func check(err error) {
	if err != nil {
		panic("harness: " + err.Error())
	}
}

func join(p []string) string {
	if len(p) == 0 {
		return "."
	}
	return strings.Join(p, "/")
}

var big = strings.Repeat("0123456789abcdef", 9000) + "!"

func text(d string) string {
	if d == "BIG" {
		return big
	}
	return d
}

func brief(d string) string {
	if d == big {
		return "BIG"
	}
	if len(d) > 20 {
		if strings.HasPrefix(big, d) {
			return "B" // the beginning of it
		}
		return d[:20] + "..."
	}
	return d
}

func mode(m string) fs.FileMode {
	x, err := strconv.ParseUint(m, 8, 32)
	check(err)
	r := fs.FileMode(x & 0o777)
	for bit, f := range map[uint64]fs.FileMode{0o4000: fs.ModeSetuid, 0o2000: fs.ModeSetgid, 0o1000: fs.ModeSticky} {
		if x&bit != 0 {
			r |= f
		}
	}
	return r
}

func octal(m fs.FileMode) string {
	x := uint32(m.Perm())
	for bit, f := range map[uint32]fs.FileMode{0o4000: fs.ModeSetuid, 0o2000: fs.ModeSetgid, 0o1000: fs.ModeSticky} {
		if m&f != 0 {
			x |= bit
		}
	}
	return fmt.Sprintf("%04o", x)
}

func build(f fsx.FS, ns []node) {
	for _, n := range ns { // parents first
		name := join(n.P)
		switch n.K {
		case "d":
			check(f.Mkdir(name, 0o755))
		case "f":
			check(vroot.WriteFile(f, name, []byte(text(n.D)), 0o644))
		case "l":
			check(f.Symlink(n.D, name))
		}
	}
	for i := len(ns) - 1; i >= 0; i-- {
		if ns[i].K != "l" {
			check(f.Chmod(join(ns[i].P), mode(ns[i].M)))
		}
	}
}

func look(f fsx.FS, at []string, out []node) []node {
	name := join(at)
	fi, err := f.Lstat(name)
	check(err)
	n := node{P: append([]string{}, at...), M: octal(fi.Mode())}
	switch {
	case fi.IsDir():
		n.K = "d"
		out = append(out, n)
		es, err := vroot.ReadDir(f, name)
		check(err)
		for _, e := range es {
			out = look(f, append(append([]string{}, at...), e.Name()), out)
		}
		return out
	case fi.Mode()&fs.ModeSymlink != 0:
		n.K, n.M = "l", "-"
		n.D, err = f.ReadLink(name)
		check(err)
	default:
		n.K = "f"
		b, err := vroot.ReadFile(f, name)
		check(err)
		n.D = brief(string(b))
	}
	return append(out, n)
}

// plain knows neither links nor Stat.
type plain struct{ in fs.FS }

func (p plain) Open(name string) (fs.File, error) { return p.in.Open(name) }

// nolink is a destination that can't make links.
type nolink struct{ in *tap.Fs }

func (n nolink) OpenFile(name string, flag int, m fs.FileMode) (vroot.File, error) {
	return n.in.OpenFile(name, flag, m)
}
func (n nolink) Mkdir(name string, m fs.FileMode) error { return n.in.Mkdir(name, m) }
func (n nolink) Chmod(name string, m fs.FileMode) error { return n.in.Chmod(name, m) }
func (n nolink) Stat(name string) (fs.FileInfo, error)  { return n.in.Stat(name) }

func spell(s, how string) string {
	switch how {
	case "dot":
		return "./" + s
	case "slash":
		return s + "/"
	}
	return s
}

type result struct {
	C, S any
	H    any
}

func copyIt[F interface {
	fsutil.OpenFileFs[vroot.File]
	fsutil.MkdirFs
	fsutil.ChmodFs
}](s scen, dst F, src fs.FS) error {
	opt := fsutil.CopyFsOption[F, vroot.File]{}
	switch s.Mask {
	case "unix":
		opt.MaskChmodMode = fsutil.MaskChmodMode
	case "700":
		opt.MaskChmodMode = func(m fs.FileMode) fs.FileMode { return m & 0o700 }
	}
	if s.Ign {
		opt.IgnoreErr = func(err error) bool { return errors.Is(err, tap.ErrInjected) }
	}
	root := spell(join(s.Root), s.Sps)
	if s.All {
		return opt.CopyAll(dst, src, root)
	}
	if s.Abs {
		root = "/" + join(s.Root)
	}
	var ps []string
	for _, p := range s.Sel {
		ps = append(ps, spell(join(p), s.Sps))
	}
	return opt.CopyPath(dst, src, root, ps...)
}

// outcome of a run with call number at of one side going wrong; calls are how many each side had.
type outcome struct {
	srcN, dstN int
	step       map[string]any
	s, t       []node
}

func run(s scen, side string, at int) outcome {
	sf, sdone, err := tap.Fresh(s.Sfs)
	check(err)
	defer sdone()
	df, ddone, err := tap.Fresh(s.Dfs)
	check(err)
	defer ddone()
	build(sf, s.S)
	build(df, s.T)
	var o outcome
	o.s, o.t = look(sf, nil, nil), look(df, nil, nil)
	st, dt := &tap.Tap{How: s.How, Class: s.Class}, &tap.Tap{How: s.How, Class: s.Class}
	if side == "src" {
		st.At = at
	} else {
		dt.At = at
	}
	src := vroot.ToIoFs[vroot.File](&tap.Fs{In: sf, T: st})
	if s.Plain {
		src = plain{src}
	}
	dst := &tap.Fs{In: df, T: dt}
	if s.Nolink {
		err = copyIt(s, nolink{dst}, src)
	} else {
		err = copyIt(s, dst, src)
	}
	o.srcN, o.dstN = st.N, dt.N
	e := "nil"
	if err != nil {
		e = "err"
	}
	hit, where := "", []string{}
	if c := st.Hit; c != nil {
		hit = "yes"
		name := filepath.ToSlash(filepath.Clean(c.Name))
		isdir := name == "."
		for _, n := range s.S {
			isdir = isdir || n.K == "d" && join(n.P) == name
		}
		switch {
		case c.Op == "close" || c.Op == "read" && c.Len <= 1 || c.Op == "lstat" && s.Plain:
			hit = "no" // a probe, or stands in for what is known already
		case s.All && isdir && (c.Op == "open" || c.Op == "readdir" || c.Op == "fstat") || name == "." && (c.Op == "stat" || c.Op == "lstat"):
			hit = "walk"
			if name != "." {
				where = strings.Split(name, "/")
			}
		}
	}
	if dt.Hit != nil {
		hit = "yes"
	}
	for _, c := range []*tap.Call{st.Hit, dt.Hit} {
		if c != nil && c.Nat {
			hit = ""
		}
	}
	after := look(df, nil, nil)
	if s2 := look(sf, nil, nil); fmt.Sprint(s2) != fmt.Sprint(o.s) {
		e = "source changed"
		after = nil
	}
	what := ""
	for _, c := range []*tap.Call{st.Hit, dt.Hit} {
		if c != nil {
			what = side + " " + c.How + " " + c.Op + " " + c.Name
		}
	}
	msg := ""
	if err != nil {
		msg = err.Error()
	}
	if after == nil {
		after = []node{}
	}
	o.step = map[string]any{"e": e, "hit": hit, "at": where, "A": after, "what": what, "msg": msg}
	return o
}

func main() {
	syscall.Umask(0o27)
	rec.Main(0, 60*time.Second, func(raw []byte, st *fsx.Stats) (any, error) {
		var in struct {
			C scen `json:"c"`
		}
		if err := json.Unmarshal(raw, &in); err != nil {
			return nil, err
		}
		s := in.C
		first := run(s, "", 0)
		h := []any{first.step}
		if s.F {
			for _, w := range []struct {
				side string
				n    int
			}{{"src", first.srcN}, {"dst", first.dstN}} {
				for i := 1; i <= w.n; i++ {
					h = append(h, run(s, w.side, i).step)
				}
			}
		}
		atomic.AddInt64(&st.Steps, int64(len(h)))
		if s.Sel == nil {
			s.Sel = [][]string{}
		}
		if s.Root == nil {
			s.Root = []string{}
		}
		s.S, s.T = first.s, first.t
		return map[string]any{"c": s, "h": h, "s": json.RawMessage(raw)}, nil
	})
}
