// Command ovlfault stops overlay operations at every call they make on their
// layers and mask store, and writes down the trees found afterwards.
package main

import (
	"bufio"
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"math/rand/v2"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"

	"verif/harness/internal/fsx"
	"verif/harness/internal/ovl"
)

var (
	only  = flag.String("for", "", "O04 or O05")
	rec   = flag.String("rec", "", "records for OvlTrace")
	most  = flag.Int("most", 1<<30, "fault points tried per history and mode")
	seed  = flag.Uint64("seed", 1, "")
	recW  *bufio.Writer
	recMu sync.Mutex
	seen  = map[string]bool{}
)

func fail(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
}

// point is where one run was stopped.
type point struct {
	At    int    `json:"at"`
	Crash bool   `json:"crash"`
	Hit   string `json:"hit"`
}

type violation struct {
	fsx.Violation
	Point *point `json:"point,omitempty"`
	Kind  string `json:"kind"`
}

func main() {
	kinds := flag.String("kinds", "mem", "")
	out := flag.String("out", "", "")
	replay := flag.String("replay", "", "")
	flag.Parse()
	st := &fsx.Stats{}
	if *replay != "" {
		b, err := os.ReadFile(*replay)
		fail(err)
		var v struct {
			fsx.Violation
			Point *point
		}
		fail(json.Unmarshal(b, &v))
		tb := fsx.Table{L: v.Layers, S: v.Init, H: v.Hist}
		r := &runner{name: strings.TrimPrefix(v.Subject, "overlay-"), tb: tb, st: st}
		r.all(v.Point)
		st.Finish("")
		return
	}
	if *rec != "" {
		f, err := os.Create(*rec)
		fail(err)
		recW = bufio.NewWriter(f)
		defer func() { recW.Flush(); f.Close() }()
	}
	for _, file := range flag.Args() {
		for _, k := range strings.Split(*kinds, ",") {
			fail(fsx.Parallel(0, func(yield func([]byte)) error {
				return fsx.ReadLines(file, func(raw []byte) error { yield(raw); return nil })
			}, func(raw []byte) {
				var tb fsx.Table
				fail(json.Unmarshal(raw, &tb))
				(&runner{name: k, tb: tb, st: st}).all(nil)
			}))
		}
	}
	st.Finish(*out)
}

type runner struct {
	name string
	tb   fsx.Table
	st   *fsx.Stats
}

func (r *runner) bad(p *point, f string, a ...any) {
	msg := fmt.Sprintf(f, a...)
	op := r.tb.H[len(r.tb.H)-1].Op.O
	if p != nil {
		how := "failing call"
		if p.Crash {
			how = "stopped at call"
		}
		msg = fmt.Sprintf("%s: %s %d (%s): %s", r.tb.H[len(r.tb.H)-1].Op, how, p.At, p.Hit, msg)
	}
	sig := msg
	if i := strings.Index(msg, "): "); i > 0 {
		sig = msg[i+3:]
	}
	if len(sig) > 40 {
		sig = sig[:40]
	}
	r.st.Add(fsx.Violation{Subject: "overlay-" + r.name, Msg: msg, Sig: "overlay-" + r.name + "|" + op + "|" + sig, Init: r.tb.S,
		Layers: r.tb.L, Hist: r.tb.H})
}

// fresh makes the overlay and performs everything but the last operation.
func (r *runner) fresh() (*ovl.Stack, *fsx.Inst, *ovl.Injector) {
	k := ovl.Kind{Name: r.name, SQLite: strings.Contains(r.name, "sql")}
	j := &ovl.Injector{At: -1}
	k.Attach = func(d *ovl.Disk, lower bool) { j.Attach(d, lower) }
	s, err := k.New(r.tb.L)
	if err != nil {
		return nil, nil, nil
	}
	in := s.Inst()
	for _, c := range r.tb.H[:len(r.tb.H)-1] {
		if r.do(in, c, "") != nil && c.R == "ok" {
			in.Close()
			return nil, nil, nil // a disagreement O01 reports
		}
	}
	return s, in, j
}

func (r *runner) do(in *fsx.Inst, c fsx.Case, _ string) error {
	switch c.Op.O {
	case "reopen":
		return in.Reopen()
	case "restack":
		return in.Restack()
	}
	f := in.FS
	if len(c.Op.B) > 0 {
		var err error
		if f, err = in.Sub(filepath.Join(c.Op.B...)); err != nil {
			return err
		}
	}
	_, err := fsx.Do(in, f, c.Op)
	return err
}

func (r *runner) all(one *point) {
	h := r.tb.H
	last := h[len(h)-1]
	before := fsx.ToTree(r.tb.S)
	for _, c := range h[:len(h)-1] {
		before = before.Apply(c.D)
	}
	after := before.Apply(last.D)
	s, in, j := r.fresh()
	if s == nil {
		return
	}
	sub := &fsx.Subject{Modes: true}
	if fsx.Look(sub, in, before) != "" {
		in.Close()
		return
	}
	j.Arm(-1, false)
	err := r.do(in, last, "")
	n := j.Disarm()
	ok := err == nil && fsx.Look(sub, in, after) == ""
	in.Close()
	if !ok {
		return // O01's
	}
	atomic.AddInt64(&r.st.Traces, 1)
	if one != nil {
		r.at(*one, before, after, last)
		return
	}
	for _, crash := range []bool{false, true} {
		ks := rand.New(rand.NewPCG(*seed, uint64(n))).Perm(n)
		if len(ks) > *most {
			ks = ks[:*most]
		}
		for _, k := range ks {
			if !r.at(point{At: k, Crash: crash}, before, after, last) {
				return
			}
		}
	}
}

func (r *runner) at(p point, before, after fsx.Tree, last fsx.Case) bool {
	s, in, j := r.fresh()
	if s == nil {
		return false
	}
	defer func() { in.Close() }()
	atomic.AddInt64(&r.st.Steps, 1)
	sub := &fsx.Subject{Modes: true}
	j.Arm(p.At, p.Crash)
	opErr := r.do(in, last, "")
	if !p.Crash {
		j.Disarm()
	}
	p.Hit = j.Hit
	o04, o05 := *only != "O05", *only != "O04"
	call, name, _ := strings.Cut(p.Hit, " ")
	if err := opErr; err != nil && strings.HasPrefix(err.Error(), "PANIC") {
		r.bad(&p, "%v", err)
		return false
	}
	var live fsx.Tree
	if !p.Crash {
		// Documented: attributes of a copy are brought in line where that works.
		if (call == "chmod" || call == "chtimes") && strings.HasPrefix(name, "work") {
			return true
		}
		if o05 && !(call == "remove" && strings.HasPrefix(name, "work")) {
			if m := s.Debris(); m != "" {
				r.bad(&p, "%s is left behind", m)
				return false
			}
		}
		var err error
		if live, err = fsx.Observe(in); err != nil {
			if o04 {
				r.bad(&p, "the overlay cannot be read any more: %v", err)
			}
			return false
		}
		if opErr == nil {
			if d := fsx.Diff(after, live, true); d != "" {
				r.bad(&p, "success was reported, but %s", d)
				return false
			}
		}
		if fsx.Diff(before, live, true) == "" && opErr != nil && o05 {
			// A later attempt succeeds.
			if err := r.do(in, last, ""); err != nil {
				r.bad(&p, "it changed nothing, but done again it fails: %v", err)
				return false
			} else if d := fsx.Look(sub, in, after); d != "" {
				r.bad(&p, "it changed nothing, but done again: %s", d)
				return false
			}
			return true
		}
	}
	s.Close()
	j.Disarm()
	if err := s.Open(); err != nil {
		if o04 {
			r.bad(&p, "the overlay cannot be opened again: %v", err)
		}
		in.Close = s.Free
		return false
	}
	in.FS = s.View
	got, err := fsx.Observe(in)
	if err != nil {
		if o04 {
			r.bad(&p, "reopened, the overlay cannot be read: %v", err)
		}
		return false
	}
	if err := s.Check(); err != nil && o05 {
		r.bad(&p, "%v", err)
		return false
	}
	for _, t := range []fsx.Tree{got, live} {
		if t != nil && fsx.Diff(before, t, true) != "" && fsx.Diff(after, t, true) != "" {
			r.record(p, before, t, last)
		}
	}
	return true
}

func flat(t fsx.Tree) []map[string]any {
	var out []map[string]any
	for k, n := range t {
		m := map[string]any{"p": []string{}, "k": n.K}
		if k != "." {
			m["p"] = strings.Split(k, "/")
		}
		switch n.K {
		case "d":
			m["m"] = n.M
		case "f":
			m["m"], m["d"], m["i"] = n.M, n.D, n.I
		case "l":
			m["a"], m["t"] = n.A, n.T
			if n.T == nil {
				m["t"] = []string{}
			}
		}
		out = append(out, m)
	}
	return out
}

// record leaves the judgement to the specification.
func (r *runner) record(p point, before, got fsx.Tree, last fsx.Case) {
	if recW == nil {
		r.bad(&p, "left between: %s", fsx.Diff(before, got, true))
		return
	}
	key, err := json.Marshal(map[string]any{"b": before.Lines(true), "g": got.Lines(true), "o": last.Op})
	fail(err)
	recMu.Lock()
	defer recMu.Unlock()
	if seen[string(key)] {
		return
	}
	seen[string(key)] = true
	op := map[string]any{"o": last.Op.O, "b": orEmpty(last.Op.B), "x": last.Op.X, "p": orEmpty(last.Op.P)}
	raw, _ := json.Marshal(last.Op)
	var more map[string]any
	json.Unmarshal(raw, &more)
	for k, v := range more {
		if _, ok := op[k]; !ok && v != nil {
			op[k] = v
		}
	}
	switch last.Op.O {
	case "rename", "link":
		op["q"] = orEmpty(last.Op.Q)
	case "symlink":
		op["a"], op["t"] = last.Op.A, orEmpty(last.Op.T)
	case "write", "create", "excl", "append", "appendc", "poke":
		op["d"] = last.Op.D
	}
	b, err := json.Marshal(map[string]any{
		"before": flat(before), "op": op, "after": flat(got),
		"v": fsx.Violation{Subject: "overlay-" + r.name, Msg: fmt.Sprintf("%s: stopped at call %d (%s): %s", last.Op, p.At, p.Hit, fsx.Diff(before, got, true)),
			Sig: "overlay-" + r.name + "|" + last.Op.O + "|between", Init: r.tb.S, Layers: r.tb.L, Hist: r.tb.H},
	})
	fail(err)
	recW.Write(append(b, '\n'))
}

func orEmpty(p []string) []string {
	if p == nil {
		return []string{}
	}
	return p
}

var _ = errors.New
