package fsx

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
)

// Inst is one live instance of a subject.
type Inst struct {
	FS   FS
	Look FS  // observed instead of FS when set
	Raw  any // what the subject wraps
	Abs  Abs // prefix of absolute names
	// Exec, when set, performs the operations instead.
	Exec func(op Op) (any, error)
	// OpenRoot opens a rooted view of fsys (FS or a view Sub returned).
	OpenRoot func(fsys FS, name string) (FS, error)
	Sub      func(base string) (FS, error) // view rooted at a directory
	Close    func()
	// Reopen, when set, closes and reopens the instance in place.
	Reopen func() error
	// Restack, when set, freezes what was written and writes elsewhere from now on.
	Restack func() error
	// Check is asked after every step for subject-specific invariants.
	Check func() error
	// After, when set, sees every step with the tree expected after it.
	After func(c Case, got string, want Tree) error
	steps int
}

// Subject makes instances.
type Subject struct {
	Name string
	// New makes an instance holding tree t.
	New func(t Tree) (*Inst, error)
	// Modes: permission bits are compared.
	Modes bool
	// Accept, when set, may accept a class other than the specified one.
	Accept func(c Case, got string) bool
	// Skip leaves operations out that the subject does not support.
	Skip func(c Case, cur Tree) bool
	// Light observes the whole tree only after steps that are specified to
	// change it, every few other steps, and at the end.
	Light bool
	// Procs limits parallelism (0: all CPUs).
	Procs int
}

// Violation is one disagreement.
type Violation struct {
	Subject string   `json:"subject"`
	Msg     string   `json:"msg"`
	Sig     string   `json:"sig"`
	Init    []Node   `json:"init"`
	Layers  [][]Node `json:"layers,omitempty"`
	Hist    []Case   `json:"hist,omitempty"`
	// Raw is a driver's own form of what it did.
	Raw json.RawMessage `json:"raw,omitempty"`
}

// Stats is what a driver reports.
type Stats struct {
	Traces     int64       `json:"traces"`
	Steps      int64       `json:"steps"`
	Skipped    int64       `json:"skipped"`
	Violations []Violation `json:"violations"`
	Notes      []string    `json:"notes,omitempty"`
	mu         sync.Mutex
	sigs       map[string]int
}

func (st *Stats) Add(v Violation) {
	st.mu.Lock()
	defer st.mu.Unlock()
	if st.sigs == nil {
		st.sigs = map[string]int{}
	}
	st.sigs[v.Sig]++
	if st.sigs[v.Sig] <= 2 && len(st.Violations) < 60 {
		st.Violations = append(st.Violations, v)
	}
}

func (st *Stats) Finish(out string) {
	st.mu.Lock()
	defer st.mu.Unlock()
	b, _ := json.MarshalIndent(struct {
		*Stats
		Sigs map[string]int `json:"sigs"`
	}{st, st.sigs}, "", " ")
	if out == "" {
		os.Stdout.Write(append(b, '\n'))
		return
	}
	if err := os.WriteFile(out, b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
}

// step performs one case on inst and reports a disagreement.
func step(sub *Subject, in *Inst, c Case, cur Tree) (Tree, string) {
	want := cur.Apply(c.D)
	switch c.Op.O {
	case "reopen", "restack":
		f := in.Reopen
		if c.Op.O == "restack" {
			f = in.Restack
		}
		if f == nil {
			return want, ""
		}
		if err := f(); err != nil {
			return want, c.Op.O + ": " + err.Error()
		}
		return want, Look(sub, in, want)
	}
	fsys := in.FS
	if len(c.Op.B) > 0 {
		var err error
		fsys, err = in.Sub(filepath.Join(c.Op.B...))
		if err != nil {
			return want, fmt.Sprintf("opening a view at %v: %v", c.Op.B, err)
		}
	}
	v, err := Do(in, fsys, c.Op)
	got := Class(err)
	if err != nil && (len(err.Error()) > 5 && (err.Error()[:5] == "PANIC" || err.Error()[:5] == "SIZE " || err.Error()[:5] == "WRONG")) {
		return want, err.Error()
	}
	okc := Agrees(c.R, got)
	if !okc && sub.Accept != nil {
		okc = sub.Accept(c, got)
	}
	if !okc {
		return want, fmt.Sprintf("result: want %s, got %s (%v)", c.R, got, err)
	}
	if c.R == "ok" && err == nil && string(c.V) != `""` {
		b, _ := json.Marshal(v)
		w, g := Canon(c.V), Canon(b)
		if !sub.Modes {
			w, g = dropMode(w), dropMode(g)
		}
		if c.Op.O == "page" {
			w, g = pageView(w, c.Op.D), pageView(g, c.Op.D)
			if strings.HasSuffix(w, "null") {
				g = w[:0] + strings.Split(g, " ")[0] + " null"
			}
		}
		if w != g {
			return want, fmt.Sprintf("value: want %s, got %s", w, g)
		}
	}
	changes := len(c.D.Rm) > 0 || len(c.D.Put) > 0
	in.steps++
	if !sub.Light || changes || in.steps%7 == 0 {
		if msg := Look(sub, in, want); msg != "" {
			return want, msg
		}
	}
	if in.After != nil {
		if err := in.After(c, got, want); err != nil {
			return want, "after: " + err.Error()
		}
	}
	return want, ""
}

// pageView renders a paged listing: the page counts, and the entries when the
// specification compares them (names only where the call returns only names).
func pageView(s, how string) string {
	var v struct {
		C any `json:"c"`
		E []struct {
			N string `json:"n"`
			I any    `json:"i"`
		} `json:"e"`
	}
	json.Unmarshal([]byte(s), &v)
	if how == "Readdirnames" {
		for i := range v.E {
			v.E[i].I = nil
		}
	}
	c, _ := json.Marshal(v.C)
	e, _ := json.Marshal(v.E)
	if len(v.E) == 0 {
		e = []byte("null")
	}
	return string(c) + " " + string(e)
}

// Look compares the whole tree and the subject's invariants.
func Look(sub *Subject, in *Inst, want Tree) string {
	t, err := Observe(in)
	if err != nil {
		return "tree: " + err.Error()
	}
	if d := Diff(want, t, sub.Modes); d != "" {
		return "tree: " + d
	}
	if in.Check != nil {
		if err := in.Check(); err != nil {
			return "invariant: " + err.Error()
		}
	}
	return ""
}

func dropMode(s string) string {
	var v any
	if json.Unmarshal([]byte(s), &v) != nil {
		return s
	}
	var rec func(v any)
	rec = func(v any) {
		switch x := v.(type) {
		case map[string]any:
			if x["k"] != "ra" {
				delete(x, "m")
			}
			for _, y := range x {
				rec(y)
			}
		case []any:
			for _, y := range x {
				rec(y)
			}
		}
	}
	rec(v)
	b, _ := json.Marshal(v)
	return string(b)
}

// RunTable replays every case of a table, each on a fresh instance unless the
// state was left as it is.
func RunTable(sub *Subject, tb Table, st *Stats) {
	t0 := ToTree(tb.S)
	var in *Inst
	var done []Case // since the instance was made
	report := func(c Case, msg string) {
		st.Add(Violation{Subject: sub.Name, Msg: msg, Sig: sub.Name + "|" + c.Op.O + "|" + sigOf(msg), Init: tb.S, Hist: append([]Case{}, done...)})
	}
	for _, c := range tb.T {
		if sub.Skip != nil && sub.Skip(c, t0) {
			atomic.AddInt64(&st.Skipped, 1)
			continue
		}
		if in == nil {
			var err error
			if in, err = sub.New(t0); err != nil {
				st.Add(Violation{Subject: sub.Name, Msg: "setup: " + err.Error(), Sig: "setup", Init: tb.S})
				return
			}
			done = done[:0]
		}
		done = append(done, c)
		if !sub.Light {
			done = append(done[:0], c)
		}
		_, msg := step(sub, in, c, t0)
		atomic.AddInt64(&st.Steps, 1)
		if msg != "" {
			report(c, msg)
		}
		if msg != "" || len(c.D.Rm) > 0 || len(c.D.Put) > 0 {
			in.Close()
			in = nil
		}
	}
	if in != nil {
		if msg := Look(sub, in, t0); msg != "" && len(done) > 0 {
			report(done[len(done)-1], msg)
		}
		in.Close()
	}
	atomic.AddInt64(&st.Traces, 1)
}

func sigOf(msg string) string {
	if len(msg) > 40 {
		msg = msg[:40]
	}
	return msg
}

// RunHistory replays a history on one instance.
func RunHistory(sub *Subject, init []Node, h []Case, st *Stats) {
	t0 := ToTree(init)
	if len(init) == 0 {
		t0["."] = Node{K: "d", M: "755"}
	}
	in, err := sub.New(t0)
	if err != nil {
		st.Add(Violation{Subject: sub.Name, Msg: "setup: " + err.Error(), Sig: "setup", Init: init})
		return
	}
	RunOn(sub, in, t0, nil, h, st)
}

// RunOn replays a history on an instance showing t0 and closes it.
func RunOn(sub *Subject, in *Inst, t0 Tree, layers [][]Node, h []Case, st *Stats) {
	defer func() { in.Close() }()
	var init []Node
	for _, n := range t0 {
		init = append(init, n)
	}
	cur := t0
	if msg := Look(sub, in, cur); msg != "" {
		st.Add(Violation{Subject: sub.Name, Msg: "start: " + msg, Sig: sub.Name + "|start|" + sigOf(msg), Init: init, Layers: layers})
		return
	}
	for i, c := range h {
		if sub.Skip != nil && sub.Skip(c, cur) {
			atomic.AddInt64(&st.Skipped, 1)
			if len(c.D.Rm) > 0 || len(c.D.Put) > 0 {
				break
			}
			continue
		}
		next, msg := step(sub, in, c, cur)
		atomic.AddInt64(&st.Steps, 1)
		if msg != "" {
			st.Add(Violation{Subject: sub.Name, Msg: fmt.Sprintf("step %d: %s", i, msg), Sig: sub.Name + "|" + c.Op.O + "|" + sigOf(msg), Init: init, Layers: layers, Hist: h[:i+1]})
			break
		}
		cur = next
		if i == len(h)-1 && sub.Light {
			if msg := Look(sub, in, cur); msg != "" {
				st.Add(Violation{Subject: sub.Name, Msg: "end: " + msg, Sig: sub.Name + "|end|" + sigOf(msg), Init: init, Layers: layers, Hist: h})
			}
		}
	}
	atomic.AddInt64(&st.Traces, 1)
}

// Parallel runs f over the items a producer yields.
func Parallel[T any](procs int, produce func(yield func(T)) error, f func(T)) error {
	if procs == 0 {
		procs = runtime.NumCPU()
	}
	ch := make(chan T, 64)
	var wg sync.WaitGroup
	for range procs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for x := range ch {
				f(x)
			}
		}()
	}
	err := produce(func(x T) { ch <- x })
	close(ch)
	wg.Wait()
	return err
}
