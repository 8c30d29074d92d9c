// Command overlay replays FsTree behaviours on overlays over layers.
package main

import (
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"os"
	"regexp"
	"sort"
	"strings"
	"sync/atomic"

	"verif/harness/internal/fsx"
	"verif/harness/internal/ovl"
)

func fail(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
}

var (
	only   = flag.String("for", "", "report what breaks this property only")
	always = flag.Bool("always", false, "reopen after every operation")
)

func main() {
	kinds := flag.String("kinds", "mem", "comma separated")
	out := flag.String("out", "", "summary file")
	replay := flag.String("replay", "", "replay one violation file")
	flag.Parse()
	st := &fsx.Stats{}
	if *replay != "" {
		b, err := os.ReadFile(*replay)
		fail(err)
		var v fsx.Violation
		fail(json.Unmarshal(b, &v))
		run(strings.TrimPrefix(v.Subject, "overlay-"), fsx.Table{L: v.Layers, S: v.Init, H: v.Hist}, st)
		st.Finish("")
		return
	}
	for _, file := range flag.Args() {
		for _, k := range strings.Split(*kinds, ",") {
			fail(fsx.Parallel(0, func(yield func([]byte)) error {
				return fsx.ReadLines(file, func(raw []byte) error { yield(raw); return nil })
			}, func(raw []byte) {
				var tb fsx.Table
				fail(json.Unmarshal(raw, &tb))
				run(k, tb, st)
			}))
		}
	}
	st.Finish(*out)
}

var private = regexp.MustCompile(`merged|work|meta\.sqlite3|\.wh\.|tmp-`)

// breaks reports whether a disagreement is about the property asked for.
func breaks(v fsx.Violation, name string, tb fsx.Table) bool {
	inv := strings.Contains(v.Msg, "invariant: ")
	debris := strings.Contains(v.Msg, "staged file")
	outside := strings.Contains(v.Msg, "the top outside its content changed")
	switch *only {
	case "O01":
		return !inv
	case "O02":
		return inv && !debris && !outside || !inv && private.MatchString(v.Msg)
	case "O03":
		// The same history on an overlay that is never reopened.
		var h []fsx.Case
		for _, c := range tb.H {
			if c.Op.O != "reopen" {
				h = append(h, c)
			}
		}
		tb.H = h
		got := once(name, tb, false)
		return got.Traces > 0 && len(got.Violations) == 0
	case "O05":
		return debris
	case "O08":
		// The same history with plain names.
		raw, _ := json.Marshal(tb)
		for i, n := range names(tb) {
			raw = []byte(strings.ReplaceAll(string(raw), `"`+n+`"`, fmt.Sprintf(`"plain%d"`, i)))
		}
		var plain fsx.Table
		fail(json.Unmarshal(raw, &plain))
		got := once(name, plain, *always)
		return got.Traces > 0 && len(got.Violations) == 0
	case "O07":
		if outside {
			return true
		}
		if inv || len(v.Hist) == 0 {
			return false
		}
		c := v.Hist[len(v.Hist)-1]
		return len(c.Op.B) > 0 || c.Op.X != "" || c.R == "esc" || strings.Contains(v.Msg, "got esc") || c.Op.O == "openroot"
	}
	return true
}

// names are the path components tb uses.
func names(tb fsx.Table) []string {
	in := map[string]bool{}
	for _, c := range tb.H {
		for _, p := range [][]string{c.Op.P, c.Op.Q, c.Op.T, c.Op.B} {
			for _, x := range p {
				in[x] = x != ".." && x != "." && x != "none"
			}
		}
	}
	for _, l := range append([][]fsx.Node{tb.S}, tb.L...) {
		for _, n := range l {
			for _, x := range append(append([]string{}, n.P...), n.T...) {
				in[x] = x != ".." && x != "." && x != "none"
			}
		}
	}
	var out []string
	for n, ok := range in {
		if ok {
			out = append(out, n)
		}
	}
	sort.Strings(out)
	return out
}

func run(name string, tb fsx.Table, st *fsx.Stats) {
	got := once(name, tb, *always)
	atomic.AddInt64(&st.Traces, got.Traces)
	atomic.AddInt64(&st.Steps, got.Steps)
	for _, v := range got.Violations {
		if breaks(v, name, tb) {
			st.Add(v)
		}
	}
}

func kind(name string) ovl.Kind {
	return ovl.Kind{Name: name, OS: strings.Contains(name, "os"), Bare: strings.Contains(name, "bare"), SQLite: strings.Contains(name, "sql")}
}

func once(name string, tb fsx.Table, always bool) *fsx.Stats {
	st := &fsx.Stats{}
	k := kind(name)
	sub := &fsx.Subject{Name: "overlay-" + name, Modes: true}
	s, err := k.New(tb.L)
	if err != nil {
		st.Add(fsx.Violation{Subject: sub.Name, Msg: "setup: " + err.Error(), Sig: "setup", Layers: tb.L})
		return st
	}
	in := s.Inst()
	if always {
		after := in.After
		in.After = func(c fsx.Case, got string, want fsx.Tree) error {
			if err := after(c, got, want); err != nil {
				return err
			}
			if err := in.Reopen(); err != nil {
				return fmt.Errorf("reopen: %w", err)
			}
			if msg := fsx.Look(sub, in, want); msg != "" {
				return errors.New("reopened: " + msg)
			}
			return nil
		}
	}
	var abused error
	if *only == "O02" {
		end := in.Close
		in.Close = func() { abused = abuse(s); end() }
	}
	fsx.RunOn(sub, in, fsx.ToTree(tb.S), tb.L, tb.H, st)
	if len(st.Violations) == 0 && abused != nil {
		st.Add(fsx.Violation{Subject: sub.Name, Msg: "invariant: after opens with odd flags: " + abused.Error(),
			Sig: sub.Name + "|abuse|" + strings.SplitN(abused.Error(), ":", 2)[0], Init: tb.S, Layers: tb.L, Hist: tb.H})
	}
	return st
}

// abuse opens everything with every flag that could reach a lower and tries to
// change what it opened; whatever it does, the lowers stay as they are.
func abuse(s *ovl.Stack) error {
	tree, err := fsx.Observe(s.Inst())
	if err != nil {
		return nil
	}
	for p := range tree {
		for _, fl := range []int{os.O_RDONLY | os.O_TRUNC, os.O_RDONLY | os.O_APPEND, os.O_RDONLY | os.O_SYNC, os.O_RDONLY | os.O_EXCL,
			os.O_RDONLY | os.O_CREATE, os.O_RDWR | os.O_SYNC, os.O_WRONLY | os.O_APPEND | os.O_TRUNC} {
			f, err := s.View.OpenFile(p, fl, 0o600)
			if err != nil {
				continue
			}
			b := []byte("!")
			f.Write(b)
			f.WriteAt(b, 0)
			f.WriteString("!")
			f.Truncate(1)
			f.Chmod(0o711)
			f.Chown(os.Getuid(), os.Getgid())
			f.Sync()
			f.Close()
			f.Chmod(0o701)
		}
	}
	if err := s.Check(); err != nil && !strings.Contains(err.Error(), "staged") {
		return err
	}
	return nil
}
