// Command marks replays MaskStore histories on the sqlite mask store.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"sort"
	"strings"
	"sync/atomic"

	"github.com/ngicks/go-fsys-helper/vroot"
	"github.com/ngicks/go-fsys-helper/vroot-adapter/overlayfs"
	"github.com/ngicks/go-fsys-helper/vroot/memfs"
	"github.com/ngicks/go-fsys-helper/vroot/osfs"
	"github.com/ngicks/go-fsys-helper/vroot/synthfs"

	"verif/harness/internal/fsx"
)

// Names the abstract a, b, c stand for.
var names = []map[string]string{
	{"a": "a", "b": "b", "c": "c"},
	{"a": "d", "b": "d-", "c": "d0"},
	{"a": "d", "b": "d.txt", "c": "d "},
	{"a": "%", "b": "_", "c": "%_"},
	{"a": "A", "b": "a", "c": "aa"},
	{"a": "é", "b": "e\u0301", "c": "\xff"},
	{"a": "'", "b": "\"", "c": "\\"},
	{"a": ".wh.x", "b": "...", "c": "x;--"},
	{"a": "\x01", "b": "\U0010ffff", "c": "~"},
	{"a": "*", "b": "?", "c": "[a]"},
}

type step struct {
	O string     `json:"o"`
	P []string   `json:"p"`
	X int        `json:"x"`
	W [][]string `json:"w"`
	Q [][]string `json:"q"`
}

func fail(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
}

func path(p []string, m map[string]string) string {
	var q []string
	for _, c := range p {
		q = append(q, m[c])
	}
	return strings.Join(q, "/")
}

func spell(p string, x int) string {
	switch x {
	case 1:
		return "/" + p
	case 2:
		return "./" + p
	case 3:
		return p + "/"
	case 4:
		return "zz/../" + p
	case 5:
		return "../" + p
	case 6:
		return strings.ReplaceAll(p, "/", "//")
	}
	return p
}

func set(ps [][]string, m map[string]string) string {
	var out []string
	for _, p := range ps {
		out = append(out, path(p, m))
	}
	return list(out)
}

func list(s []string) string {
	s = append([]string{}, s...)
	sort.Strings(s)
	return fmt.Sprintf("%q", s)
}

func run(h []step, m map[string]string, kind string, every bool) string {
	var fsys *osfs.Root
	var mem *synthfs.Root
	if kind == "os" {
		d, err := os.MkdirTemp("", "marks")
		fail(err)
		defer os.RemoveAll(d)
		fsys, err = osfs.NewRoot(d)
		fail(err)
		defer fsys.Close()
	} else {
		mem = memfs.New("m")
	}
	open := func() (overlayfs.MetadataStore, error) {
		if fsys != nil {
			return overlayfs.NewMetadataStoreSQLite[*osfs.File](fsys, "meta.sqlite3")
		}
		return overlayfs.NewMetadataStoreSQLite[vroot.File](mem, "meta.sqlite3")
	}
	s, err := open()
	if err != nil {
		return "open: " + err.Error()
	}
	defer func() { s.Close() }()
	for i, c := range h {
		n := spell(path(c.P, m), c.X)
		var err error
		switch c.O {
		case "SetWhiteout":
			err = s.SetWhiteout(n)
		case "ClearWhiteout":
			err = s.ClearWhiteout(n)
		case "SetOpaque":
			err = s.SetOpaque(n)
		case "ClearOpaque":
			err = s.ClearOpaque(n)
		}
		if err != nil {
			return fmt.Sprintf("step %d: %s(%q): %v", i, c.O, n, err)
		}
		if c.O == "reopen" || every {
			if err := s.Close(); err != nil {
				return fmt.Sprintf("step %d: close: %v", i, err)
			}
			if s, err = open(); err != nil {
				return fmt.Sprintf("step %d: reopen: %v", i, err)
			}
		}
		w, o, err := s.Load()
		if err != nil {
			return fmt.Sprintf("step %d: load: %v", i, err)
		}
		if list(w) != set(c.W, m) || list(o) != set(c.Q, m) {
			return fmt.Sprintf("step %d: after %s(%q): whiteouts want %s got %s; opaques want %s got %s", i, c.O, n,
				set(c.W, m), list(w), set(c.Q, m), list(o))
		}
	}
	return ""
}

type job struct {
	Hist  []step            `json:"hist"`
	Names map[string]string `json:"names"`
	Kind  string            `json:"kind"`
	Every bool              `json:"every"`
}

func main() {
	out := flag.String("out", "", "")
	kind := flag.String("kind", "mem", "")
	every := flag.Bool("every", false, "reopen after every step")
	replay := flag.String("replay", "", "")
	flag.Parse()
	st := &fsx.Stats{}
	do := func(j job) {
		msg := run(j.Hist, j.Names, j.Kind, j.Every)
		atomic.AddInt64(&st.Traces, 1)
		atomic.AddInt64(&st.Steps, int64(len(j.Hist)))
		if msg != "" {
			raw, _ := json.Marshal(j)
			st.Add(fsx.Violation{Subject: "sqlite-" + j.Kind, Msg: msg, Sig: "sqlite|" + strings.SplitN(strings.SplitN(msg, ": ", 2)[1], "(", 2)[0], Raw: raw})
		}
	}
	if *replay != "" {
		b, err := os.ReadFile(*replay)
		fail(err)
		var v fsx.Violation
		fail(json.Unmarshal(b, &v))
		var j job
		fail(json.Unmarshal(v.Raw, &j))
		do(j)
		st.Finish("")
		return
	}
	for _, f := range flag.Args() {
		var n int64
		fail(fsx.Parallel(0, func(yield func([]byte)) error {
			return fsx.ReadLines(f, func(raw []byte) error { yield(append([]byte{}, raw...)); return nil })
		}, func(raw []byte) {
			var h []step
			fail(json.Unmarshal(raw, &h))
			do(job{h, names[int(atomic.AddInt64(&n, 1))%len(names)], *kind, *every})
		}))
	}
	st.Finish(*out)
}
