// Command lin runs the scripts of SimLin: a few threads on one filesystem, one at a time with every switch
// chosen here (-sched), or freely. It is built with package sync replaced by ysync, see bin/kit.py.
package main

import (
	"bufio"
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"hash/fnv"
	"io"
	"io/fs"
	"math/rand"
	"os"
	"slices"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/ngicks/go-fsys-helper/vroot"
	"github.com/ngicks/go-fsys-helper/vroot/memfs"
	"github.com/ngicks/go-fsys-helper/vroot/synthfs"

	"verif/harness/internal/fsx"
	"verif/harness/internal/ovl"
	"verif/harness/ysync"
)

type op struct {
	O  string   `json:"o"`
	ID int      `json:"id"`
	B  []string `json:"b"`
	X  string   `json:"x"`
	P  []string `json:"p"`
	Q  []string `json:"q"`
	A  bool     `json:"a"`
	T  []string `json:"t"`
	M  string   `json:"m"`
	D  string   `json:"d"`
	N  int      `json:"n"`
	Fl []string `json:"fl"`
}

type script struct {
	C struct {
		Sub  string `json:"sub"`
		View bool   `json:"view"`
		Th   int    `json:"th"`
		Mode string `json:"mode"`
	} `json:"c"`
	H []struct {
		Sec string `json:"sec"`
		Op  op     `json:"op"`
	} `json:"h"`
	Picks []int `json:"picks"` // the schedule to replay
}

type event struct {
	op
	Th   int    `json:"th"`
	Call int64  `json:"call"`
	Ret  int64  `json:"ret"`
	R    string `json:"r"`
	V    any    `json:"v"`
	Msg  string `json:"msg"`
}

type node struct {
	P []string `json:"p"`
	K string   `json:"k"`
	M string   `json:"m"`
	D string   `json:"d"`
	A bool     `json:"a"`
	T []string `json:"t"`
	I int      `json:"i"`
}

type record struct {
	C     any             `json:"c"`
	Init  []node          `json:"init"`
	H     []event         `json:"h"`
	Tree  []node          `json:"tree"`
	Stuck bool            `json:"stuck"`
	Stale bool            `json:"stale"`
	Low   [][]string      `json:"low"` // directories of the lower layers
	S     json.RawMessage `json:"s"`
	Picks []int           `json:"picks"`
}

func check(err error) {
	if err != nil {
		panic("harness: " + err.Error())
	}
}

func list(s []string) []string {
	if s == nil {
		return []string{}
	}
	return s
}

// world is one filesystem and what is open on it.
type world struct {
	sub  *fsx.Inst
	fsys fsx.FS
	view fsx.FS // rooted at a, when there is one
	free func()
	sub1 func(name string) (fsx.FS, error)
	low  [][]string
	t0   time.Time
	// What each goroutine opened and did, goroutine 0 coming before the others: nothing here orders the
	// calls of different goroutines for the race detector.
	open [4]map[int]vroot.File
	log  [4][]event
}

func (w *world) handle(th, id int) vroot.File {
	if f := w.open[th][id]; f != nil {
		return f
	}
	return w.open[0][id]
}

// now tells the time in steps of two, so that a call made as another returned can be told to overlap it.
func (w *world) now() int64 { return 2 * int64(time.Since(w.t0)) }

func dots(b []byte) string { return strings.ReplaceAll(string(b), "\x00", ".") }

// do makes one call and logs it; a call on a handle that is not there is left out.
func (w *world) do(th int, o op) {
	f := w.handle(th, o.ID)
	onHandle := strings.HasPrefix(o.O, "h") || o.O == "close"
	if onHandle && f == nil {
		return
	}
	if o.O == "open" && f != nil {
		o.O, o.Fl = "stat", []string{} // the handle is taken
		if len(o.P) == 0 {
			return
		}
	}
	fsys := w.fsys
	if len(o.B) > 0 {
		if w.view == nil {
			o.P = append(slices.Clone(o.B), o.P...)
			if len(o.Q) > 0 {
				o.Q = append(slices.Clone(o.B), o.Q...)
			}
			o.B = []string{}
		} else {
			fsys = w.view
		}
	}
	p, q := fsx.Key(o.P), fsx.Key(o.Q)
	perm := fs.FileMode(0)
	if o.M != "" {
		m, err := strconv.ParseUint(o.M, 8, 32)
		check(err)
		perm = fs.FileMode(m)
	}
	e := event{op: o, Th: th, V: ""}
	e.Fl, e.P, e.Q, e.T, e.B = list(e.Fl), list(e.P), list(e.Q), list(e.T), list(e.B)
	e.Call = w.now()
	var err error
	var v any = ""
	defer func() {
		if p := recover(); p != nil {
			if s, ok := p.(string); ok && strings.HasPrefix(s, "harness: ") {
				panic(p)
			}
			e.Ret, e.R, e.Msg = w.now()+1, "panic", fmt.Sprint(p)
			w.log[th] = append(w.log[th], e)
		}
	}()
	switch o.O {
	case "mkdir":
		err = fsys.Mkdir(p, perm)
	case "mkdirall":
		err = fsys.MkdirAll(p, perm)
	case "remove":
		err = fsys.Remove(p)
	case "removeall":
		err = fsys.RemoveAll(p)
	case "rename":
		err = fsys.Rename(p, q)
	case "link":
		err = fsys.Link(p, q)
	case "symlink":
		err = fsys.Symlink(strings.Join(o.T, "/"), p)
	case "chmod":
		err = fsys.Chmod(p, perm)
	case "write":
		err = vroot.WriteFile(fsys, p, []byte(o.D), 0o644)
	case "stat", "lstat":
		var fi fs.FileInfo
		if o.O == "stat" {
			fi, err = fsys.Stat(p)
		} else {
			fi, err = fsys.Lstat(p)
		}
		if err == nil {
			v = fsx.Info(fi)
		}
	case "readlink":
		var s string
		if s, err = fsys.ReadLink(p); err == nil {
			v = map[string]any{"k": "l", "a": false, "t": strings.Split(s, "/")}
		}
	case "open":
		var h vroot.File
		if h, err = fsys.OpenFile(p, fsx.Flags(strings.Join(o.Fl, "+")), 0o644); err == nil {
			w.open[th][o.ID] = h
		}
	case "close":
		delete(w.open[th], o.ID)
		err = f.Close()
	case "hwrite":
		var n int
		n, err = f.Write([]byte(o.D))
		if err == nil && n != len(o.D) {
			err = io.ErrShortWrite
		}
	case "hwriteat":
		var n int
		n, err = f.WriteAt([]byte(o.D), int64(o.N))
		if err == nil && n != len(o.D) {
			err = io.ErrShortWrite
		}
	case "htrunc":
		err = f.Truncate(int64(o.N))
	case "hsize":
		var fi fs.FileInfo
		if fi, err = f.Stat(); err == nil {
			v = map[string]any{"n": fi.Size()}
			if fi.IsDir() {
				return
			}
		}
	case "hall":
		b := make([]byte, 64)
		var n int
		n, err = f.ReadAt(b, 0)
		if err == io.EOF {
			err = nil
		} else if err == nil {
			err = errors.New("no end")
		}
		if err == nil {
			v = map[string]any{"d": dots(b[:n])}
		}
	case "hread":
		b := make([]byte, o.N)
		var n int
		n, err = f.Read(b)
		if err == io.EOF {
			err = nil
		}
		if err == nil {
			v = map[string]any{"d": dots(b[:n])}
		}
	case "hlist":
		l := [][]string{}
		var es []fs.DirEntry
		es, err = f.ReadDir(o.N)
		eof := err == io.EOF
		if eof {
			err = nil
		}
		for _, e := range es {
			k := "f"
			if e.IsDir() {
				k = "d"
			} else if e.Type()&fs.ModeSymlink != 0 {
				k = "l"
			}
			l = append(l, []string{e.Name(), k})
		}
		if err == nil {
			v = map[string]any{"l": l, "eof": eof}
		}
	default:
		panic("harness: unknown call " + o.O)
	}
	e.Ret = w.now() + 1
	e.R = fsx.Class(err)
	if err != nil {
		e.Msg = err.Error()
	} else {
		e.V = v
	}
	w.log[th] = append(w.log[th], e)
}

// look reads the whole tree.
func (w *world) look() ([]node, error) {
	t, err := fsx.Observe(w.sub)
	if err != nil {
		return nil, err
	}
	out := []node{}
	for _, n := range t {
		x := node{P: list(n.P), K: n.K, M: n.M, D: strings.ReplaceAll(n.D, "\x00", "."), A: n.A, T: list(n.T)}
		out = append(out, x)
	}
	slices.SortFunc(out, func(a, b node) int { return strings.Compare(fsx.Key(a.P), fsx.Key(b.P)) })
	for i := range out {
		out[i].I = i + 1
	}
	return out, nil
}

func apply(f fsx.FS, o op) {
	p := fsx.Key(o.P)
	switch o.O {
	case "mkdir":
		f.Mkdir(p, 0o755)
	case "write":
		vroot.WriteFile(f, p, []byte(o.D), 0o644)
	case "symlink":
		f.Symlink(strings.Join(o.T, "/"), p)
	case "remove":
		f.Remove(p)
	case "removeall":
		f.RemoveAll(p)
	case "rename":
		f.Rename(p, fsx.Key(o.Q))
	}
}

// build makes the filesystem of s up to where its threads start, and what was there before its first logged call.
func build(s *script) (*world, []node) {
	w := &world{low: [][]string{}, t0: time.Now()}
	for i := range w.open {
		w.open[i] = map[int]vroot.File{}
	}
	um := fs.FileMode(0o022)
	switch s.C.Sub {
	case "mem":
		m := memfs.New("m")
		check(m.Chmod(".", 0o755))
		w.fsys, w.free = vroot.Widen[vroot.File](m), func() { m.Close() }
		w.sub1 = func(n string) (fsx.FS, error) {
			r, err := m.OpenRoot(n)
			if err != nil {
				return nil, err
			}
			return vroot.Widen[vroot.File](r), nil
		}
	case "synth":
		m := synthfs.NewRoot("m", &synthfs.Option{Umask: &um})
		check(m.Chmod(".", 0o755))
		w.fsys, w.free = vroot.Widen[vroot.File](m), func() { m.Close() }
		w.sub1 = func(n string) (fsx.FS, error) {
			r, err := m.OpenRoot(n)
			if err != nil {
				return nil, err
			}
			return vroot.Widen[vroot.File](r), nil
		}
	case "ovl":
		var low [][]fsx.Node
		for _, sec := range []string{"w1", "w2"} {
			m := synthfs.NewRoot("m", &synthfs.Option{Umask: &um})
			check(m.Chmod(".", 0o755))
			for _, x := range s.H {
				if x.Sec == sec {
					apply(m, x.Op)
				}
			}
			t, err := fsx.Observe(&fsx.Inst{FS: m})
			check(err)
			var l []fsx.Node
			i := 0
			for _, n := range t {
				i++
				n.I = i
				if n.K == "d" {
					w.low = append(w.low, list(n.P))
				}
				l = append(l, n)
			}
			low = append(low, l)
			m.Close()
		}
		st, err := ovl.Kind{Name: "mem"}.New(low)
		check(err)
		w.fsys, w.free = st.View, st.Free
		w.sub1 = func(n string) (fsx.FS, error) { return ovl.OpenRoot(st.View, n) }
		for _, x := range s.H {
			if x.Sec == "s" {
				apply(w.fsys, x.Op)
			}
		}
	default:
		panic("harness: unknown subject " + s.C.Sub)
	}
	w.sub = &fsx.Inst{FS: w.fsys}
	init, err := w.look()
	check(err)
	for _, x := range s.H {
		if x.Sec == "s" && s.C.Sub != "ovl" || x.Sec == "o" {
			w.do(0, x.Op)
		}
	}
	if s.C.View {
		if fi, err := w.fsys.Lstat("a"); err == nil && fi.IsDir() {
			w.view, err = w.sub1("a")
			check(err)
		}
	}
	return w, init
}

func (w *world) end() {
	for _, m := range w.open {
		for _, f := range m {
			f.Close()
		}
	}
	w.free()
}

// schedule is how to choose who goes on: as told, then at random.
type schedule struct {
	told []int // index into those who can, 0 being the one at hand if it can go on
	rnd  *rand.Rand
	odds int // of a switch, in percent
	made []int
	wide []int // how many there were to choose from
}

func (c *schedule) pick(can []int, self bool) int {
	k := 0
	switch {
	case len(c.made) < len(c.told):
		k = c.told[len(c.made)]
		if k >= len(can) {
			k = 0
		}
	case c.rnd == nil:
	case !self || c.rnd.Intn(100) < c.odds:
		k = c.rnd.Intn(len(can))
	}
	c.made = append(c.made, k)
	c.wide = append(c.wide, len(can))
	return can[k]
}

const limit = 20 * time.Second

// play runs s once. With no schedule the threads run freely.
func play(s *script, c *schedule) (*record, error) {
	w, init := build(s)
	r := &record{C: s.C, Init: init, Stale: s.C.Sub == "ovl", Low: w.low}
	var fs []func()
	for _, sec := range []string{"1", "2", "3"} {
		var ops []op
		for _, x := range s.H {
			if x.Sec == sec {
				ops = append(ops, x.Op)
			}
		}
		if len(ops) == 0 {
			continue
		}
		th, _ := strconv.Atoi(sec)
		fs = append(fs, func() {
			for _, o := range ops {
				ysync.Point()
				w.do(th, o)
			}
		})
	}
	done := make(chan bool, 1)
	if c != nil {
		sc := &ysync.Sched{Pick: c.pick}
		go func() { sc.Run(fs); done <- sc.Stuck }()
	} else {
		var wg sync.WaitGroup
		start := make(chan struct{})
		for _, f := range fs {
			wg.Add(1)
			go func() { defer wg.Done(); <-start; f() }()
		}
		close(start)
		go func() { wg.Wait(); done <- false }()
	}
	select {
	case r.Stuck = <-done:
	case <-time.After(limit):
		r.Stuck = true
	}
	if r.Stuck {
		r.H, r.Tree = []event{}, []node{}
		return r, nil
	}
	var err error
	r.H = slices.Concat(w.log[0], w.log[1], w.log[2], w.log[3])
	slices.SortStableFunc(r.H, func(a, b event) int { return int(a.Ret - b.Ret) })
	at := map[int64]int64{} // when things happened, as small numbers
	var ts []int64
	for _, e := range r.H {
		ts = append(ts, e.Call, e.Ret)
	}
	slices.Sort(ts)
	for i, t := range slices.Compact(ts) {
		at[t] = int64(i)
	}
	for i := range r.H {
		r.H[i].Call, r.H[i].Ret = at[r.H[i].Call], at[r.H[i].Ret]
	}
	r.Tree, err = w.look()
	if err != nil {
		// a tree that cannot be read is none that any order leaves
		r.Tree = []node{{P: []string{}, K: "?", M: err.Error(), T: []string{}}}
	}
	w.end()
	return r, nil
}

func (r *record) hash() uint64 {
	h := fnv.New64a()
	b, _ := json.Marshal([]any{r.H, r.Tree, r.Stuck, r.Init})
	h.Write(b)
	return h.Sum64()
}

func main() {
	out := flag.String("out", "", "")
	recf := flag.String("rec", "", "")
	free := flag.Int("free", 0, "run every script so often without a schedule")
	sys := flag.Int("sys", 60, "systematic schedules of a script at most")
	rnd := flag.Int("rnd", 40, "random schedules of a script")
	shard := flag.Int("shard", 0, "")
	of := flag.Int("of", 1, "run every of-th script from shard on")
	flag.Parse()
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	f, err := os.Create(*recf)
	check(err)
	bw := bufio.NewWriterSize(f, 1<<20)
	st := &fsx.Stats{}
	nth := 0
	for _, file := range flag.Args() {
		check(fsx.ReadLines(file, func(raw []byte) error {
			nth++
			if nth%*of != *shard {
				return nil
			}
			var s script
			if err := json.Unmarshal(raw, &s); err != nil {
				return err
			}
			st.Traces++
			seen := map[uint64]bool{}
			keep := func(r *record, c *schedule) {
				st.Steps += int64(len(r.H))
				if h := r.hash(); seen[h] {
					return
				} else {
					seen[h] = true
				}
				r.S = append([]byte(nil), raw...)
				r.Picks = []int{}
				if c != nil {
					r.Picks = c.made
					var m map[string]any
					check(json.Unmarshal(raw, &m))
					m["picks"] = c.made
					r.S, _ = json.Marshal(m)
				}
				b, err := json.Marshal(r)
				check(err)
				bw.Write(b)
				bw.WriteByte('\n')
				if r.Stuck {
					bw.Flush()
				}
			}
			run := func(c *schedule) (*record, *schedule) {
				r, err := play(&s, c)
				check(err)
				keep(r, c)
				return r, c
			}
			if *free > 0 {
				ysync.Noise.Store(true)
				for i := 0; i < *free; i++ {
					run(nil)
				}
				return nil
			}
			if s.Picks != nil {
				run(&schedule{told: s.Picks})
				return nil
			}
			// every schedule with one switch, then with two, as far as it goes
			type todo struct {
				told []int
				left int
			}
			var q []todo
			n := 0
			q = append(q, todo{nil, 2})
			for len(q) > 0 && n < *sys {
				t := q[0]
				q = q[1:]
				_, c := run(&schedule{told: t.told})
				n++
				if t.left == 0 {
					continue
				}
				for i := len(t.told); i < len(c.made); i++ {
					for k := 1; k < c.wide[i]; k++ {
						q = append(q, todo{append(slices.Clone(c.made[:i]), k), t.left - 1})
					}
				}
			}
			if len(q) > 0 {
				g := rand.New(rand.NewSource(seed*1_000_003 + int64(nth)))
				for i := 0; i < *rnd; i++ {
					run(&schedule{rnd: g, odds: []int{15, 35, 60}[i%3]})
				}
			}
			return nil
		}))
	}
	check(bw.Flush())
	check(f.Close())
	st.Finish(*out)
}
