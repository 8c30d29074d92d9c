// Command locks runs the scripts of SimLock: file locks taken, converted and released through several handles.
package main

import (
	"encoding/json"
	"os"
	"path/filepath"
	"sync"
	"sync/atomic"
	"time"

	"github.com/ngicks/go-fsys-helper/vroot"
	"github.com/ngicks/go-fsys-helper/vroot/osfs"

	"verif/harness/internal/fsx"
	"verif/harness/internal/rec"
)

type call struct {
	O string `json:"o"`
	H int    `json:"h"`
	N string `json:"n"`
	L int    `json:"l"`
	A string `json:"a"`
}

type event struct {
	E   string `json:"e"`
	H   int    `json:"h"`
	O   string `json:"o"`
	N   string `json:"n"`
	L   int    `json:"l"`
	Ok  bool   `json:"ok"`
	Msg string `json:"msg"`
}

type scenario struct {
	C struct {
		Sub string `json:"sub"`
	} `json:"c"`
	H []call `json:"h"`
}

type record struct {
	C any             `json:"c"`
	H []event         `json:"h"`
	S json.RawMessage `json:"s"`
}

func check(err error) {
	if err != nil {
		panic("harness: " + err.Error())
	}
}

type locker interface {
	vroot.File
	vroot.Locker
}

// slot is one handle and, as far as its answers tell, what it holds.
type slot struct {
	h          locker
	file, held int
	busy       bool
	want       int
}

type run struct {
	open func(n string, flag int) (locker, error)
	mu   sync.Mutex
	log  []event
	s    [4]slot
	wg   sync.WaitGroup
}

func fileOf(n string) int {
	if n == "o" {
		return 2
	}
	return 1
}

// settled tells whether every call still under way waits for a lock someone else may hold.
func (r *run) settled() bool {
	r.mu.Lock()
	defer r.mu.Unlock()
	for i := range r.s {
		s := &r.s[i]
		if !s.busy {
			continue
		}
		blocked := false
		for j := range r.s {
			o := &r.s[j]
			if j != i && s.want > 0 && o.file == s.file && o.held > 0 && o.held+s.want > 2 {
				blocked = true
			}
		}
		if !blocked {
			return false
		}
	}
	return true
}

const (
	patience = 10 * time.Second
	glance   = 2 * time.Millisecond
)

var lost atomic.Int64 // scenarios that got stuck

func (r *run) issue(x call) {
	s := &r.s[x.H]
	r.mu.Lock()
	if s.busy || (s.h == nil && x.O != "open") || (x.O == "open" && s.file != 0) {
		r.mu.Unlock()
		return
	}
	s.busy, s.want = true, 0
	if x.O == "open" {
		s.file = fileOf(x.N)
	}
	if x.O == "lock" && s.file != 0 && (x.L == 1 || x.L == 2) {
		s.want = x.L
	}
	r.log = append(r.log, event{E: "call", H: x.H, O: x.O, N: x.N, L: x.L})
	r.mu.Unlock()
	r.wg.Add(1)
	go func() {
		defer r.wg.Done()
		var err error
		var h locker
		switch x.O {
		case "open":
			h, err = r.open(x.N, map[string]int{"r": os.O_RDONLY, "rw": os.O_RDWR}[x.A])
			check(err)
		case "lock":
			level := map[int]vroot.LockLevel{1: vroot.LockShared, 2: vroot.LockExclusive, 3: vroot.LockLevel(77)}[x.L]
			err = s.h.Lock(level)
		case "unlock":
			err = s.h.Unlock()
		case "close":
			err = s.h.Close()
		}
		r.mu.Lock()
		defer r.mu.Unlock()
		s.busy = false
		switch x.O {
		case "open":
			s.h = h
		case "lock":
			if s.want > 0 {
				s.held = s.want
			}
		case "unlock":
			s.held = 0
		case "close":
			s.held, s.file = 0, 0
		}
		e := event{E: "ret", H: x.H, O: x.O, Ok: err == nil}
		if err != nil {
			e.Msg = err.Error()
		}
		r.log = append(r.log, e)
	}()
}

// settle waits until nothing more happens by itself, then a moment more for what should not.
func (r *run) settle() bool {
	end := time.Now().Add(patience)
	for !r.settled() {
		if time.Now().After(end) {
			return false
		}
		time.Sleep(50 * time.Microsecond)
	}
	r.mu.Lock()
	n, waiting := len(r.log), false
	for i := range r.s {
		waiting = waiting || r.s[i].busy
	}
	r.mu.Unlock()
	if waiting {
		time.Sleep(glance)
		r.mu.Lock()
		more := len(r.log) != n
		r.mu.Unlock()
		if more {
			return r.settle()
		}
	}
	return true
}

func (r *run) play(h []call) {
	for _, x := range h {
		r.issue(x)
		ok := r.settle()
		r.mu.Lock()
		r.log = append(r.log, event{E: "quiet"})
		r.mu.Unlock()
		if !ok {
			lost.Add(1)
			return
		}
	}
}

func main() {
	rec.Main(0, 120*time.Second, func(line []byte, st *fsx.Stats) (any, error) {
		if lost.Load() > 6 {
			return nil, nil
		}
		var s scenario
		if err := json.Unmarshal(line, &s); err != nil {
			return nil, err
		}
		dir, err := os.MkdirTemp("", "locks")
		check(err)
		defer os.RemoveAll(dir)
		check(os.WriteFile(filepath.Join(dir, "f"), []byte("x"), 0o644))
		check(os.WriteFile(filepath.Join(dir, "o"), []byte("x"), 0o644))
		check(os.Link(filepath.Join(dir, "f"), filepath.Join(dir, "g")))
		r := &run{}
		switch s.C.Sub {
		case "fs", "wide":
			f, err := osfs.NewFs(dir)
			check(err)
			defer f.Close()
			r.open = func(n string, flag int) (locker, error) { return f.OpenFile(n, flag, 0) }
			if s.C.Sub == "wide" {
				w := vroot.Widen[*osfs.File](f)
				r.open = func(n string, flag int) (locker, error) {
					h, err := w.OpenFile(n, flag, 0)
					if err != nil {
						return nil, err
					}
					return h.(locker), nil
				}
			}
		case "root":
			f, err := osfs.NewRoot(dir)
			check(err)
			defer f.Close()
			r.open = func(n string, flag int) (locker, error) { return f.OpenFile(n, flag, 0) }
		}
		r.play(s.H)
		// whoever still waits gets its turn once the others are gone
		r.mu.Lock()
		log := append([]event(nil), r.log...)
		r.mu.Unlock()
		done := make(chan struct{})
		go func() { r.wg.Wait(); close(done) }()
		for i := 0; i < 400; i++ {
			for j := range r.s {
				r.mu.Lock()
				h, busy := r.s[j].h, r.s[j].busy
				r.mu.Unlock()
				if h != nil && !busy {
					h.Close()
				}
			}
			select {
			case <-done:
				i = 400
			case <-time.After(time.Millisecond * time.Duration(1+i)):
			}
		}
		atomic.AddInt64(&st.Steps, int64(len(log)))
		return record{C: s.C, H: log, S: line}, nil
	})
}
