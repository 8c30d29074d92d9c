// Package rec runs drivers that record what the code did for TLC to judge.
package rec

import (
	"bufio"
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime/debug"
	"strings"
	"sync"
	"time"

	"verif/harness/internal/fsx"
)

// Many is several records of one scenario.
type Many []any

// Main reads scenario lines (TLC output files named as arguments), runs each through do and writes the
// records do returns, one JSON line each, to -rec. A panic or a hang of do is a violation by itself.
func Main(procs int, limit time.Duration, do func(raw []byte, st *fsx.Stats) (any, error)) {
	out := flag.String("out", "", "summary file")
	recf := flag.String("rec", "", "record file")
	flag.Parse()
	fail := func(err error) {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	w := os.Stdout
	if *recf != "" {
		f, err := os.Create(*recf)
		if err != nil {
			fail(err)
		}
		defer f.Close()
		w = f
	}
	bw := bufio.NewWriterSize(w, 1<<20)
	st := &fsx.Stats{}
	var mu sync.Mutex
	for _, file := range flag.Args() {
		err := fsx.Parallel(procs, func(yield func([]byte)) error {
			return fsx.ReadLines(file, func(raw []byte) error { yield(raw); return nil })
		}, func(raw []byte) {
			r, bad := guarded(limit, raw, st, do)
			mu.Lock()
			defer mu.Unlock()
			st.Traces++
			if bad != "" {
				st.Add(fsx.Violation{Subject: "reader", Msg: bad + " on " + string(raw), Sig: strings.SplitN(bad, ":", 2)[0], Raw: raw})
				return
			}
			if r == nil {
				return
			}
			rs, ok := r.(Many)
			if !ok {
				rs = Many{r}
			}
			for _, r := range rs {
				b, err := json.Marshal(r)
				if err != nil {
					fail(err)
				}
				bw.Write(b)
				bw.WriteByte('\n')
			}
		})
		if err != nil {
			fail(err)
		}
	}
	if err := bw.Flush(); err != nil {
		fail(err)
	}
	st.Finish(*out)
}

func guarded(limit time.Duration, raw []byte, st *fsx.Stats, do func([]byte, *fsx.Stats) (any, error)) (r any, bad string) {
	type res struct {
		r   any
		bad string
	}
	ch := make(chan res, 1)
	go func() {
		var x res
		defer func() {
			if p := recover(); p != nil {
				s := debug.Stack()
				if !bytes.Contains(s, []byte("/repo/")) {
					fmt.Fprintf(os.Stderr, "driver panic: %v\n%s\n", p, s)
					os.Exit(3)
				}
				x.bad = fmt.Sprintf("panic: %v", p)
			}
			ch <- x
		}()
		v, err := do(raw, st)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		x.r = v
	}()
	t := time.NewTimer(limit)
	defer t.Stop()
	select {
	case x := <-ch:
		return x.r, x.bad
	case <-t.C:
		return nil, "hang: no answer within " + limit.String()
	}
}
