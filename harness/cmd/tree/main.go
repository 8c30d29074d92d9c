// Command tree replays FsTree behaviours on the in-memory, os-backed and
// wrapping filesystems.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"strings"

	"verif/harness/internal/fsx"
)

func main() {
	subjects := flag.String("subjects", "memfs", "comma separated")
	out := flag.String("out", "", "summary file")
	replay := flag.String("replay", "", "replay one violation file")
	flag.Parse()
	st := &fsx.Stats{}
	if *replay != "" {
		b, err := os.ReadFile(*replay)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		var v fsx.Violation
		if err := json.Unmarshal(b, &v); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		fsx.RunHistory(subject(v.Subject), v.Init, v.Hist, st)
		st.Finish("")
		return
	}
	var subs []*fsx.Subject
	for _, s := range strings.Split(*subjects, ",") {
		subs = append(subs, subject(s))
	}
	for _, file := range flag.Args() {
		for _, sub := range subs {
			err := fsx.Parallel(sub.Procs, func(yield func([]byte)) error {
				return fsx.ReadLines(file, func(raw []byte) error { yield(raw); return nil })
			}, func(raw []byte) {
				var tb fsx.Table
				if err := json.Unmarshal(raw, &tb); err != nil {
					fmt.Fprintln(os.Stderr, "bad line:", err)
					os.Exit(3)
				}
				if len(tb.T) > 0 {
					fsx.RunTable(sub, tb, st)
				} else {
					fsx.RunHistory(sub, tb.S, tb.H, st)
				}
			})
			if err != nil {
				fmt.Fprintln(os.Stderr, err)
				os.Exit(3)
			}
		}
	}
	st.Finish(*out)
}
