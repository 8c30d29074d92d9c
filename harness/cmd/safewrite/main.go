// Command safewrite runs the scenarios of SimSafe on fsutil's safe writes, going wrong at every single call.
package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"path/filepath"
	"strings"
	"sync/atomic"
	"time"

	"github.com/ngicks/go-fsys-helper/fsutil"
	"github.com/ngicks/go-fsys-helper/vroot"

	"verif/harness/internal/fsx"
	"verif/harness/internal/rec"
	"verif/harness/internal/tap"
)

type scen struct {
	K      string `json:"k"`
	Fs     string `json:"fs"`
	Pol    string `json:"pol"`
	Old    string `json:"old"`
	Par    string `json:"par"`
	Name   string `json:"name"`
	Dpre   []bool `json:"dpre"`
	Apre   []bool `json:"apre"`
	Apost  []bool `json:"apost"`
	Dpost  []bool `json:"dpost"`
	Chunks []int  `json:"chunks"`
	Bf     int    `json:"bf"`
	Ign    bool   `json:"ign"`
	Sync   bool   `json:"sync"`
	Ch     string `json:"ch"`
	How    string `json:"how"`
	Class  string `json:"class"`
	At     int    `json:"at"`
}

type ev map[string]any

type (
	fsT   = *tap.Fs
	fileT = vroot.File
	opt   = fsutil.SafeWriteOption[fsT, fileT]
	hook  = func(f fileT, path string) error
)

var errBody = errors.New("body")

type hookErr struct{ w string }

func (h hookErr) Error() string { return "hook " + h.w }

var names = map[string]string{
	"long": "d/" + strings.Repeat("n", 250),
	"utf":  "d/" + strings.Repeat("né漢", 40) + "x",
	"star": "d/a*b",
	".h":   ".h",
}

func fill(n, from int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte('a' + (from+i*7)%26)
	}
	return b
}

// source reads the chunks, the last one together with EOF when eof is set.
type source struct {
	r     *run
	parts [][]byte
	bf    int
	i     int
	how   string
}

func (s *source) Read(p []byte) (int, error) {
	s.r.began = true
	for {
		if s.bf == s.i+1 {
			s.r.srcErr = true
			return 0, errBody
		}
		if s.i >= len(s.parts) {
			return 0, io.EOF
		}
		if len(s.parts[s.i]) > 0 {
			break
		}
		s.i++
	}
	n := len(p)
	if s.how == "tiny" {
		n = min(n, max(3, len(s.parts[s.i])/2))
	}
	n = copy(p[:n], s.parts[s.i])
	s.parts[s.i] = s.parts[s.i][n:]
	if len(s.parts[s.i]) == 0 {
		s.i++
		if s.how == "eof" && s.i == len(s.parts) && s.bf == 0 {
			return n, io.EOF
		}
	}
	return n, nil
}

// badFs is a source tree one file of which cannot be read to its end.
type badFs struct {
	fs.ReadLinkFS
	r   *run
	bad string
}

type badFile struct {
	fs.File
	r *run
	n int
}

func (b *badFs) Open(name string) (fs.File, error) {
	b.r.began = true
	f, err := b.ReadLinkFS.Open(name)
	if err == nil && name == b.bad {
		return &badFile{f, b.r, 2}, nil
	}
	return f, err
}

func (b *badFile) Read(p []byte) (int, error) {
	if b.n == 0 {
		b.r.srcErr = true
		return 0, errBody
	}
	n, _ := b.File.Read(p[:min(len(p), b.n)])
	b.n -= n
	if n == 0 {
		b.n = 0
	}
	return n, nil
}

type run struct {
	c        scen
	raw      fsx.FS
	tap      *tap.Tap
	tfs      fsT
	target   string
	tempDir  string
	ignore   map[string]bool
	base     string
	init     map[string]bool
	want     map[string]string // class of what the target shows
	h        []ev
	began    bool
	bodyOut  bool
	srcErr   bool
	injected bool
	parts    [][]byte
}

func (r *run) shows() string {
	k := tap.Under(r.raw, r.target, false)
	for _, c := range []string{"old", "new", "new2"} {
		if r.want[c] == k {
			return c
		}
	}
	return "other: " + k[:min(len(k), 60)]
}

// extra counts entries that were not there, besides the target and the directory for temporaries;
// rest says whether everything else is as it was.
func (r *run) extra() (k int, rest bool) {
	s, err := tap.Take(r.raw, ".")
	if err != nil {
		return 0, false
	}
	left := tap.Snap{}
	for p, v := range s {
		if p == r.target || strings.HasPrefix(p, r.target+"/") || (p == r.tempDir && !r.init[p]) {
			continue
		}
		if !r.init[p] {
			k++
			continue
		}
		left[p] = v
	}
	return k, left.Key(true) == r.base
}

func (r *run) emit(e ev) { r.h = append(r.h, e) }

func (r *run) body() {
	if r.began && !r.bodyOut && !r.tap.Dead {
		r.bodyOut = true
		r.emit(ev{"e0": "stage", "w": "body", "i": 0, "ok": !r.srcErr && !r.injected, "t": r.shows()})
	}
}

func (r *run) hooks(w string, fails []bool, sync bool, total int) []hook {
	var out []hook
	for i, f := range fails {
		out = append(out, func(file fileT, path string) (err error) {
			post := w == "apost" || w == "dpost"
			if post {
				r.body()
			}
			defer func() {
				if r.tap.Dead {
					return
				}
				r.emit(ev{"e0": "stage", "w": w, "i": i + 1, "ok": err == nil, "t": r.shows()})
			}()
			if path != r.c.path() {
				return fmt.Errorf("hook got path %q", path)
			}
			inner := file
			if t, ok := file.(*tap.File); ok {
				inner = t.File
			}
			fi, err := inner.Stat()
			if err != nil {
				return err
			}
			if r.c.K != "copyfs" && post && fi.Size() != int64(total) {
				return errors.New("hook runs before everything is written")
			}
			if f {
				return hookErr{w}
			}
			if sync && w == "dpost" {
				return fsutil.SyncHook(file, path)
			}
			return nil
		})
	}
	return out
}

func (c scen) path() string {
	n := c.Name
	if m, ok := names[n]; ok {
		n = m
	}
	switch c.Par {
	case "missing":
		return "nodir/" + filepath.Base(n)
	case "file":
		return "keep/" + filepath.Base(n)
	}
	return n
}

func check(err error) {
	if err != nil {
		panic("harness: " + err.Error())
	}
}

func one(c scen, at int) ([]ev, int, *tap.Call) {
	raw, done, err := tap.Fresh(c.Fs)
	check(err)
	defer done()
	r := &run{c: c, raw: raw, init: map[string]bool{}, want: map[string]string{}}
	r.tap = &tap.Tap{At: at, How: c.How, Class: c.Class}
	r.tfs = &tap.Fs{In: raw, T: r.tap}
	r.target = filepath.Clean(c.path())
	check(raw.Mkdir("d", 0o755))
	check(vroot.WriteFile(raw, "keep", []byte("kept"), 0o644))
	check(vroot.WriteFile(raw, "d/keep", []byte("kept"), 0o600))
	var pol fsutil.TempFilePolicy[fsT, fileT]
	tdir := filepath.Dir(r.target)
	switch c.Pol {
	case "dir":
		tdir = "tmp"
		pol = fsutil.NewTempFilePolicyDir[fsT]("tmp")
	case "deep":
		tdir = "no/tmp"
		pol = fsutil.NewTempFilePolicyDir[fsT]("no/tmp")
	case "taken":
		tdir = "keep"
		pol = fsutil.NewTempFilePolicyDir[fsT]("keep")
	}
	r.tempDir = tdir
	// The old target.
	switch c.Old {
	case "file":
		check(vroot.WriteFile(raw, r.target, []byte("old"), 0o644))
	case "link":
		check(raw.Symlink("keep", r.target))
	case "edir":
		check(raw.Mkdir(r.target, 0o755))
	case "dir":
		check(raw.Mkdir(r.target, 0o755))
		check(vroot.WriteFile(raw, filepath.Join(r.target, "in"), []byte("old"), 0o644))
	}
	s, err := tap.Take(raw, ".")
	check(err)
	base := tap.Snap{}
	for p, v := range s {
		r.init[p] = true
		if p != r.target && !strings.HasPrefix(p, r.target+"/") {
			base[p] = v
		}
	}
	r.base = base.Key(true)
	r.want["old"] = tap.Under(raw, r.target, false)
	// The new content.
	total := 0
	all := []byte{}
	for i, n := range c.Chunks {
		b := fill(n, i*3)
		r.parts = append(r.parts, b)
		total += n
		all = append(all, b...)
	}
	all = append([]byte{}, all...)
	var src fs.FS
	if c.K == "copyfs" {
		m, _, err := tap.Fresh("mem")
		check(err)
		bad := ""
		for i, b := range r.parts {
			n := fmt.Sprintf("f%d", i)
			if i%2 == 0 {
				check(m.MkdirAll(fmt.Sprintf("s%d/t", i), 0o755))
				n = fmt.Sprintf("s%d/t/f", i)
			}
			check(vroot.WriteFile(m, n, b, 0o644))
			if c.Bf == i+1 {
				bad = n
			}
		}
		check(m.Symlink("f1", "l"))
		check(m.Mkdir("e", 0o755))
		if c.Bf > len(r.parts) {
			c.Bf = 0
			r.c.Bf = 0
		}
		r.want["new"] = tap.Under(m, ".", false)
		src = &badFs{vroot.ToIoFs(m).(fs.ReadLinkFS), r, bad}
	} else {
		r.want["new"] = ".=f " + string(all)
		r.want["new2"] = ".=f second"
	}
	nested := func() {
		o := fsutil.SafeWriteOption[fsx.FS, fileT]{}
		switch c.Pol {
		case "dir":
			o.TempFilePolicy = fsutil.NewTempFilePolicyDir[fsx.FS]("tmp")
		case "deep":
			o.TempFilePolicy = fsutil.NewTempFilePolicyDir[fsx.FS]("no/tmp")
		case "taken":
			o.TempFilePolicy = fsutil.NewTempFilePolicyDir[fsx.FS]("keep")
		}
		err := o.Write(raw, c.path(), func(w io.Writer) error { _, err := w.Write([]byte("second")); return err }, 0o644, nil, nil)
		r.emit(ev{"e0": "nest", "ok": err == nil, "t": r.shows(), "err": fmt.Sprint(err)})
	}
	isTmp := func(n string) bool {
		return filepath.Dir(filepath.Clean(n)) == filepath.Clean(r.tempDir) && filepath.Clean(n) != r.target
	}
	firstTemp := true
	lateTemp := false
	r.tap.Before = func(call tap.Call) {
		if (call.Op == "close" || call.Op == "rename") && (call.Op == "rename" || isTmp(call.Name)) {
			r.body()
		}
		if c.How == "nest" && call.I == at {
			nested()
		}
	}
	r.tap.After = func(call tap.Call, err error) {
		r.injected = r.injected || errors.Is(err, tap.ErrInjected)
		tmp := isTmp(call.Name)
		if (call.Op == "create" || call.Op == "mkdir") && tmp && firstTemp {
			firstTemp = false
			lateTemp = call.How == "late"
		}
		how := call.How
		if (how == "late" || how == "short") && !errors.Is(err, tap.ErrInjected) {
			how = "" // failed by itself
		}
		exist := how == "" && errors.Is(err, fs.ErrExist) && (call.Op == "mkdir" || call.Op == "create")
		r.emit(ev{"e0": "call", "op": call.Op, "how": how, "ok": err == nil || exist, "t": r.shows(), "tmp": tmp})
	}
	if c.How == "nest" {
		r.tap.At = -1
	}
	o := opt{TempFilePolicy: pol, IgnoreCloseErr: c.Ign}
	o.PreHooks = r.hooks("dpre", c.Dpre, false, total)
	o.PostHooks = r.hooks("dpost", c.Dpost, c.Sync, total)
	apre, apost := r.hooks("apre", c.Apre, false, total), r.hooks("apost", c.Apost, false, total)
	crashed := false
	func() {
		defer func() {
			if p := recover(); p != nil {
				if _, ok := p.(tap.Crash); !ok {
					panic(p)
				}
				crashed = true
			}
		}()
		switch c.K {
		case "write":
			err = o.Write(r.tfs, c.path(), func(w io.Writer) (err error) {
				r.began = true
				defer func() {
					if p := recover(); p != nil {
						panic(p)
					}
					r.srcErr = r.srcErr || (err != nil && !r.injected)
					r.body()
				}()
				for i, b := range r.parts {
					if c.Bf == i+1 {
						return fmt.Errorf("wrapped: %w", errBody)
					}
					if _, err := w.Write(b); err != nil {
						return err
					}
				}
				if c.Bf == len(r.parts)+1 {
					return errBody
				}
				return nil
			}, 0o644, apre, apost)
		case "copy":
			err = o.Copy(r.tfs, c.path(), &source{r: r, parts: r.parts, bf: c.Bf, how: c.Ch}, 0o644, apre, apost)
		case "copyfs":
			err = o.CopyFs(r.tfs, c.path(), src, 0o755, apre, apost)
		}
	}()
	r.tap.Off = true
	if !crashed {
		r.body()
	}
	k, rest := r.extra()
	e := ev{"e0": "ret", "e": "err", "is": []string{}, "t": r.shows(), "k": k, "rest": rest, "late": lateTemp}
	switch {
	case crashed:
		e["e"] = "crash"
	case err == nil:
		e["e"] = "nil"
	default:
		is := []string{}
		if errors.Is(err, tap.ErrInjected) {
			is = append(is, "inj")
		}
		if errors.Is(err, errBody) {
			is = append(is, "body")
		}
		var he hookErr
		if errors.As(err, &he) {
			is = append(is, he.w)
		}
		e["is"] = is
		e["msg"] = err.Error()
	}
	r.emit(e)
	// Clean up after it.
	if pol == nil {
		pol = fsutil.NewTempFilePolicyRandom[fsT, fileT]()
	}
	err = fs.WalkDir(vroot.ToIoFs(raw), ".", func(path string, d fs.DirEntry, err error) error {
		return pol.WalkFunc(r.tfs, path, d, err)
	})
	k, rest = r.extra()
	r.emit(ev{"e0": "clean", "k": k, "rest": rest && err == nil, "t": r.shows()})
	return r.h, r.tap.N, r.tap.Hit
}

type record struct {
	C scen            `json:"c"`
	H []ev            `json:"h"`
	S json.RawMessage `json:"s"`
}

func main() {
	rec.Main(0, 60*time.Second, func(raw []byte, st *fsx.Stats) (any, error) {
		var s struct {
			C scen `json:"c"`
		}
		if err := json.Unmarshal(raw, &s); err != nil {
			return nil, err
		}
		c := s.C
		if c.K == "copyfs" && c.Bf > len(c.Chunks) {
			c.Bf = 0
		}
		var out []any
		from, to := 0, 1
		if c.At > 0 {
			from, to = c.At, c.At
		}
		for at := from; at <= to; at++ {
			c.At = at
			one := func(at int) ([]ev, int, *tap.Call) { return one(c, at) }
			h, n, _ := one(at)
			if at == 0 {
				to = n
			}
			atomic.AddInt64(&st.Steps, int64(len(h)))
			rawc, _ := json.Marshal(map[string]any{"c": c, "h": []int{}})
			out = append(out, record{c, h, rawc})
		}
		return rec.Many(out), nil
	})
}
