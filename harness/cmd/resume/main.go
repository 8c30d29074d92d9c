// Command resume runs the scenarios of SimResume on fsutil's resumable pulls, pushes and filesystem sinks.
package main

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"strings"
	"sync/atomic"
	"time"

	"github.com/ngicks/go-fsys-helper/fsutil"
	"github.com/ngicks/go-fsys-helper/vroot"

	"verif/harness/internal/fsx"
	"verif/harness/internal/rec"
	"verif/harness/internal/tap"
)

type attempt struct {
	K       string `json:"k"`
	V1      int    `json:"v1"`
	V2      int    `json:"v2"`
	HideE   bool   `json:"hideE"`
	HideS   bool   `json:"hideS"`
	ExpE    string `json:"expE"`
	ExpS    int64  `json:"expS"`
	Cut     string `json:"cut"`
	Cat     int    `json:"cat"`
	OpenErr int    `json:"openErr"`
	Hooks   []bool `json:"hooks"`
	Chunk   int    `json:"chunk"`
	Ch      string `json:"ch"`
	Cancel  int    `json:"cancel"`
	At      int    `json:"at"`
	How     string `json:"how"`
	Class   string `json:"class"`
	Side    string `json:"side"`
	Src     string `json:"src"`
	Op      string `json:"op"`
	Off     int    `json:"off"`
	Etag    string `json:"etag"`
	V       int    `json:"v"`
	N       int    `json:"n"`
	Fail    bool   `json:"fail"`
}

type version struct {
	N    int    `json:"n"`
	Etag string `json:"etag"`
}

type scen struct {
	K     string      `json:"k"`
	Fs    string      `json:"fs"`
	Sfx   string      `json:"sfx"`
	Buf   int         `json:"buf"`
	Perm  fs.FileMode `json:"perm"`
	Vs    []version   `json:"vs"`
	Part  int         `json:"part"`
	Pv    int         `json:"pv"`
	Tag   string      `json:"tag"`
	Final int         `json:"final"`
	As    []attempt   `json:"as"`
}

type store struct {
	Dest [][]int  `json:"dest"`
	Part [][]int  `json:"part"`
	Side []string `json:"side"`
}

type hit struct {
	Op   string `json:"op"`
	What string `json:"what"`
}

type state struct {
	Off      int64  `json:"off"`
	Etag     string `json:"etag"`
	Complete bool   `json:"complete"`
}

type out struct {
	A     int       `json:"a"`
	Pre   store     `json:"pre"`
	Post  store     `json:"post"`
	Opens []int64   `json:"opens"`
	D     int       `json:"d"`
	Last  int       `json:"last"`
	Fired bool      `json:"fired"`
	Hv    [][]int   `json:"hv"`
	Res   string    `json:"res"`
	Hit   hit       `json:"hit"`
	Seen  [][][]int `json:"seen"`
	St    state     `json:"st"`
	Msg   string    `json:"msg"`
}

var (
	errSrc   = errors.New("source")
	errBoom  = errors.New("boom")
	errHook  = errors.New("hook")
	errLocal = errors.New("local")
)

const dest = "d/obj"

func check(err error) {
	if err != nil {
		panic("harness: " + err.Error())
	}
}

func content(v, from, n int) []byte {
	b := []byte{}
	for i := from; i < n; i++ {
		b = append(b, byte(32*v+i))
	}
	return b
}

func ints(b []byte) []int {
	r := make([]int, len(b))
	for i, x := range b {
		r[i] = int(x)
	}
	return r
}

func file(f fsx.FS, n string) [][]int {
	b, err := vroot.ReadFile(f, n)
	if err != nil {
		if errors.Is(err, fs.ErrNotExist) {
			return [][]int{}
		}
		return [][]int{{-1}}
	}
	return [][]int{ints(b)}
}

type run struct {
	c    scen
	raw  fsx.FS
	part string
}

func (r *run) look() store {
	s := store{Dest: file(r.raw, dest), Part: file(r.raw, r.part), Side: []string{}}
	if b, err := vroot.ReadFile(r.raw, r.part+".etag"); err == nil {
		s.Side = []string{strings.TrimSpace(string(b))}
	}
	return s
}

// feed hands out bytes in chunks, stopping where the attempt says.
type feed struct {
	a      *attempt
	o      *out
	b      []byte
	end    error
	reads  int
	cancel func()
	idle   bool
}

func (f *feed) Read(p []byte) (int, error) {
	if f.a.Ch == "zero" && !f.idle && len(p) > 0 {
		f.idle = true
		return 0, nil
	}
	f.idle = false
	if f.a.Cancel == f.reads && !f.o.Fired {
		f.o.Fired = true
		f.cancel()
	}
	f.reads++
	if len(f.b) == 0 {
		return 0, f.end
	}
	n := len(p)
	if f.a.Chunk > 0 {
		n = min(n, f.a.Chunk)
	}
	n = copy(p[:n], f.b)
	f.b = f.b[n:]
	f.o.D += n
	f.o.Last = n
	if f.a.Ch == "eof" && len(f.b) == 0 {
		return n, f.end
	}
	return n, nil
}

func (f *feed) Close() error { return nil }

// cutFeed is what can be read of w, which starts at offset off.
func cutFeed(a *attempt, o *out, w []byte, off int, cancel func()) *feed {
	f := &feed{a: a, o: o, b: w, end: io.EOF, cancel: cancel}
	if a.Cut == "err" || a.Cut == "eof" {
		f.b = w[:min(len(w), max(0, a.Cat-off))]
	}
	if a.Cut == "err" {
		f.end = fmt.Errorf("wrapped: %w", errSrc)
	}
	if a.Cut == "extra" {
		f.b = append(append([]byte{}, w...), 240, 241, 242)
	}
	return f
}

type source struct {
	r      *run
	a      *attempt
	o      *out
	cancel func()
	fs     fsutil.ResumableSource
}

func (s *source) Open(ctx context.Context, off int64) (io.ReadCloser, fsutil.ContentInfo, error) {
	s.o.Opens = append(s.o.Opens, off)
	s.o.D, s.o.Last = 0, 0
	if s.a.OpenErr == len(s.o.Opens) {
		return nil, fsutil.ContentInfo{}, errSrc
	}
	v := s.a.V1
	if len(s.o.Opens) > 1 {
		v = s.a.V2
	}
	if s.fs != nil {
		rc, info, err := s.fs.Open(ctx, off)
		check(err)
		b, err := io.ReadAll(rc)
		check(err)
		check(rc.Close())
		return cutFeed(s.a, s.o, b, int(off), s.cancel), info, nil
	}
	w := content(v, 0, s.r.c.Vs[v-1].N)
	info := fsutil.ContentInfo{ETag: s.r.c.Vs[v-1].Etag, Size: int64(len(w))}
	if s.a.HideE {
		info.ETag = ""
	}
	if s.a.HideS {
		info.Size = -1
	}
	w = w[min(int(off), len(w)):]
	return cutFeed(s.a, s.o, w, int(off), s.cancel), info, nil
}

// local is the pusher's filesystem: its files read as the attempt says.
type local struct {
	*tap.Fs
	a      *attempt
	o      *out
	cancel func()
}

type localFile struct {
	vroot.File
	l    *local
	all  []byte
	feed *feed
}

func (l *local) OpenFile(n string, flag int, m fs.FileMode) (vroot.File, error) {
	f, err := l.Fs.OpenFile(n, flag, m)
	if err != nil {
		return nil, err
	}
	b, err := io.ReadAll(f.(*tap.File).Unwrap())
	check(err)
	_, err = f.(*tap.File).Unwrap().Seek(0, io.SeekStart)
	check(err)
	return &localFile{File: f, l: l, all: b}, nil
}

func (f *localFile) Seek(off int64, w int) (int64, error) {
	n, err := f.File.Seek(off, w)
	if err == nil {
		f.feed = cutFeed(f.l.a, f.l.o, f.all[min(int(n), len(f.all)):], int(n), f.l.cancel)
	}
	return n, err
}

func (f *localFile) Read(p []byte) (int, error) {
	// Whatever a fault on the file below does counts.
	if _, err := f.File.Read(nil); err != nil && err != io.EOF {
		return 0, err
	}
	if f.feed == nil {
		f.feed = cutFeed(f.l.a, f.l.o, f.all, 0, f.l.cancel)
	}
	return f.feed.Read(p)
}

func (f *localFile) ReadAt([]byte, int64) (int, error) { panic("harness: ReadAt") }

// sink passes on to a filesystem sink and notes what it is asked.
type sink struct {
	fsutil.ResumableSink
	a    *attempt
	o    *out
	want fsutil.ContentInfo
}

func (s *sink) State(ctx context.Context) (fsutil.SinkState, error) {
	if s.a.OpenErr == 2 {
		return fsutil.SinkState{}, errBoom
	}
	return s.ResumableSink.State(ctx)
}

func (s *sink) Append(ctx context.Context, info fsutil.ContentInfo, off int64, r io.Reader) error {
	if info != s.want {
		s.o.Opens = append(s.o.Opens, -99)
	}
	s.o.Opens = append(s.o.Opens, off)
	if s.a.OpenErr == 3 {
		return errBoom
	}
	return s.ResumableSink.Append(ctx, info, off, r)
}

func (s *sink) Commit(ctx context.Context) error {
	if s.a.OpenErr == 4 {
		return errBoom
	}
	return s.ResumableSink.Commit(ctx)
}

func class(err error) string {
	switch {
	case err == nil:
		return "ok"
	case errors.Is(err, tap.ErrInjected):
		return "inj"
	case errors.Is(err, errSrc):
		return "src"
	case errors.Is(err, errBoom):
		return "boom"
	case errors.Is(err, errHook):
		return "hook"
	case errors.Is(err, fsutil.ErrContentChanged):
		return "changed"
	case errors.Is(err, fsutil.ErrSizeMismatch):
		return "size"
	case errors.Is(err, io.ErrUnexpectedEOF):
		return "short"
	case errors.Is(err, context.Canceled):
		return "ctx"
	case errors.Is(err, errLocal):
		return "local"
	case errors.Is(err, fs.ErrNotExist):
		return "noent"
	}
	return "other"
}

func (r *run) do(i int) *out {
	a := &r.c.As[i]
	o := &out{A: i + 1, Pre: r.look(), Opens: []int64{}, Hv: [][]int{}, Seen: [][][]int{}}
	tp := &tap.Tap{How: a.How, Class: a.Class}
	if a.Side != "l" {
		tp.At = a.At
	}
	tfs := &tap.Fs{In: r.raw, T: tp}
	last := ""
	tp.After = func(tap.Call, error) {
		d := file(r.raw, dest)
		if k := fmt.Sprint(d); k != last {
			last = k
			o.Seen = append(o.Seen, d)
		}
	}
	ltp := &tap.Tap{How: a.How, Class: a.Class}
	if a.Side == "l" {
		ltp.At = a.At
	}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	exp := fsutil.ContentInfo{ETag: a.ExpE, Size: a.ExpS}
	var err error
	crashed := false
	func() {
		defer func() {
			if p := recover(); p != nil {
				if _, ok := p.(tap.Crash); !ok {
					panic(p)
				}
				crashed = true
			}
		}()
		switch a.K {
		case "pull":
			opt := fsutil.ResumableCopyOption[*tap.Fs, vroot.File]{PartSuffix: r.c.Sfx, BufSize: r.c.Buf}
			for _, bad := range a.Hooks {
				opt.PreCommitHooks = append(opt.PreCommitHooks, func(f vroot.File, path string) error {
					inner := f
					if t, ok := f.(*tap.File); ok {
						inner = t.Unwrap()
					}
					b, err := io.ReadAll(inner)
					if err != nil || path != r.part {
						b = []byte{255, 255}
					}
					o.Hv = append(o.Hv, ints(b))
					if bad {
						return errHook
					}
					return nil
				})
			}
			s := &source{r: r, a: a, o: o, cancel: cancel}
			if a.Src == "fs" && !a.HideE && !a.HideS && a.V1 == a.V2 {
				m, _, err := tap.Fresh("mem")
				check(err)
				check(vroot.WriteFile(m, "s", content(a.V1, 0, r.c.Vs[a.V1-1].N), 0o644))
				s.fs = fsutil.NewFsSource(m, "s", r.c.Vs[a.V1-1].Etag)
			}
			err = opt.Pull(ctx, tfs, dest, s, exp, r.c.Perm)
		case "push":
			opt := fsutil.ResumableCopyOption[*local, vroot.File]{BufSize: r.c.Buf}
			m, _, err0 := tap.Fresh("mem")
			check(err0)
			if a.OpenErr != 1 {
				check(vroot.WriteFile(m, "s", content(a.V1, 0, r.c.Vs[a.V1-1].N), 0o644))
			}
			l := &local{&tap.Fs{In: m, T: ltp}, a, o, cancel}
			fsink := fsutil.NewFsSink(tfs, dest, r.c.Perm)
			fsink.PartSuffix = r.c.Sfx
			s := &sink{fsink, a, o, fsutil.ContentInfo{ETag: a.ExpE, Size: int64(r.c.Vs[a.V1-1].N)}}
			err = opt.Push(ctx, l, "s", s, exp)
			if a.OpenErr == 1 && errors.Is(err, fs.ErrNotExist) && !errors.Is(err, tap.ErrInjected) {
				err = errLocal
			}
		case "sink":
			fsink := fsutil.NewFsSink(tfs, dest, r.c.Perm)
			fsink.PartSuffix = r.c.Sfx
			switch a.Op {
			case "state":
				var st fsutil.SinkState
				st, err = fsink.State(ctx)
				o.St = state{st.Offset, st.ETag, st.Complete}
			case "append":
				if a.Off < 0 { // as told by the part there is
					a.Off = 0
					if len(o.Pre.Part) > 0 {
						a.Off = len(o.Pre.Part[0])
					}
				}
				w := content(a.V, 0, r.c.Vs[a.V-1].N)
				w = w[min(len(w), a.Off):]
				w = w[:min(len(w), a.N)]
				f := &feed{a: a, o: o, b: w, end: io.EOF, cancel: cancel}
				f.a.Cancel = -1
				if a.Fail {
					f.end = errSrc
				}
				err = fsink.Append(ctx, fsutil.ContentInfo{ETag: a.Etag, Size: int64(r.c.Vs[a.V-1].N)}, int64(a.Off), f)
			case "commit":
				err = fsink.Commit(ctx)
			}
		}
	}()
	tp.Off, ltp.Off = true, true
	o.Res = class(err)
	if err != nil {
		o.Msg = err.Error()
	}
	if crashed {
		o.Res = "crash"
	}
	h, what := tp.Hit, ""
	if h == nil && ltp.Hit != nil {
		h, what = ltp.Hit, "local"
	}
	if h != nil && !h.Nat {
		if what == "" {
			switch h.Name {
			case r.part:
				what = "part"
			case r.part + ".etag":
				what = "side"
			default:
				what = "dest"
			}
		}
		o.Hit = hit{h.Op, what}
	}
	o.Post = r.look()
	return o
}

type record struct {
	C scen            `json:"c"`
	H []*out          `json:"h"`
	S json.RawMessage `json:"s"`
}

func main() {
	rec.Main(0, 60*time.Second, func(raw []byte, st *fsx.Stats) (any, error) {
		var s struct {
			C scen `json:"c"`
		}
		if err := json.Unmarshal(raw, &s); err != nil {
			return nil, err
		}
		f, done, err := tap.Fresh(s.C.Fs)
		if err != nil {
			return nil, err
		}
		defer done()
		r := &run{c: s.C, raw: f, part: dest + ".part"}
		if s.C.Sfx != "" {
			r.part = dest + s.C.Sfx
		}
		check(f.Mkdir("d", 0o755))
		if s.C.Final >= 0 {
			check(vroot.WriteFile(f, dest, content(6, 0, s.C.Final), 0o644))
		}
		if s.C.Part >= 0 {
			check(vroot.WriteFile(f, r.part, content(s.C.Pv, 0, s.C.Part), 0o644))
		}
		if s.C.Tag != "" {
			check(vroot.WriteFile(f, r.part+".etag", []byte(s.C.Tag+"\n"), 0o644))
		}
		rc := record{S: raw}
		for i := range s.C.As {
			o := r.do(i)
			rc.H = append(rc.H, o)
			// A finished object is taken away, to be wanted again.
			if i+1 < len(s.C.As) && len(o.Post.Dest) > 0 && s.C.K != "sink" && i%2 == 0 {
				check(f.Remove(dest))
			}
		}
		rc.C = r.c
		atomic.AddInt64(&st.Steps, int64(len(rc.H)))
		return rc, nil
	})
}
