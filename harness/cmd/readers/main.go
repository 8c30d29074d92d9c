// Command readers runs the histories of SimReaders on the stream module's readers.
package main

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"time"

	"github.com/ngicks/go-fsys-helper/stream"

	"verif/harness/internal/fsx"
	"verif/harness/internal/rec"
)

var errBoom = errors.New("boom")

type part struct {
	S int    `json:"s"`
	A int    `json:"a"`
	M string `json:"m"`
	C bool   `json:"c"`
}

type cfg struct {
	K  string `json:"k"`
	P  []part `json:"p"`
	S  int    `json:"s"`
	A  int    `json:"a"`
	Ch int    `json:"ch"`
	M  string `json:"m"`
	Z  bool   `json:"z"`
	Of []int  `json:"of"`
	Cf []int  `json:"cf"`
	Es int    `json:"es"`
	Ep int    `json:"ep"`
	W  string `json:"w"`
	E  string `json:"e"`
}

type call struct {
	O string `json:"o"`
	K int    `json:"k"`
	F int64  `json:"f"`
	W int    `json:"w"`
}

type answer struct {
	N  int64  `json:"n"`
	E  string `json:"e"`
	D  []int  `json:"d"`
	X  string `json:"x"`
	U  int    `json:"u"`
	V  int    `json:"v"`
	Us int    `json:"us"`
	Un int    `json:"un"`
	Ue string `json:"ue"`
	Ud []int  `json:"ud"`
}

type step struct {
	C call   `json:"c"`
	R answer `json:"r"`
}

type record struct {
	C cfg    `json:"c"`
	H []step `json:"h"`
}

func class(err error) string {
	var e *stream.MultiReadError
	switch {
	case err == nil:
		return "nil"
	case err == io.EOF:
		return "eof"
	case errors.Is(err, errBoom):
		return "boom"
	case errors.Is(err, io.ErrUnexpectedEOF):
		return "short"
	case errors.Is(err, stream.ErrInvalidSize):
		return "size"
	case errors.Is(err, context.Canceled):
		return "canceled"
	case errors.Is(err, context.DeadlineExceeded):
		return "deadline"
	case errors.As(err, &e):
		return "multi"
	}
	return "other"
}

func ints(b []byte, n int) []int {
	r := []int{}
	for i := 0; i < n && i < len(b); i++ {
		v := int(b[i])
		if v >= 200 {
			v += 800
		}
		r = append(r, v)
	}
	return r
}

// src is a part's data: byte head+j at j below the declared size, 200 and up past it.
type src struct {
	p      part
	head   int
	pos    int
	closed int
}

func (s *src) at(j int) byte {
	if j < s.p.S {
		return byte(s.head + j)
	}
	return byte(200 + j - s.p.S)
}

func (s *src) ReadAt(b []byte, off int64) (int, error) {
	n := 0
	for n < len(b) && int(off)+n < s.p.A {
		b[n] = s.at(int(off) + n)
		n++
	}
	end := io.EOF
	if s.p.M == "err" && s.p.A < s.p.S {
		end = errBoom
	}
	if n < len(b) {
		return n, end
	}
	if s.p.M == "eager" && int(off)+n == s.p.A {
		return n, io.EOF
	}
	return n, nil
}

func (s *src) Read(b []byte) (int, error) {
	if s.pos >= s.p.A {
		if s.p.M == "err" && s.p.A < s.p.S {
			return 0, errBoom
		}
		return 0, io.EOF
	}
	if s.p.M == "eof" && len(b) > 2 {
		b = b[:2]
	}
	n := 0
	for n < len(b) && s.pos < s.p.A {
		b[n] = s.at(s.pos)
		n++
		s.pos++
	}
	if s.p.M == "eager" && s.pos == s.p.A {
		return n, io.EOF
	}
	return n, nil
}

func (s *src) Close() error {
	s.closed++
	if s.p.C {
		return errBoom
	}
	return nil
}

func (s *src) Size() int64                { return int64(s.p.S) }
func (s *src) Stat() (fs.FileInfo, error) { return info{s.p.S}, nil }

type info struct{ n int }

func (i info) Name() string       { return "x" }
func (i info) Size() int64        { return int64(i.n) }
func (i info) Mode() fs.FileMode  { return 0 }
func (i info) ModTime() time.Time { return time.Time{} }
func (i info) IsDir() bool        { return false }
func (i info) Sys() any           { return nil }

func joined(c cfg, h []call) ([]step, error) {
	var parts []*src
	head := 0
	for _, p := range c.P {
		parts = append(parts, &src{p: p, head: head})
		head += p.S
	}
	if head >= 200 {
		return nil, fmt.Errorf("too large: %d", head)
	}
	var r io.ReadCloser
	if c.K == "cat" {
		r = stream.NewMultiReadCloser(parts...)
	} else {
		var sized []stream.SizedReaderAt
		switch len(h) % 3 {
		case 0:
			for _, p := range parts {
				sized = append(sized, stream.SizedReaderAt{R: p, Size: int64(p.p.S)})
			}
		case 1:
			sized = stream.SizedReadersFromReadAtSizer(parts)
		default:
			var err error
			if sized, err = stream.SizedReadersFromFileLike(parts); err != nil {
				return nil, err
			}
		}
		r = stream.NewMultiReadAtSeekCloser(sized)
	}
	var out []step
	for _, x := range append(h, call{O: "close"}) {
		var a answer
		a.D, a.Ud = []int{}, []int{}
		b := make([]byte, x.K)
		for i := range b {
			b[i] = 199
		}
		var err error
		switch x.O {
		case "read":
			var n int
			n, err = r.Read(b)
			a.N, a.D = int64(n), ints(b, n)
		case "at":
			var n int
			n, err = r.(io.ReaderAt).ReadAt(b, x.F)
			a.N, a.D = int64(n), ints(b, n)
		case "seek":
			a.N, err = r.(io.Seeker).Seek(x.F, x.W)
		case "close":
			err = r.Close()
			for _, p := range parts {
				a.D = append(a.D, p.closed)
			}
		}
		a.E = class(err)
		out = append(out, step{x, a})
	}
	return out, nil
}

// opener is the sequential source of a seqReaderAt.
type opener struct {
	c     cfg
	opens int
	open  int
	most  int
	fault string
}

func in(xs []int, x int) bool {
	for _, y := range xs {
		if y == x {
			return true
		}
	}
	return false
}

func (o *opener) Open(off int64) (io.ReadCloser, error) {
	o.opens++
	if in(o.c.Of, o.opens) {
		o.fault = "open"
		return nil, errBoom
	}
	o.open++
	o.most = max(o.most, o.open)
	return &seq{o: o, no: o.opens, pos: int(off)}, nil
}

type seq struct {
	o      *opener
	no     int
	pos    int
	zero   bool
	closed bool
	failed bool
}

func (s *seq) Read(b []byte) (int, error) {
	if s.closed {
		s.o.fault = "read"
		return 0, errBoom
	}
	c := s.o.c
	if len(b) == 0 {
		return 0, nil
	}
	if s.zero = !s.zero; c.Z && s.zero {
		return 0, nil
	}
	n := 0
	for n < len(b) && n < c.Ch && s.pos < c.A {
		if s.no == c.Es && s.pos >= c.Ep {
			break
		}
		b[n] = byte(s.pos)
		n++
		s.pos++
	}
	if s.no == c.Es && s.pos >= c.Ep && (n == 0 || c.M == "eager") {
		s.o.fault = "read"
		if s.failed {
			s.o.fault = "stale"
		}
		s.failed = true
		return n, errBoom
	}
	if s.pos >= c.A && (n == 0 || c.M == "eager") {
		return n, io.EOF
	}
	return n, nil
}

func (s *seq) Close() error {
	if !s.closed {
		s.o.open--
	}
	s.closed = true
	if in(s.o.c.Cf, s.no) {
		if s.o.fault == "none" {
			s.o.fault = "close"
		}
		return errBoom
	}
	return nil
}

func sequential(c cfg, h []call) ([]step, error) {
	o := &opener{c: c}
	r := stream.NewSeqReaderAt(o.Open, int64(c.S))
	var out []step
	var end int64 // where the last read stopped
	for _, x := range append(h, call{O: "size"}, call{O: "close"}) {
		var a answer
		a.D, a.Ud = []int{}, []int{}
		b := make([]byte, x.K)
		var err error
		o.fault, o.most = "none", o.open
		switch x.O {
		case "at":
			if x.F >= 1000 {
				x.F = end + x.F - 1000
			}
			var n int
			n, err = r.ReadAt(b, x.F)
			end = x.F + int64(n)
			a.N, a.D = int64(n), ints(b, n)
		case "size":
			a.N = r.Size()
		case "close":
			err = r.Close()
		}
		a.E, a.X, a.U, a.V = class(err), o.fault, o.most, o.open
		out = append(out, step{x, a})
	}
	return out, nil
}

// tap is the source of a cancellable reader; it notes what it answered.
type tap struct {
	c      cfg
	pos    int
	during func()
	a      *answer
}

func (t *tap) Read(b []byte) (n int, err error) {
	t.a.Us++
	if t.during != nil {
		t.during()
	}
	for n < len(b) && n < t.c.Ch && t.pos < t.c.A {
		b[n] = byte(t.pos)
		n++
		t.pos++
	}
	if t.pos >= t.c.A && (n == 0 || t.c.M == "eager" || t.c.M == "eerr") {
		err = io.EOF
		if t.c.M == "err" || t.c.M == "eerr" {
			err = errBoom
		}
	}
	t.a.Un, t.a.Ue, t.a.Ud = n, class(err), ints(b, n)
	return n, err
}

// late is a context whose deadline passes when told.
type late struct {
	context.Context
	done chan struct{}
}

func (l *late) Done() <-chan struct{} { return l.done }
func (l *late) Err() error {
	select {
	case <-l.done:
		return context.DeadlineExceeded
	default:
		return nil
	}
}

func stopping(c cfg, h []call) ([]step, error) {
	var ctx context.Context
	var cancel func()
	switch c.W {
	case "cancel":
		ctx, cancel = context.WithCancel(context.Background())
	case "parent":
		p, cn := context.WithCancel(context.Background())
		ctx, cancel = context.WithValue(p, "k", 1), cn
	case "cause":
		p, cn := context.WithCancelCause(context.Background())
		ctx, cancel = p, func() { cn(errBoom) }
	default:
		l := &late{context.Background(), make(chan struct{})}
		closed := false
		ctx, cancel = l, func() {
			if !closed {
				close(l.done)
			}
			closed = true
		}
	}
	defer cancel()
	t := &tap{c: c}
	r := stream.NewCancellable(ctx, t)
	var out []step
	for _, x := range append(h, call{O: "read", K: 3}) {
		a := answer{D: []int{}, Ue: "nil", Ud: []int{}}
		t.a, t.during = &a, nil
		switch x.O {
		case "cancel":
			cancel()
			a.E = "nil"
		default:
			if x.O == "readc" {
				t.during = cancel
			}
			b := make([]byte, x.K)
			n, err := r.Read(b)
			a.N, a.D, a.E = int64(n), ints(b, n), class(err)
		}
		out = append(out, step{x, a})
	}
	return out, nil
}

func main() {
	rec.Main(8, 20*time.Second, func(raw []byte, st *fsx.Stats) (any, error) {
		var s struct {
			C cfg    `json:"c"`
			H []call `json:"h"`
		}
		if err := json.Unmarshal(raw, &s); err != nil {
			return nil, err
		}
		var h []step
		var err error
		switch s.C.K {
		case "multi", "cat":
			if s.C.P == nil {
				s.C.P = []part{}
			}
			h, err = joined(s.C, s.H)
		case "seq":
			h, err = sequential(s.C, s.H)
		case "stop":
			h, err = stopping(s.C, s.H)
		}
		return struct {
			C json.RawMessage `json:"c"`
			H []step          `json:"h"`
		}{rawCfg(raw), h}, err
	})
}

func rawCfg(raw []byte) json.RawMessage {
	var s struct {
		C json.RawMessage `json:"c"`
	}
	_ = json.Unmarshal(raw, &s)
	return s.C
}
