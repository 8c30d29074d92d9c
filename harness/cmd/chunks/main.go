// Command chunks runs the histories of SimChunks on fileserver's chunked sink and source.
package main

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net/http"
	"net/url"
	"strconv"
	"strings"
	"time"

	"github.com/ngicks/go-fsys-helper/stream/fileserver"

	"verif/harness/internal/fsx"
	"verif/harness/internal/rec"
)

var errBoom = errors.New("boom")

type call struct {
	O  string `json:"o"`
	F  int    `json:"f"`
	Al int    `json:"al"`
	M  int    `json:"m"`
	Q  bool   `json:"q"`
	Fa string `json:"fa"`
	At int    `json:"at"`
	B  int    `json:"b"`
	Ch int    `json:"ch"`
	Hw string `json:"hw"`
}

type answer struct {
	N int    `json:"n"`
	W bool   `json:"w"`
	E string `json:"e"`
	D []int  `json:"d"`
	X bool   `json:"x"`
}

type step struct {
	C call    `json:"c"`
	S [][]int `json:"s"`
	Z [][]int `json:"z"`
	R answer  `json:"r"`
}

// server keeps objects by name; request number at of a call goes wrong as fa says.
type server struct {
	objs map[string][]byte
	fa   string
	at   int
	n    int
	ch   int
	hit  bool
	open int
}

type body struct {
	s   *server
	b   []byte
	err error
}

func (b *body) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	if len(b.b) == 0 {
		return 0, b.err
	}
	n := min(len(p), len(b.b), b.s.ch)
	copy(p, b.b[:n])
	b.b = b.b[n:]
	return n, nil
}

func (b *body) Close() error { b.s.open--; return nil }

func (s *server) Do(req *http.Request) (*http.Response, error) {
	s.n++
	fa := ""
	if s.n == s.at {
		fa = s.fa
	}
	s.hit = s.hit || fa != ""
	if err := req.Context().Err(); err != nil {
		return nil, err
	}
	resp := &http.Response{Header: http.Header{}, Request: req}
	reply := func(code int, b []byte, length int, end error) (*http.Response, error) {
		resp.StatusCode, resp.ContentLength = code, int64(length)
		s.open++
		resp.Body = &body{s, bytes.Clone(b), end}
		return resp, nil
	}
	_, name, _ := strings.Cut(req.URL.EscapedPath(), "/base/")
	obj, ok := s.objs[name]
	switch req.Method {
	case http.MethodPut:
		data, err := io.ReadAll(req.Body)
		if err != nil {
			return nil, err
		}
		if int64(len(data)) != req.ContentLength {
			return reply(400, nil, 0, io.EOF)
		}
		switch fa {
		case "":
			s.objs[name] = data
			return reply(201, nil, 0, io.EOF)
		case "fail", "cut":
			return nil, &url.Error{Op: "Put", URL: req.URL.String(), Err: errBoom}
		default:
			return reply(500, nil, 0, io.EOF)
		}
	case http.MethodHead:
		if fa == "fail" || fa == "cut" {
			return nil, errBoom
		}
		if fa == "404" {
			// A lie the client cannot tell; not a failure.
			s.hit = false
			fa = ""
		}
		if fa == "trunc" {
			return reply(200, nil, -1, io.EOF)
		}
		if fa != "" {
			return reply(503, nil, 0, io.EOF)
		}
		if !ok {
			return reply(404, nil, 0, io.EOF)
		}
		return reply(200, nil, len(obj), io.EOF)
	case http.MethodGet:
		switch {
		case fa == "fail":
			return nil, errBoom
		case fa == "404" || !ok:
			return reply(404, []byte("no"), 2, io.EOF)
		}
		from := 0
		h := req.Header.Get("Range")
		if h != "" && fa != "full" {
			n, err := strconv.Atoi(strings.TrimSuffix(strings.TrimPrefix(h, "bytes="), "-"))
			if err != nil {
				return reply(400, nil, 0, io.EOF)
			}
			from = n
			if from >= len(obj) {
				resp.Header.Set("Content-Range", fmt.Sprintf("bytes */%d", len(obj)))
				return reply(416, nil, 0, io.EOF)
			}
			switch fa {
			case "shift":
				if from+1 < len(obj) {
					from++
				}
			case "zero":
				from = 0
			}
			resp.Header.Set("Content-Range", fmt.Sprintf("bytes %d-%d/%d", from, len(obj)-1, len(obj)))
			data := obj[from:]
			if fa == "cut" {
				return reply(206, data[:len(data)/2], len(data), errBoom)
			}
			if fa == "trunc" {
				return reply(206, data[:len(data)/2], len(data), io.EOF)
			}
			return reply(206, data, len(data), io.EOF)
		}
		if fa == "shift" && len(obj) > 1 {
			resp.Header.Set("Content-Range", fmt.Sprintf("bytes %d-%d/%d", 1, len(obj)-1, len(obj)))
			return reply(206, obj[1:], len(obj)-1, io.EOF)
		}
		if fa == "cut" {
			return reply(200, obj[:len(obj)/2], len(obj), errBoom)
		}
		if fa == "trunc" {
			return reply(200, obj[:len(obj)/2], len(obj), io.EOF)
		}
		return reply(200, obj, len(obj), io.EOF)
	}
	return reply(405, nil, 0, io.EOF)
}

func class(err error) string {
	switch {
	case err == nil:
		return "nil"
	case err == io.EOF:
		return "eof"
	}
	return "err"
}

// feed gives m bytes from f on, then ends or fails.
type feed struct {
	f, m int
	q    bool
	ch   int
}

func (r *feed) Read(p []byte) (int, error) {
	n := 0
	for n < len(p) && n < r.ch && r.m > 0 {
		p[n] = byte(r.f)
		r.f++
		r.m--
		n++
	}
	if n == 0 && len(p) > 0 {
		if r.q {
			return 0, errBoom
		}
		return 0, io.EOF
	}
	return n, nil
}

func run(raw []byte, st *fsx.Stats) (any, error) {
	var s struct {
		C struct {
			K string `json:"k"`
			T int    `json:"t"`
			Z int    `json:"z"`
		} `json:"c"`
		H []call `json:"h"`
	}
	if err := json.Unmarshal(raw, &s); err != nil {
		return nil, err
	}
	T, Z := s.C.T, s.C.Z
	count := 1
	if T > 0 {
		count = (T + Z - 1) / Z
	}
	srv := &server{objs: map[string][]byte{}}
	base, _ := url.Parse("http://host.example/base/")
	client := &fileserver.HTTPClient{BaseURL: base, Client: srv, Header: http.Header{"Authorization": {"x"}}}
	name := func(i int) string { return "o/c " + strconv.Itoa(i) }
	key := func(i int) string { return url.PathEscape(name(i)) }
	sink := fileserver.NewChunkedSink(client, name, int64(T), int64(Z))
	source := fileserver.NewChunkedSource(client, name, int64(T), int64(Z))
	look := func() [][]int {
		r := [][]int{}
		for i := range count {
			o, ok := srv.objs[key(i)]
			if !ok {
				r = append(r, []int{-1})
				continue
			}
			x := []int{}
			for _, b := range o {
				x = append(x, int(b))
			}
			r = append(r, x)
		}
		return r
	}
	ctx := context.Background()
	at := 0
	var out []step
	for _, c := range s.H {
		a := answer{D: []int{}}
		srv.fa, srv.at, srv.n, srv.hit, srv.ch = c.Fa, c.At, 0, false, c.Ch
		if c.O == "append" && c.Al > 1 {
			c.F = at
		}
		if c.O == "append" {
			c.F = min(max(c.F, 0), T)
		}
		before := look()
		var err error
		switch c.O {
		case "state":
			var n int64
			n, a.W, err = sink.State(ctx)
			a.N = int(n)
			if err == nil {
				at = a.N
			}
			a.E = class(err)
		case "append":
			err = sink.Append(ctx, int64(c.F), &feed{c.F, c.M, c.Q, c.Ch})
			a.E = class(err)
			at += Z
			if err == nil {
				if err := sink.Commit(ctx); err != nil {
					a.E = "commit"
				}
			}
		case "read":
			if c.Al > 2 {
				c.F = 0
			}
			r, err := source.Open(ctx, int64(c.F))
			if err != nil {
				a.E = "refused"
				break
			}
			b := make([]byte, c.B)
			for again := 0; again < 4; {
				n, err := r.Read(b)
				for _, x := range b[:n] {
					a.D = append(a.D, int(x))
				}
				if len(a.D) > 300 {
					break
				}
				a.E = class(err)
				if err == io.EOF {
					break
				}
				if err != nil {
					again++
				}
			}
			_ = r.Close()
			if srv.open != 0 {
				a.E = "leak"
			}
		case "damage":
			i := key(c.At % count)
			o, ok := srv.objs[i]
			switch {
			case c.Hw == "gone" || !ok:
				delete(srv.objs, i)
			case c.Hw == "short" && len(o) > 0:
				srv.objs[i] = o[:len(o)-1]
			case c.Hw == "empty":
				srv.objs[i] = nil
			case c.Hw == "long":
				// Whole, and far too long: cutting it short again must not make it look whole with wrong bytes.
				var whole []byte
				for j := c.At % count * Z; j < T && len(whole) < Z; j++ {
					whole = append(whole, byte(j))
				}
				srv.objs[i] = append(whole, bytes.Repeat([]byte{200}, 30)...)
			}
		}
		a.X = srv.hit
		srv.open = 0
		out = append(out, step{c, before, look(), a})
	}
	return map[string]any{"c": s.C, "h": out, "s": json.RawMessage(raw)}, nil
}

func main() { rec.Main(8, 20*time.Second, run) }
