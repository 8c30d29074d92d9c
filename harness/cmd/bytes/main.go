// Command bytes runs the histories of SimBytes on files of in-memory filesystems, views grafted into them,
// and the operating system's files.
package main

import (
	"bytes"
	"encoding/json"
	"io"
	"os"
	"strings"
	"sync/atomic"
	"time"

	"github.com/ngicks/go-fsys-helper/vroot"
	"github.com/ngicks/go-fsys-helper/vroot/memfs"
	"github.com/ngicks/go-fsys-helper/vroot/synthfs"

	"verif/harness/internal/fsx"
	"verif/harness/internal/rec"
	"verif/harness/internal/tap"
)

type call struct {
	O     string `json:"o"`
	S     int    `json:"s"`
	P     string `json:"p"`
	Q     string `json:"q"`
	Acc   string `json:"acc"`
	Creat bool   `json:"creat"`
	Excl  bool   `json:"excl"`
	App   bool   `json:"app"`
	Trunc bool   `json:"trunc"`
	N     int    `json:"n"`
	B     []int  `json:"b"`
	Off   int64  `json:"off"`
	Wh    int    `json:"wh"`
}

type answer struct {
	Ok  bool   `json:"ok"`
	N   int64  `json:"n"`
	B   []int  `json:"b"`
	Eof bool   `json:"eof"`
	Msg string `json:"msg"`
}

type step struct {
	X call   `json:"x"`
	R answer `json:"r"`
}

type conf struct {
	Sub  string `json:"sub"`
	Init bool   `json:"init"`
	Ro   bool   `json:"ro"`
	Data []int  `json:"data"`
}

func raw(b []int) []byte {
	r := make([]byte, len(b))
	for i, x := range b {
		r[i] = byte(x)
	}
	return r
}

func ints(b []byte) []int {
	r := make([]int, len(b))
	for i, x := range b {
		r[i] = int(x)
	}
	return r
}

func check(err error) {
	if err != nil {
		panic("harness: " + err.Error())
	}
}

type run struct {
	fs   fsx.FS
	look fsx.FS
	at   string // prefix of names in look
	hs   [4]vroot.File
}

func (r *run) do(x call) (a answer) {
	a.B = []int{}
	fin := func(n int64, err error) {
		a.Ok = err == nil || err == io.EOF
		a.Eof = err == io.EOF
		if a.Ok {
			a.N = n
		} else {
			a.Msg = err.Error()
			if n != 0 && (x.O == "read" || x.O == "readat" || x.O == "write" || x.O == "writes" || x.O == "writeat") {
				a.N = n
			}
		}
	}
	h := r.hs[x.S]
	if h == nil && !strings.Contains(" open cat size rm mv ln ", " "+x.O+" ") {
		a.Msg = "no handle" // an earlier open failed against the specification, which is reported there
		return a
	}
	switch x.O {
	case "open":
		flag := map[string]int{"r": os.O_RDONLY, "w": os.O_WRONLY, "rw": os.O_RDWR}[x.Acc]
		for _, f := range []struct {
			on bool
			f  int
		}{{x.Creat, os.O_CREATE}, {x.Excl, os.O_EXCL}, {x.App, os.O_APPEND}, {x.Trunc, os.O_TRUNC}} {
			if f.on {
				flag |= f.f
			}
		}
		f, err := r.fs.OpenFile(x.P, flag, 0o644)
		fin(0, err)
		if err == nil {
			if h != nil {
				h.Close()
			}
			r.hs[x.S] = f
		}
	case "cat":
		b, err := vroot.ReadFile(r.look, r.at+x.P)
		fin(int64(len(b)), err)
		if err == nil {
			a.B = ints(b)
		}
	case "size":
		fi, err := r.look.Stat(r.at + x.P)
		fin(0, err)
		if err == nil {
			a.N = fi.Size()
		}
	case "rm":
		fin(0, r.fs.Remove(x.P))
	case "mv":
		fin(0, r.fs.Rename(x.P, x.Q))
	case "ln":
		fin(0, r.fs.Link(x.P, x.Q))
	case "read", "readat":
		b := make([]byte, x.N)
		var n int
		var err error
		if x.O == "read" {
			n, err = h.Read(b)
		} else {
			n, err = h.ReadAt(b, x.Off)
		}
		fin(int64(n), err)
		a.B = ints(b[:n])
	case "write":
		n, err := h.Write(raw(x.B))
		fin(int64(n), err)
	case "writes":
		n, err := h.WriteString(string(raw(x.B)))
		fin(int64(n), err)
	case "writeat":
		n, err := h.WriteAt(raw(x.B), x.Off)
		fin(int64(n), err)
	case "seek":
		n, err := h.Seek(x.Off, x.Wh)
		fin(n, err)
	case "trunc":
		fin(0, h.Truncate(x.Off))
	case "stat":
		fi, err := h.Stat()
		fin(0, err)
		if err == nil {
			a.N = fi.Size()
		}
	case "sync":
		fin(0, h.Sync())
	case "close":
		fin(0, h.Close())
	case "all":
		var b bytes.Buffer
		n, err := io.Copy(&b, h)
		fin(n, err)
		a.B = ints(b.Bytes())
		if !a.Ok {
			a.B, a.N = []int{}, 0
		}
	}
	return a
}

func open(c conf) (*run, func()) {
	r := &run{}
	done := func() {}
	switch c.Sub {
	case "mem":
		r.fs = memfs.New("m")
	case "memsub":
		m := memfs.New("m")
		check(m.MkdirAll("x/y", 0o755))
		s, err := m.OpenRoot("x/y")
		check(err)
		r.fs, r.look, r.at = vroot.Widen[vroot.File](s), m, "x/y/"
	case "os":
		f, d, err := tap.Fresh("os")
		check(err)
		r.fs, done = f, d
	default:
		m := synthfs.NewRoot("s", nil)
		data := raw(c.Data)
		var v synthfs.FileView
		var err error
		now := time.Unix(1e9, 0)
		switch c.Sub {
		case "bytes":
			v = synthfs.NewBytesView(data, 0o644, now)
		case "fs":
			src := memfs.New("src")
			check(src.Mkdir("d", 0o755))
			check(vroot.WriteFile(src, "d/f", data, 0o644))
			v, err = synthfs.NewFsView(vroot.ToIoFs(src), "d/f")
		case "range":
			v, err = synthfs.NewRangedView(synthfs.NewBytesView(append([]byte{251, 252}, append(data, 253, 254)...), 0o644, now), 2, int64(len(data)))
		case "range2":
			src := memfs.New("src")
			check(vroot.WriteFile(src, "f", append([]byte{251, 252, 253, 251}, append(data, 253, 254)...), 0o644))
			v, err = synthfs.NewFsView(vroot.ToIoFs(src), "f")
			check(err)
			v, err = synthfs.NewRangedView(v, 1, int64(len(data)+4))
			check(err)
			v, err = synthfs.NewRangedView(v, 3, int64(len(data)))
		}
		check(err)
		check(m.AddFile("a", v, nil))
		r.fs = vroot.Widen[vroot.File](m)
	}
	if r.look == nil {
		r.look = r.fs
	}
	if c.Init && !c.Ro {
		check(vroot.WriteFile(r.fs, "a", raw(c.Data), 0o644))
	}
	return r, func() {
		for _, h := range r.hs {
			if h != nil {
				h.Close()
			}
		}
		done()
	}
}

type record struct {
	C conf            `json:"c"`
	H []step          `json:"h"`
	S json.RawMessage `json:"s"`
}

func main() {
	rec.Main(0, 60*time.Second, func(line []byte, st *fsx.Stats) (any, error) {
		var s record
		if err := json.Unmarshal(line, &s); err != nil {
			return nil, err
		}
		r, done := open(s.C)
		defer done()
		for i := range s.H {
			s.H[i].R = r.do(s.H[i].X)
		}
		atomic.AddInt64(&st.Steps, int64(len(s.H)))
		s.S = line
		return s, nil
	})
}
