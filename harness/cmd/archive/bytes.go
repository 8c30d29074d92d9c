package main

import (
	"archive/tar"
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"strings"
	"sync/atomic"
	"time"

	"github.com/ngicks/go-fsys-helper/tarfs"

	"verif/harness/internal/fsx"
)

type frag struct {
	O int `json:"o"`
	L int `json:"l"`
}

type bent struct {
	N    string `json:"n"`
	K    string `json:"k"`
	S    int    `json:"s"`
	G    []frag `json:"g"`
	Wide bool   `json:"wide"`
}

type call struct {
	O   string `json:"o"`
	S   int    `json:"s"`
	P   string `json:"p"`
	N   int    `json:"n"`
	B   []int  `json:"b"`
	Off int64  `json:"off"`
	Wh  int    `json:"wh"`

	Q     string `json:"q"`
	Acc   string `json:"acc"`
	Creat bool   `json:"creat"`
	Excl  bool   `json:"excl"`
	App   bool   `json:"app"`
	Trunc bool   `json:"trunc"`
}

type reply struct {
	Ok  bool   `json:"ok"`
	N   int64  `json:"n"`
	B   []int  `json:"b"`
	Eof bool   `json:"eof"`
	Msg string `json:"msg"`
}

type bstep struct {
	X call  `json:"x"`
	R reply `json:"r"`
}

// plain writes one entry the way archive/tar does, without the end of an archive.
func plain(buf *bytes.Buffer, h *tar.Header, body []byte) error {
	tw := tar.NewWriter(buf)
	h.Size = int64(len(body))
	h.ModTime = time.Unix(epoch, 0)
	if err := tw.WriteHeader(h); err != nil {
		return err
	}
	if _, err := tw.Write(body); err != nil {
		return err
	}
	return tw.Flush()
}

// header is a block in the layout of GNU tar (old) or of POSIX.
func header(name string, size int, flag byte, gnu bool, more func(b []byte)) []byte {
	b := make([]byte, 512)
	copy(b, name)
	copy(b[100:], "0000644\x000000000\x000000000\x00")
	copy(b[124:], fmt.Sprintf("%011o\x00", size))
	copy(b[136:], "00000000000\x00")
	b[156] = flag
	if gnu {
		copy(b[257:], "ustar  \x00")
	} else {
		copy(b[257:], "ustar\x0000")
	}
	if more != nil {
		more(b)
	}
	copy(b[148:], "        ")
	sum := 0
	for _, x := range b {
		sum += int(x)
	}
	copy(b[148:], fmt.Sprintf("%06o\x00 ", sum))
	return b
}

func pad(buf *bytes.Buffer, b []byte) {
	buf.Write(b)
	if n := len(b) % 512; n != 0 {
		buf.Write(make([]byte, 512-n))
	}
}

func entries(b []byte, g []frag) (rest []frag, more bool) {
	for i := 0; (i+1)*24 < len(b) && len(g) > 0; i++ {
		copy(b[i*24:], fmt.Sprintf("%011o\x00%011o\x00", g[0].O, g[0].L))
		g = g[1:]
	}
	if len(g) > 0 {
		b[len(b)-1] = 1
	}
	return g, len(g) > 0
}

func records(kv ...string) []byte {
	var b bytes.Buffer
	for i := 0; i < len(kv); i += 2 {
		n := len(kv[i]) + len(kv[i+1]) + 3
		l := n + len(fmt.Sprint(n))
		if m := n + len(fmt.Sprint(l)); m > l {
			l = m
		}
		fmt.Fprintf(&b, "%d %s=%s\n", l, kv[i], kv[i+1])
	}
	return b.Bytes()
}

// sparse writes a file with holes in the format k says; data is what its fragments hold.
func sparse(buf *bytes.Buffer, e bent, data []byte) {
	num := func(n int) string {
		if e.Wide {
			return fmt.Sprintf("%010d", n)
		}
		return fmt.Sprint(n)
	}
	name := e.N
	if e.Wide {
		name = strings.Repeat("./", 130) + name
	}
	if e.K == "old" {
		g, more := e.G, false
		if e.Wide {
			buf.Write(header("././@LongLink", len(name)+1, 'L', true, nil))
			pad(buf, append([]byte(name), 0))
			name = name[:99]
		}
		buf.Write(header(name, len(data), 'S', true, func(b []byte) {
			copy(b[483:], fmt.Sprintf("%011o\x00", e.S))
			g, more = entries(b[386:386+97], g)
		}))
		for more {
			b := make([]byte, 512)
			g, more = entries(b[:505], g)
			buf.Write(b)
		}
		pad(buf, data)
		return
	}
	var kv []string
	var body bytes.Buffer
	switch e.K {
	case "p00":
		kv = []string{"GNU.sparse.size", fmt.Sprint(e.S), "GNU.sparse.numblocks", fmt.Sprint(len(e.G))}
		for _, f := range e.G {
			kv = append(kv, "GNU.sparse.offset", num(f.O), "GNU.sparse.numbytes", num(f.L))
		}
	case "p01":
		var m []string
		for _, f := range e.G {
			m = append(m, num(f.O), num(f.L))
		}
		kv = []string{"GNU.sparse.major", "0", "GNU.sparse.minor", "1", "GNU.sparse.size", fmt.Sprint(e.S), "GNU.sparse.numblocks", fmt.Sprint(len(e.G)), "GNU.sparse.name", name,
			"GNU.sparse.map", strings.Join(m, ",")}
	case "p10":
		kv = []string{"GNU.sparse.major", "1", "GNU.sparse.minor", "0", "GNU.sparse.name", name, "GNU.sparse.realsize", fmt.Sprint(e.S)}
		fmt.Fprintf(&body, "%d\n", len(e.G))
		for _, f := range e.G {
			fmt.Fprintf(&body, "%s\n%s\n", num(f.O), num(f.L))
		}
		if n := body.Len() % 512; n != 0 {
			body.Write(make([]byte, 512-n))
		}
	}
	body.Write(data)
	rec := records(kv...)
	buf.Write(header("PaxHeaders/x", len(rec), 'x', false, nil))
	pad(buf, rec)
	short := e.N
	if e.K != "p00" {
		short = "GNUSparseFile.0/" + e.N
	}
	buf.Write(header(short, body.Len(), '0', false, nil))
	pad(buf, body.Bytes())
}

func layout(ents []bent) ([]byte, error) {
	var buf bytes.Buffer
	for i, e := range ents {
		all := content(i+1, e.S)
		var err error
		switch e.K {
		case "reg":
			err = plain(&buf, &tar.Header{Typeflag: tar.TypeReg, Name: e.N, Mode: 0o644}, all)
		case "cont":
			err = plain(&buf, &tar.Header{Typeflag: tar.TypeCont, Name: e.N, Mode: 0o644}, all)
		case "long": // a name which takes entries of its own
			f := tar.FormatGNU
			if e.Wide {
				f = tar.FormatPAX
			}
			err = plain(&buf, &tar.Header{Typeflag: tar.TypeReg, Name: strings.Repeat("./", 300) + e.N, Mode: 0o644, Format: f}, all)
		case "hard":
			err = plain(&buf, &tar.Header{Typeflag: tar.TypeLink, Name: e.N, Linkname: "a", Mode: 0o644}, nil)
		case "dir":
			err = plain(&buf, &tar.Header{Typeflag: tar.TypeDir, Name: "dir/", Mode: 0o755}, nil)
		case "global":
			tw := tar.NewWriter(&buf)
			if err = tw.WriteHeader(&tar.Header{Typeflag: tar.TypeXGlobalHeader, Name: "g", PAXRecords: map[string]string{"comment": strings.Repeat("c", 100*i)}}); err == nil {
				err = tw.Flush()
			}
		case "odd":
			err = plain(&buf, &tar.Header{Typeflag: 'Y', Name: "odd", Mode: 0o644}, all)
		default:
			var data []byte
			for _, f := range e.G {
				data = append(data, all[f.O:f.O+f.L]...)
			}
			sparse(&buf, e, data)
		}
		if err != nil {
			return nil, fmt.Errorf("%+v: %w", e, err)
		}
	}
	buf.Write(make([]byte, 1024))
	return buf.Bytes(), nil
}

type file interface {
	fs.File
	io.ReaderAt
	io.Seeker
}

func byteRun(raw []byte, st *fsx.Stats) (any, error) {
	var s struct {
		C struct {
			K    string `json:"k"`
			Ents []bent `json:"ents"`
		} `json:"c"`
		H []bstep `json:"h"`
	}
	if err := json.Unmarshal(raw, &s); err != nil {
		return nil, err
	}
	b, err := layout(s.C.Ents)
	if err != nil {
		return nil, err
	}
	fsys, err := tarfs.New(bytes.NewReader(b), nil)
	if err != nil {
		return nil, err
	}
	var hs [4]file
	for i := range s.H {
		atomic.AddInt64(&st.Steps, 1)
		s.H[i].R = do(fsys, &hs, s.H[i].X)
	}
	return map[string]any{"c": s.C, "h": s.H, "s": json.RawMessage(raw)}, nil
}

func do(fsys *tarfs.Fs, hs *[4]file, x call) (a reply) {
	a.B = []int{}
	fin := func(n int64, err error) {
		a.Ok, a.Eof, a.N = err == nil || err == io.EOF, err == io.EOF, n
		if !a.Ok {
			a.Msg = err.Error()
			if x.O != "read" && x.O != "readat" {
				a.N = 0
			}
		}
	}
	ints := func(b []byte) {
		for _, x := range b {
			a.B = append(a.B, int(x))
		}
	}
	h := hs[x.S]
	if h == nil && !strings.Contains(" open cat size ", " "+x.O+" ") {
		a.Msg = "no handle"
		return
	}
	switch x.O {
	case "open":
		f, err := fsys.Open(x.P)
		fin(0, err)
		if err == nil {
			g, ok := f.(file)
			if !ok {
				fin(0, errors.New("no Seeker or ReaderAt"))
				return
			}
			hs[x.S] = g
		}
	case "cat":
		b, err := fs.ReadFile(fsys, x.P)
		fin(int64(len(b)), err)
		ints(b)
	case "size":
		fi, err := fs.Stat(fsys, x.P)
		fin(0, err)
		if err == nil {
			a.N = fi.Size()
		}
	case "read", "readat":
		b := make([]byte, x.N)
		var n int
		var err error
		if x.O == "read" {
			n, err = h.Read(b)
		} else {
			n, err = h.ReadAt(b, x.Off)
		}
		fin(int64(n), err)
		ints(b[:n])
	case "seek":
		n, err := h.Seek(x.Off, x.Wh)
		fin(n, err)
	case "stat":
		fi, err := h.Stat()
		fin(0, err)
		if err == nil {
			a.N = fi.Size()
		}
	case "close":
		fin(0, h.Close())
	case "all":
		var b bytes.Buffer
		n, err := io.Copy(&b, h)
		fin(n, err)
		if a.Ok {
			ints(b.Bytes())
		}
	}
	return
}
