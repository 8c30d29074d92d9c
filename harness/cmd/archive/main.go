// Command archive writes the archives of SimArchive and SimArcBytes and asks tarfs about them.
package main

import (
	"archive/tar"
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"strconv"
	"strings"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/ngicks/go-fsys-helper/fsutil"
	"github.com/ngicks/go-fsys-helper/tarfs"

	"verif/harness/internal/fsx"
	"verif/harness/internal/rec"
)

type entry struct {
	K string   `json:"k"`
	N []string `json:"n"`
	L []string `json:"l"`
	M string   `json:"m"`
	S int      `json:"s"`
}

type conf struct {
	K      string   `json:"k"`
	Fmt    string   `json:"fmt"`
	Long   bool     `json:"long"`
	Syml   bool     `json:"syml"`
	Dev    bool     `json:"dev"`
	Rooted bool     `json:"rooted"`
	Sub    []string `json:"sub"`
	Chain  int      `json:"chain"`
	Ents   []entry  `json:"ents"`
}

type ask struct {
	O  string   `json:"o"`
	P  []string `json:"p"`
	Ns []int    `json:"ns"`
}

type page struct {
	N   []string `json:"n"`
	Eof bool     `json:"eof"`
}

// node is what something looks like.
type node struct {
	P  []string `json:"p"`
	K  string   `json:"k"`
	M  string   `json:"m"`
	S  int64    `json:"s"`
	Mt int64    `json:"mt"`
	C  int      `json:"c"`
	L  []string `json:"l"`
}

type answer struct {
	Cl string `json:"cl"`
	node
	Ls []node `json:"ls"`
	G  []page `json:"g"`
}

type step struct {
	X ask    `json:"x"`
	R answer `json:"r"`
}

var longName = strings.Repeat("b", 130)

const epoch = 1000000

func (c conf) spell(p []string) string {
	q := make([]string, len(p))
	for i, x := range p {
		if q[i] = x; x == "b" && c.Long {
			q[i] = longName
		}
	}
	return strings.Join(q, "/")
}

func (c conf) name(x string) string {
	if c.Long && x == longName {
		return "b"
	}
	return x
}

func (c conf) pieces(s string) []string {
	q := strings.Split(s, "/")
	for i := range q {
		q[i] = c.name(q[i])
	}
	return q
}

func content(i, n int) []byte {
	b := make([]byte, n)
	for k := range b {
		b[k] = byte((i*37+k*11+k/251)%250 + 1)
	}
	return b
}

var flags = map[string]byte{"reg": tar.TypeReg, "dir": tar.TypeDir, "sym": tar.TypeSymlink, "hard": tar.TypeLink, "char": tar.TypeChar,
	"block": tar.TypeBlock, "fifo": tar.TypeFifo, "odd": 'Y', "cont": tar.TypeCont, "global": tar.TypeXGlobalHeader}

var formats = map[string]tar.Format{"pax": tar.FormatPAX, "gnu": tar.FormatGNU, "ustar": tar.FormatUSTAR}

func (c conf) write() ([]byte, error) {
	var buf bytes.Buffer
	tw := tar.NewWriter(&buf)
	for i, e := range c.Ents {
		if e.K == "global" {
			if err := tw.WriteHeader(&tar.Header{Typeflag: tar.TypeXGlobalHeader, Name: "g", PAXRecords: map[string]string{"comment": strings.Repeat("c", i*200)}}); err != nil {
				return nil, err
			}
			continue
		}
		m, err := strconv.ParseInt(e.M, 8, 32)
		if err != nil {
			return nil, err
		}
		h := &tar.Header{Typeflag: flags[e.K], Name: c.spell(e.N), Linkname: c.spell(e.L), Mode: m, Size: int64(e.S), ModTime: time.Unix(epoch+int64(i)+1, 0), Format: formats[c.Fmt]}
		if e.K == "dir" {
			h.Name += "/"
		}
		if e.K == "hard" {
			h.Mode = 0
		}
		if err := tw.WriteHeader(h); err != nil {
			return nil, fmt.Errorf("%+v: %w", h, err)
		}
		if _, err := tw.Write(content(i+1, e.S)); err != nil {
			return nil, err
		}
	}
	return buf.Bytes(), tw.Close()
}

func (c conf) which(b []byte) int {
	if len(b) == 0 {
		return 0
	}
	for i, e := range c.Ents {
		if e.S == len(b) && bytes.Equal(b, content(i+1, e.S)) {
			return i + 1
		}
	}
	return -1
}

func class(err error) string {
	switch {
	case err == nil:
		return "ok"
	case errors.Is(err, fsutil.ErrPathEscapes):
		return "escape"
	case errors.Is(err, syscall.ELOOP):
		return "loop"
	case errors.Is(err, fs.ErrNotExist), errors.Is(err, fs.ErrInvalid), errors.Is(err, syscall.ENOTDIR), errors.Is(err, syscall.EINVAL):
		return "missing"
	}
	return err.Error()
}

func kind(m fs.FileMode) string {
	switch m.Type() {
	case 0:
		return "reg"
	case fs.ModeDir:
		return "dir"
	case fs.ModeSymlink:
		return "sym"
	case fs.ModeNamedPipe:
		return "fifo"
	case fs.ModeDevice:
		return "block"
	case fs.ModeDevice | fs.ModeCharDevice:
		return "char"
	}
	return m.String()
}

func (c conf) info(i fs.FileInfo) node {
	m := i.Mode()
	u := uint32(m.Perm())
	for _, x := range []struct {
		b fs.FileMode
		u uint32
	}{{fs.ModeSetuid, 0o4000}, {fs.ModeSetgid, 0o2000}, {fs.ModeSticky, 0o1000}} {
		if m&x.b != 0 {
			u |= x.u
		}
	}
	n := node{P: []string{}, K: kind(m), M: strconv.FormatUint(uint64(u), 8), S: i.Size(), L: []string{}}
	if n.K != "reg" {
		n.S = 0
	}
	if t := i.ModTime().Unix() - epoch; t > 0 && t <= int64(len(c.Ents)) {
		n.Mt = t
	}
	if i.IsDir() != (n.K == "dir") {
		n.K += "?"
	}
	return n
}

func (c conf) list(es []fs.DirEntry) ([]node, error) {
	ls := []node{}
	for _, e := range es {
		i, err := e.Info()
		if err != nil {
			return nil, err
		}
		n := c.info(i)
		if e.Name() != i.Name() || e.Type() != i.Mode().Type() || e.IsDir() != i.IsDir() {
			n.K += "!"
		}
		n.P = []string{c.name(e.Name())}
		ls = append(ls, n)
	}
	return ls, nil
}

func (c conf) tree(fsys fs.FS, at string, rel []string, ls *[]node) error {
	es, err := fs.ReadDir(fsys, at)
	if err != nil {
		return fmt.Errorf("list %q: %w", at, err)
	}
	ns, err := c.list(es)
	if err != nil {
		return err
	}
	if len(*ls) > 2000 {
		return errors.New("endless tree")
	}
	for i, n := range ns {
		n.P = append(append([]string{}, rel...), n.P...)
		p := es[i].Name()
		if at != "." {
			p = at + "/" + p
		}
		switch n.K {
		case "sym":
			t, err := fsys.(linker).ReadLink(p)
			if err != nil {
				return fmt.Errorf("readlink %q: %w", p, err)
			}
			n.L = c.pieces(t)
		case "dir":
		default:
			b, err := fs.ReadFile(fsys, p)
			if err != nil {
				return fmt.Errorf("read %q: %w", p, err)
			}
			n.C = c.which(b)
		}
		*ls = append(*ls, n)
		if n.K == "dir" {
			if err := c.tree(fsys, p, n.P, ls); err != nil {
				return err
			}
		}
	}
	return nil
}

type linker interface {
	ReadLink(string) (string, error)
	Lstat(string) (fs.FileInfo, error)
}

func (c conf) ask(fsys fs.FS, x ask) (a answer) {
	a.P, a.L, a.Ls, a.G = []string{}, []string{}, []node{}, []page{}
	set := func(i fs.FileInfo) {
		a.node = c.info(i)
	}
	p := c.spell(x.P)
	if len(x.P) == 0 {
		p = "."
	}
	switch x.O {
	case "stat":
		i, err := fs.Stat(fsys, p)
		if a.Cl = class(err); err == nil {
			set(i)
		}
	case "lstat":
		i, err := fsys.(linker).Lstat(p)
		if a.Cl = class(err); err == nil {
			set(i)
		}
	case "readlink":
		t, err := fsys.(linker).ReadLink(p)
		if a.Cl = class(err); err == nil {
			a.L = c.pieces(t)
		}
	case "open":
		f, err := fsys.Open(p)
		if a.Cl = class(err); err != nil {
			return
		}
		defer f.Close()
		i, err := f.Stat()
		if err != nil {
			a.Cl = class(err)
			return
		}
		set(i)
		if i.IsDir() {
			var es []fs.DirEntry
			n := len(x.P)%3 + 1
			if n == 3 {
				n = -1
			}
			for {
				more, err := f.(fs.ReadDirFile).ReadDir(n)
				es = append(es, more...)
				if err != nil && err != io.EOF {
					a.Cl = class(err)
					return
				}
				if err != nil || n < 0 {
					break
				}
				if len(more) == 0 || len(more) > n {
					a.Cl = "page"
					return
				}
			}
			if a.Ls, err = c.list(es); err != nil {
				a.Cl = class(err)
			}
			return
		}
		b, err := io.ReadAll(f)
		if err != nil {
			a.Cl = class(err)
			return
		}
		a.C = c.which(b)
		if a.K == "reg" && int(a.S) != len(b) {
			a.Cl = fmt.Sprintf("size %d, %d bytes", a.S, len(b))
		}
	case "pages":
		f, err := fsys.Open(p)
		if a.Cl = class(err); err != nil {
			return
		}
		defer f.Close()
		d, ok := f.(fs.ReadDirFile)
		if !ok {
			return
		}
		for _, n := range x.Ns {
			g := page{N: []string{}}
			if n == -9 {
				_, err = f.(io.Seeker).Seek(0, io.SeekStart)
			} else {
				var es []fs.DirEntry
				es, err = d.ReadDir(n)
				for _, e := range es {
					g.N = append(g.N, c.name(e.Name()))
				}
				if g.Eof = err == io.EOF; g.Eof {
					err = nil
				}
			}
			if a.G = append(a.G, g); err != nil {
				a.Cl = class(err)
				return
			}
		}
	case "tree":
		// what is under the directory the path names, through the directory itself
		f, err := fs.Stat(fsys, p)
		if a.Cl = class(err); err != nil {
			return
		}
		if !f.IsDir() {
			return
		}
		sub, err := fsys.(fs.SubFS).Sub(p)
		if err == nil {
			err = c.tree(sub, ".", nil, &a.Ls)
		}
		a.Cl = class(err)
	}
	return
}

func main() {
	rec.Main(0, 30*time.Second, func(raw []byte, st *fsx.Stats) (any, error) {
		var k struct {
			C struct {
				K string `json:"k"`
			} `json:"c"`
		}
		if err := json.Unmarshal(raw, &k); err != nil {
			return nil, err
		}
		if k.C.K == "bytes" {
			return byteRun(raw, st)
		}
		var s struct {
			C conf   `json:"c"`
			H []step `json:"h"`
		}
		if err := json.Unmarshal(raw, &s); err != nil {
			return nil, err
		}
		b, err := s.C.write()
		if err != nil {
			return nil, err
		}
		out := map[string]any{"c": s.C, "s": json.RawMessage(raw)}
		base, err := tarfs.New(bytes.NewReader(b), &tarfs.FsOption{AllowDev: s.C.Dev, HandleSymlink: s.C.Syml, IsRooted: s.C.Rooted})
		var fsys fs.FS = base
		if err == nil && len(s.C.Sub) > 0 {
			fsys, err = base.Sub(s.C.spell(s.C.Sub))
		}
		out["sub"] = class(err)
		h := []step{}
		for _, x := range s.H {
			if err == nil {
				x.R = s.C.ask(fsys, x.X)
				atomic.AddInt64(&st.Steps, 1)
			} else {
				x.R = answer{Ls: []node{}, G: []page{}}
				x.R.L, x.R.P = []string{}, []string{}
			}
			h = append(h, x)
		}
		out["h"] = h
		return out, nil
	})
}
