// Package fsx replays behaviours of FsTree.tla on real filesystems.
package fsx

import (
	"bufio"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"

	"github.com/ngicks/go-fsys-helper/fsutil"
	"github.com/ngicks/go-fsys-helper/vroot"
)

type FS = vroot.Fs[vroot.File]

// Op is one operation record of FsTree.tla.
type Op struct {
	O string   `json:"o"`
	B []string `json:"b"`
	X string   `json:"x"`
	P []string `json:"p"`
	Q []string `json:"q,omitempty"`
	D string   `json:"d,omitempty"`
	M string   `json:"m,omitempty"`
	A bool     `json:"a,omitempty"`
	T []string `json:"t,omitempty"`
	N []int    `json:"ns,omitempty"`
	W *WalkArg `json:"w,omitempty"`
}

// WalkArg says how a walk goes.
type WalkArg struct {
	Follow bool     `json:"follow"`
	P      []string `json:"p"`
	A      string   `json:"a"`
	F      []string `json:"f"`
	FK     string   `json:"fk"`
	FC     string   `json:"fc"`
}

func (o Op) String() string { b, _ := json.Marshal(o); return string(b) }

// Node is one entry of a flattened tree.
type Node struct {
	P []string `json:"p"`
	K string   `json:"k"`
	M string   `json:"m,omitempty"`
	D string   `json:"d,omitempty"`
	I int      `json:"i,omitempty"`
	A bool     `json:"a,omitempty"`
	T []string `json:"t,omitempty"`
}

func (n Node) Target() string {
	s := strings.Join(n.T, "/")
	if n.A {
		return "/" + s
	}
	return s
}

type Delta struct {
	Rm  [][]string `json:"rm"`
	Put []Node     `json:"put"`
}

// Case is an operation with the outcome the specification gives it.
type Case struct {
	Op Op              `json:"op"`
	R  string          `json:"r"`
	V  json.RawMessage `json:"v"`
	D  Delta           `json:"d"`
}

// Table is a state and every operation's outcome in it.
type Table struct {
	L [][]Node `json:"l"` // layers, when there are any
	S []Node   `json:"s"`
	T []Case   `json:"t"`
	H []Case   `json:"h"`
}

// Tree is a flattened tree keyed by slash path ("." is the root).
type Tree map[string]Node

func Key(p []string) string {
	if len(p) == 0 {
		return "."
	}
	return strings.Join(p, "/")
}

func ToTree(ns []Node) Tree {
	t := Tree{}
	for _, n := range ns {
		t[Key(n.P)] = n
	}
	return t
}

func (t Tree) Apply(d Delta) Tree {
	if len(d.Rm) == 0 && len(d.Put) == 0 {
		return t
	}
	o := make(Tree, len(t))
	for k, v := range t {
		o[k] = v
	}
	for _, p := range d.Rm {
		delete(o, Key(p))
	}
	for _, n := range d.Put {
		o[Key(n.P)] = n
	}
	return o
}

func (n Node) line(modes bool) string {
	switch n.K {
	case "d":
		if modes {
			return "d " + n.M
		}
		return "d"
	case "f":
		if modes {
			return fmt.Sprintf("f %s %q", n.M, n.D)
		}
		return fmt.Sprintf("f %q", n.D)
	default:
		return "l " + n.Target()
	}
}

// Lines renders a tree for comparison.
func (t Tree) Lines(modes bool) []string {
	var out []string
	for k, n := range t {
		out = append(out, k+" "+n.line(modes))
	}
	sort.Strings(out)
	return out
}

// Diff lists where got differs from want.
func Diff(want, got Tree, modes bool) string {
	var out []string
	for k, n := range want {
		g, ok := got[k]
		if !ok {
			out = append(out, "missing "+k+" ("+n.line(modes)+")")
		} else if g.line(modes) != n.line(modes) {
			out = append(out, k+": want "+n.line(modes)+" got "+g.line(modes))
		}
	}
	for k, g := range got {
		if _, ok := want[k]; !ok {
			out = append(out, "unexpected "+k+" ("+g.line(modes)+")")
		}
	}
	sort.Strings(out)
	return strings.Join(out, "; ")
}

func mode(s string) fs.FileMode {
	m, _ := strconv.ParseUint(s, 8, 32)
	return fs.FileMode(m)
}

func modeStr(m fs.FileMode) string { return strconv.FormatUint(uint64(m.Perm()), 8) }

// Spell renders a path argument in one of its spellings.
func Spell(p []string, x string) string {
	s := Key(p)
	switch x {
	case "esc":
		return "../" + strings.TrimPrefix(s, "./")
	case "abs":
		return "/" + s
	}
	if len(p) == 0 {
		return s
	}
	switch x {
	case "dot":
		return "./" + s
	case "dslash":
		return strings.Join(p, "//")
	case "dotmid":
		return strings.Join(p, "/./")
	case "dd":
		return "nil/../" + s
	case "escmid":
		return p[0] + "/../../" + s
	}
	return s
}

// Class maps a real error to the specification's classes.
func Class(err error) string {
	switch {
	case err == nil:
		return "ok"
	case errors.Is(err, vroot.ErrPathEscapes):
		return "esc"
	case errors.Is(err, fs.ErrPermission), errors.Is(err, syscall.EROFS):
		return "perm"
	case errors.Is(err, fs.ErrInvalid):
		return "inval"
	case errors.Is(err, syscall.ENOTEMPTY):
		return "err"
	case errors.Is(err, fs.ErrNotExist):
		return "noent"
	case errors.Is(err, fs.ErrExist):
		return "exist"
	}
	return "err"
}

// Agrees reports whether a real class satisfies the specified one.
func Agrees(want, got string) bool {
	if want == got {
		return true
	}
	switch want {
	case "fail", "err":
		return got != "ok"
	}
	return false
}

func isDirFlag(fi fs.FileInfo) string {
	switch {
	case fi.Mode()&fs.ModeSymlink != 0:
		return "l"
	case fi.IsDir():
		return "d"
	case fi.Mode().IsRegular():
		return "f"
	}
	return "?" + fi.Mode().String()
}

func writeTo(fsys FS, name string, flag int, data string) error {
	f, err := fsys.OpenFile(name, flag, 0o644)
	if err != nil {
		return err
	}
	n, err := f.Write([]byte(data))
	if err == nil && n != len(data) {
		err = fmt.Errorf("short write %d", n)
	}
	if cerr := f.Close(); err == nil {
		err = cerr
	}
	return err
}

// Abs is the prefix absolute names and link targets get on a subject.
type Abs string

func (a Abs) spell(p []string, x string) string {
	if x == "abs" {
		return string(a) + Spell(p, x)
	}
	return Spell(p, x)
}

func (a Abs) target(abs bool, t []string) string {
	s := strings.Join(t, "/")
	if abs {
		return string(a) + "/" + s
	}
	return s
}

func (a Abs) Parse(t string) (bool, []string) {
	if strings.HasPrefix(t, "/") {
		return true, strings.Split(strings.TrimPrefix(strings.TrimPrefix(t, string(a)), "/"), "/")
	}
	return false, strings.Split(t, "/")
}

// touchTime is what chtimes sets.
var touchTime = time.Unix(1700000000, 0)

// Do performs op on fsys (already rooted at op.B) and returns its value in
// the specification's form.
func Do(in *Inst, fsys FS, op Op) (v any, err error) {
	defer func() {
		if r := recover(); r != nil {
			v, err = nil, fmt.Errorf("PANIC: %v", r)
		}
	}()
	if in.Exec != nil {
		return in.Exec(op)
	}
	p := in.Abs.spell(op.P, op.X)
	switch op.O {
	case "page", "readat", "hstat", "hmut", "caps":
		f, err := fsys.Open(p)
		if err != nil {
			return nil, err
		}
		defer f.Close()
		return OnHandle(in, f, op)
	case "hchmod":
		f, err := fsys.Open(p)
		if err != nil {
			return nil, err
		}
		defer f.Close()
		if err := f.Chmod(mode(op.M)); err != nil {
			return nil, err
		}
		fi, err := f.Stat()
		if err == nil && fi.Mode().Perm() != mode(op.M) {
			err = fmt.Errorf("WRONG handle reports mode %v after chmod %s", fi.Mode(), op.M)
		}
		return nil, err
	case "openw":
		f, err := fsys.OpenFile(p, Flags(op.D), 0o644)
		if err == nil {
			f.Close()
		}
		return nil, err
	case "mkdir":
		return "", fsys.Mkdir(p, mode(op.M))
	case "mkdirall":
		return "", fsys.MkdirAll(p, mode(op.M))
	case "write":
		return "", writeTo(fsys, p, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, op.D)
	case "excl":
		return "", writeTo(fsys, p, os.O_WRONLY|os.O_CREATE|os.O_EXCL, op.D)
	case "append":
		return "", writeTo(fsys, p, os.O_WRONLY|os.O_APPEND, op.D)
	case "appendc":
		return "", writeTo(fsys, p, os.O_WRONLY|os.O_APPEND|os.O_CREATE, op.D)
	case "trunc":
		return "", writeTo(fsys, p, os.O_RDWR|os.O_TRUNC, "")
	case "poke":
		return "", writeTo(fsys, p, os.O_RDWR, op.D)
	case "read":
		return read(fsys, p)
	case "stat", "lstat":
		var fi fs.FileInfo
		if op.O == "stat" {
			fi, err = fsys.Stat(p)
		} else {
			fi, err = fsys.Lstat(p)
		}
		if err != nil {
			return nil, err
		}
		k := isDirFlag(fi)
		out := map[string]any{"k": k}
		if k != "l" {
			out["m"] = modeStr(fi.Mode())
		}
		if k == "f" {
			out["n"] = fi.Size()
		}
		if len(op.P) > 0 && op.O == "lstat" && op.X == "" && fi.Name() != op.P[len(op.P)-1] {
			out["name"] = fi.Name()
		}
		return out, nil
	case "resolve":
		if op.D == "chain" {
			r, n, err := fsutil.ResolveSymlink(fsys, p, 40)
			if err != nil {
				return nil, err
			}
			if r == "" {
				r = "?"
			}
			return map[string]any{"k": "res", "p": names(r), "n": n}, nil
		}
		r, err := fsutil.ResolvePath(fsys, p, op.D == "last")
		if err != nil {
			return nil, err
		}
		return map[string]any{"k": "res", "p": names(r)}, nil
	case "walk":
		return walk(fsys, p, op.W)
	case "readlink":
		t, err := fsys.ReadLink(p)
		if err != nil {
			return nil, err
		}
		abs, tt := in.Abs.Parse(t)
		return map[string]any{"k": "l", "a": abs, "t": tt}, nil
	case "remove":
		return "", fsys.Remove(p)
	case "removeall":
		return "", fsys.RemoveAll(p)
	case "rename":
		return "", fsys.Rename(p, in.Abs.spell(op.Q, op.X))
	case "link":
		return "", fsys.Link(p, in.Abs.spell(op.Q, op.X))
	case "symlink":
		return "", fsys.Symlink(in.Abs.target(op.A, op.T), p)
	case "chmod":
		return "", fsys.Chmod(p, mode(op.M))
	case "create":
		f, err := fsys.Create(p)
		if err != nil {
			return nil, err
		}
		_, err = f.Write([]byte(op.D))
		if cerr := f.Close(); err == nil {
			err = cerr
		}
		return "", err
	case "chtimes":
		if err := fsys.Chtimes(p, touchTime, touchTime); err != nil {
			return nil, err
		}
		fi, err := fsys.Stat(p)
		if err == nil && !fi.ModTime().Equal(touchTime) {
			err = fmt.Errorf("WRONG chtimes left mtime %v", fi.ModTime())
		}
		return "", err
	case "chown":
		return "", fsys.Chown(p, os.Getuid(), os.Getgid())
	case "lchown":
		return "", fsys.Lchown(p, os.Getuid(), os.Getgid())
	case "openroot":
		if in.OpenRoot == nil {
			return nil, errors.New("NOVIEW")
		}
		v, err := in.OpenRoot(fsys, p)
		if err != nil {
			return nil, err
		}
		defer v.Close()
		return read(v, ".")
	}
	return nil, fmt.Errorf("unknown op %q", op.O)
}

// names splits a path, the root having none.
func names(p string) []string {
	if p == "." {
		return []string{}
	}
	return strings.Split(p, string(filepath.Separator))
}

var errStop = errors.New("stop")

// blind fails to look at (or list) one path.
type blind struct {
	FS
	at, how string
	err     error
}

// Classes are what an error made up here may wrap.
var Classes = map[string]error{"noent": fs.ErrNotExist, "perm": fs.ErrPermission, "eof": io.EOF}

func (b *blind) Lstat(name string) (fs.FileInfo, error) {
	if b.how == "lstat" && filepath.Clean(name) == b.at {
		return nil, b.err
	}
	return b.FS.Lstat(name)
}

func (b *blind) Open(name string) (vroot.File, error) {
	if b.how == "list" && filepath.Clean(name) == b.at {
		return nil, b.err
	}
	return b.FS.Open(name)
}

func (b *blind) OpenFile(name string, flag int, perm fs.FileMode) (vroot.File, error) {
	if b.how == "list" && filepath.Clean(name) == b.at {
		return nil, b.err
	}
	return b.FS.OpenFile(name, flag, perm)
}

func walk(fsys FS, root string, w *WalkArg) (any, error) {
	if w.FK != "" {
		fsys = &blind{fsys, filepath.Join(append([]string{"."}, w.F...)...), w.FK, errors.Join(errors.New("injected"), Classes[w.FC])}
	}
	at := filepath.Join(append([]string{"."}, w.P...)...)
	type visit struct {
		P []string `json:"p"`
		R []string `json:"r"`
		K string   `json:"k"`
		E string   `json:"e"`
	}
	calls := []visit{}
	err := vroot.WalkDir[vroot.File](fsys, root, &vroot.WalkOption{ResolveSymlink: w.Follow}, func(path, real string, d fs.FileInfo, err error) error {
		v := visit{P: names(path), R: names(real), K: "-"}
		if err != nil {
			v.E = "err"
		} else if d != nil {
			v.K = isDirFlag(d)
		}
		calls = append(calls, v)
		if len(calls) > 2000 {
			return errors.New("WRONG endless walk")
		}
		if path == at {
			switch w.A {
			case "dir":
				return vroot.SkipDir
			case "all":
				return vroot.SkipAll
			case "err":
				return errStop
			}
		}
		return nil
	})
	r := ""
	if errors.Is(err, errStop) {
		r, err = "err", nil
	}
	return map[string]any{"k": "w", "c": calls, "r": r}, err
}

// Flags parses the specification's names of open flags.
func Flags(s string) int {
	n := 0
	for _, c := range strings.Split(s, "+") {
		n |= map[string]int{"r": os.O_RDONLY, "w": os.O_WRONLY, "rw": os.O_RDWR, "a": os.O_APPEND,
			"c": os.O_CREATE, "x": os.O_EXCL, "t": os.O_TRUNC, "s": os.O_SYNC}[c]
	}
	return n
}

// Info renders a FileInfo as the specification describes an entry.
func Info(fi fs.FileInfo) map[string]any {
	k := isDirFlag(fi)
	out := map[string]any{"k": k}
	if k != "l" {
		out["m"] = modeStr(fi.Mode())
	}
	if k == "f" {
		out["n"] = fi.Size()
	}
	return out
}

// OnHandle performs a handle operation on f, which it does not close.
func OnHandle(in *Inst, f fs.File, op Op) (any, error) {
	switch op.O {
	case "page":
		return page(f, op)
	case "readat":
		ra, ok := f.(io.ReaderAt)
		if !ok {
			return nil, errors.New("no ReadAt")
		}
		buf := make([]byte, op.N[1])
		for i := range buf {
			buf[i] = '#'
		}
		n, err := ra.ReadAt(buf, int64(op.N[0]))
		if err != nil && err != io.EOF {
			return nil, err
		}
		eof := err == io.EOF
		if len(buf) == 0 {
			// A read of nothing may or may not notice the end.
			fi, err := f.Stat()
			if err != nil {
				return nil, err
			}
			eof = int64(op.N[0]) > fi.Size()
		}
		return map[string]any{"k": "ra", "d": string(buf[:n]), "eof": eof}, nil
	case "hstat":
		fi, err := f.Stat()
		if err != nil {
			return nil, err
		}
		return Info(fi), nil
	case "caps":
		_, ra := f.(io.ReaderAt)
		_, w := f.(io.Writer)
		return map[string]any{"k": "caps", "ra": ra, "w": w}, nil
	case "hmut":
		vf := f.(vroot.File)
		var err error
		n := 0
		switch op.D {
		case "write":
			n, err = vf.Write([]byte("X"))
		case "writeat":
			n, err = vf.WriteAt([]byte("X"), 0)
		case "writestring":
			n, err = vf.WriteString("X")
		case "truncate":
			err = vf.Truncate(1)
		case "chmod":
			err = vf.Chmod(0o777)
		case "chown":
			err = vf.Chown(os.Getuid(), os.Getgid())
		case "sync":
			err = vf.Sync()
		}
		if n != 0 {
			err = fmt.Errorf("WRONG refused write counts %d bytes (%v)", n, err)
		}
		return nil, err
	}
	return nil, fmt.Errorf("unknown handle op %q", op.O)
}

func page(f fs.File, op Op) (any, error) {
	counts := [][2]any{}
	type ent struct {
		N string         `json:"n"`
		I map[string]any `json:"i"`
	}
	all := []ent{}
	seen := map[string]bool{}
	for _, n := range op.N {
		var got []ent
		var err error
		switch op.D {
		case "ReadDir":
			rd, ok := f.(fs.ReadDirFile)
			if !ok {
				return nil, errors.New("no ReadDir")
			}
			var es []fs.DirEntry
			es, err = rd.ReadDir(n)
			for _, e := range es {
				fi, ierr := e.Info()
				if ierr != nil {
					return nil, ierr
				}
				if fi.Name() != e.Name() || e.Type() != fi.Mode().Type() || e.IsDir() != fi.IsDir() {
					return nil, fmt.Errorf("WRONG entry %q %v, its info %q %v", e.Name(), e.Type(), fi.Name(), fi.Mode())
				}
				got = append(got, ent{e.Name(), Info(fi)})
			}
		case "Readdir":
			var fis []fs.FileInfo
			fis, err = f.(interface {
				Readdir(int) ([]fs.FileInfo, error)
			}).Readdir(n)
			for _, fi := range fis {
				got = append(got, ent{fi.Name(), Info(fi)})
			}
		case "Readdirnames":
			var ns []string
			ns, err = f.(interface {
				Readdirnames(int) ([]string, error)
			}).Readdirnames(n)
			for _, s := range ns {
				got = append(got, ent{N: s})
			}
		}
		e := ""
		if err == io.EOF {
			e = "eof"
		} else if err != nil {
			return nil, err
		}
		for _, g := range got {
			if seen[g.N] {
				return nil, fmt.Errorf("WRONG %q listed twice", g.N)
			}
			seen[g.N] = true
			all = append(all, g)
		}
		counts = append(counts, [2]any{len(got), e})
	}
	return map[string]any{"k": "pg", "c": counts, "e": all}, nil
}

func read(fsys FS, p string) (any, error) {
	f, err := fsys.Open(p)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	fi, err := f.Stat()
	if err != nil {
		return nil, err
	}
	if fi.IsDir() {
		l, err := listing(f)
		if err != nil {
			return nil, err
		}
		return map[string]any{"k": "d", "l": l}, nil
	}
	b, err := io.ReadAll(f)
	if err != nil {
		return nil, err
	}
	if int64(len(b)) != fi.Size() {
		return nil, fmt.Errorf("SIZE stat %d read %d", fi.Size(), len(b))
	}
	return map[string]any{"k": "f", "d": string(b)}, nil
}

func listing(f vroot.File) ([][2]string, error) {
	es, err := f.ReadDir(-1)
	if err != nil {
		return nil, err
	}
	l := [][2]string{}
	for _, e := range es {
		k := "f"
		if e.Type()&fs.ModeSymlink != 0 {
			k = "l"
		} else if e.IsDir() {
			k = "d"
		} else if !e.Type().IsRegular() {
			k = "?"
		}
		l = append(l, [2]string{e.Name(), k})
	}
	sort.Slice(l, func(i, j int) bool { return l[i][0] < l[j][0] })
	return l, nil
}

// Canon re-encodes a value so that equal values are equal strings.
func Canon(raw json.RawMessage) string {
	var v any
	if json.Unmarshal(raw, &v) != nil {
		return string(raw)
	}
	if m, ok := v.(map[string]any); ok {
		if e, ok := m["e"].([]any); ok {
			sort.Slice(e, func(i, j int) bool {
				return fmt.Sprint(e[i].(map[string]any)["n"]) < fmt.Sprint(e[j].(map[string]any)["n"])
			})
		}
		if l, ok := m["l"].([]any); ok {
			sort.Slice(l, func(i, j int) bool {
				return fmt.Sprint(l[i]) < fmt.Sprint(l[j])
			})
		}
	}
	b, _ := json.Marshal(v)
	return string(b)
}

// Observe reads the whole tree of fsys.
func Observe(in *Inst) (t Tree, err error) {
	fsys := in.FS
	if in.Look != nil {
		fsys = in.Look
	}
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("PANIC while observing: %v", r)
		}
	}()
	t = Tree{}
	fi, err := fsys.Lstat(".")
	if err != nil {
		return nil, fmt.Errorf("lstat .: %w", err)
	}
	t["."] = Node{K: isDirFlag(fi), M: modeStr(fi.Mode())}
	err = observe(in, fsys, nil, t, 0)
	return t, err
}

func observe(in *Inst, fsys FS, dir []string, t Tree, depth int) error {
	if depth > 12 {
		return errors.New("tree deeper than anything created")
	}
	f, err := fsys.Open(Key(dir))
	if err != nil {
		return fmt.Errorf("open dir %s: %w", Key(dir), err)
	}
	l, err := listing(f)
	f.Close()
	if err != nil {
		return fmt.Errorf("readdir %s: %w", Key(dir), err)
	}
	for i, e := range l {
		if i > 0 && l[i-1][0] == e[0] {
			return fmt.Errorf("%s lists %q twice", Key(dir), e[0])
		}
		p := append(append([]string{}, dir...), e[0])
		k := Key(p)
		fi, err := fsys.Lstat(k)
		if err != nil {
			return fmt.Errorf("lstat listed %s: %w", k, err)
		}
		if isDirFlag(fi) != e[1] {
			return fmt.Errorf("%s listed as %s, lstat says %s", k, e[1], isDirFlag(fi))
		}
		n := Node{P: p, K: e[1], M: modeStr(fi.Mode())}
		switch n.K {
		case "d":
			t[k] = n
			if err := observe(in, fsys, p, t, depth+1); err != nil {
				return err
			}
		case "f":
			b, err := vroot.ReadFile(fsys, k)
			if err != nil {
				return fmt.Errorf("read %s: %w", k, err)
			}
			n.D = string(b)
			if fi.Size() != int64(len(b)) {
				return fmt.Errorf("%s: lstat size %d, %d bytes read", k, fi.Size(), len(b))
			}
			t[k] = n
		case "l":
			s, err := fsys.ReadLink(k)
			if err != nil {
				return fmt.Errorf("readlink %s: %w", k, err)
			}
			n.A, n.T = in.Abs.Parse(s)
			n.M = ""
			t[k] = n
		}
	}
	return nil
}

// Build creates tree t in an empty fsys.
func Build(fsys FS, t Tree, abs ...Abs) error {
	var pre Abs
	if len(abs) > 0 {
		pre = abs[0]
	}
	var keys []string
	for k := range t {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	first := map[int]string{}
	for _, k := range keys {
		n := t[k]
		if k == "." {
			if n.M != "" && n.M != "755" {
				if err := fsys.Chmod(".", mode(n.M)); err != nil {
					return err
				}
			}
			continue
		}
		var err error
		switch n.K {
		case "d":
			err = fsys.Mkdir(k, 0o755)
			if err == nil && n.M != "755" {
				err = fsys.Chmod(k, mode(n.M))
			}
		case "f":
			if o, ok := first[n.I]; ok && n.I != 0 {
				err = fsys.Link(o, k)
				break
			}
			first[n.I] = k
			err = vroot.WriteFile(fsys, k, []byte(n.D), 0o644)
			if err == nil && n.M != "644" {
				err = fsys.Chmod(k, mode(n.M))
			}
		case "l":
			err = fsys.Symlink(pre.target(n.A, n.T), k)
		}
		if err != nil {
			return fmt.Errorf("build %s: %w", k, err)
		}
	}
	return nil
}

// ReadLines feeds every JSON object TLC printed with the "@@" tag to f.
func ReadLines(path string, f func(raw []byte) error) error {
	fh, err := os.Open(path)
	if err != nil {
		return err
	}
	defer fh.Close()
	r := bufio.NewReaderSize(fh, 1<<20)
	for {
		line, err := r.ReadString('\n')
		if strings.HasPrefix(line, "\"@@") {
			var s string
			if e := json.Unmarshal([]byte(strings.TrimSpace(line)), &s); e != nil {
				return fmt.Errorf("bad TLC line: %w", e)
			}
			if e := f([]byte(s[2:])); e != nil {
				return e
			}
		}
		if err == io.EOF {
			return nil
		}
		if err != nil {
			return err
		}
	}
}
