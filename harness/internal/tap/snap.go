package tap

import (
	"errors"
	"fmt"
	"io/fs"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/ngicks/go-fsys-helper/vroot"
	"github.com/ngicks/go-fsys-helper/vroot/memfs"
	"github.com/ngicks/go-fsys-helper/vroot/osfs"

	"verif/harness/internal/fsx"
)

// Snap is a whole tree: path to kind, permission bits and content.
type Snap map[string]string

// Take reads the tree at dir. Entries that vanish between listing and looking are reported as errors.
func Take(f fsx.FS, dir string) (Snap, error) {
	s := Snap{}
	err := take(f, dir, ".", s)
	return s, err
}

func take(f fsx.FS, at, rel string, s Snap) error {
	fi, err := f.Lstat(at)
	if err != nil {
		return err
	}
	switch {
	case fi.IsDir():
		s[rel] = fmt.Sprintf("d %o", fi.Mode().Perm())
		es, err := vroot.ReadDir(f, at)
		if err != nil {
			return err
		}
		for _, e := range es {
			if err := take(f, filepath.Join(at, e.Name()), filepath.Join(rel, e.Name()), s); err != nil {
				return err
			}
		}
	case fi.Mode()&fs.ModeSymlink != 0:
		t, err := f.ReadLink(at)
		if err != nil {
			return err
		}
		s[rel] = "l " + t
	default:
		b, err := vroot.ReadFile(f, at)
		if err != nil {
			return err
		}
		s[rel] = fmt.Sprintf("f %o %s", fi.Mode().Perm(), b)
	}
	return nil
}

// Key is the snapshot as one string, with or without permission bits.
func (s Snap) Key(modes bool) string {
	var ks []string
	for k, v := range s {
		if !modes && v[0] != 'l' {
			w := strings.SplitN(v, " ", 3)
			v = w[0]
			if len(w) > 2 {
				v += " " + w[2]
			}
		}
		ks = append(ks, k+"="+v)
	}
	sort.Strings(ks)
	return strings.Join(ks, "\n")
}

// Missing is the key of a tree that is not there.
const Missing = "-"

// Under is the key of the tree at name, Missing if there is none.
func Under(f fsx.FS, name string, modes bool) string {
	s, err := Take(f, name)
	if err != nil {
		if errors.Is(err, fs.ErrNotExist) && len(s) == 0 {
			return Missing
		}
		return "unreadable: " + err.Error()
	}
	return s.Key(modes)
}

// Fresh makes an empty filesystem of the kind: "mem", or "os" in a directory of its own which done removes.
func Fresh(kind string) (f fsx.FS, done func(), err error) {
	if kind == "mem" {
		return memfs.New("m"), func() {}, nil
	}
	dir, err := os.MkdirTemp("", "tap")
	if err != nil {
		return nil, nil, err
	}
	r, err := osfs.NewRoot(dir)
	if err != nil {
		return nil, nil, err
	}
	return vroot.Widen[*osfs.File](r), func() { r.Close(); os.RemoveAll(dir) }, nil
}
