From 729548a54c77ed31facdf9e8b59537e2f2b4caca Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 21:42:09 +0000
Subject: [PATCH 01/43] fix: synthfs: rename follows rename(2) for itself, into
 itself and across kinds

Renaming a directory into its own subtree succeeded and detached the whole
subtree; renaming an entry onto itself failed or closed it; a file could
replace a directory and a directory a file.
---
 vroot/synthfs/rename.go | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/vroot/synthfs/rename.go b/vroot/synthfs/rename.go
index cfc8774..3cc8ba9 100644
--- a/vroot/synthfs/rename.go
+++ b/vroot/synthfs/rename.go
@@ -3,6 +3,7 @@ package synthfs
 import (
 	"errors"
 	"io/fs"
+	"syscall"
 
 	"github.com/ngicks/go-fsys-helper/fsutil"
 	"github.com/ngicks/go-fsys-helper/fsutil/errdef"
@@ -25,11 +26,31 @@ func (r *Root) Rename(oldname, newname string) error {
 	if err != nil {
 		return fsutil.WrapLinkErr("rename", oldname, newname, errors.Unwrap(err))
 	}
-	if existing := newParent.lookup(newBase); existing != nil {
-		// POSIX rename replaces; emulate that for files. Refuse to overwrite
-		// a non-empty directory to keep the operation safe under any platform.
-		if d, ok := existing.(*dir); ok && d.ordered.Len() > 0 {
+	existing := newParent.lookup(newBase)
+	if existing == target {
+		// Both names address the same entry: rename(2) does nothing.
+		return nil
+	}
+	srcDir, srcIsDir := target.(*dir)
+	if srcIsDir {
+		// Moving a directory into itself would cut the tree loose from the root.
+		for p := newParent; p != nil; p = p.parent {
+			if p == srcDir {
+				return fsutil.WrapLinkErr("rename", oldname, newname, syscall.EINVAL)
+			}
+		}
+	}
+	if existing != nil {
+		// POSIX rename replaces a file with a file and an empty directory with a
+		// directory, and nothing else.
+		dstDir, dstIsDir := existing.(*dir)
+		switch {
+		case dstIsDir && dstDir.ordered.Len() > 0:
 			return fsutil.WrapLinkErr("rename", oldname, newname, errdef.ENOTEMPTY)
+		case dstIsDir && !srcIsDir:
+			return fsutil.WrapLinkErr("rename", oldname, newname, syscall.EISDIR)
+		case !dstIsDir && srcIsDir:
+			return fsutil.WrapLinkErr("rename", oldname, newname, syscall.ENOTDIR)
 		}
 		newParent.removeEntry(newBase)
 		if f, ok := existing.(*file); ok {
-- 
2.43.0


From a2433cb1a5c2aaa6e9fad0355c4b0ef68abb315d Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 21:42:26 +0000
Subject: [PATCH 02/43] fix: synthfs: RemoveAll below a missing directory is
 success, as os.RemoveAll

---
 vroot/synthfs/remove.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/vroot/synthfs/remove.go b/vroot/synthfs/remove.go
index 328749f..c33ba45 100644
--- a/vroot/synthfs/remove.go
+++ b/vroot/synthfs/remove.go
@@ -1,6 +1,7 @@
 package synthfs
 
 import (
+	"errors"
 	"io/fs"
 	"syscall"
 
@@ -51,6 +52,10 @@ func (r *Root) removeAllLocked(name string) error {
 		return toPathErr("RemoveAll", ".", syscall.EINVAL)
 	}
 	parent, base, err := r.st.resolveParent(r.boundary, r.boundary, name, "RemoveAll")
+	if errors.Is(err, fs.ErrNotExist) {
+		// Mirror os.RemoveAll: nothing can exist below a missing directory.
+		return nil
+	}
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 8bbeb193404b14931b321bc14780752d6b3f92b8 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 21:43:35 +0000
Subject: [PATCH 03/43] fix: synthfs: directory entries report the live size,
 read under the lock

---
 vroot/synthfs/handle_dir.go | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/vroot/synthfs/handle_dir.go b/vroot/synthfs/handle_dir.go
index cb8da4a..4171e92 100644
--- a/vroot/synthfs/handle_dir.go
+++ b/vroot/synthfs/handle_dir.go
@@ -4,7 +4,6 @@ import (
 	"fmt"
 	"io"
 	"io/fs"
-	"path/filepath"
 	"sync"
 	"syscall"
 
@@ -117,9 +116,8 @@ func (h *dirHandle) Seek(offset int64, whence int) (int64, error) {
 }
 
 // readEntries advances the cursor by up to n entries; n<=0 means "until end."
-// Caller holds h.mu; the returned snapshot is a shallow copy safe to use
-// outside the lock.
-func (h *dirHandle) readEntries(n int) ([]node, error) {
+// Caller holds h.mu; the returned snapshot is safe to use outside the lock.
+func (h *dirHandle) readEntries(n int) ([]stat, error) {
 	if h.closed {
 		return nil, fsutil.WrapPathErr("readdir", h.name, fs.ErrClosed)
 	}
@@ -136,8 +134,18 @@ func (h *dirHandle) readEntries(n int) ([]node, error) {
 	if n > 0 && h.cursor+n < end {
 		end = h.cursor + n
 	}
-	out := make([]node, end-h.cursor)
-	copy(out, all[h.cursor:end])
+	out := make([]stat, 0, end-h.cursor)
+	for _, nd := range all[h.cursor:end] {
+		s := nd.meta().toStat()
+		if f, ok := nd.(*file); ok {
+			// The size is the view's to tell; an entry whose view cannot be asked
+			// is still listed.
+			if live, err := statFromFileView(&f.metadata, f.view); err == nil {
+				s = live
+			}
+		}
+		out = append(out, s)
+	}
 	h.cursor = end
 	return out, nil
 }
@@ -151,7 +159,7 @@ func (h *dirHandle) ReadDir(n int) ([]fs.DirEntry, error) {
 	}
 	out := make([]fs.DirEntry, 0, len(entries))
 	for _, nd := range entries {
-		out = append(out, fs.FileInfoToDirEntry(nd.meta().toStat()))
+		out = append(out, fs.FileInfoToDirEntry(nd))
 	}
 	return out, nil
 }
@@ -165,7 +173,7 @@ func (h *dirHandle) Readdir(n int) ([]fs.FileInfo, error) {
 	}
 	out := make([]fs.FileInfo, 0, len(entries))
 	for _, nd := range entries {
-		out = append(out, nd.meta().toStat())
+		out = append(out, nd)
 	}
 	return out, nil
 }
@@ -179,7 +187,7 @@ func (h *dirHandle) Readdirnames(n int) ([]string, error) {
 	}
 	out := make([]string, 0, len(entries))
 	for _, nd := range entries {
-		out = append(out, filepath.Base(nd.meta().name))
+		out = append(out, nd.Name())
 	}
 	return out, nil
 }
-- 
2.43.0


From f63209acbb616311724abe6baf0d6e521fea3dd1 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 21:43:35 +0000
Subject: [PATCH 04/43] fix: synthfs: O_CREATE on a dangling symlink creates
 its target

---
 vroot/synthfs/open.go | 18 +++++++++++++-----
 vroot/synthfs/tree.go | 13 ++++++++++---
 2 files changed, 23 insertions(+), 8 deletions(-)

diff --git a/vroot/synthfs/open.go b/vroot/synthfs/open.go
index e9e5b72..4a409f7 100644
--- a/vroot/synthfs/open.go
+++ b/vroot/synthfs/open.go
@@ -1,6 +1,7 @@
 package synthfs
 
 import (
+	"errors"
 	"io/fs"
 	"os"
 
@@ -26,12 +27,19 @@ func (r *Root) OpenFile(name string, flag int, perm fs.FileMode) (vroot.File, er
 		if err != nil {
 			return nil, err
 		}
-		if existing := parent.lookup(base); existing != nil {
-			if flag&os.O_EXCL != 0 {
-				return nil, toPathErr("open", name, fs.ErrExist)
+		existing := parent.lookup(base)
+		if existing != nil && flag&os.O_EXCL != 0 {
+			return nil, toPathErr("open", name, fs.ErrExist)
+		}
+		if _, ok := existing.(*symlink); ok {
+			// open(2) creates the missing target of a symlink.
+			res, err := r.findNode(name, true, "open")
+			if errors.Is(err, fs.ErrNotExist) && res.parent != nil {
+				parent, base, existing = res.parent, res.base, nil
 			}
-			// Fall through to opening the existing entry below.
-		} else {
+		}
+		// An existing entry is opened below.
+		if existing == nil {
 			view, err := r.st.opt.allocator.Allocate(base, perm&^r.st.opt.umask)
 			if err != nil {
 				return nil, toPathErr("open", name, err)
diff --git a/vroot/synthfs/tree.go b/vroot/synthfs/tree.go
index d979a63..4e9ac4f 100644
--- a/vroot/synthfs/tree.go
+++ b/vroot/synthfs/tree.go
@@ -42,6 +42,9 @@ func normalize(name string) (string, error) {
 // resolveResult is what [state.resolve] returns: the resolved node plus the
 // dir directly containing it. parent is nil only when the resolved node is the
 // confinement-boundary dir itself (i.e. name resolved to ".").
+//
+// When resolution fails only because the final component, after following
+// symlinks, is missing, node is nil and parent and base tell where it would be.
 type resolveResult struct {
 	node   node
 	parent *dir
@@ -92,13 +95,17 @@ func (s *state) resolve(
 			continue
 		}
 
+		isLast := rest == ""
+
 		child := cur.lookup(comp)
 		if child == nil {
-			return resolveResult{}, fsutil.WrapPathErr(op, name, fs.ErrNotExist)
+			var missing resolveResult
+			if isLast {
+				missing = resolveResult{parent: cur, base: comp}
+			}
+			return missing, fsutil.WrapPathErr(op, name, fs.ErrNotExist)
 		}
 
-		isLast := rest == ""
-
 		if sym, ok := child.(*symlink); ok && (!isLast || followLast) {
 			symlinkHops++
 			if symlinkHops > maxSymlinkResolution {
-- 
2.43.0


From 5cb845340536ef28ab73de67ffb120c0123590e6 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 23:29:41 +0000
Subject: [PATCH 05/43] fix: fsutil: ResolvePath follows links inside link
 targets instead of joining lexically

---
 fsutil/resolve_symlink.go | 112 +++++++++++++++++++-------------------
 1 file changed, 56 insertions(+), 56 deletions(-)

diff --git a/fsutil/resolve_symlink.go b/fsutil/resolve_symlink.go
index ca41409..8a670ef 100644
--- a/fsutil/resolve_symlink.go
+++ b/fsutil/resolve_symlink.go
@@ -1,13 +1,13 @@
 package fsutil
 
 import (
-	"bytes"
-	"cmp"
 	"errors"
 	"io/fs"
 	"os"
 	"path/filepath"
+	"slices"
 	"strings"
+	"syscall"
 
 	"github.com/ngicks/go-fsys-helper/fsutil/errdef"
 )
@@ -28,7 +28,7 @@ var ErrPathEscapes = errors.New("path escapes from parent")
 // Returns ErrPathEscapes for paths that would escape the parent directory (including absolute
 // paths.) When a path component doesn't exist, returns an error that satisfies errors.Is(err,
 // fs.ErrNotExist) with the path concatenated from the intermediate resolution result and remaining
-// unresolved components.
+// unresolved components; those are as written in name or in a link target, ".." included.
 //
 // ResolvePath is still vulnerable to attack using TOCTOU(Time Of Check Time Of Use) race;
 // unlike [*os.Root] which leverages APIs that open paths relative from open file handle (e.g.
@@ -65,89 +65,89 @@ func ResolvePath(
 		name = name[:idx]
 	}
 
-	curLinkResolved := 0
+	const sep = string(filepath.Separator)
 
-	resolved := new(bytes.Buffer)
+	// resolved never contains a symbolic link, so ".." in a link target is just a removal of
+	// its last element. Joining targets lexically is not enough: elements of a target may
+	// themselves be links.
+	var (
+		resolved        []string
+		rest            = strings.Split(name, sep)
+		curLinkResolved int
+		isDir           = true
+	)
 
-	i := 0
-	offStart := 0
-	offEnd := 0
-	for offStart < len(name) {
-		if i > 0 {
-			resolved.WriteByte(filepath.Separator)
+	current := func() string {
+		return strings.Join(slices.Concat(resolved, rest), sep)
+	}
+
+	for len(rest) > 0 {
+		elem := rest[0]
+
+		if !isDir {
+			return current(), WrapPathErr("stat", name, syscall.ENOTDIR)
 		}
 
-		if idx := strings.Index(name[offStart:], string(filepath.Separator)); idx >= 0 {
-			offEnd = offStart + idx
-		} else {
-			offEnd = len(name)
+		switch elem {
+		case "", ".":
+			rest = rest[1:]
+			continue
+		case "..":
+			if len(resolved) == 0 {
+				return current(), ErrPathEscapes
+			}
+			resolved = resolved[:len(resolved)-1]
+			rest = rest[1:]
+			continue
 		}
 
-		resolved.WriteString(name[offStart:offEnd])
+		elemPath := filepath.Join(filepath.Join(resolved...), elem)
 
-		info, err := fsys.Lstat(resolved.String())
+		info, err := fsys.Lstat(elemPath)
 		if err != nil {
-			if offEnd < len(name) {
-				resolved.WriteString(name[offEnd:])
-			}
-			return resolved.String(), err
+			return current(), err
 		}
 
 		if info.Mode()&fs.ModeSymlink == 0 {
-			offStart = offEnd + 1
-			i++
+			isDir = info.IsDir()
+			resolved = append(resolved, elem)
+			rest = rest[1:]
 			continue
 		}
 
-		currentResolved, numSymlink, err := ResolveSymlink(
-			fsys,
-			resolved.String(),
-			maxSymlinkResolutionCount-curLinkResolved,
-		)
+		target, err := fsys.ReadLink(elemPath)
 		if err != nil {
-			return resolved.String(), err
-		}
-
-		curLinkResolved += numSymlink
-		if curLinkResolved >= maxSymlinkResolutionCount {
-			return cmp.Or(
-					currentResolved,
-					resolved.String(),
-				), WrapPathErr(
-					"stat",
-					name,
-					errdef.ELOOP,
-				)
+			return elemPath, err
 		}
 
-		if currentResolved == "" || !filepath.IsLocal(currentResolved) {
-			// Target is absolute or has "..".
+		target = filepath.FromSlash(target)
+		if filepath.VolumeName(target) != "" || strings.HasPrefix(target, sep) {
+			// Target is absolute.
 			// *os.Root rejects this anyway, since it cannot tell final result is within root.
 			// *os.Root depends on "at" variants of syscalls(e.g. openat.)
 			// The root directory may be moved after open,
 			// but you don't have robust way to convert an fd back to a path on the filesystem,
 			// maybe even multiple paths are linked to a file.
-			return cmp.Or(currentResolved, resolved.String()), ErrPathEscapes
+			return elemPath, ErrPathEscapes
 		}
 
-		if offEnd >= len(name) {
-			name = currentResolved
-		} else {
-			name = currentResolved + name[offEnd:]
+		rest = append(strings.Split(target, sep), rest[1:]...)
+
+		curLinkResolved++
+		if curLinkResolved >= maxSymlinkResolutionCount {
+			return current(), WrapPathErr("stat", name, errdef.ELOOP)
 		}
-		i = 0
-		offStart = 0
-		resolved.Reset()
 	}
 
 	if lastPart != "" {
-		if resolved.Len() > 0 {
-			resolved.WriteByte(filepath.Separator)
-		}
-		resolved.WriteString(lastPart)
+		resolved = append(resolved, lastPart)
+	}
+
+	if len(resolved) == 0 {
+		return ".", nil
 	}
 
-	return resolved.String(), nil
+	return filepath.Join(resolved...), nil
 }
 
 // ResolveSymlink retruns resoluition result with numbers of symlink that has been resolved.
-- 
2.43.0


From 80dce60919c3f55eee28f929e8aa317788ae3cd2 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 23:30:39 +0000
Subject: [PATCH 06/43] fix: overlayfs: O_EXCL does not follow the last link
 and O_CREATE follows a dangling one

---
 vroot-adapter/overlayfs/open.go    | 14 +++++++-------
 vroot-adapter/overlayfs/resolve.go | 21 +++++++++++++++++++++
 2 files changed, 28 insertions(+), 7 deletions(-)

diff --git a/vroot-adapter/overlayfs/open.go b/vroot-adapter/overlayfs/open.go
index 39220df..435d8a9 100644
--- a/vroot-adapter/overlayfs/open.go
+++ b/vroot-adapter/overlayfs/open.go
@@ -23,14 +23,15 @@ func (f *Fs) openWrite(name string, flag int, perm fs.FileMode) (vroot.File, err
 	defer f.state.mu.Unlock()
 
 	creating := flag&os.O_CREATE != 0
-	full, err := f.resolve(name, false)
+	exclusive := creating && flag&os.O_EXCL != 0
+	// An exclusive create is refused by whatever stands at the name, a symlink
+	// included, so it is the one open that does not follow the final component.
+	full, err := f.resolve(name, exclusive)
 	if err != nil {
-		// A create names what may not be there yet, so the walk only has to reach
-		// the parent and the final component is taken as written.
 		if !creating || !errors.Is(err, fs.ErrNotExist) {
 			return nil, fsutil.WrapPathErr("open", name, err)
 		}
-		full, err = f.resolve(name, true)
+		full, err = f.resolveCreate(name)
 		if err != nil {
 			return nil, fsutil.WrapPathErr("open", name, err)
 		}
@@ -39,12 +40,11 @@ func (f *Fs) openWrite(name string, flag int, perm fs.FileMode) (vroot.File, err
 	masked := false
 	res, err := f.state.lookup(full)
 	switch {
+	case err == nil && exclusive:
+		return nil, fsutil.WrapPathErr("open", name, fs.ErrExist)
 	case err == nil && res.info.IsDir():
 		return nil, fsutil.WrapPathErr("open", name, syscall.EISDIR)
 	case err == nil:
-		if creating && flag&os.O_EXCL != 0 {
-			return nil, fsutil.WrapPathErr("open", name, fs.ErrExist)
-		}
 		// O_TRUNC copies the data up only to drop it again. Copying anyway keeps
 		// one gate for every write instead of a second path that has to get the
 		// mode, the times and the parents right on its own.
diff --git a/vroot-adapter/overlayfs/resolve.go b/vroot-adapter/overlayfs/resolve.go
index fd5bf55..586af5c 100644
--- a/vroot-adapter/overlayfs/resolve.go
+++ b/vroot-adapter/overlayfs/resolve.go
@@ -1,8 +1,11 @@
 package overlayfs
 
 import (
+	"errors"
 	"io/fs"
 	"path/filepath"
+	"slices"
+	"strings"
 
 	"github.com/ngicks/go-fsys-helper/fsutil"
 	"github.com/ngicks/go-fsys-helper/vroot"
@@ -76,6 +79,24 @@ func (f *Fs) resolve(name string, skipLast bool) (string, error) {
 	return f.name(resolved)
 }
 
+// resolveCreate is [Fs.resolve] for a name nothing stands at yet, which is what a
+// create addresses: everything but the last component of the walk has to be
+// there, and that one is taken as the walk arrived at it. A dangling symlink is
+// thereby created through, at its target, rather than in place of the link.
+func (f *Fs) resolveCreate(name string) (string, error) {
+	resolved, err := fsutil.ResolvePath(resolver{f}, name, false)
+	switch {
+	case err == nil:
+	case !errors.Is(err, fs.ErrNotExist):
+		return "", err
+	case slices.Contains(strings.Split(filepath.ToSlash(resolved), "/"), ".."):
+		// What the walk did not get to is as written, and cleaning ".." off it
+		// would step over the component that is missing.
+		return "", err
+	}
+	return f.name(resolved)
+}
+
 // locate is the step every read shares: resolve name over the merged view, then
 // look up where it lands. It reports the resolved name as well — the spelling
 // the masking state, and with it the open-handle count, is keyed by. The caller
-- 
2.43.0


From ec8cc2b512ed6eea6c8c23b0edb200bfcb3cdbf3 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 23:31:19 +0000
Subject: [PATCH 07/43] fix: overlayfs: a layer is not read through a symlink
 it holds on the way to a name

---
 vroot-adapter/overlayfs/merged.go | 81 ++++++++++++++-----------------
 vroot-adapter/overlayfs/rename.go |  6 +++
 2 files changed, 43 insertions(+), 44 deletions(-)

diff --git a/vroot-adapter/overlayfs/merged.go b/vroot-adapter/overlayfs/merged.go
index 9715b85..1c29aff 100644
--- a/vroot-adapter/overlayfs/merged.go
+++ b/vroot-adapter/overlayfs/merged.go
@@ -48,24 +48,22 @@ func (s *overlayState) lookupFrom(name string, from int) (lookupResult, error) {
 	name = cleanName(name)
 	cut := s.cutFrom(name, from)
 	for i := from; i <= cut; i++ {
+		blocked, err := s.blockedIn(i, name)
+		if err != nil {
+			return lookupResult{}, err
+		}
+		if blocked {
+			// Not this layer's business alone: a non-directory on the way to name
+			// fills a path every deeper layer would have to be reached through, so
+			// the search ends here instead of stepping around it.
+			return lookupResult{}, s.blockedErr(name)
+		}
 		path := s.layerPath(i, name)
 		info, err := s.layers[i].fsys.Lstat(path)
 		switch {
 		case err == nil:
 			return lookupResult{layer: i, src: s.layers[i], path: path, info: info}, nil
-		case errors.Is(err, syscall.ENOTDIR):
-			blocked, probeErr := s.blockedIn(i, name)
-			if probeErr != nil {
-				return lookupResult{}, probeErr
-			}
-			if blocked {
-				// Not this layer's business alone: a non-directory on the way to name
-				// fills a path every deeper layer would have to be reached through, so
-				// the search ends here instead of stepping around it.
-				return lookupResult{}, s.blockedErr(name)
-			}
-			continue
-		case errors.Is(err, fs.ErrNotExist):
+		case errors.Is(err, fs.ErrNotExist), errors.Is(err, syscall.ENOTDIR):
 			continue
 		default:
 			// Anything else is the backend failing rather than answering, and a
@@ -77,34 +75,31 @@ func (s *overlayState) lookupFrom(name string, from int) (lookupResult, error) {
 }
 
 // blockedIn reports whether layer i holds a non-directory where name would have
-// to be reached through. It is the question an Lstat error matching
-// [syscall.ENOTDIR] raises rather than settles.
+// to be reached through.
 //
-// Only unix answers it in the errno. Windows spells syscall.ENOTDIR as
-// ERROR_PATH_NOT_FOUND, which it returns both for a component before the leaf
-// that is not a directory and for one that is not there at all, and which
-// matches [fs.ErrNotExist] besides — one value for the two answers the search
-// has to tell apart, since a layer that merely lacks the directory leaves the
-// layers below it to be read as usual. So the layer is asked directly and the
-// nearest ancestor it does show decides.
+// It cannot be left to what Lstat answers for name itself. A symlink is a
+// non-directory like any other, and the layer's own Lstat would follow one on the
+// way to name and answer from wherever it leads; in the merged view a layer above
+// may hold a directory in its place, and what stands under that directory is not
+// what the link points at. And an Lstat error matching [syscall.ENOTDIR] settles
+// it on unix alone: Windows spells it as ERROR_PATH_NOT_FOUND, which it returns
+// both for a component before the leaf that is not a directory and for one that is
+// not there at all. So the ancestors are asked one by one, shallowest first.
 func (s *overlayState) blockedIn(i int, name string) (bool, error) {
-	for n := parentName(name); ; n = parentName(n) {
+	for _, n := range ancestry(parentName(name)) {
 		info, err := s.layers[i].fsys.Lstat(s.layerPath(i, n))
 		switch {
 		case err == nil:
-			return !info.IsDir(), nil
-		case errors.Is(err, syscall.ENOTDIR):
-			// Whatever stands in the way is further up still; asked before
-			// fs.ErrNotExist for the same reason the caller asks in this order.
-		case errors.Is(err, fs.ErrNotExist):
+			if !info.IsDir() {
+				return true, nil
+			}
+		case errors.Is(err, fs.ErrNotExist), errors.Is(err, syscall.ENOTDIR):
 			return false, nil
 		default:
 			return false, err
 		}
-		if n == "" {
-			return false, nil
-		}
 	}
+	return false, nil
 }
 
 // blockedErr names what a non-directory component left behind: the merged view
@@ -144,24 +139,22 @@ func (s *overlayState) readDir(name string) ([]fs.DirEntry, error) {
 	seen := make(map[string]struct{})
 	cut := s.childCut(name)
 	for i := res.layer; i <= cut; i++ {
+		// A non-directory at name, or on the way to it, fills the path the layers
+		// below would be merged in through: nothing under them is part of this
+		// directory any more.
+		blocked, err := s.blockedIn(i, name)
+		if err != nil {
+			return nil, err
+		}
+		if blocked {
+			return sortEntries(entries), nil
+		}
 		path := s.layerPath(i, name)
 		info, err := s.layers[i].fsys.Lstat(path)
 		switch {
-		// A non-directory at name, or on the way to it in the case after this
-		// one, fills the path the layers below would be merged in through:
-		// nothing under them is part of this directory any more.
 		case err == nil && !info.IsDir():
 			return sortEntries(entries), nil
-		case errors.Is(err, syscall.ENOTDIR):
-			blocked, probeErr := s.blockedIn(i, name)
-			if probeErr != nil {
-				return nil, probeErr
-			}
-			if blocked {
-				return sortEntries(entries), nil
-			}
-			continue
-		case errors.Is(err, fs.ErrNotExist):
+		case errors.Is(err, fs.ErrNotExist), errors.Is(err, syscall.ENOTDIR):
 			continue
 		case err != nil:
 			return nil, err
diff --git a/vroot-adapter/overlayfs/rename.go b/vroot-adapter/overlayfs/rename.go
index 2e37518..6283859 100644
--- a/vroot-adapter/overlayfs/rename.go
+++ b/vroot-adapter/overlayfs/rename.go
@@ -126,6 +126,12 @@ func (f *Fs) rename(oldname string, newname string) error {
 func (f *Fs) renameDirCheck(full string) error {
 	cut := f.state.childCut(full)
 	for i := 1; i <= cut; i++ {
+		switch blocked, err := f.state.blockedIn(i, full); {
+		case err != nil:
+			return err
+		case blocked:
+			return nil
+		}
 		switch _, err := f.state.layers[i].fsys.Lstat(f.state.layerPath(i, full)); {
 		case err == nil:
 			return errCrossDevice
-- 
2.43.0


From feae495ea1ed0e52700798a859cc7d284bb406f5 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 23:31:31 +0000
Subject: [PATCH 08/43] fix: overlayfs: MkdirAll follows a symlink to a
 directory, as os.MkdirAll does

---
 vroot-adapter/overlayfs/mkdir.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/vroot-adapter/overlayfs/mkdir.go b/vroot-adapter/overlayfs/mkdir.go
index 219a6af..b4538c0 100644
--- a/vroot-adapter/overlayfs/mkdir.go
+++ b/vroot-adapter/overlayfs/mkdir.go
@@ -110,7 +110,7 @@ func (f *Fs) mkdirAllName(name string) (string, error) {
 		return "", vroot.ErrPathEscapes
 	}
 	for head, rest := cleaned, ""; ; {
-		resolved, err := f.resolve(filepath.FromSlash(head), true)
+		resolved, err := f.resolve(filepath.FromSlash(head), false)
 		if err == nil {
 			return childName(resolved, rest), nil
 		}
@@ -119,7 +119,9 @@ func (f *Fs) mkdirAllName(name string) (string, error) {
 		}
 		i := strings.LastIndexByte(head, '/')
 		if i < 0 {
-			return "", err
+			// Nothing of it is there, or its first component is a link to nothing,
+			// which no directory can be made in place of.
+			return childName(f.base, cleaned), nil
 		}
 		rest = childName(head[i+1:], rest)
 		head = head[:i]
-- 
2.43.0


From d10eb85d5ca5e93348063e406acdb1312fd2ecb4 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 23:31:50 +0000
Subject: [PATCH 09/43] fix: overlayfs: copy-up takes parent directories from
 the merged view

---
 vroot-adapter/overlayfs/write.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/vroot-adapter/overlayfs/write.go b/vroot-adapter/overlayfs/write.go
index 64b26ce..ecf67ca 100644
--- a/vroot-adapter/overlayfs/write.go
+++ b/vroot-adapter/overlayfs/write.go
@@ -58,6 +58,12 @@ func (f *Fs) copyUp(name string) error {
 	case res.layer == 0:
 		return nil
 	}
+	// The directories above it first, each from the layer the merged view shows it
+	// from. The policy only sees the layer name itself resolves to, whose own
+	// directories on the way may be shadowed by ones with another mode.
+	if err := f.copyUp(parentName(name)); err != nil {
+		return err
+	}
 	from, err := res.src.contentView()
 	if err != nil {
 		return err
-- 
2.43.0


From 958e075d0159899d9ef5efd9f041975826531608 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 23:32:32 +0000
Subject: [PATCH 10/43] fix: overlayfs: rename records its masking before the
 move, so a crash shows no lower entry

---
 vroot-adapter/overlayfs/rename.go | 55 ++++++++++++++++++++++---------
 vroot-adapter/overlayfs/state.go  |  9 +++--
 2 files changed, 47 insertions(+), 17 deletions(-)

diff --git a/vroot-adapter/overlayfs/rename.go b/vroot-adapter/overlayfs/rename.go
index 6283859..038730f 100644
--- a/vroot-adapter/overlayfs/rename.go
+++ b/vroot-adapter/overlayfs/rename.go
@@ -3,6 +3,7 @@ package overlayfs
 import (
 	"errors"
 	"io/fs"
+	"slices"
 	"strings"
 	"syscall"
 
@@ -77,19 +78,13 @@ func (f *Fs) rename(oldname string, newname string) error {
 		return err
 	}
 
-	if err := f.top().fsys.Rename(f.topPath(oldFull), f.topPath(newFull)); err != nil {
-		return err
-	}
-
-	// Whatever stood at the new name is gone, and the marks describing it go with
-	// it — the whiteout a removal there left included, which is what lets a name
-	// be renamed onto one that was deleted.
-	if err := f.state.clearSubtree(newFull); err != nil {
-		return err
-	}
-	if err := f.state.renameSubtree(oldFull, newFull); err != nil {
-		return err
-	}
+	// All masking that keeps something hidden once the name has moved is recorded
+	// before it moves, and what the move made pointless is dropped after, so that a
+	// crash or a failing store in between shows the tree on either side of the
+	// rename and never a layer below shining through. Until the move none of it is
+	// seen: the top still holds the old name, and the new one is absent or empty.
+	staleWhiteouts, staleOpaques := f.state.maskedUnder(newFull)
+	movedWhiteouts, movedOpaques := f.state.maskedUnder(oldFull)
 	if oldRes.info.IsDir() {
 		// The reference's create_missing_whiteouts, in the store's own terms: it
 		// walks the layers below at the destination and drops a whiteout file
@@ -103,13 +98,43 @@ func (f *Fs) rename(oldname string, newname string) error {
 		if err := f.state.setOpaque(newFull); err != nil {
 			return err
 		}
+		if err := f.state.renameSubtree(oldFull, newFull); err != nil {
+			return err
+		}
+		moved := func(marks []string) func(string) bool {
+			return func(n string) bool {
+				return slices.Contains(marks, oldFull+strings.TrimPrefix(n, newFull))
+			}
+		}
+		staleWhiteouts = slices.DeleteFunc(staleWhiteouts, moved(movedWhiteouts))
+		staleOpaques = slices.DeleteFunc(staleOpaques, moved(movedOpaques))
 	}
 	if maskOld {
 		// setWhiteout drops the old name's own opaque mark and everything recorded
 		// under it, which renameSubtree has already moved out of the way. A
 		// whiteout at the new name is not needed however the layers below stand:
-		// the top now holds content there, and content in the top shadows them.
-		return f.state.setWhiteout(oldFull)
+		// the top is about to hold content there, and content in the top shadows
+		// them.
+		if err := f.state.setWhiteout(oldFull); err != nil {
+			return err
+		}
+	}
+
+	if err := f.top().fsys.Rename(f.topPath(oldFull), f.topPath(newFull)); err != nil {
+		return err
+	}
+
+	// Whatever stood at the new name is gone, and the marks describing it go with
+	// it — the whiteout a removal there left included, which is what lets a name
+	// be renamed onto one that was deleted.
+	if !oldRes.info.IsDir() {
+		staleOpaques = append(staleOpaques, newFull)
+	}
+	if err := f.state.clearMarks(append(staleWhiteouts, newFull), staleOpaques); err != nil {
+		return err
+	}
+	if maskOld {
+		return nil
 	}
 	return f.state.clearSubtree(oldFull)
 }
diff --git a/vroot-adapter/overlayfs/state.go b/vroot-adapter/overlayfs/state.go
index badecbd..04fab61 100644
--- a/vroot-adapter/overlayfs/state.go
+++ b/vroot-adapter/overlayfs/state.go
@@ -192,7 +192,12 @@ func (s *overlayState) maskedUnder(dir string) (whiteouts []string, opaques []st
 func (s *overlayState) clearSubtree(name string) error {
 	name = cleanName(name)
 	whiteouts, opaques := s.maskedUnder(name)
-	for _, n := range append(whiteouts, name) {
+	return s.clearMarks(append(whiteouts, name), append(opaques, name))
+}
+
+// clearMarks forgets the named marks, of which the top need not record every one.
+func (s *overlayState) clearMarks(whiteouts []string, opaques []string) error {
+	for _, n := range whiteouts {
 		if _, ok := s.masks[0].whiteout[n]; !ok {
 			continue
 		}
@@ -200,7 +205,7 @@ func (s *overlayState) clearSubtree(name string) error {
 			return err
 		}
 	}
-	for _, n := range append(opaques, name) {
+	for _, n := range opaques {
 		if _, ok := s.masks[0].opaque[n]; !ok {
 			continue
 		}
-- 
2.43.0


From 3a50036e9baaf1ff19789c72306842765208302f Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 23:35:10 +0000
Subject: [PATCH 11/43] fix: overlayfs: a name below a missing directory is
 missing, not blocked

---
 vroot-adapter/overlayfs/merged.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vroot-adapter/overlayfs/merged.go b/vroot-adapter/overlayfs/merged.go
index 1c29aff..0887878 100644
--- a/vroot-adapter/overlayfs/merged.go
+++ b/vroot-adapter/overlayfs/merged.go
@@ -111,7 +111,7 @@ func (s *overlayState) blockedErr(name string) error {
 		return syscall.ENOTDIR
 	}
 	parent, err := s.lookup(parentName(name))
-	if err == nil && parent.info.IsDir() {
+	if errors.Is(err, fs.ErrNotExist) || err == nil && parent.info.IsDir() {
 		return fs.ErrNotExist
 	}
 	return syscall.ENOTDIR
-- 
2.43.0


From 5211336589e1bc66a14722c838c85d4df6628aec Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 23:35:32 +0000
Subject: [PATCH 12/43] fix: overlayfs: a plain layer's root is ".", which
 rooted backends accept

---
 vroot-adapter/overlayfs/datasource.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/vroot-adapter/overlayfs/datasource.go b/vroot-adapter/overlayfs/datasource.go
index 606fac3..9d916c8 100644
--- a/vroot-adapter/overlayfs/datasource.go
+++ b/vroot-adapter/overlayfs/datasource.go
@@ -126,7 +126,7 @@ func (d *DataSource) Fsys() vroot.Fs[vroot.File] {
 // is handed — clean, slash-separated, relative to the content root — and the
 // answer is spelled with the separator the backend expects. A canonical layer
 // keeps its content under "merged/"; a plain layer's root is its content root,
-// so the name comes back as it went in.
+// so the name comes back as it went in, the root itself as ".".
 //
 // Content and staging are addressed as two paths in one fs rather than as two
 // sub-Fs views, because copy-up publishes by renaming a staged file onto its
@@ -134,7 +134,8 @@ func (d *DataSource) Fsys() vroot.Fs[vroot.File] {
 func (d *DataSource) ContentPath(name string) string {
 	name = filepath.FromSlash(name)
 	if !d.canonical {
-		return name
+		// Join makes the root "." of "", a path rooted backends refuse.
+		return filepath.Join(".", name)
 	}
 	return filepath.Join(dirMerged, name)
 }
-- 
2.43.0


From 114d0d979ef227cbc824acb14de63c749ed84fe6 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 00:50:04 +0000
Subject: [PATCH 13/43] fix: overlayfs: a copied-up directory is staged, so a
 crash never leaves it with the wrong mode

---
 vroot-adapter/overlayfs/copyup.go | 47 +++++++++++++++++++++----------
 1 file changed, 32 insertions(+), 15 deletions(-)

diff --git a/vroot-adapter/overlayfs/copyup.go b/vroot-adapter/overlayfs/copyup.go
index f1b776c..da75681 100644
--- a/vroot-adapter/overlayfs/copyup.go
+++ b/vroot-adapter/overlayfs/copyup.go
@@ -55,13 +55,14 @@ var _ CopyUpPolicy = (*CopyUpPolicyWork)(nil)
 // CopyUpPolicyWork is the default policy: a regular file is staged as a temp in
 // the top's "work/", filled by reflink where the backends allow one and by a
 // buffered copy otherwise, and published by renaming it onto its content path —
-// atomic, because staging and content are two paths in one fs. Directories and
-// symlinks are created in the content tree directly, having no data to stage.
+// atomic, because staging and content are two paths in one fs. A directory is
+// staged and published the same way, so it never shows with any mode but its
+// own; a symlink is created in the content tree directly, being complete at once.
 //
 // The zero value is ready to use; [NewCopyUpPolicyWork] is the spelling to
 // prefer. One policy is safe to share between overlays.
 type CopyUpPolicyWork struct {
-	// temp numbers the staged files. Names are counted rather than randomized
+	// temp numbers the staged files and directories. Names are counted rather than randomized
 	// because "work/" is overlay-private and swept at [New]: the only writer
 	// that could collide is another overlay over the same top, which the store's
 	// exclusive lock already rules out.
@@ -99,11 +100,7 @@ func (p *CopyUpPolicyWork) CopyUp(from vroot.Fs[vroot.File], top *DataSource, na
 		// Only the directory itself: its children stay where they are and go on
 		// being merged in from below, which is what keeps a copy-up from walking
 		// a whole subtree to write one file in it.
-		if err := top.fsys.Mkdir(dst, info.Mode().Perm()); err != nil {
-			return err
-		}
-		copyAttrs(top.fsys, dst, info)
-		return nil
+		return p.copyDir(top, dst, info)
 	case info.Mode()&fs.ModeSymlink != 0:
 		target, err := from.ReadLink(filepath.FromSlash(name))
 		if err != nil {
@@ -190,17 +187,37 @@ func (p *CopyUpPolicyWork) materializeParents(
 	// A parent the source layer does not describe still has to exist for the
 	// copy-up to land, so it is created open and left for a later chmod rather
 	// than failing an operation that is only passing through here.
-	perm := fs.FileMode(0o777)
 	info, err := from.Stat(filepath.FromSlash(dir))
-	described := err == nil
-	if described {
-		perm = info.Mode().Perm()
+	if err != nil {
+		return top.fsys.Mkdir(path, 0o777)
+	}
+	return p.copyDir(top, path, info)
+}
+
+// copyDir creates the directory dst with info's mode and times.
+//
+// It is staged under "work/" and published by rename: the mode is only right
+// after the chmod that undoes the umask, and a process that stopped between a
+// mkdir in place and that chmod would leave the wrong one for good. A directory
+// its owner cannot write is the exception, and created in place: rename(2)
+// refuses to move one to another parent.
+func (p *CopyUpPolicyWork) copyDir(top *DataSource, dst string, info fs.FileInfo) error {
+	perm := info.Mode().Perm()
+	if perm&0o200 == 0 {
+		if err := top.fsys.Mkdir(dst, perm); err != nil {
+			return err
+		}
+		copyAttrs(top.fsys, dst, info)
+		return nil
 	}
-	if err := top.fsys.Mkdir(path, perm); err != nil {
+	staging := top.StagingPath("tmp-" + strconv.FormatUint(p.temp.Add(1), 10))
+	if err := top.fsys.Mkdir(staging, perm); err != nil {
 		return err
 	}
-	if described {
-		copyAttrs(top.fsys, path, info)
+	copyAttrs(top.fsys, staging, info)
+	if err := top.fsys.Rename(staging, dst); err != nil {
+		_ = top.fsys.Remove(staging)
+		return err
 	}
 	return nil
 }
-- 
2.43.0


From 298bdda1d9b3cc13b18f8a095555622062443993 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 00:50:04 +0000
Subject: [PATCH 14/43] fix: stream: a multi reader never ends cleanly inside a
 reader that is short of its size

---
 stream/multi_read_at_closer.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/stream/multi_read_at_closer.go b/stream/multi_read_at_closer.go
index af3e5ca..534bcbb 100644
--- a/stream/multi_read_at_closer.go
+++ b/stream/multi_read_at_closer.go
@@ -163,7 +163,9 @@ func (r *multiReadAtSeekCloser) Read(p []byte) (int, error) {
 		return n, wrapErr(ErrInvalidSize, "read more")
 	case err == io.EOF && n == 0 && rem > 0:
 		return n, wrapErr(io.ErrUnexpectedEOF, "read less")
-	case err == io.EOF && len(r.r)-1 > r.idx:
+	case err == io.EOF && (len(r.r)-1 > r.idx || int64(n) < rem):
+		// Not the end yet: a reader that ended short of its size is reported
+		// as "read less" by the next read.
 		err = nil
 	}
 
@@ -248,7 +250,8 @@ func (r *multiReadAtSeekCloser) readAt(p []byte, off int64) (n int, err error) {
 		return n, wrapErr(ErrInvalidSize, "read more")
 	case err == io.EOF && n == 0 && rem > 0:
 		return n, wrapErr(io.ErrUnexpectedEOF, "read less")
-	case err == io.EOF && len(r.r)-1 > i:
+	case err == io.EOF && (len(r.r)-1 > i || int64(n) < rem):
+		// ditto
 		err = nil
 	}
 	return n, err
-- 
2.43.0


From 1457a8aca7ac9e6308236ef12c80c735498ad440 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 00:50:04 +0000
Subject: [PATCH 15/43] fix: stream/fileserver: reject a short last chunk and a
 range that starts elsewhere

---
 stream/fileserver/chunk.go  |  7 +++----
 stream/fileserver/client.go | 23 +++++++++++++++++++++++
 2 files changed, 26 insertions(+), 4 deletions(-)

diff --git a/stream/fileserver/chunk.go b/stream/fileserver/chunk.go
index ab7d168..32efb14 100644
--- a/stream/fileserver/chunk.go
+++ b/stream/fileserver/chunk.go
@@ -270,10 +270,9 @@ func (s *ChunkedSink) Append(
 				"ChunkedSink Append chunk %d: spool: %w", i, err,
 			)
 		}
-		// For the last chunk a short read (written < expected) is valid only
-		// if the source is exhausted. If this is not the last chunk and we
-		// got fewer bytes, the reader was truncated.
-		if written < expected && i < nChunks-1 {
+		// A short read means the reader ended before the object did, whichever
+		// chunk it happens in: the chunk would be stored with a wrong size.
+		if written < expected {
 			cleanup()
 			return fmt.Errorf(
 				"ChunkedSink Append chunk %d: short read: got %d, want %d",
diff --git a/stream/fileserver/client.go b/stream/fileserver/client.go
index 6c90fc5..9b36260 100644
--- a/stream/fileserver/client.go
+++ b/stream/fileserver/client.go
@@ -200,6 +200,15 @@ func (c *HTTPClient) Get(
 				"fileserver Get %q: parse Content-Range: %w", name, err,
 			)
 		}
+		// The body must start where the caller asked it to.
+		if from := startFromContentRange(resp.Header.Get("Content-Range")); from != offset {
+			_, _ = io.Copy(io.Discard, resp.Body)
+			_ = resp.Body.Close()
+			return nil, 0, fmt.Errorf(
+				"fileserver Get %q at offset %d: server answered with the range %q",
+				name, offset, resp.Header.Get("Content-Range"),
+			)
+		}
 		return resp.Body, total, nil
 
 	case http.StatusNotFound, http.StatusGone: // 404, 410
@@ -313,3 +322,17 @@ func parseTotalFromContentRange(s string) (int64, error) {
 	}
 	return total, nil
 }
+
+// startFromContentRange parses the first byte position from a Content-Range
+// header value of the form "bytes <from>-<to>/<total>", or returns -1.
+func startFromContentRange(s string) int64 {
+	from, _, ok := strings.Cut(strings.TrimPrefix(s, "bytes "), "-")
+	if !ok {
+		return -1
+	}
+	n, err := strconv.ParseInt(from, 10, 64)
+	if err != nil {
+		return -1
+	}
+	return n
+}
-- 
2.43.0


From a77620f9b03257918cb47dbdf2647c6d4176bd58 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 01:13:44 +0000
Subject: [PATCH 16/43] fix: vroot: WalkDir skipped the siblings after an entry
 whose Lstat failed even when fn returned nil

---
 vroot/walk.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/vroot/walk.go b/vroot/walk.go
index b58b7ce..02bf5e4 100644
--- a/vroot/walk.go
+++ b/vroot/walk.go
@@ -181,10 +181,13 @@ func walkDir_[F File, Fsys Fs[F]](
 		info, err := fsys.Lstat(childPath)
 		if err != nil {
 			err = fn(childPath, childRealPath, nil, err)
-			if err == SkipDir && info != nil && info.IsDir() {
-				err = nil
+			if err != nil {
+				if err == SkipDir {
+					break
+				}
+				return err
 			}
-			return err
+			continue
 		}
 		err = walkDir_(fsys, childPath, childRealPath, info, state, opt, fn)
 		if err != nil {
-- 
2.43.0


From c98186455a2442ca7d47d72db3015c9d2176ddf9 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 01:13:44 +0000
Subject: [PATCH 17/43] fix: vroot: WalkDir computed a followed link's real
 path lexically, missing links inside the target

---
 vroot/walk.go | 23 ++++++++---------------
 1 file changed, 8 insertions(+), 15 deletions(-)

diff --git a/vroot/walk.go b/vroot/walk.go
index 02bf5e4..489e017 100644
--- a/vroot/walk.go
+++ b/vroot/walk.go
@@ -1,6 +1,7 @@
 package vroot
 
 import (
+	"errors"
 	"fmt"
 	"io/fs"
 	"os"
@@ -31,8 +32,6 @@ type walkState[F File, Fsys Fs[F]] struct {
 	// visitedInodes tracks visited inodes to avoid revisiting bind mounts
 	// key is "device:inode"
 	visitedInodes map[fileIdent]struct{}
-	// remaning number of symlink resolution allowed.
-	symlinkResolveRemaining int
 }
 
 var logUniqueness = false
@@ -90,9 +89,7 @@ func (s *walkState[F, Fsys]) removeVisited(
 }
 
 func walkDir[F File, Fsys Fs[F]](fsys Fsys, root string, opt *WalkOption, fn WalkDirFunc) error {
-	state := &walkState[F, Fsys]{
-		symlinkResolveRemaining: 40, // following linux's recent max
-	}
+	state := &walkState[F, Fsys]{}
 	if opt == nil {
 		opt = &WalkOption{}
 	}
@@ -128,16 +125,12 @@ func walkDir_[F File, Fsys Fs[F]](
 		)
 		info, err = fsys.Stat(path)
 		if err == nil && realPath != "" {
-			var numResolved int
-			realPath_, numResolved, err = fsutil.ResolveSymlink(
-				fsys,
-				realPath,
-				state.symlinkResolveRemaining,
-			)
-			state.symlinkResolveRemaining -= numResolved
-			defer func() {
-				state.symlinkResolveRemaining += numResolved
-			}()
+			// Elements of the link's target may be links themselves.
+			realPath_, err = fsutil.ResolvePath(fsys, realPath, false)
+			if errors.Is(err, fsutil.ErrPathEscapes) {
+				// absolute or out of fsys: can't tell where it is.
+				realPath_, err = "", nil
+			}
 		}
 		if err != nil {
 			return fn(path, realPath, info, err)
-- 
2.43.0


From cd02cf4d5f7a99220a8aa7d91658b479c25cd4e5 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 01:36:16 +0000
Subject: [PATCH 18/43] fix: fsutil: CopyAll/CopyPath reported success when
 closing a copied file failed

---
 fsutil/copy_fs.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/fsutil/copy_fs.go b/fsutil/copy_fs.go
index 748b875..ed5e3f2 100644
--- a/fsutil/copy_fs.go
+++ b/fsutil/copy_fs.go
@@ -213,7 +213,6 @@ func (opt CopyFsOption[Fsys, File]) copyEntry(
 		if err != nil {
 			return err
 		}
-		defer dstFile.Close()
 
 		// Copy content using io.CopyBuffer
 		bufP := bufpool.GetBytes()
@@ -221,6 +220,10 @@ func (opt CopyFsOption[Fsys, File]) copyEntry(
 
 		buf := *bufP
 		_, err = io.CopyBuffer(dstFile, srcFile, buf)
+		// An error from Close may be the only sign that content is lost.
+		if closeErr := dstFile.Close(); err == nil {
+			err = closeErr
+		}
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From d32b8e5bfa0c62b0b4b4481c969dc56a25d65f8a Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 01:36:16 +0000
Subject: [PATCH 19/43] fix: fsutil: MkdirRandom left its directory behind when
 it could not open it

---
 fsutil/open_random.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/fsutil/open_random.go b/fsutil/open_random.go
index 28e6363..06e30e9 100644
--- a/fsutil/open_random.go
+++ b/fsutil/open_random.go
@@ -67,7 +67,17 @@ func MkdirRandom[FS interface {
 			if err != nil {
 				return *new(File), err
 			}
-			return fsys.OpenFile(name, os.O_RDONLY, 0)
+			f, err := fsys.OpenFile(name, os.O_RDONLY, 0)
+			if err != nil {
+				// The caller can't know the name; don't leave the directory behind.
+				switch r := any(fsys).(type) {
+				case RemoveFs:
+					_ = r.Remove(name)
+				case RemoveAllFs:
+					_ = r.RemoveAll(name)
+				}
+			}
+			return f, err
 		},
 	)
 }
-- 
2.43.0


From c0dd62a0bb6b4abfc674734069d107888d73ae39 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 01:44:25 +0000
Subject: [PATCH 20/43] fix: match and clean up temporaries when the directory
 for them is the root

---
 fsutil/safe_write.go | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/fsutil/safe_write.go b/fsutil/safe_write.go
index 535d16d..a0105fc 100644
--- a/fsutil/safe_write.go
+++ b/fsutil/safe_write.go
@@ -469,13 +469,10 @@ func (p TempFilePolicyDir[Fsys, File]) WalkFunc(
 // (10 digits + .tmp).
 func (p TempFilePolicyDir[Fsys, File]) Match(path string) bool {
 	cleanPath := filepath.Clean(path)
-	cleanTempDir := filepath.Clean(p.tempDir)
 
 	// Check if path is within temp directory
-	isInTempDir := cleanPath == cleanTempDir ||
-		(len(cleanPath) > len(cleanTempDir)+1 &&
-			cleanPath[:len(cleanTempDir)] == cleanTempDir &&
-			cleanPath[len(cleanTempDir)] == filepath.Separator)
+	rel, err := filepath.Rel(p.tempDir, cleanPath)
+	isInTempDir := err == nil && filepath.IsLocal(rel)
 
 	if !isInTempDir {
 		return false
-- 
2.43.0


From cb3ead2abce4e7aa2da7f45a56e77c5fe4286518 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 01:52:41 +0000
Subject: [PATCH 21/43] fix: memfs: Mkdir of the root says it exists, as
 mkdir(2) does

---
 vroot/synthfs/mkdir.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/vroot/synthfs/mkdir.go b/vroot/synthfs/mkdir.go
index c9a0f68..44f3bed 100644
--- a/vroot/synthfs/mkdir.go
+++ b/vroot/synthfs/mkdir.go
@@ -45,6 +45,10 @@ func (r *Root) MkdirAll(name string, perm fs.FileMode) error {
 
 // mkdirLocked is the body of [Mkdir]; callers must hold state.mu (write).
 func (r *Root) mkdirLocked(name string, perm fs.FileMode) error {
+	if filepath.Clean(name) == "." {
+		// As mkdir(2) does: the root is there for sure.
+		return toPathErr("mkdir", name, fs.ErrExist)
+	}
 	parent, base, err := r.st.resolveParent(r.boundary, r.boundary, name, "mkdir")
 	if err != nil {
 		return err
-- 
2.43.0


From f9b7d58d1bf138c08f10a093359f476e489da788 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 01:52:41 +0000
Subject: [PATCH 22/43] fix: CopyPath: don't stat the source above its root for
 the parents of a nested destination root

---
 fsutil/copy_fs.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/fsutil/copy_fs.go b/fsutil/copy_fs.go
index ed5e3f2..38bc1f6 100644
--- a/fsutil/copy_fs.go
+++ b/fsutil/copy_fs.go
@@ -144,8 +144,9 @@ func (opt CopyFsOption[Fsys, File]) CopyPath(
 		}
 		// Extract the relative part by removing root prefix
 		relDir, err := filepath.Rel(root, dir)
-		if err != nil || relDir == "." {
-			continue // Skip if we can't get relative path or if it's the root itself
+		if err != nil || relDir == "." || !filepath.IsLocal(relDir) {
+			// Skip if we can't get relative path or if it's the root itself or above it
+			continue
 		}
 		srcInfo, err := fs.Stat(src, filepath.ToSlash(relDir))
 		if err != nil {
-- 
2.43.0


From ef9f5bc0da6c7e74afe4a5986d883415ba6ddce2 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 01:52:41 +0000
Subject: [PATCH 23/43] fix: CopyAll, CopyPath: report a non-directory where a
 directory is to be, don't chmod it

---
 fsutil/copy_fs.go | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/fsutil/copy_fs.go b/fsutil/copy_fs.go
index 38bc1f6..30a2578 100644
--- a/fsutil/copy_fs.go
+++ b/fsutil/copy_fs.go
@@ -138,8 +138,8 @@ func (opt CopyFsOption[Fsys, File]) CopyPath(
 		if dir == "." {
 			continue
 		}
-		err := dst.Mkdir(dir, fs.ModePerm)
-		if err != nil && !errors.Is(err, fs.ErrExist) {
+		err := opt.mkdir(dst, dir)
+		if err != nil {
 			return err
 		}
 		// Extract the relative part by removing root prefix
@@ -170,6 +170,25 @@ func (opt CopyFsOption[Fsys, File]) CopyPath(
 	return nil
 }
 
+// mkdir makes a directory with fs.ModePerm unless there is one already.
+func (opt CopyFsOption[Fsys, File]) mkdir(dst Fsys, path string) error {
+	err := dst.Mkdir(path, fs.ModePerm)
+	if err == nil || !errors.Is(err, fs.ErrExist) {
+		return err
+	}
+	// What exists may be anything.
+	if statFs, ok := any(dst).(StatFs); ok {
+		info, statErr := statFs.Stat(path)
+		if statErr != nil {
+			return statErr
+		}
+		if !info.IsDir() {
+			return err
+		}
+	}
+	return nil
+}
+
 // copyEntry performs the actual copy operation for a single entry
 func (opt CopyFsOption[Fsys, File]) copyEntry(
 	dst Fsys,
@@ -189,8 +208,8 @@ func (opt CopyFsOption[Fsys, File]) copyEntry(
 	switch {
 	case info.IsDir():
 		// Create directory with fs.ModePerm then set proper permissions
-		err = dst.Mkdir(dstPath, fs.ModePerm)
-		if err != nil && !errors.Is(err, fs.ErrExist) {
+		err = opt.mkdir(dst, dstPath)
+		if err != nil {
 			return err
 		}
 
-- 
2.43.0


From ae183637683c3a8308932eb241c20ddbdd8c4398 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 01:52:41 +0000
Subject: [PATCH 24/43] fix: CopyAll, CopyPath: set permission bits of copied
 files regardless of umask and existing files

---
 fsutil/copy_fs.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/fsutil/copy_fs.go b/fsutil/copy_fs.go
index 30a2578..1d88d47 100644
--- a/fsutil/copy_fs.go
+++ b/fsutil/copy_fs.go
@@ -248,6 +248,12 @@ func (opt CopyFsOption[Fsys, File]) copyEntry(
 			return err
 		}
 
+		// perm given at open is only for a new file and subject to umask.
+		err = dst.Chmod(dstPath, perm)
+		if err != nil {
+			return err
+		}
+
 	case info.Mode()&fs.ModeSymlink != 0:
 		// Handle symlink if src supports ReadLink and dst supports Symlink
 		if srcReadLink, hasReadLink := any(src).(ReadLinkFs); hasReadLink {
-- 
2.43.0


From cd490a37775707d05e758cc7b433d2c9e1d9bca5 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 01:59:14 +0000
Subject: [PATCH 25/43] fix: CopyAll, CopyPath: copy setuid, setgid and sticky
 files to filesystems that accept only permission bits on open

---
 fsutil/copy_fs.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fsutil/copy_fs.go b/fsutil/copy_fs.go
index 1d88d47..2dbe5c5 100644
--- a/fsutil/copy_fs.go
+++ b/fsutil/copy_fs.go
@@ -229,7 +229,8 @@ func (opt CopyFsOption[Fsys, File]) copyEntry(
 		defer srcFile.Close()
 
 		// Open destination file with O_TRUNC and O_CREATE
-		dstFile, err := dst.OpenFile(dstPath, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, perm)
+		// Not all filesystems accept more than permission bits here; Chmod below sets the rest.
+		dstFile, err := dst.OpenFile(dstPath, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, perm.Perm())
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From 1a88cd9eaec3300dc88f79d427f0e0cd70161077 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 03:21:41 +0000
Subject: [PATCH 26/43] fix: Pull: compare the ETag of the second open with the
 expected one

When the partial is discarded the source is opened again. A source that
changed in between was downloaded and committed although its ETag
differed from expected.ETag; ErrContentChanged is documented for that.
---
 fsutil/resumable.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/fsutil/resumable.go b/fsutil/resumable.go
index 7dfa772..93c9462 100644
--- a/fsutil/resumable.go
+++ b/fsutil/resumable.go
@@ -351,6 +351,11 @@ func (opt ResumableCopyOption[Fsys, File]) Pull(
 			if err != nil {
 				return WrapPathErr("open-source", name, err)
 			}
+			// The source may have changed between the two opens.
+			if expected.ETag != "" && srcInfo.ETag != "" && srcInfo.ETag != expected.ETag {
+				_ = r.Close()
+				return WrapPathErr("pull", name, ErrContentChanged)
+			}
 			startAt = 0
 		}
 	}
-- 
2.43.0


From d20d6b2bcf4641860e19390c060f67f446c3887e Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 03:21:41 +0000
Subject: [PATCH 27/43] fix: Pull: restart from an oversized partial also when
 only the source tells the size

With expected.Size unknown, a partial larger than the source was kept
and every further Pull failed with io.ErrUnexpectedEOF.
---
 fsutil/resumable.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/fsutil/resumable.go b/fsutil/resumable.go
index 93c9462..b364b1b 100644
--- a/fsutil/resumable.go
+++ b/fsutil/resumable.go
@@ -341,6 +341,9 @@ func (opt ResumableCopyOption[Fsys, File]) Pull(
 		trusted := srcInfo.ETag == "" || // no-etag world: size-based resume
 			srcInfo.ETag == storedETag || // exact sidecar match
 			(storedETag == "" && expected.ETag != "" && srcInfo.ETag == expected.ETag)
+		if srcInfo.Size >= 0 && startAt > srcInfo.Size {
+			trusted = false // oversized partial
+		}
 		if !trusted {
 			_ = r.Close()
 			if rerr := removePartFiles[Fsys, File](fsys, partPath, sidecarPath); rerr != nil {
-- 
2.43.0


From cf32f7f086c44b53934883d7a6177f740abe8407 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 03:21:41 +0000
Subject: [PATCH 28/43] fix: Pull: remove a stale sidecar on a fresh start
 without an ETag

The sidecar of an earlier attempt was left beside bytes it does not
describe; a later Pull of the version it names resumed from them and
committed mixed bytes.
---
 fsutil/resumable.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/fsutil/resumable.go b/fsutil/resumable.go
index b364b1b..02cd2e1 100644
--- a/fsutil/resumable.go
+++ b/fsutil/resumable.go
@@ -403,6 +403,14 @@ func (opt ResumableCopyOption[Fsys, File]) Pull(
 			return WrapPathErr("write-sidecar", sidecarPath, serr)
 		}
 	}
+	// A sidecar left by an earlier attempt does not describe what a fresh start
+	// without a known ETag is about to write.
+	if effectiveETag == "" && startAt == 0 {
+		if rerr := fsys.Remove(sidecarPath); rerr != nil && !errors.Is(rerr, fs.ErrNotExist) {
+			_ = partFile.Close()
+			return WrapPathErr("remove-sidecar", sidecarPath, rerr)
+		}
+	}
 
 	if startAt > 0 {
 		if _, serr := partFile.Seek(startAt, io.SeekStart); serr != nil {
-- 
2.43.0


From 8da4190f78c1e17e6e5643443717e6099aa2d70f Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 03:21:41 +0000
Subject: [PATCH 29/43] fix: Push: send empty files

With an empty local file the offset always equals the size, so Push
committed without Append: to a fresh sink this failed for want of a part
file, and a partial with a conflicting ETag was committed as it was.
---
 fsutil/resumable.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/fsutil/resumable.go b/fsutil/resumable.go
index 02cd2e1..570a695 100644
--- a/fsutil/resumable.go
+++ b/fsutil/resumable.go
@@ -516,8 +516,9 @@ func (opt ResumableCopyOption[Fsys, File]) Push(
 		offset = 0
 	}
 
-	// Step 4: sink already has all bytes — just commit.
-	if offset == actualSize {
+	// Step 4: sink already has all bytes — just commit.  An empty file is always
+	// sent: offset 0 is also what a missing or a conflicting partial leads to.
+	if offset == actualSize && offset > 0 {
 		return sink.Commit(ctx)
 	}
 
-- 
2.43.0


From cdddc076a9eb61b8d04ea85b79a18d217c9bcb00 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 03:21:41 +0000
Subject: [PATCH 30/43] fix: Push: do not commit when the local file ends early

A file that shrinks while it is read ended the transfer like a complete
one, and the truncated content was committed.
---
 fsutil/resumable.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/fsutil/resumable.go b/fsutil/resumable.go
index 570a695..92c7ae1 100644
--- a/fsutil/resumable.go
+++ b/fsutil/resumable.go
@@ -535,19 +535,28 @@ func (opt ResumableCopyOption[Fsys, File]) Push(
 		return WrapPathErr("push-append", name, aerr)
 	}
 
+	// The local file may have become shorter since it was looked at.
+	if ctxR.n < actualSize-offset {
+		return WrapPathErr("push", name, io.ErrUnexpectedEOF)
+	}
+
 	// Step 6: commit.
 	return sink.Commit(ctx)
 }
 
-// ctxReader wraps a reader and checks ctx cancellation before each Read call.
+// ctxReader wraps a reader, checks ctx cancellation before each Read call and
+// counts the bytes read.
 type ctxReader struct {
 	ctx context.Context
 	r   io.Reader
+	n   int64
 }
 
 func (cr *ctxReader) Read(p []byte) (int, error) {
 	if err := cr.ctx.Err(); err != nil {
 		return 0, err
 	}
-	return cr.r.Read(p)
+	n, err := cr.r.Read(p)
+	cr.n += int64(n)
+	return n, err
 }
-- 
2.43.0


From e6b19c83c2ae60a573b4ca5bcf5eebb71b159f30 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 03:21:41 +0000
Subject: [PATCH 31/43] fix: FsSink.Append: remove a stale sidecar on a fresh
 start without an ETag

State kept reporting the ETag of an earlier transfer for bytes it does
not describe, so a push of that version would resume from them.
---
 fsutil/resumable_fs.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/fsutil/resumable_fs.go b/fsutil/resumable_fs.go
index 37164c4..319e5ef 100644
--- a/fsutil/resumable_fs.go
+++ b/fsutil/resumable_fs.go
@@ -261,6 +261,12 @@ func (s *FsSink[Fsys, File]) Append(
 			_ = f.Close()
 			return WrapPathErr("write-sidecar", s.sidecarPath(), werr)
 		}
+	} else if offset == 0 {
+		// A sidecar left by an earlier transfer does not describe this content.
+		if rerr := s.fsys.Remove(s.sidecarPath()); rerr != nil && !errors.Is(rerr, fs.ErrNotExist) {
+			_ = f.Close()
+			return WrapPathErr("remove-sidecar", s.sidecarPath(), rerr)
+		}
 	}
 
 	_, copyErr := io.Copy(f, r)
-- 
2.43.0


From a54b0cd89a3f0f6a4e1b29035cf11e4612ea3b91 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 03:49:10 +0000
Subject: [PATCH 32/43] fix: keep a grafted view open until its last hard link
 goes

Removing, renaming over or replacing one name of a hard-linked file closed
the view although another name still referred to it.
---
 vroot/synthfs/add.go    |  6 +++---
 vroot/synthfs/link.go   |  8 +++++++-
 vroot/synthfs/node.go   | 14 ++++++++++++++
 vroot/synthfs/remove.go |  4 ++--
 vroot/synthfs/rename.go |  2 +-
 5 files changed, 27 insertions(+), 7 deletions(-)

diff --git a/vroot/synthfs/add.go b/vroot/synthfs/add.go
index 703f06d..27535db 100644
--- a/vroot/synthfs/add.go
+++ b/vroot/synthfs/add.go
@@ -66,7 +66,7 @@ func (r *Root) AddFile(name string, view FileView, cb AddFunc) error {
 		if existingNode != nil {
 			parent.removeEntry(base)
 			if f, ok := existingNode.(*file); ok {
-				_ = f.view.Close()
+				f.unlink()
 			}
 		}
 		parent.addEntry(base, &file{
@@ -186,7 +186,7 @@ func (r *Root) addFSWalk(
 		if decision == AddDecisionOverride && existingNode != nil {
 			dst.removeEntry(base)
 			if f, ok := existingNode.(*file); ok {
-				_ = f.view.Close()
+				f.unlink()
 			}
 		}
 		if decision == AddDecisionKeep && existingNode != nil {
@@ -216,7 +216,7 @@ func (r *Root) addFSWalk(
 		if existingNode != nil {
 			dst.removeEntry(base)
 			if f, ok := existingNode.(*file); ok {
-				_ = f.view.Close()
+				f.unlink()
 			}
 		}
 		dst.addEntry(base, &file{
diff --git a/vroot/synthfs/link.go b/vroot/synthfs/link.go
index 482ec9f..c0023a1 100644
--- a/vroot/synthfs/link.go
+++ b/vroot/synthfs/link.go
@@ -50,6 +50,11 @@ func (r *Root) Link(oldname, newname string) error {
 	if parent.lookup(base) != nil {
 		return fsutil.WrapLinkErr("link", oldname, newname, fs.ErrExist)
 	}
+	if srcFile.links == nil {
+		n := 1
+		srcFile.links = &n
+	}
+	*srcFile.links++
 	// Hard link: share the same FileView so writes through either name reflect
 	// on the other. Mode/uid/gid are copied at link time.
 	parent.addEntry(base, &file{
@@ -60,7 +65,8 @@ func (r *Root) Link(oldname, newname string) error {
 			uid:     srcFile.uid,
 			gid:     srcFile.gid,
 		},
-		view: srcFile.view,
+		view:  srcFile.view,
+		links: srcFile.links,
 	})
 	return nil
 }
diff --git a/vroot/synthfs/node.go b/vroot/synthfs/node.go
index 94f088e..ea46647 100644
--- a/vroot/synthfs/node.go
+++ b/vroot/synthfs/node.go
@@ -57,6 +57,20 @@ type dir struct {
 type file struct {
 	metadata
 	view FileView
+	// links counts the names sharing view; nil while there is only one.
+	links *int
+}
+
+// unlink gives up f's name, closing its view once no other name shares it.
+// Caller must hold state.mu (write lock).
+func (f *file) unlink() {
+	if f.links != nil {
+		*f.links--
+		if *f.links > 0 {
+			return
+		}
+	}
+	_ = f.view.Close()
 }
 
 type symlink struct {
diff --git a/vroot/synthfs/remove.go b/vroot/synthfs/remove.go
index c33ba45..d43ca08 100644
--- a/vroot/synthfs/remove.go
+++ b/vroot/synthfs/remove.go
@@ -26,7 +26,7 @@ func (r *Root) Remove(name string) error {
 		}
 		parent.removeEntry(base)
 		if f, ok := target.(*file); ok {
-			_ = f.view.Close()
+			f.unlink()
 		}
 		return nil
 	})
@@ -82,6 +82,6 @@ func (r *Root) removeSubtree(n node) {
 			delete(nd.index, k)
 		}
 	case *file:
-		_ = nd.view.Close()
+		nd.unlink()
 	}
 }
diff --git a/vroot/synthfs/rename.go b/vroot/synthfs/rename.go
index 3cc8ba9..85d620e 100644
--- a/vroot/synthfs/rename.go
+++ b/vroot/synthfs/rename.go
@@ -54,7 +54,7 @@ func (r *Root) Rename(oldname, newname string) error {
 		}
 		newParent.removeEntry(newBase)
 		if f, ok := existing.(*file); ok {
-			_ = f.view.Close()
+			f.unlink()
 		}
 	}
 
-- 
2.43.0


From 739578023da612fcfa7d81e48884937c65af806c Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 03:49:10 +0000
Subject: [PATCH 33/43] fix: leave both names when renaming a file over its own
 hard link

rename(2) does nothing when both names are links of the same file; synthfs
removed the old name.
---
 vroot/synthfs/rename.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/vroot/synthfs/rename.go b/vroot/synthfs/rename.go
index 85d620e..2a641b2 100644
--- a/vroot/synthfs/rename.go
+++ b/vroot/synthfs/rename.go
@@ -31,6 +31,12 @@ func (r *Root) Rename(oldname, newname string) error {
 		// Both names address the same entry: rename(2) does nothing.
 		return nil
 	}
+	if a, ok := target.(*file); ok && a.links != nil {
+		if b, ok := existing.(*file); ok && b.links == a.links {
+			// Hard links of one file: rename(2) leaves both names.
+			return nil
+		}
+	}
 	srcDir, srcIsDir := target.(*dir)
 	if srcIsDir {
 		// Moving a directory into itself would cut the tree loose from the root.
-- 
2.43.0


From 854353d557bb08bc6132ea730e6cf1d83edf7f71 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 03:49:29 +0000
Subject: [PATCH 34/43] fix: AddFS keeps what is at a kept path

AddDecisionKeep added a leaf where nothing existed and replaced an existing
leaf by an incoming directory, both against its documentation.
---
 vroot/synthfs/add.go | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/vroot/synthfs/add.go b/vroot/synthfs/add.go
index 27535db..2ae05cd 100644
--- a/vroot/synthfs/add.go
+++ b/vroot/synthfs/add.go
@@ -161,6 +161,10 @@ func (r *Root) addFSWalk(
 		case AddDecisionSkip:
 			return nil
 		case AddDecisionKeep:
+			if existingNode != nil && existingNode.kind() != kindDir {
+				// The existing leaf is kept, so the directory has no place.
+				return nil
+			}
 			// Reuse or create + descend.
 			d := r.materializeDir(dst, base, info, existingNode, false)
 			return r.descend(d, mountSlash, fsys, rl, src, cb)
@@ -169,7 +173,8 @@ func (r *Root) addFSWalk(
 			return r.descend(d, mountSlash, fsys, rl, src, cb)
 		}
 	case info.Mode()&fs.ModeSymlink != 0:
-		if decision == AddDecisionSkip {
+		if decision != AddDecisionOverride {
+			// A kept path keeps what it has, even nothing.
 			return nil
 		}
 		if rl == nil {
@@ -183,15 +188,12 @@ func (r *Root) addFSWalk(
 		if err != nil {
 			return err
 		}
-		if decision == AddDecisionOverride && existingNode != nil {
+		if existingNode != nil {
 			dst.removeEntry(base)
 			if f, ok := existingNode.(*file); ok {
 				f.unlink()
 			}
 		}
-		if decision == AddDecisionKeep && existingNode != nil {
-			return nil
-		}
 		dst.addEntry(base, &symlink{
 			metadata: metadata{
 				name:    base,
@@ -202,17 +204,13 @@ func (r *Root) addFSWalk(
 		})
 		return nil
 	default: // regular file
-		if decision == AddDecisionSkip {
+		if decision != AddDecisionOverride {
 			return nil
 		}
 		view, err := NewFsView(fsys, src)
 		if err != nil {
 			return err
 		}
-		if decision == AddDecisionKeep && existingNode != nil {
-			_ = view.Close()
-			return nil
-		}
 		if existingNode != nil {
 			dst.removeEntry(base)
 			if f, ok := existingNode.(*file); ok {
-- 
2.43.0


From d3e2f908069010f670361288ae50a0da857f6297 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 03:49:29 +0000
Subject: [PATCH 35/43] fix: close the views below a directory replaced by an
 added leaf

---
 vroot/synthfs/add.go | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/vroot/synthfs/add.go b/vroot/synthfs/add.go
index 2ae05cd..42346cd 100644
--- a/vroot/synthfs/add.go
+++ b/vroot/synthfs/add.go
@@ -65,9 +65,7 @@ func (r *Root) AddFile(name string, view FileView, cb AddFunc) error {
 	case AddDecisionOverride:
 		if existingNode != nil {
 			parent.removeEntry(base)
-			if f, ok := existingNode.(*file); ok {
-				f.unlink()
-			}
+			r.removeSubtree(existingNode)
 		}
 		parent.addEntry(base, &file{
 			metadata: metadata{
@@ -190,9 +188,7 @@ func (r *Root) addFSWalk(
 		}
 		if existingNode != nil {
 			dst.removeEntry(base)
-			if f, ok := existingNode.(*file); ok {
-				f.unlink()
-			}
+			r.removeSubtree(existingNode)
 		}
 		dst.addEntry(base, &symlink{
 			metadata: metadata{
@@ -213,9 +209,7 @@ func (r *Root) addFSWalk(
 		}
 		if existingNode != nil {
 			dst.removeEntry(base)
-			if f, ok := existingNode.(*file); ok {
-				f.unlink()
-			}
+			r.removeSubtree(existingNode)
 		}
 		dst.addEntry(base, &file{
 			metadata: metadata{
-- 
2.43.0


From 50f17e47e97f34aa1c36cc80562d62ceeb18eba7 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 03:49:29 +0000
Subject: [PATCH 36/43] fix: adding below a dangling symlink fails instead of
 replacing the link

---
 vroot/synthfs/add.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/vroot/synthfs/add.go b/vroot/synthfs/add.go
index 42346cd..e292a69 100644
--- a/vroot/synthfs/add.go
+++ b/vroot/synthfs/add.go
@@ -310,6 +310,10 @@ func (r *Root) ensureParents(name, op string) (*dir, string, error) {
 			if perr != nil {
 				return nil, "", perr
 			}
+			if pParent.lookup(pBase) != nil {
+				// A dangling symlink: not ours to replace by a directory.
+				return nil, "", err
+			}
 			d := newDir(pBase, scaffoldDirMode&^r.st.opt.umask, r.st.opt.clock.Now(), pParent)
 			pParent.addEntry(pBase, d)
 			parent = d
-- 
2.43.0


From 2b397bacec31d56d3b98a80b84530510e45afda2 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 03:49:53 +0000
Subject: [PATCH 37/43] fix: concurrent in-memory appends no longer overwrite
 each other

An append through one handle looked up the end of the file and wrote there in
two steps, so appends through two handles could land on the same offset.
---
 vroot/synthfs/view_mem_buf.go | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/vroot/synthfs/view_mem_buf.go b/vroot/synthfs/view_mem_buf.go
index 1a2866b..e47cd52 100644
--- a/vroot/synthfs/view_mem_buf.go
+++ b/vroot/synthfs/view_mem_buf.go
@@ -79,13 +79,30 @@ func (b *memBuf) writeAt(p []byte, off int64) (int, error) {
 	}
 	b.mu.Lock()
 	defer b.mu.Unlock()
+	return b.put(p, off), nil
+}
+
+// append writes p at the end of the content as one step and returns the offset
+// it started at.
+func (b *memBuf) append(p []byte) (int64, int) {
+	b.mu.Lock()
+	defer b.mu.Unlock()
+	off := int64(len(b.content))
+	if len(p) == 0 {
+		return off, 0
+	}
+	return off, b.put(p, off)
+}
+
+// put copies p to off, growing content as needed. Caller holds b.mu (write).
+func (b *memBuf) put(p []byte, off int64) int {
 	end := int(off) + len(p)
 	if end > len(b.content) {
 		b.grow(end - len(b.content))
 	}
 	n := copy(b.content[int(off):], p)
 	b.modTime = b.clock.Now()
-	return n, nil
+	return n
 }
 
 func (b *memBuf) truncate(size int64) error {
@@ -197,7 +214,11 @@ func (h *memHandle) Write(p []byte) (int, error) {
 	h.mu.Lock()
 	defer h.mu.Unlock()
 	if h.flag&os.O_APPEND != 0 {
-		h.off = int64(h.buf.length())
+		// Finding the end and writing there is one step: appends through other
+		// handles must not land on the same offset.
+		off, n := h.buf.append(p)
+		h.off = off + int64(n)
+		return n, nil
 	}
 	n, err := h.buf.writeAt(p, h.off)
 	h.off += int64(n)
-- 
2.43.0


From da805c5ec00c7a282721d161b9f98597e5bf792f Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 04:55:39 +0000
Subject: [PATCH 38/43] fix: paging through a synthfs directory skips no entry
 when others are removed

---
 vroot/synthfs/handle_dir.go | 40 +++++++++++++++++++++++++++++--------
 1 file changed, 32 insertions(+), 8 deletions(-)

diff --git a/vroot/synthfs/handle_dir.go b/vroot/synthfs/handle_dir.go
index 4171e92..4d48097 100644
--- a/vroot/synthfs/handle_dir.go
+++ b/vroot/synthfs/handle_dir.go
@@ -19,9 +19,17 @@ type dirHandle struct {
 	node *dir
 	name string // user-facing, OS-form path
 
-	mu     sync.Mutex
-	closed bool
-	cursor int
+	mu      sync.Mutex
+	closed  bool
+	cursor  int
+	listing []listed // what cursor counts into, taken as the listing starts
+}
+
+// listed is an entry as it was when a listing started. Paging through those
+// shows every entry that stays once, whatever is added or removed meanwhile.
+type listed struct {
+	name string
+	node node
 }
 
 var _ vroot.File = (*dirHandle)(nil)
@@ -90,6 +98,7 @@ func (h *dirHandle) Seek(offset int64, whence int) (int64, error) {
 			)
 		}
 		h.cursor = 0
+		h.listing = nil
 	case io.SeekCurrent:
 		if offset != 0 {
 			return 0, fsutil.WrapPathErr("seek", h.name, fs.ErrInvalid)
@@ -103,7 +112,8 @@ func (h *dirHandle) Seek(offset int64, whence int) (int64, error) {
 			)
 		}
 		h.st.mu.RLock()
-		h.cursor = h.node.ordered.Len()
+		h.startListing()
+		h.cursor = len(h.listing)
 		h.st.mu.RUnlock()
 	default:
 		return 0, fsutil.WrapPathErr(
@@ -115,6 +125,16 @@ func (h *dirHandle) Seek(offset int64, whence int) (int64, error) {
 	return 0, nil
 }
 
+// startListing takes the entries to page through. Caller holds h.mu and the
+// state lock.
+func (h *dirHandle) startListing() {
+	all := h.node.entriesSnapshot()
+	h.listing = make([]listed, 0, len(all))
+	for _, nd := range all {
+		h.listing = append(h.listing, listed{name: nd.meta().name, node: nd})
+	}
+}
+
 // readEntries advances the cursor by up to n entries; n<=0 means "until end."
 // Caller holds h.mu; the returned snapshot is safe to use outside the lock.
 func (h *dirHandle) readEntries(n int) ([]stat, error) {
@@ -123,7 +143,10 @@ func (h *dirHandle) readEntries(n int) ([]stat, error) {
 	}
 	h.st.mu.RLock()
 	defer h.st.mu.RUnlock()
-	all := h.node.entriesSnapshot()
+	if h.cursor == 0 {
+		h.startListing()
+	}
+	all := h.listing
 	if h.cursor >= len(all) {
 		if n <= 0 {
 			return nil, nil
@@ -135,15 +158,16 @@ func (h *dirHandle) readEntries(n int) ([]stat, error) {
 		end = h.cursor + n
 	}
 	out := make([]stat, 0, end-h.cursor)
-	for _, nd := range all[h.cursor:end] {
-		s := nd.meta().toStat()
-		if f, ok := nd.(*file); ok {
+	for _, entry := range all[h.cursor:end] {
+		s := entry.node.meta().toStat()
+		if f, ok := entry.node.(*file); ok {
 			// The size is the view's to tell; an entry whose view cannot be asked
 			// is still listed.
 			if live, err := statFromFileView(&f.metadata, f.view); err == nil {
 				s = live
 			}
 		}
+		s.name = entry.name
 		out = append(out, s)
 	}
 	h.cursor = end
-- 
2.43.0


From f385eb98e1b48be222af0afff26e7bf632c1f06b Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 05:35:28 +0000
Subject: [PATCH 39/43] fix: tarfs: build the tree entry by entry, in the order
 of the archive

Entries were sorted by name first, so that a later entry did not win over an
earlier one of another kind (file "a" after "a/b", or "a/b" after "a").
Directories implied by their children had no header: opening, listing or
walking them panicked with a nil pointer. A replaced child stayed listed.
---
 tarfs/entdir.go | 62 ++++++++++++++++++++++++++++---------------------
 tarfs/fs.go     | 45 ++++++++++++++---------------------
 2 files changed, 52 insertions(+), 55 deletions(-)

diff --git a/tarfs/entdir.go b/tarfs/entdir.go
index 10bff9f..f5914bb 100644
--- a/tarfs/entdir.go
+++ b/tarfs/entdir.go
@@ -5,9 +5,12 @@ import (
 	"fmt"
 	"io"
 	"io/fs"
+	"maps"
+	"slices"
 	"strings"
 	"sync"
 	"syscall"
+	"time"
 
 	"github.com/ngicks/go-fsys-helper/fsutil"
 	"github.com/ngicks/go-fsys-helper/fsutil/errdef"
@@ -51,43 +54,24 @@ func (d *dir) addChild(name string, hdr *Section) {
 
 		if !isLastComponent {
 			// Intermediate component - ensure directory exists
-			child, ok := currentDir.files[component]
+			child, ok := currentDir.files[component].(*dir)
 			if !ok {
-				child = &dir{parent: currentDir}
+				// Missing, or an earlier entry which is not a directory: the later entry wins.
+				child = &dir{h: impliedDirSection(name[:offset]), parent: currentDir}
 				currentDir.files[component] = child
-				currentDir.ordered = append(currentDir.ordered, child)
 			}
-			_, ok = child.(*dir)
-			if !ok {
-				// TODO: warn about this?
-				child = &dir{parent: currentDir}
-				currentDir.files[component] = child
-				currentDir.ordered = append(currentDir.ordered, child)
-			}
-			currentDir = child.(*dir)
-			// Ensure the child directory has an initialized files map and parent link
+			currentDir = child
+			// Ensure the child directory has an initialized files map
 			if currentDir.files == nil {
 				currentDir.files = make(map[string]direntry)
 			}
-			if currentDir.parent == nil {
-				currentDir.parent = d // Set parent if not already set
-			}
 		} else {
 			// Final component - add the actual entry
 			var ent direntry
 			switch hdr.h.Typeflag {
 			case tar.TypeDir:
-				if existing := currentDir.files[component]; existing != nil {
-					dirHandle, ok := existing.(*dir)
-					if !ok {
-						// TODO: warn about this?
-						dirHandle = &dir{parent: currentDir}
-						currentDir.files[component] = dirHandle
-					}
-					dirHandle.h = hdr
-					if dirHandle.parent == nil {
-						dirHandle.parent = currentDir
-					}
+				if existing, ok := currentDir.files[component].(*dir); ok {
+					existing.h = hdr
 				} else {
 					ent = &dir{h: hdr, parent: currentDir}
 				}
@@ -100,12 +84,36 @@ func (d *dir) addChild(name string, hdr *Section) {
 			}
 			if ent != nil {
 				currentDir.files[component] = ent
-				currentDir.ordered = append(currentDir.ordered, ent)
 			}
 		}
 	}
 }
 
+// impliedDirSection returns a section for a directory which has no entry on its own
+// but is a parent of other entries.
+func impliedDirSection(name string) *Section {
+	return &Section{
+		h: &tar.Header{
+			Typeflag: tar.TypeDir,
+			Name:     name,
+			Mode:     0o755,
+			ModTime:  time.Now(),
+		},
+	}
+}
+
+// sortChildren fixes the order in which children are listed, for d and directories under d.
+func (d *dir) sortChildren() {
+	d.ordered = make([]direntry, 0, len(d.files))
+	for _, name := range slices.Sorted(maps.Keys(d.files)) {
+		ent := d.files[name]
+		d.ordered = append(d.ordered, ent)
+		if sub, ok := ent.(*dir); ok {
+			sub.sortChildren()
+		}
+	}
+}
+
 func (d *dir) openChild(name string, skipLastComponent bool, fsys *Fs) (direntry, error) {
 	if name == "." {
 		return d, nil
diff --git a/tarfs/fs.go b/tarfs/fs.go
index cb84efa..703c698 100644
--- a/tarfs/fs.go
+++ b/tarfs/fs.go
@@ -4,11 +4,8 @@ import (
 	"archive/tar"
 	"io"
 	"io/fs"
-	"maps"
 	"path"
-	"slices"
 	"strings"
-	"time"
 )
 
 var _ fs.FS = (*Fs)(nil)
@@ -38,42 +35,33 @@ func New(r io.ReaderAt, opt *FsOption) (*Fs, error) {
 	if opt == nil {
 		opt = new(FsOption)
 	}
-	// first collect entries in the map
-	// Tar archives may have duplicate entry for same name for incremental update, etc.
-	headers, err := tryCollectHeaderOffsets(Sections(r))
-	if err != nil {
-		return nil, err
-	}
-
 	fsys := &Fs{
 		r:        r,
 		isRooted: opt.IsRooted,
+		// Replaced when the archive has an entry for root. Is it even possible not to have one?
+		subRoot: &dir{h: impliedDirSection("./")},
 	}
 
-	if rootHeader, ok := headers["."]; ok {
-		fsys.subRoot = &dir{h: rootHeader}
-	} else {
-		// Is it even possible?
-		fsys.subRoot = &dir{
-			h: &Section{
-				h: &tar.Header{
-					Typeflag: tar.TypeDir,
-					Name:     "./",
-					Mode:     0o755,
-					ModTime:  time.Now(),
-				},
-			},
+	// Tar archives may have duplicate entry for same name for incremental update, etc.
+	// Entries are added in the order of the archive so that the later entry wins.
+	for section, err := range Sections(r) {
+		if err != nil {
+			return nil, err
 		}
-	}
-	delete(headers, ".")
 
-	for _, key := range slices.Sorted(maps.Keys(headers)) {
+		key := path.Clean(section.h.Name)
+		if key == "." {
+			if section.h.Typeflag == tar.TypeDir {
+				fsys.subRoot.h = section
+			}
+			continue
+		}
 		if strings.HasPrefix(key, "..") {
 			// reject paths traversing upward even when tarinsecurepath = 1.
 			// Anyway fs.ValidPath check will reject this.
 			continue
 		}
-		switch headers[key].h.Typeflag {
+		switch section.h.Typeflag {
 		case tar.TypeReg, tar.TypeRegA, tar.TypeGNUSparse:
 		case tar.TypeDir:
 		case tar.TypeSymlink:
@@ -88,8 +76,9 @@ func New(r io.ReaderAt, opt *FsOption) (*Fs, error) {
 		default:
 			continue
 		}
-		fsys.subRoot.addChild(key, headers[key])
+		fsys.subRoot.addChild(key, section)
 	}
+	fsys.subRoot.sortChildren()
 
 	// for root fsys root and subRoot is totally same.
 	// But different for sub-fsys returned from Sub.
-- 
2.43.0


From 1a62f2cc0080b78c093bddf198f539cb3b8c270d Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 05:35:28 +0000
Subject: [PATCH 40/43] fix: tarfs: show entries of absolute names and names
 which start with two dots

"/a" was added under a nameless directory, which can not be opened and has no
header; "..data" was taken for a path which traverses upward.
---
 tarfs/fs.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/tarfs/fs.go b/tarfs/fs.go
index 703c698..beb4cbc 100644
--- a/tarfs/fs.go
+++ b/tarfs/fs.go
@@ -49,14 +49,15 @@ func New(r io.ReaderAt, opt *FsOption) (*Fs, error) {
 			return nil, err
 		}
 
-		key := path.Clean(section.h.Name)
-		if key == "." {
+		// absolute names are relative to the root, as other tar implementations do.
+		key := strings.TrimLeft(path.Clean(section.h.Name), "/")
+		if key == "." || key == "" {
 			if section.h.Typeflag == tar.TypeDir {
 				fsys.subRoot.h = section
 			}
 			continue
 		}
-		if strings.HasPrefix(key, "..") {
+		if key == ".." || strings.HasPrefix(key, "../") {
 			// reject paths traversing upward even when tarinsecurepath = 1.
 			// Anyway fs.ValidPath check will reject this.
 			continue
-- 
2.43.0


From 100e2911d33729653cd1a4efa44730887b10589c Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 05:36:02 +0000
Subject: [PATCH 41/43] fix: tarfs: resolve symlinks to . and .., and keep
 targets as written

A symlink to ".." (or one which ends with it) resolved to the symlink itself and
opening it panicked, the rest of a path after "." was dropped, and targets were
cleaned lexically, which is wrong for "l/.." where l is a symlink.
---
 tarfs/entdir.go     | 7 +++++--
 tarfs/entsymlink.go | 4 ++--
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/tarfs/entdir.go b/tarfs/entdir.go
index f5914bb..85cd314 100644
--- a/tarfs/entdir.go
+++ b/tarfs/entdir.go
@@ -137,8 +137,10 @@ func (d *dir) openChildResolve(name string, skipLastComponent bool, fsys *Fs) (d
 		isLastComponent = len(rest) == 0
 
 		switch component {
-		case ".":
-			return currentDir, nil
+		case "", ".":
+			// only in symlink targets.
+			currentDirent = currentDir
+			continue
 		case "..":
 			if fsys.isRooted && (currentDir == fsys.root || currentDir == fsys.subRoot) {
 				return nil, pathErr("open", name, fsutil.ErrPathEscapes)
@@ -147,6 +149,7 @@ func (d *dir) openChildResolve(name string, skipLastComponent bool, fsys *Fs) (d
 				return nil, pathErr("open", name, fs.ErrNotExist)
 			}
 			currentDir = currentDir.parent
+			currentDirent = currentDir
 			continue
 		}
 
diff --git a/tarfs/entsymlink.go b/tarfs/entsymlink.go
index 18e3e6c..7a96556 100644
--- a/tarfs/entsymlink.go
+++ b/tarfs/entsymlink.go
@@ -2,7 +2,6 @@ package tarfs
 
 import (
 	"io"
-	"path"
 )
 
 type symlink struct {
@@ -19,5 +18,6 @@ func (s *symlink) open(r io.ReaderAt, path string) openDirentry {
 }
 
 func (s *symlink) readLink() (string, error) {
-	return path.Clean(s.h.h.Linkname), nil
+	// Not cleaned: "a/.." is not "." where "a" is a symlink.
+	return s.h.h.Linkname, nil
 }
-- 
2.43.0


From 48c28be15de1ef326e91959c9433d2593daf28ab Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 05:36:41 +0000
Subject: [PATCH 42/43] fix: tarfs: let hard links share their target's entry

Hard links were looked up by name when opened: a link to a link or to a symlink
panicked, a target replaced later in the archive changed the link, links showed
the size in their own header, which is 0 while they have content to read, and
links without a target were listed but could not be opened.
---
 tarfs/entdir.go      |  15 +-----
 tarfs/entfile.go     |   2 +-
 tarfs/enthardlink.go | 108 ++++++++++++++++++++++++++++---------------
 tarfs/fs.go          |  25 ++++------
 4 files changed, 84 insertions(+), 66 deletions(-)

diff --git a/tarfs/entdir.go b/tarfs/entdir.go
index 85cd314..a7f0fe1 100644
--- a/tarfs/entdir.go
+++ b/tarfs/entdir.go
@@ -35,7 +35,7 @@ func (d *dir) readLink() (string, error) {
 	return "", pathErr("readlink", "", syscall.EINVAL)
 }
 
-func (d *dir) addChild(name string, hdr *Section) {
+func (d *dir) addChild(name string, hdr *Section, link direntry) {
 	if d.files == nil {
 		d.files = make(map[string]direntry)
 	}
@@ -78,7 +78,7 @@ func (d *dir) addChild(name string, hdr *Section) {
 			case tar.TypeSymlink:
 				ent = &symlink{h: hdr}
 			case tar.TypeLink:
-				ent = &hardlink{h: hdr}
+				ent = link
 			default:
 				ent = &file{h: hdr}
 			}
@@ -185,17 +185,6 @@ func (d *dir) openChildResolve(name string, skipLastComponent bool, fsys *Fs) (d
 			case *dir:
 				currentDir = x
 				continue
-			case *hardlink:
-				// This is almost impossible but handle anyway
-				target, err := fsys.resolveHardlink(x)
-				if err != nil {
-					return nil, err
-				}
-				if dirTarget, ok := target.(*dir); ok {
-					currentDir = dirTarget
-					continue
-				}
-				return nil, pathErr("open", name, syscall.ENOTDIR)
 			default:
 				return nil, pathErr("open", name, syscall.ENOTDIR)
 			}
diff --git a/tarfs/entfile.go b/tarfs/entfile.go
index a1a4759..7486bf8 100644
--- a/tarfs/entfile.go
+++ b/tarfs/entfile.go
@@ -37,7 +37,7 @@ type openFile struct {
 	r        seekReadReaderAt
 	path     string
 	file     *file
-	fileInfo *Section // maybe overriten by hardlink
+	fileInfo *Section
 }
 
 func (f *openFile) checkClosed(op string) error {
diff --git a/tarfs/enthardlink.go b/tarfs/enthardlink.go
index bb17e3f..ee1d997 100644
--- a/tarfs/enthardlink.go
+++ b/tarfs/enthardlink.go
@@ -1,55 +1,89 @@
 package tarfs
 
 import (
-	"fmt"
-	"io"
-	"syscall"
+	"archive/tar"
+	"path"
+	"strings"
 )
 
-type hardlink struct {
-	h *Section
-}
-
-func (h *hardlink) header() *Section {
-	return h.h
+// linkTarget returns the entry a hard link to name refers to.
+// It returns nil if there is no such entry or the entry is a directory.
+func (d *dir) linkTarget(name string) direntry {
+	var ent direntry = d
+	// Hard links refer to names in the archive. Symlinks are not followed.
+	for component := range strings.SplitSeq(strings.TrimLeft(path.Clean(name), "/"), "/") {
+		parent, ok := ent.(*dir)
+		if !ok {
+			return nil
+		}
+		ent = parent.files[component]
+	}
+	if _, ok := ent.(*dir); ok {
+		return nil
+	}
+	return ent
 }
 
-func (h *hardlink) open(r io.ReaderAt, path string) openDirentry {
-	// Hard links should not be opened directly - they should be resolved first
-	panic("hardlink.open() should not be called - hardlinks should be resolved before opening")
-}
+// hardlinkTo returns an entry for hard link hdr, which shares everything but its name with target.
+func hardlinkTo(hdr *Section, target direntry) direntry {
+	h := *target.header().h
+	h.Name = hdr.h.Name
+	section := *target.header()
+	section.h = &h
 
-func (h *hardlink) readLink() (string, error) {
-	return "", pathErr("readlink", "", syscall.EINVAL)
-}
-
-func (h *hardlink) overlayHardlink(target direntry) direntry {
-	return &hardlinkOverlay{h, target}
+	if _, ok := target.(*symlink); ok {
+		return &symlink{h: &section}
+	}
+	switch h.Typeflag {
+	case tar.TypeReg, tar.TypeRegA, tar.TypeGNUSparse, tar.TypeLink:
+		h.Typeflag = tar.TypeLink
+		h.Linkname = hdr.h.Linkname
+	}
+	return &file{h: &section}
 }
 
-type hardlinkOverlay struct {
-	hl  *hardlink
-	tgt direntry
+// addHardlink adds hard link hdr as name if its target is in d.
+func (d *dir) addHardlink(name string, hdr *Section) bool {
+	target := d.linkTarget(hdr.h.Linkname)
+	if target == nil {
+		return false
+	}
+	d.addChild(name, hdr, hardlinkTo(hdr, target))
+	return true
 }
 
-func (c *hardlinkOverlay) header() *Section {
-	return c.hl.header()
+type danglingHardlink struct {
+	name string
+	h    *Section
 }
 
-func (c *hardlinkOverlay) open(r io.ReaderAt, path string) openDirentry {
-	switch x := c.tgt.(type) {
-	case *file:
-		open := x.open(r, path).(*openFile)
-		open.fileInfo = c.hl.header()
-		return open
-	case *dir:
-		open := x.open(r, path).(*openDir)
-		open.fileInfo = c.hl.header()
-		return open
+// addDangling adds hard links which precede their target in the archive.
+// They do not replace anything. Links which have no target at all are ignored.
+func (d *dir) addDangling(danglings []danglingHardlink) {
+	for len(danglings) > 0 {
+		var rest []danglingHardlink
+		for _, link := range danglings {
+			if d.hasRoomFor(link.name) && !d.addHardlink(link.name, link.h) {
+				rest = append(rest, link)
+			}
+		}
+		if len(rest) == len(danglings) {
+			return
+		}
+		danglings = rest
 	}
-	panic(fmt.Errorf("hardlink targetting unknown type (%T)", c.tgt))
 }
 
-func (c *hardlinkOverlay) readLink() (string, error) {
-	return "", pathErr("readlink", "", syscall.EINVAL)
+// hasRoomFor reports whether name can be added without replacing any entry.
+func (d *dir) hasRoomFor(name string) bool {
+	for component := range strings.SplitSeq(name, "/") {
+		ent, ok := d.files[component]
+		if !ok {
+			return true
+		}
+		if d, ok = ent.(*dir); !ok {
+			return false
+		}
+	}
+	return false
 }
diff --git a/tarfs/fs.go b/tarfs/fs.go
index beb4cbc..4cf7fd9 100644
--- a/tarfs/fs.go
+++ b/tarfs/fs.go
@@ -42,6 +42,8 @@ func New(r io.ReaderAt, opt *FsOption) (*Fs, error) {
 		subRoot: &dir{h: impliedDirSection("./")},
 	}
 
+	var danglings []danglingHardlink
+
 	// Tar archives may have duplicate entry for same name for incremental update, etc.
 	// Entries are added in the order of the archive so that the later entry wins.
 	for section, err := range Sections(r) {
@@ -77,8 +79,15 @@ func New(r io.ReaderAt, opt *FsOption) (*Fs, error) {
 		default:
 			continue
 		}
-		fsys.subRoot.addChild(key, section)
+		if section.h.Typeflag == tar.TypeLink {
+			if !fsys.subRoot.addHardlink(key, section) {
+				danglings = append(danglings, danglingHardlink{key, section})
+			}
+			continue
+		}
+		fsys.subRoot.addChild(key, section, nil)
 	}
+	fsys.subRoot.addDangling(danglings)
 	fsys.subRoot.sortChildren()
 
 	// for root fsys root and subRoot is totally same.
@@ -88,11 +97,6 @@ func New(r io.ReaderAt, opt *FsOption) (*Fs, error) {
 	return fsys, nil
 }
 
-func (fsys *Fs) resolveHardlink(hl *hardlink) (direntry, error) {
-	target := path.Clean(hl.header().Header().Linkname)
-	return fsys.root.openChild(target, false, fsys)
-}
-
 func (fsys *Fs) findFile(name string, skipLastElement bool) (direntry, error) {
 	if !fs.ValidPath(name) {
 		return nil, pathErr("open", name, fs.ErrInvalid)
@@ -105,15 +109,6 @@ func (fsys *Fs) findFile(name string, skipLastElement bool) (direntry, error) {
 		return nil, err
 	}
 
-	// Handle hardlinks
-	if hl, ok := dirent.(*hardlink); ok {
-		target, err := fsys.resolveHardlink(hl)
-		if err != nil {
-			return nil, err
-		}
-		return hl.overlayHardlink(target), nil
-	}
-
 	return dirent, nil
 }
 
-- 
2.43.0


From 079d924b3047b9e702e3f1490c1488bff8c9e31a Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 05:37:04 +0000
Subject: [PATCH 43/43] fix: tarfs: contiguous files have content

They were taken for entries without a body, which put the header of the next
entry at the wrong offset: its sparse map was read from the content. They are
regular files to anything but the systems which have them.
---
 tarfs/enthardlink.go | 2 +-
 tarfs/fs.go          | 2 +-
 tarfs/headers.go     | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/tarfs/enthardlink.go b/tarfs/enthardlink.go
index ee1d997..97590a4 100644
--- a/tarfs/enthardlink.go
+++ b/tarfs/enthardlink.go
@@ -35,7 +35,7 @@ func hardlinkTo(hdr *Section, target direntry) direntry {
 		return &symlink{h: &section}
 	}
 	switch h.Typeflag {
-	case tar.TypeReg, tar.TypeRegA, tar.TypeGNUSparse, tar.TypeLink:
+	case tar.TypeReg, tar.TypeRegA, tar.TypeGNUSparse, tar.TypeCont, tar.TypeLink:
 		h.Typeflag = tar.TypeLink
 		h.Linkname = hdr.h.Linkname
 	}
diff --git a/tarfs/fs.go b/tarfs/fs.go
index 4cf7fd9..2a6c53e 100644
--- a/tarfs/fs.go
+++ b/tarfs/fs.go
@@ -65,7 +65,7 @@ func New(r io.ReaderAt, opt *FsOption) (*Fs, error) {
 			continue
 		}
 		switch section.h.Typeflag {
-		case tar.TypeReg, tar.TypeRegA, tar.TypeGNUSparse:
+		case tar.TypeReg, tar.TypeRegA, tar.TypeGNUSparse, tar.TypeCont:
 		case tar.TypeDir:
 		case tar.TypeSymlink:
 			if !opt.HandleSymlink {
diff --git a/tarfs/headers.go b/tarfs/headers.go
index 23a74a3..34ae71b 100644
--- a/tarfs/headers.go
+++ b/tarfs/headers.go
@@ -84,7 +84,7 @@ func Sections(r io.ReaderAt) iter.Seq2[*Section, error] {
 
 			switch hh.h.Typeflag {
 			case tar.TypeLink, tar.TypeSymlink, tar.TypeChar, tar.TypeBlock, tar.TypeDir, tar.TypeFifo,
-				tar.TypeCont, tar.TypeXHeader, tar.TypeXGlobalHeader,
+				tar.TypeXHeader, tar.TypeXGlobalHeader,
 				tar.TypeGNULongName, tar.TypeGNULongLink:
 				// They have size for name.
 				hh.bodyEnd = hh.headerEnd
-- 
2.43.0

