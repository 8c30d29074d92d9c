import json
P=[]
def p(id,title,st,over,qt,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    P.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":qt},"why_tests_cant":why,"anchors":a})
OV="vroot-adapter/overlayfs/"
p("O01","Overlay shows exactly the merged tree, after any history of operations",
 "For any top and lower layers and any sequence of operations, an overlay filesystem behaves as one ordinary filesystem whose initial content is the union of its layers (an upper entry hides a lower non-directory, directories merge, whiteouts and opaque directories hide what is below). Every operation's success or failure, every listing, stat, link target and file content afterwards is the one that ordinary filesystem would give, with the documented exception that renaming a directory a lower layer contributes to is refused and changes nothing. In particular something removed, replaced or renamed away never reappears, and something not named by an operation never disappears.",
 ["histories","configurations"],"all layer stacks (file/dir/symlink at any path in any layer) and all operation histories over them",
 "Tests run a few dozen fixed scripts on a few fixed layer stacks; the bugs live in the product of layer shapes and operation orders (remove, recreate, rename over, remove again).",
 [OV+"merged.go",OV+"remove.go",OV+"rename.go",OV+"mkdir.go",OV+"write.go",OV+"link.go",OV+"copyup.go",OV+"resolve.go"],
 [("merged lookup and listing",OV+"merged.go"),("whiteout on removal",OV+"remove.go"),("rename with mask maintenance",OV+"rename.go"),("opaque re-creation",OV+"mkdir.go"),("copy-up on first write",OV+"copyup.go")],
 [("top tree","entries owned by the writable layer","top's merged/ directory"),("masks","whiteout and opaque marks by path","MetadataStore"),("lower layers","read-only trees in priority order","DataSource list")])
p("O02","Overlay never modifies a lower layer and keeps its bookkeeping out of it",
 "No operation performed through an overlay, successful or failing, ever changes a lower layer: the bytes, entries, link targets, modes and modification times of every lower stay what they were when it was stacked. Nor does the overlay's own bookkeeping (metadata database, work area, marker files) ever become visible in the merged view.",
 ["histories","configurations"],"all operation histories over all layer stacks, including failing operations and handles kept open across copy-up",
 "Tests assert unchanged lowers only after a few chosen operations; a write reaching a lower needs a particular handle age or link shape.",
 [OV+"copyup.go",OV+"file.go",OV+"write.go",OV+"open.go"],
 [("copy-up before any mutation",OV+"copyup.go"),("writable opens go to the top only",OV+"write.go")])
p("O03","A reopened overlay shows the same merged tree",
 "Closing an overlay and opening it again over the same top and the same lowers yields exactly the merged tree there was before, whatever history produced it: whiteouts, opaque directories and copied-up files persist and are never re-derived differently. Reopening any number of times, with or without operations in between, changes nothing.",
 ["histories","crash_points"],"all operation histories, with a close/reopen at every point of them",
 "Tests reopen after a few scripted histories; durability of every mark for every path shape is never enumerated.",
 [OV+"state.go",OV+"fs.go",OV+"metadatastore_sqlite.go",OV+"datasource.go"],
 [("mask persistence",OV+"metadatastore_sqlite.go"),("open / validation of a top",OV+"fs.go")])
p("O04","An interrupted overlay operation never resurrects what was removed",
 "If an overlay operation is stopped anywhere inside it, by a failing layer or metadata call or by the process ending there, then after reopening every path not named by that operation shows exactly what it showed before, and each named path shows its old content, its new content, or nothing. Content that had been removed, replaced or hidden before the operation never becomes visible again, and the top remains openable.",
 ["crash_points","fault_sequences","histories"],"every step boundary inside every mutating operation, over all histories and layer stacks",
 "Unit tests inject a handful of failures at named calls; the guarantee ranges over every intermediate step of every operation in every state.",
 [OV+"remove.go",OV+"rename.go",OV+"mkdir.go",OV+"copyup.go",OV+"write.go"],
 [("ordering of mask record and top change",OV+"remove.go"),("rename mask transfer",OV+"rename.go"),("staged copy-up",OV+"copyup.go")])
p("O05","Copy-up is complete or absent, and leaves no debris",
 "Whenever a lower file, directory or symlink is copied into the top because of a mutation, the copy appears with the full content, permission bits and link target of the original, or not at all; a failed or interrupted copy leaves the merged view exactly as it was and a later attempt succeeds. Parents created for it carry the lower directories' permission bits, and no partial copy is ever visible in the merged view.",
 ["fault_sequences","crash_points","inputs"],"every fault point during copy-up, for every kind and depth of lower entry",
 "Tests cover one file with one failing writer; partial copies need a fault at a particular write, rename or mkdir on the way.",
 [OV+"copyup.go",OV+"write.go",OV+"metadatastore.go"],[("staged copy then rename",OV+"copyup.go")])
p("O06","Concurrent overlay operations are linearizable",
 "Operations issued concurrently on one overlay (and on sub-roots opened from it) behave as if executed one at a time in some order consistent with real time: every result and the final merged tree are explained by such an order over the merged-tree semantics. No race leaves a half-applied operation, a resurrected entry or a lost file.",
 ["schedules","histories"],"all interleavings of concurrent create/remove/rename/link/mkdir/list/read operations",
 "Race tests check absence of data races on a few loops, not that results are explained by any sequential order.",
 [OV+"state.go",OV+"fs.go",OV+"remove.go",OV+"rename.go",OV+"write.go"],[("state lock over merged view",OV+"state.go")])
p("O07","An overlay sub-root is the same tree, confined to its directory",
 "A sub-root opened from an overlay reads and writes the same merged tree below its directory, so changes through either are visible through both, in every order. No path, '..' or symlink, relative or absolute, lets an operation on an overlay or its sub-root read or change anything outside its root, including the top layer's private bookkeeping area and files outside a layer's root.",
 ["inputs","histories"],"all path strings and symlink graphs, in every layer, for every operation",
 "Tests try a fixed list of escaping links on single-layer trees; links split over layers and dangling links are not enumerated.",
 [OV+"resolve.go",OV+"fs.go",OV+"write.go",OV+"link.go"],[("merged-view path resolution",OV+"resolve.go"),("OpenRoot",OV+"fs.go")])
p("O08","Overlay mask stores keep exactly the recorded marks",
 "A mask store answers, for every path, exactly the marks the calls so far recorded: setting a whiteout or opaque mark, clearing one path, clearing a subtree and renaming a subtree affect the named paths and nothing else, whatever characters the names contain. A store reopened over the same storage gives the same answers.",
 ["histories","inputs"],"all call sequences over path names that are prefixes, case variants or SQL/glob-special strings of each other",
 "Store tests use a handful of names; subtree matching by string range/LIKE goes wrong only for particular sibling names.",
 [OV+"metadatastore.go",OV+"metadatastore_sqlite.go",OV+"internal/sqlvfs/sqlvfs.go",OV+"internal/sqlvfs/file.go"],
 [("sqlite mask store",OV+"metadatastore_sqlite.go"),("sqlite VFS over vroot",OV+"internal/sqlvfs/file.go")])
p("S01","In-memory trees obey ordinary filesystem tree semantics",
 "For any sequence of operations on a memfs or synthfs filesystem (create, mkdir, mkdirall, link, symlink, rename, remove, removeall, chmod, open, readlink, stat, sub-roots), each operation succeeds or fails as it would on an ordinary POSIX filesystem and the resulting tree is exactly the one it would produce. The tree stays a tree: nothing becomes unreachable, duplicated or shared except by hard links, and a failing operation changes nothing.",
 ["histories","inputs"],"all operation histories over all reachable trees, with paths going through directories, symlinks and '..'",
 "Acceptance tests run fixed scripts; corner combinations (rename onto itself, into itself, across kinds, through links) are not enumerated.",
 ["vroot/synthfs/tree.go","vroot/synthfs/root.go","vroot/synthfs/remove.go","vroot/synthfs/rename.go","vroot/synthfs/node.go","vroot/synthfs/open.go","vroot/memfs/memfs.go"],
 [("path resolution","vroot/synthfs/tree.go"),("tree mutation","vroot/synthfs/remove.go")])
p("S02","In-memory file bytes follow POSIX handle semantics",
 "For any sequence of reads, writes, positioned reads and writes, seeks, truncations and stats through any number of handles and hard links of one in-memory file, each call transfers exactly the bytes and returns exactly the counts and sizes that POSIX prescribes for its open flags: append writes at the end, gaps read as zeros, truncation never reveals old bytes, access modes are enforced. An open handle keeps working on its file after the name is removed or renamed, and every link and later open sees the same bytes.",
 ["histories","inputs"],"all handle operation sequences over all flag combinations, offsets and sizes",
 "Tests sample few offsets; stale bytes after shrink/grow or holes need a specific sequence.",
 ["vroot/synthfs/view_mem_buf.go","vroot/synthfs/handle.go","vroot/synthfs/open.go"],
 [("growable buffer view","vroot/synthfs/view_mem_buf.go"),("file handle","vroot/synthfs/handle.go")])
p("S03","Concurrent in-memory filesystem operations are linearizable",
 "Operations issued concurrently on one memfs or synthfs filesystem, and on handles of the same file, behave as if executed one at a time in some order consistent with real time; concurrent appends never overwrite each other, exclusive creates have one winner, and a concurrent listing never shows a torn state.",
 ["schedules"],"all interleavings of concurrent tree and handle operations",
 "Race-detector tests observe no data race but never compare results with a sequential order.",
 ["vroot/synthfs/root.go","vroot/synthfs/handle.go","vroot/synthfs/view_mem_buf.go","vroot/synthfs/handle_dir.go"],
 [("tree lock","vroot/synthfs/root.go"),("per-file lock","vroot/synthfs/view_mem_buf.go")])
p("S04","Grafting files and trees into synthfs follows the add decisions",
 "Adding a file or a whole tree to a synthfs filesystem yields exactly the tree prescribed by the per-path decisions: replaced paths show the added content, kept paths keep the existing entry, skipped paths are left out, and everything not named is untouched. Added files read as the bytes of their backing view, and a failing add leaves the existing tree usable and unchanged for paths it did not reach.",
 ["inputs","configurations"],"all pairs of existing tree and added tree with every assignment of decisions",
 "Tests add a few trees with a few policies; combinations of kinds and decisions are a product.",
 ["vroot/synthfs/add.go","vroot/synthfs/add_decision.go","vroot/synthfs/view_fs.go","vroot/synthfs/view_bytes.go"],
 [("graft","vroot/synthfs/add.go")])
p("S05","Directory listings are complete, paged consistently and agree with stat",
 "On every filesystem provided here, reading a directory in pages of any sizes returns each entry of the directory exactly once and then io.EOF, in agreement with reading it in one call; a non-positive count returns everything left with no error. Each returned entry's name, type and info agree with Lstat of that entry, and stat through the handle agrees with stat by name.",
 ["inputs","histories"],"all directory contents and all sequences of page sizes, for memfs, synthfs, osfs, overlayfs, tarfs and their wrappers",
 "Tests list with one or two page sizes.",
 ["vroot/synthfs/handle_dir.go",OV+"file.go","tarfs/entdir.go","vroot/iofs_to.go"],
 [("directory handle","vroot/synthfs/handle_dir.go"),("merged directory handle",OV+"file.go"),("archive directory handle","tarfs/entdir.go")])
p("C01","A rooted filesystem never escapes its root",
 "On every filesystem advertised as rooted (osfs root, memfs and synthfs roots, sub-roots, tarfs roots, and read-only or io/fs views of them) no operation with any path, '..' sequence or symlink chain, relative or absolute, ever reads, lists, creates, changes or removes anything outside the root. Such an access fails with a path-escape error, while any path that stays inside the root works as on a plain filesystem.",
 ["inputs","histories"],"all symlink graphs inside the root, all path strings, all operations",
 "Acceptance tests try a fixed list of escaping links with a few operations.",
 ["vroot/osfs/root.go","vroot/synthfs/tree.go","tarfs/entdir.go","tarfs/fs.go","vroot/readonly.go"],
 [("kernel/os.Root resolution","vroot/osfs/root.go"),("in-memory resolution","vroot/synthfs/tree.go"),("archive resolution","tarfs/entdir.go")])
p("C02","A prefixed or unrooted filesystem rejects lexical escapes and maps names 1:1",
 "On a prefix filesystem, an unrooted directory filesystem and a path-normalizing filesystem, every operation acts on exactly the path obtained by joining the base with the cleaned name, so it behaves as the same operation on that path; a name that lexically leaves the base is refused with a path-escape error before anything is touched. Listings and link targets read through it are those of that path, and links are created with exactly the target given.",
 ["inputs"],"all path strings (with '.', '..', duplicate slashes, trailing slashes, absolute forms) and all operations",
 "Tests check a few names on a few methods.",
 ["vroot/pathprefix.go","vroot/osfs/fs.go","vroot/pathnormalizer.go","vroot-adapter/sftpfs/sftpfs.go"],
 [("prefix mapping","vroot/pathprefix.go"),("lexical check","vroot/osfs/fs.go")])
p("V01","Read-only wrappers never let a mutation through",
 "Through a read-only view of any filesystem, including sub-roots and file handles opened from it, no call of any kind ever changes the underlying filesystem: every mutating call and every open with a writing, creating or truncating flag fails with a permission or read-only error. Every reading call returns exactly what the wrapped filesystem returns.",
 ["inputs","histories"],"all operations, all open flag combinations, all handles and sub-roots reachable from the view",
 "Tests call each method once with typical arguments; flag combinations and derived objects are not enumerated.",
 ["vroot/readonly.go"],[("read-only wrapper","vroot/readonly.go")])
p("V02","WalkDir visits every path exactly once and terminates",
 "Walking any tree visits the root and every reachable entry exactly once, parents before children and in lexical order, honouring SkipDir and SkipAll; with symlink following it descends into linked directories, reports the real path, never descends into a directory already on the current path, and always terminates. An error on one entry is handed to the callback and, when the callback returns nil, every other entry is still visited.",
 ["inputs","fault_sequences"],"all trees and symlink graphs, all callback decisions, any entry failing",
 "Tests walk a few trees with one loop.",
 ["vroot/walk.go"],[("walk","vroot/walk.go")])
p("V03","io/fs adapters expose and accept filesystems without distortion",
 "A filesystem adapted to io/fs, and an io/fs filesystem adapted back, show exactly the same tree: same paths valid, same entries, kinds, sizes, link targets, bytes and errors as the adapted filesystem, and invalid io/fs names are rejected with fs.ErrInvalid. Adapted files support exactly the operations of the underlying file, and mutations through an adapter that offers none fail without effect.",
 ["inputs"],"all trees, all path strings, all read offsets",
 "fstest.TestFS style tests cover a single tree.",
 ["vroot/iofs_to.go","vroot/iofs_from.go","vroot/widen.go"],[("to io/fs","vroot/iofs_to.go"),("from io/fs","vroot/iofs_from.go")])
p("V04","File locks exclude as documented and are released",
 "Two holders of a lock on the same file through different handles never coexist unless both are shared; a released or closed holder never blocks others, and a conversion between shared and exclusive leaves exactly the requested level. An unlocked handle never owns a lock.",
 ["schedules","histories"],"all interleavings of lock, convert, unlock and close by several handles",
 "Tests try one pair of handles.",
 ["vroot/osfs/lock_unix.go","vroot/lock.go"],[("flock based lock","vroot/osfs")])
p("F01","A safe write replaces its target atomically or leaves it untouched",
 "A safe write makes the target show either its complete old content or its complete new content at every instant, whatever call fails and wherever the process stops; the new content is visible exactly when the write reports success (or was past its commit point). After a failed safe write no temporary file or directory of it is left, the old target is intact, and the error of the failing step is reported.",
 ["crash_points","fault_sequences","inputs"],"every fault or stop at every filesystem call of a safe write, in every mode (file, directory, hooks)",
 "Tests fail a few named calls; every call index in every mode is not enumerated.",
 ["fsutil/safe_write.go","fsutil/open_random.go"],[("temp, write, hooks, sync, rename","fsutil/safe_write.go")])
p("F02","A resumable pull yields exactly the source's content, whatever interrupts it",
 "However often a resumable pull is interrupted, fails or restarts, in any state of its partial file, when a pull finally reports success the destination holds exactly the bytes of one version of the source; a change of the source between attempts never yields mixed bytes, and the destination never appears before it is complete. An interruption keeps the received prefix so the next attempt only fetches the rest, unless it cannot be trusted.",
 ["fault_sequences","crash_points","histories"],"all sequences of interrupted attempts, partial-file states, source versions and error points",
 "Tests script a few interruptions with an unchanged source.",
 ["fsutil/resumable.go","fsutil/resumable_fs.go"],[("pull","fsutil/resumable.go"),("partial file and etag sidecar","fsutil/resumable_fs.go")])
p("F03","A resumable push delivers exactly the local content, whatever interrupts it",
 "However often a resumable push is interrupted, fails or restarts, when it reports success the sink holds exactly the local file's bytes, with no part duplicated, skipped or from an older version; each append continues at the length the sink reports. The sink's final object never appears before it is complete.",
 ["fault_sequences","crash_points","histories"],"all sequences of interrupted attempts, sink states and chunk sizes",
 "Tests script a few interruptions.",
 ["fsutil/resumable.go","fsutil/resumable_fs.go","stream/fileserver/chunk.go"],[("push","fsutil/resumable.go"),("filesystem sink","fsutil/resumable_fs.go")])
p("F04","Symlink resolution gives the path the filesystem itself would reach",
 "Resolving a path on any filesystem returns the symlink-free name of the very entry an open of that path would reach on it, following every link component relative to its own directory; it fails exactly when that access would (missing entry, too many links, escape), and never loops. A variant told not to follow the last component leaves that one unresolved.",
 ["inputs"],"all symlink graphs and path strings",
 "Tests use a few link chains.",
 ["fsutil/resolve_symlink.go"],[("ResolvePath / ResolveSymlink","fsutil/resolve_symlink.go")])
p("F05","Temporary names are exclusive and cleanup removes only its own",
 "Creating a temporary file or directory never opens, truncates or replaces something that already exists, whatever names collide; concurrent creators never get the same name. Temp-name matching and cleanup recognise every name the policy can generate and nothing else, so cleaning never removes a file the policy did not create.",
 ["inputs","schedules","histories"],"all patterns, existing entries and random sequences, including concurrent creators",
 "Collisions and near-miss names practically never occur in sampled tests.",
 ["fsutil/open_random.go","fsutil/safe_write.go"],[("OpenFileRandom / MkdirRandom","fsutil/open_random.go"),("TempFilePolicy","fsutil/safe_write.go")])
p("F06","Copying a tree reproduces it exactly or fails without hiding it",
 "Copying a filesystem tree, or selected paths of it, into another filesystem reproduces every selected directory, regular file and symlink with the same bytes, permission bits and link targets, overwriting what it should and touching nothing else in the destination. Any failing read or write is reported as an error; success is never reported for an incomplete copy.",
 ["inputs","fault_sequences"],"all source trees, destination trees and selections, with any call failing",
 "Tests copy a couple of trees without faults.",
 ["fsutil/copy_fs.go"],[("CopyFS","fsutil/copy_fs.go")])
p("T01","A joined reader is byte-for-byte the concatenation of its parts",
 "Reading, seeking and reading-at over several joined parts gives exactly the bytes of their concatenation, for every split, offset, buffer size and mix of calls, with io.EOF exactly at the total length. A part that ends before its declared size is reported as an unexpected end, never as silently missing or shifted data.",
 ["inputs","histories"],"all part sizes (including empty and short parts), read behaviours and call sequences",
 "Tests sample one data set.",
 ["stream/multi_read_at_closer.go"],[("multi reader","stream/multi_read_at_closer.go")])
p("T02","Random access over a sequential source returns the right bytes",
 "Reading at any offsets through a sequentially reopened source returns exactly the bytes at those offsets, for every order of reads, buffer size and source read behaviour; a failing or short source is reported as an error and a later read recovers with the right bytes. At most one source stream is open at a time and none is left open after Close.",
 ["histories","fault_sequences"],"all read offset sequences, source chunkings and error points",
 "Tests sample few sequences.",
 ["stream/seq_reader_at.go"],[("reopening reader","stream/seq_reader_at.go")])
p("T03","Range reads over HTTP never mix versions of a changed object",
 "All bytes returned by one HTTP range reader come from one version of the object at the requested offsets: if the object changes, in content, validator, size or origin, between any two requests or the server ignores or misplaces the range, the read fails with a change or range error instead of returning the other version's bytes. On an unchanged object every read returns the exact bytes, with io.EOF exactly at the object's end.",
 ["histories","fault_sequences","schedules"],"all interleavings of reads with object replacement and server misbehaviour",
 "Tests replace the object once at a fixed moment.",
 ["stream/httprange/reader_at.go","stream/httprange/httprange.go","stream/httprange/probe.go"],[("pin or verify","stream/httprange/httprange.go")])
p("T04","A streaming range view is equivalent to independent range reads",
 "A bounded streaming view over an HTTP object returns for every read sequence exactly what independent range reads would return, and when reads proceed in order it is served by a single request. Errors or interruptions of the stream never yield wrong, missing or repeated bytes, and Close releases the connection.",
 ["histories","fault_sequences"],"all read sequences (in order, out of order, concurrent) and stream break points",
 "Tests cover sequential reads and one break.",
 ["stream/httprange/stream.go"],[("stream lane","stream/httprange/stream.go")])
p("T05","Chunked upload and download preserve content across chunk boundaries",
 "Storing a file as chunks and reading it back gives exactly the original bytes from every offset, for every file size and chunk size; an interrupted upload resumes at a chunk boundary consistent with what is stored, and a chunk is never stored shorter than declared with success reported. Missing, truncated or misplaced chunks are reported as errors when read.",
 ["inputs","fault_sequences"],"all file sizes, chunk sizes, offsets and interruption points",
 "Tests use one size and chunk size.",
 ["stream/fileserver/chunk.go","stream/fileserver/client.go"],[("chunked source","stream/fileserver/chunk.go"),("chunked sink","stream/fileserver/chunk.go")])
p("T06","A cancellable stream stops at cancellation and stays stopped",
 "A reader bound to a context returns the source's bytes unchanged until cancellation, and from the first read started after cancellation on returns the cancellation error and no data, forever; an error once reported stays reported.",
 ["schedules","histories"],"all interleavings of reads, source errors and cancellation",
 "Tests cancel once between two reads.",
 ["stream/cancellable.go"],[("cancellable reader","stream/cancellable.go")])
p("R01","An archive filesystem shows exactly the tree the archive extracts to",
 "For any tar archive, the archive filesystem shows exactly the tree that extracting it entry by entry would produce: a later entry for a name wins, missing parent directories are implied, hard links share their target's content, symlinks resolve relative to their directory and within the root. Every valid archive and every path gives an answer or an error, never a panic.",
 ["inputs"],"all entry sequences (kinds, name forms, duplicates, links to links, implied parents) and all looked-up paths",
 "Tests use a few archives produced by one writer.",
 ["tarfs/headers.go","tarfs/entdir.go","tarfs/fs.go"],[("header collection","tarfs/headers.go"),("directory entries","tarfs/entdir.go")])
p("R02","Archive file content is byte-exact at every offset",
 "Every file opened from an archive filesystem reads exactly the bytes of its archive entry, through any mix of reads, seeks and positioned reads and any number of concurrently open files, including sparse files whose holes read as zeros; sizes reported equal bytes readable, and reads end with io.EOF exactly at the size.",
 ["inputs","histories"],"all archive layouts (offsets, sparse maps, formats) and read sequences over several open files",
 "Tests read whole files sequentially.",
 ["tarfs/entfile.go","tarfs/copied_go_std.go","tarfs/headers.go"],[("section and sparse readers","tarfs/entfile.go")])
for x in P:
    n=x["statement"].count(". ")+1
    assert len(x["title"])<=80,(x["id"],len(x["title"]))
    if n>3: print(x["id"],n)
    for f in x["anchors"]["files"]:
        import os
        if not os.path.exists("/repo/"+f): print(x["id"],"missing",f)
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
print(len(P))
