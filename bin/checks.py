"""One function per property."""
import json

CHECKS = {}
NOTES = {}
NA = {}


def check(technique, note):
    """Registers the function named like its property."""
    def deco(f):
        CHECKS[f.__name__] = f
        NOTES[f.__name__] = (technique, note)
        return f
    return deco


# ---------------------------------------------------------------- trees ----
ALLKINDS = ["mkdir", "mkdirall", "write", "excl", "append", "appendc", "poke", "trunc", "read", "stat", "lstat",
            "readlink", "remove", "removeall", "rename", "link", "symlink", "chmod"]
SPELL = ["", "dot", "dslash", "dotmid", "esc", "abs", "escmid"]


def tree_consts(**kw):
    d = dict(NameSet=["a", "b"], MaxLen=2, Kinds=ALLKINDS, Bases=[""], Spell=[""], Face="rw", Depth=2,
             DirOver="ok", DirSelf="ok")
    d.update(kw)
    return d


BUILD = ["mkdir", "write", "symlink", "link", "rename", "removeall", "chmod"]
MORE = ["create", "chtimes", "chown", "lchown", "openroot"]


def tree_table(c, depth, **kw):
    kw.setdefault("Build", BUILD)
    return c.bfs("MCTree", tree_consts(Depth=depth, **kw), ["TypeOk", "Honest", "Emit"], view="View")


def tree_sim(c, num, depth, **kw):
    k = dict(MaxLen=3, Bases=["", "a"], Spell=SPELL)
    k.update(kw)
    return c.sim("SimTree", tree_consts(Depth=depth, **k), num, depth * 3 + 5, ["TypeOk", "Emit"])


@check("TLA+ tree spec (FsTree), TLC exhaustive outcome tables and seeded histories replayed on memfs and synthfs",
       "Bounded: every operation in every state within 2 (thorough 3) steps over names a,b, plus random histories of 40-60 "
       "steps with views, link chains and odd spellings; the whole real tree is compared with the specified one after every "
       "step. Corners the spec marks 'skip' (e.g. link on a symlink source) are not judged.")
def S01(c):
    c.build("tree")
    files = [tree_table(c, 2)]
    if not c.quick:
        files.append(tree_table(c, 3, Kinds=["mkdir", "write", "remove", "removeall", "rename", "link", "symlink", "read"]))
    files += tree_sim(c, c.pick(6000, 60000), 40)
    files += tree_sim(c, c.pick(1500, 15000), 60, NameSet=["a", "b", "c"],
                      Kinds=["mkdir", "write", "rename", "symlink", "link", "remove", "removeall", "read", "append"])
    # directories moved about, with links pointing upwards inside them
    up = dict(Spell=[""], Bases=[""], Kinds=["mkdir", "rename", "uplink", "stat", "write"])
    files += tree_sim(c, c.pick(3000, 30000), 40, **up)
    files += tree_sim(c, c.pick(3000, 30000), 30, NameSet=["a", "b", "c"], **dict(up, Kinds=["mkdir", "mkdirall", "rename", "uplink", "stat"]))
    c.drive("tree", ["-subjects", "memfs,synthfs"] + files)


@check("TLA+ tree spec with escape semantics (FsTree), TLC tables and histories replayed on os-backed and in-memory roots among decoys",
       "Bounded as S01, over os.Root, sub-roots, normalizing and read-only roots. Every step also checks that nothing outside "
       "the root (decoys where an escape would land) changed. Runs as an unprivileged user in a scratch directory. "
       "Rooted archives (Archive.tla) are asked about paths and links which leave them. Concurrent directory swaps are left to os.Root itself.")
def C01(c):
    kinds = ALLKINDS + MORE
    # os.Root walks "a/../../x" physically: through a link it may stay inside
    os_ = dict(DirOver="fail", DirSelf="fail", Spell=[x for x in SPELL if x != "escmid"])
    os1 = dict(os_, Spell=[""])
    ro = ["read", "stat", "lstat", "readlink", "openroot", "write", "remove"]
    sim = dict(Kinds=kinds, Bases=["", "a"])
    esc = dict(Kinds=["mkdir", "write", "symlink", "symlink", "rename", "link", "read", "removeall", "openroot", "mkdirall",
                      "chmod", "append", "stat", "readlink", "lstat", "chtimes"], Spell=["", "esc", "abs", "escmid"])
    n = c.pick(1, 8)
    osf = [tree_table(c, 2, Kinds=kinds, Build=["mkdir", "symlink"], **os1)]
    osf += tree_sim(c, 400 * n, 40, **sim, **os_)
    osf += tree_sim(c, 400 * n, 40, **dict(esc, **dict(os_, Spell=["", "esc", "abs"])))
    mem = [tree_table(c, 2, Kinds=kinds, Build=["mkdir", "symlink"])]
    mem += tree_sim(c, 1500 * n, 40, **sim) + tree_sim(c, 1500 * n, 40, **esc)
    c.drive("tree", ["-subjects", "osroot,ossub,osnorm,oslocal"] + osf, nobody=True)
    c.drive("tree", ["-subjects", "memsub,memnorm"] + mem)
    rof = [tree_table(c, 2, Kinds=ro, Build=["mkdir", "symlink", "write"], Face="ro", **os1)]
    c.drive("tree", ["-subjects", "roos,romem"] + rof, nobody=True)
    archives(c, c.pick(2500, 30000), aspect="escape")


@check("TLA+ tree spec seen through a base directory (FsTree StepJoin), TLC tables and histories replayed on prefix, unrooted, normalizing and sftp filesystems",
       "Bounded as S01. The whole outer tree is compared after changes. Resolution that leaves an unrooted tree is not specified. "
       "sftp runs against an in-process server over a pipe; it loses error detail and modes, so only success or failure is compared there.")
def C02(c):
    kinds = ALLKINDS + MORE[:-1]
    sp = SPELL + ["dd"]
    os_ = dict(DirOver="fail", DirSelf="skip", Kinds=kinds, Bases=["", "a"], MaxLen=2)
    n = c.pick(1, 8)
    pre = [tree_table(c, 2, Kinds=kinds, Bases=["a"], Face="prefix", Build=["mkdir", "symlink", "write"], MaxLen=1, Spell=["", "esc", "dd"])]
    pre += tree_sim(c, 1500 * n, 40, Kinds=kinds, Bases=["", "a"], MaxLen=2, Spell=sp, Face="prefix")
    c.drive("tree", ["-subjects", "mempre,memsubfs,memnormfs,memlocalfs"] + pre)
    pl = tree_sim(c, 600 * n, 40, Face="plain", Spell=sp, **os_)
    c.drive("tree", ["-subjects", "osfs,ospre"] + pl, nobody=True)
    # sftp cannot hold a link to a missing thing apart from a missing thing
    kinds = [k for k in kinds if k not in ("append", "appendc", "lchown", "mkdirall")]
    pl = tree_sim(c, 200 * n, 40, Face="plain", Spell=sp, **dict(os_, Kinds=kinds))
    c.drive("tree", ["-subjects", "sftp"] + pl, nobody=True)


READS = ["read", "stat", "lstat", "readlink", "page", "readat", "hstat"]
ROMUT = ["mkdir", "mkdirall", "write", "create", "excl", "append", "appendc", "poke", "trunc", "remove", "removeall",
         "rename", "link", "symlink", "chmod", "chtimes", "chown", "lchown", "hmut", "openw"]
ROBUILD = ["mkdir", "write", "symlink", "link"]


@check("TLA+ tree spec seen through a read-only face (FsTree StepRO), TLC tables replayed on every read-only wrapper",
       "Every mutating method (and every open flag combination with a writing bit, and every mutating handle method) on every "
       "path in every tree built in 2 (thorough 3) steps over names a,b, plus all reading calls, through root, fs, sub-root, "
       "stacked and io/fs-derived read-only views; the wrapped tree is compared afterwards. Mutations through a raw file "
       "descriptor (Fd) are out of reach of the wrapper and not tried.")
def V01(c):
    t = [tree_table(c, 2, Kinds=ROMUT, Face="ro", Build=ROBUILD, MaxLen=1, Bases=["", "a"], Spell=["", "esc"]),
         tree_table(c, 2, Kinds=READS, Face="ro", Build=ROBUILD, MaxLen=2, Bases=["", "a"])]
    if not c.quick:
        t.append(tree_table(c, 2, Kinds=ROMUT, Face="ro", Build=ROBUILD, MaxLen=2, Bases=[""]))
        t.append(tree_table(c, 3, Kinds=READS + ["hmut", "openw"], Face="ro", Build=["mkdir", "write", "symlink"], MaxLen=2))
    c.drive("tree", ["-subjects", "romem"] + t)
    c.drive("tree", ["-subjects", "roos"] + t, nobody=True)
    t = [tree_table(c, 2, Kinds=ROMUT, Face="ro", Build=ROBUILD, MaxLen=1),
         tree_table(c, 2, Kinds=READS, Face="ro", Build=ROBUILD, MaxLen=2)]
    c.drive("tree", ["-subjects", "rofsmem,fromiomem"] + t)
    c.drive("tree", ["-subjects", "rofsos,fromioos"] + t, nobody=True)


@check("TLA+ tree spec seen through an io/fs face (FsTree StepIO), TLC tables replayed on io/fs adapters and their round trip",
       "Every reading call with every spelling of every path in every tree built in 2 (thorough 3) steps over names a,b, on "
       "os-backed and in-memory filesystems adapted to io/fs, adapted back, and adapted again; sub file systems included. "
       "A filesystem whose files lack ReadAt is represented by a stripped file.")
def V03(c):
    io = READS + ["caps"]
    bad = [x for x in SPELL if x] + ["dd"]
    d = c.pick(2, 3)
    b = ["mkdir", "write", "symlink"]
    t = [tree_table(c, d, Kinds=io + ["openroot"], Face="io", Build=b, MaxLen=2, Bases=["", "a"]),
         tree_table(c, 2, Kinds=io + ["openroot"], Face="io", Build=b, MaxLen=1, Bases=["", "a"], Spell=bad)]
    c.drive("tree", ["-subjects", "iomem"] + t)
    c.drive("tree", ["-subjects", "ioos"] + t, nobody=True)
    t = [tree_table(c, 2, Kinds=io, Face="io", Build=b, MaxLen=2),
         tree_table(c, 2, Kinds=io, Face="io", Build=b, MaxLen=1, Spell=bad)]
    c.drive("tree", ["-subjects", "iofsmem,iorov"] + t)
    c.drive("tree", ["-subjects", "iofsos"] + t, nobody=True)
    t = [tree_table(c, 2, Kinds=READS + ["mkdir", "write", "remove", "symlink", "hmut", "openw"], Face="ro", Build=b, MaxLen=2,
                    Spell=["", "dot", "esc"])]
    c.drive("tree", ["-subjects", "fromiomem"] + t)
    c.drive("tree", ["-subjects", "fromioos"] + t, nobody=True)


@check("TLA+ paged listing spec (FsTree Page), TLC tables and histories replayed on every directory handle kind",
       "All page-size sequences of a fixed alphabet (positive, zero, negative, mixed) with ReadDir, Readdir and Readdirnames, on "
       "every directory of every tree built in 2-3 steps over names a,b,c, with entry infos compared to the specified entry; "
       "on memfs, synthfs, os-backed, unrooted, prefix, read-only, io/fs, sftp, overlay and archive (Archive.tla) directories. Listings concurrent with "
       "changes are covered by S03.")
def S05(c):
    k = dict(Kinds=["page", "hstat", "stat", "lstat"], MaxLen=1, NameSet=["a", "b", "c"])
    b = ["mkdir", "write", "symlink", "link"]
    t = [tree_table(c, c.pick(2, 3), Build=b, **k)]
    c.drive("tree", ["-subjects", "memfs,synthfs,memsub,memnorm,romem,mempre,fromiomem"] + t)
    c.drive("tree", ["-subjects", "osroot,roos,ossub,fromioos"] + t, nobody=True)
    t = [tree_table(c, 2, Build=b, Face="plain", **k)]
    c.drive("tree", ["-subjects", "osfs,ospre,sftp"] + t, nobody=True)
    t = [tree_table(c, 2, Build=b, Face="io", **k)]
    c.drive("tree", ["-subjects", "iomem,iofsmem,iorov"] + t)
    k = dict(Kinds=["page", "page", "hstat", "mkdir", "write", "append", "symlink", "remove", "rename", "link", "trunc", "stat"],
             NameSet=["a", "b", "c"], MaxLen=2)
    n = c.pick(1, 8)
    c.drive("tree", ["-subjects", "memfs+open,synthfs"] + tree_sim(c, 1500 * n, 40, **k))
    c.drive("tree", ["-subjects", "osroot"] + tree_sim(c, 200 * n, 40, **dict(k, DirOver="fail", DirSelf="fail", Spell=[""])), nobody=True)
    archives(c, c.pick(2000, 30000), aspect="pages", ops=["open", "pages"])


LINKY = ["mkdir", "write", "symlink", "rename", "hop"]


@check("TLA+ path resolution spec (FsTree Res), TLC tables and histories with fsutil.ResolvePath and ResolveSymlink on os-backed, in-memory and overlay trees",
       "Every name in every tree built in 2 (thorough 3) steps over names a,b, and random link-heavy histories with paths to depth 3. "
       "Names given are cleaned; resolutions over 8 links are only judged when they loop. A parent that is a file is not judged "
       "when the last component is to be left alone. Links changed while a resolution runs are not covered. ")
def F04(c):
    n = c.pick(1, 10)
    d = c.pick(2, 3)
    k = dict(Kinds=["resolve"], Build=["mkdir", "write", "symlink"])
    os_ = dict(DirOver="fail", DirSelf="fail")
    h = dict(Kinds=LINKY + ["resolve"], NameSet=["a", "b"], Spell=["", "dot", "dslash", "esc", "abs"])
    c.drive("tree", ["-subjects", "romem"] + [tree_table(c, 2, **k)])
    mem = [tree_table(c, d, **k)] + tree_sim(c, 3000 * n, 40, **h) + tree_sim(c, 1500 * n, 40, **dict(h, NameSet=["a", "b", "c"]))
    mem += tree_sim(c, 1500 * n, 40, Kinds=["mkdir", "hop", "resolve"], NameSet=["a", "b", "c"], Spell=[""])
    c.drive("tree", ["-subjects", "memfs,memsub"] + mem)
    osf = [tree_table(c, 2, **dict(k, **os_))] + tree_sim(c, 600 * n, 40, **dict(h, **os_))
    c.drive("tree", ["-subjects", "osroot"] + osf, nobody=True)


@check("TLA+ walk spec (FsTree Walk), TLC histories with vroot.WalkDir, its callback's answers and failing looks and listings, on several filesystems",
       "Random trees with links (also cyclic) over names a,b,c to depth 3, walks of at most 120 calls, one answer (SkipDir, SkipAll, error) "
       "and one failing path each. Roots reached through links are not judged. Bind mounts are not modelled. ")
def V02(c):
    n = c.pick(1, 10)
    h = dict(Kinds=LINKY + ["walk"], Spell=[""])
    mem = tree_sim(c, 2500 * n, 40, **h) + tree_sim(c, 2500 * n, 40, **dict(h, NameSet=["a", "b", "c"]))
    c.drive("tree", ["-subjects", "memfs,memsub"] + mem)
    os_ = dict(DirOver="fail", DirSelf="fail")
    c.drive("tree", ["-subjects", "osroot,ossub"] + tree_sim(c, 800 * n, 40, **dict(h, **os_)), nobody=True)


# -------------------------------------------------------------- overlay ----
OVLKINDS = ALLKINDS + MORE + ["page", "readat", "hstat", "hmut", "hchmod"]


def ovl_sim(c, num, depth=30, **kw):
    k = dict(Depth=depth, MaxLen=2, Bases=["", "a"], Spell=SPELL, Lowers=2, LayerSteps=5, Restack=True, Fault=False,
             LModes=["755", "700"], LFModes=["644", "600"], LData=["A", "BC"],
             Kinds=OVLKINDS)
    k.update(kw)
    return c.sim("SimOvl", tree_consts(**k), num, depth + k["Lowers"] * (k["LayerSteps"] + 1) + 80, ["TypeOk", "OwnBelow", "Emit"])


OVLNOTE = ("Bounded: seeded histories of 30 operations over 2-3 random lower layers (files, directories, links over names a,b,c), "
           "top in memory or on disk, with the in-process or the sqlite mask store, frozen tops restacked as lowers. "
           "Sockets, devices and ownership are not modelled; renaming a directory onto another on os-backed tops is not judged. ")


@check("TLA+ overlay spec (OvlTree: merged layers as one FsTree), TLC histories replayed on overlays over in-memory, os and sqlite-marked layers",
       OVLNOTE + "The whole merged tree is compared after every step.")
def O01(c):
    n = c.pick(1, 10)
    mem = ovl_sim(c, 5000 * n) + ovl_sim(c, 1500 * n, Lowers=3, LayerSteps=6, NameSet=["a", "b", "c"], MaxLen=3)
    mem += ovl_sim(c, 2500 * n, Kinds=["mkdir", "remove", "removeall", "rename", "rename", "write", "symlink", "link", "chmod", "mkdirall"],
                   Spell=[""], Bases=[""])
    c.drive("overlay", ["-for", "O01", "-kinds", "mem"] + mem)
    osf = ovl_sim(c, 600 * n, DirOver="skip")
    c.drive("overlay", ["-for", "O01", "-kinds", "os,bareos,ossql"] + osf, nobody=True)


@check("TLA+ overlay spec (OvlTree), TLC histories replayed with full snapshots of every lower before and after each step",
       OVLNOTE + "Every lower's entries, bytes, modes, link targets and modification times are compared after every operation, "
       "successful or not, including writes and mode changes through handles opened for reading.")
def O02(c):
    n = c.pick(1, 10)
    c.drive("overlay", ["-for", "O02", "-kinds", "mem"] + ovl_sim(c, 4000 * n))
    c.drive("overlay", ["-for", "O02", "-kinds", "os,bareos,memsql"] + ovl_sim(c, 800 * n, DirOver="skip"), nobody=True)


@check("TLA+ overlay spec (OvlTree, reopen = identity), TLC histories replayed on an overlay reopened after every single operation",
       OVLNOTE + "Every mask store is reopened from its storage after every operation. A disagreement the same history also shows "
       "without reopening is another property's.")
def O03(c):
    n = c.pick(1, 10)
    k = ["mkdir", "mkdirall", "write", "excl", "append", "remove", "removeall", "rename", "rename", "link", "symlink", "chmod", "hchmod", "read"]
    mem = ovl_sim(c, 2500 * n) + ovl_sim(c, 3000 * n, Kinds=k, Spell=[""], Bases=[""])
    c.drive("overlay", ["-for", "O03", "-always", "-kinds", "mem"] + mem)
    sql = ovl_sim(c, 500 * n, DirOver="skip", Kinds=k, Spell=[""], Bases=[""])
    c.drive("overlay", ["-for", "O03", "-always", "-kinds", "memsql,ossql"] + sql, nobody=True)


@check("TLA+ overlay spec with sub-roots and escapes (OvlTree), TLC histories replayed through the overlay and its sub-roots among decoys",
       OVLNOTE + "Operations alternate between the overlay and sub-roots kept open; names and links leave the root in every way, "
       "with decoys beside merged/, beside each layer's root and in the layers themselves.")
def O07(c):
    n = c.pick(1, 10)
    k = ["mkdir", "write", "symlink", "symlink", "rename", "link", "read", "removeall", "openroot", "mkdirall", "create", "excl",
         "chmod", "append", "stat", "readlink", "lstat", "chtimes", "remove", "page"]
    b = dict(Kinds=k, Bases=["", "a", "b"], Spell=["", "esc", "abs", "escmid"])
    mem = ovl_sim(c, 4000 * n, **b) + ovl_sim(c, 1500 * n, MaxLen=3, **b)
    c.drive("overlay", ["-for", "O07", "-kinds", "mem"] + mem)
    c.drive("overlay", ["-for", "O07", "-kinds", "os,bareos"] + ovl_sim(c, 700 * n, DirOver="skip", **b), nobody=True)


def interrupted(c, only, kinds, files, most=None):
    """Stop the last operation of every history everywhere; TLC judges the trees that are neither old nor new."""
    rec = c.path("records.ndjson")
    open(rec, "w").close()
    c.drive("ovlfault", ["-for", only, "-kinds", kinds, "-rec", rec, "-seed", str(c.seed)] + (["-most", str(most)] if most else []) + files)
    recs = [json.loads(l) for l in open(rec)]
    c.cov["between_trees_judged"] = c.cov.get("between_trees_judged", 0) + len(recs)
    if not recs:
        return
    out = c.bfs("OvlTrace", dict(tree_consts(MaxLen=2), Strict=only == "O05"), ["Judge"], env={"RECS": rec}, workers=1, sample=0)
    for l in open(out):
        if l.startswith('"@@bad '):
            v = recs[int(json.loads(l)[6:]) - 1]["v"]
            v["msg"] = "neither old nor new: " + v["msg"]
            c.violate(v, "ovlfault")


FAULTNOTE = ("Bounded: the last operation of seeded histories of 12 operations over 2 random lower layers and restacked tops, "
             "names a,b,c to depth 2. Every single call of that operation on a layer, a layer's file or the mask store is made to fail "
             "alone, and together with everything after it (the process stopped there; the overlay is then reopened over what is left). "
             "With the sqlite store the calls are those of its database file, torn writes included, a sample of them per history. "
             "Each layer call is atomic except RemoveAll, which is stopped between entries; writes reach the disk in order. ")


@check("TLA+ interruption spec (OvlTree InterruptOk), faults and crashes at every layer and store call, found trees judged by TLC",
       FAULTNOTE)
def O04(c):
    n = c.pick(1, 10)
    k = dict(Depth=12, Fault=True, Spell=[""])
    mut = ["mkdir", "mkdirall", "write", "excl", "create", "append", "remove", "removeall", "rename", "link", "symlink", "chmod", "trunc", "hchmod"]
    f = ovl_sim(c, 2000 * n, Kinds=mut, **k) + ovl_sim(c, 2000 * n, Kinds=["remove", "removeall", "rename", "rename", "mkdir", "write", "mkdirall"], **k)
    interrupted(c, "O04", "mem", f)
    interrupted(c, "O04", "memsql", ovl_sim(c, 100 * n, Kinds=mut, **k), most=25)


@check("TLA+ interruption spec (OvlTree InterruptOk, strict), faults and crashes at every call of copying up, found trees judged by TLC",
       FAULTNOTE + "A copy's failed chmod/chtimes is documented as dropped and not judged. Modification times are not compared.")
def O05(c):
    n = c.pick(1, 10)
    k = dict(Depth=8, Fault=True, Spell=[""], LModes=["755", "700", "775"], LFModes=["644", "600", "664", "666"], LData=["A", "BC", "DEFG"],
             Restack=True, LayerSteps=7)
    cp = ["append", "poke", "chmod", "chtimes", "link", "rename", "hchmod", "write", "trunc", "lchown", "mkdirall", "symlink", "mkdir"]
    interrupted(c, "O05", "mem", ovl_sim(c, 3500 * n, Kinds=cp, **k))
    interrupted(c, "O05", "memsql", ovl_sim(c, 60 * n, Kinds=cp, **k), most=15)


@check("TLA+ safe write spec (SafeWrite.tla): its procedure model-checked with faults, crashes and a second writer; the real one run with the same at every call, every run judged by TLC",
       "Bounded: random scenarios (both policies, targets absent, file, link, empty and full directory, hooks, short and failing sources, in memory "
       "and on disk); every single call on the filesystem or its files fails, is late, short or the last one, or has a whole other safe write before it. "
       "Other writers between two calls run to their end. Renames are atomic and writes ordered, as the filesystem below gives them. ")
def F01(c):
    c.bfs("MCSafe", dict(Order="right"), ["Whole", "Accepted"], sample=0)
    n = c.pick(1, 10)
    for ks, num in ((["write", "copy"], 2400), (["copyfs"], 700)):
        c.judge("SafeTrace", "safewrite", c.sim("SimSafe", dict(Ks=ks), num * n, 3, ["Emit"]), nobody=True)


@check("TLA+ name spec (TempNames.tla): TLC-generated names, trees and crowded directories run on the real policies, every answer judged by TLC",
       "Bounded: names of up to 3 characters around the policies' pattern and near misses of it, trees of 8 entries, up to 10001 names taken just "
       "before they are tried, up to 8 creators at once on as many names. The random numbers themselves are not controlled. A name nested deeper in the "
       "directory for temporaries is not judged by Match. ")
def F05(c):
    c.judge("TempTrace", "tempnames", c.sim("SimTemp", dict(Depth=12), c.pick(4000, 60000), 15, ["Emit"]), nobody=True)


@check("TLA+ copy spec (CopyTree.tla): its procedure model-checked with any step failing; TLC-generated trees copied by the real code with every call failing once, every outcome judged by TLC",
       "Bounded: source and destination trees over 8 paths of up to 3 levels, in memory and on disk, sources and destinations with and without links, "
       "selections of up to 4 paths, three masks; every call on either side fails or is late or short in a third of the scenarios. Destinations hold no "
       "symbolic link where a file or directory is to go. Content is small or 144 KB. ")
def F06(c):
    c.bfs("MCCopy", dict(Wrong=""), ["Accepted", "Tree"], sample=0)
    c.judge("CopyTrace", "copytree", c.sim("SimCopy", {}, c.pick(4500, 60000), 3, ["Emit"]), nobody=True)


@check("TLA+ byte spec (FileBytes.tla): TLC-generated histories of calls on handles and names run on the real files, every answer judged by TLC",
       "Bounded: up to 3 handles on files under 3 names, 24 calls, writes of up to 40 bytes, offsets up to a few hundred. One call at a time. The operating "
       "system's files run beside the in-memory ones to check the specification. What a second Close says is not judged. ")
def S02(c):
    subs = ["mem", "memsub", "os", "bytes", "fs", "range", "range2"]
    c.judge("BytesTrace", "bytes", c.sim("SimBytes", dict(Subs=["mem", "memsub"], Depth=24), c.pick(9000, 120000), 27, ["Emit", "Sane"]), nobody=True)
    c.judge("BytesTrace", "bytes", c.sim("SimBytes", dict(Subs=subs, Depth=24), c.pick(7000, 90000), 27, ["Emit", "Sane"]), nobody=True)


@check("TLA+ graft spec (Graft.tla over FsTree.tla): TLC-generated histories of adding files and trees run on the real synthfs, every answer, callback and resulting tree judged by TLC",
       "Bounded: trees of at most 3 names per directory, sources of depth 3, 10 steps. One call at a time. Ranged views reaching beyond their file are not exercised. ")
def S04(c):
    c.judge("GraftTrace", "graft", c.sim("SimGraft", dict(Depth=10, DirOver="ok", DirSelf="ok"), c.pick(26000, 300000), 13, ["Emit", "TypeOk"]), consts=dict(DirOver="ok", DirSelf="ok"), nobody=True)


@check("TLA+ lock spec (FileLock.tla): model-checked against locks granted in any order; TLC-generated scripts of lock calls run on real handles, every run's order of calls, returns and standstills judged by TLC",
       "Bounded: three handles on a file with two names and on another file, 14 calls. Calls that wait do so in goroutines of one process; lock holders in other "
       "processes, network filesystems and platforms other than this one are not exercised. ")
def V04(c):
    c.bfs("MCLock", dict(Wrong="", Steps=c.pick(5, 7)), ["Exclusion", "Moves", "Holds"], sample=0)
    c.judge("LockTrace", "locks", c.sim("SimLock", dict(Subs=["fs", "wide", "root"], Depth=14), c.pick(6000, 60000), 17, ["Emit"]), nobody=True)


ARCNOTE = ("Bounded: archives of up to 9 entries over 3 names and 3 levels, every kind of entry in the three formats archive/tar writes, names and link targets spelled in odd "
           "ways, duplicates, 8 questions each. ")


ARCOPS = ["open", "stat", "lstat", "readlink", "tree", "pages"]


def archives(c, num, aspect="", ents=8, asks=8, ops=ARCOPS):
    c.judge("ArchiveTrace", "archive", c.sim("SimArchive", dict(Ents=ents, Asks=asks, Ops=ops), num, ents + asks + 2, ["Emit", "Wellformed", "LastWins", "Inside"]),
            consts=dict(Aspect=aspect), nobody=True)


@check("TLA+ archive spec (Archive.tla): TLC-generated archives written out and opened by tarfs, its tree and its answers about paths judged by TLC",
       ARCNOTE + "Links, devices and owners are compared as the archive gives them. ")
def R01(c):
    archives(c, c.pick(6000, 70000))
    archives(c, c.pick(3000, 40000), ents=4)


@check("TLA+ byte spec (ArcBytes.tla over FileBytes.tla): TLC-generated archives of plain and sparse files and histories of calls on several handles, every answer judged by TLC",
       "Bounded: files of up to about 1300 bytes with up to 50 fragments in four sparse formats, 7 entries, 3 handles, 20 calls. Offsets beyond 2 GiB are not exercised. ")
def R02(c):
    c.judge("ArcBytesTrace", "archive", c.sim("SimArcBytes", dict(Ents=7, Depth=20), c.pick(5000, 60000), 30, ["Emit", "Sane"]), nobody=True)


LINNOTE = ("Bounded: two or three goroutines of two or three calls each on names a, b, c and one level below; up to 60 schedules with one or two switches and 40 random ones per "
           "script, switches happening at locks and atomics; without a schedule, under the race detector, whatever happens. ")


def lin(c, subs, layers, num, free):
    k = dict(Subs=subs, Layers=layers)
    t = dict(DirOver="ok", DirSelf="ok")
    c.judge("LinTrace", "lin", c.sim("SimLin", k, num, 40, ["Emit"]), consts=t, nobody=True, shards=8)
    c.judge("LinTrace", "lin", c.sim("SimLin", k, free, 40, ["Emit"]), consts=t, nobody=True, shards=8, race=True, args=["-free", "12"])


@check("TLA+ call spec (Lin.tla over FsTree.tla): TLC-generated scripts for several goroutines run on the real filesystems under a scheduler that decides every switch, every history judged by TLC for an order of the calls that explains it", LINNOTE)
def S03(c):
    lin(c, ["mem", "synth"], 0, c.pick(1600, 30000), c.pick(200, 4000))


@check("TLA+ call spec (Lin.tla over FsTree.tla): TLC-generated scripts for several goroutines run on the real overlay under a scheduler that decides every switch, every history judged by TLC for an order of the calls that explains it", LINNOTE +
       "Two lower layers, in memory. A handle open for reading only may show the bytes of before a copy to the top; a directory handle lists what is at its name. ")
def O06(c):
    lin(c, ["ovl"], 2, c.pick(1600, 30000), c.pick(200, 4000))


RESUMENOTE = ("Bounded: three versions of at most 12 bytes, four attempts one after another, one misbehaving call of the filesystem per attempt, in memory and on "
              "disk. Two attempts never run at once. Without identity tags from the source, nothing tells an old prefix from a new one: the size-based "
              "resume the library documents is then accepted. Sources that refuse an offset beyond their end are not exercised. ")


@check("TLA+ transfer spec (Resume.tla): its procedure model-checked with stops at every step; TLC-generated histories of interrupted pulls run on the real code, every attempt judged by TLC", RESUMENOTE)
def F02(c):
    c.bfs("MCResume", dict(Wrong="", Hide=[False, True]), ["Accepted", "OneVersion", "TagTrue", "CanFinish"], sample=0)
    c.judge("ResumeTrace", "resume", c.sim("SimResume", dict(Kind="pull", Depth=4), c.pick(20000, 300000), 7, ["Emit"]), nobody=True)


@check("TLA+ transfer spec (Resume.tla): its procedure model-checked with stops at every step; TLC-generated histories of interrupted pushes and direct sink calls run on the real code, every attempt judged by TLC", RESUMENOTE)
def F03(c):
    c.bfs("MCResume", dict(Wrong="", Hide=[False, True]), ["Accepted", "OneVersion", "TagTrue", "CanFinish"], sample=0)
    c.judge("ResumeTrace", "resume", c.sim("SimResume", dict(Kind="push", Depth=4), c.pick(15000, 250000), 7, ["Emit"]), nobody=True)
    c.judge("ResumeTrace", "resume", c.sim("SimResume", dict(Kind="sink", Depth=6), c.pick(5000, 60000), 9, ["Emit"]), nobody=True)


READERNOTE = "Bounded: %s. Data are single bytes identified by their offset; sources are in-process fakes. Readers are not used concurrently. "


@check("TLA+ reader spec (Readers.tla): TLC-generated call histories run on the real joined readers, every answer judged by TLC",
       READERNOTE % "up to 6 (sometimes 36) parts of 0 to 8 bytes, honest, short, failing or too long, 14 calls")
def T01(c):
    n = c.pick(24000, 400000)
    c.judge("ReadersTrace", "readers", c.sim("SimReaders", dict(Which="T01", Depth=14, MaxParts=6), n, 17, ["Emit"]))


@check("TLA+ reader spec (Readers.tla): TLC-generated call histories run on the real reopening reader, every answer judged by TLC",
       READERNOTE % "sources up to 16 bytes declared up to 12, any of the first four opens, reads or closes failing, 10 calls")
def T02(c):
    n = c.pick(30000, 500000)
    c.judge("ReadersTrace", "readers", c.sim("SimReaders", dict(Which="T02", Depth=10, MaxParts=1), n, 13, ["Emit"]))


@check("TLA+ reader spec (Readers.tla): TLC-generated call histories run on the real cancellable reader, every answer judged by TLC",
       READERNOTE % "sources up to 10 bytes, cancelled between or during reads by each kind of context, 10 calls")
def T06(c):
    n = c.pick(24000, 400000)
    c.judge("ReadersTrace", "readers", c.sim("SimReaders", dict(Which="T06", Depth=10, MaxParts=1), n, 13, ["Emit"]))


HTTPNOTE = ("Bounded: one object of at most 12 bytes in three versions (validators, sizes and origins varied), 10 requests' worth of server "
            "behaviour, 8 calls. The server is an in-process Doer, not net/http's transport. A change that alters no size, validator or origin "
            "stated by both answers cannot be told by any client and is not judged. ")


def http(c, kind, n, **k):
    for faults in (0, 3):
        for batches in (False, True):
            c.judge("HttpTrace", "ranges", c.sim("SimHttp", dict(Depth=8, ViewKind=kind, Batches=batches, Faults=faults), n, 11, ["Emit"]))


@check("TLA+ HTTP range spec (HttpRange.tla): TLC-generated reads against a changing, misbehaving server, every answer judged by TLC", HTTPNOTE)
def T03(c):
    http(c, "plain", c.pick(8000, 120000))


@check("TLA+ HTTP range spec (HttpRange.tla): TLC-generated reads of streaming views, every answer and request judged by TLC", HTTPNOTE)
def T04(c):
    http(c, "range", c.pick(8000, 120000))


@check("TLA+ chunk spec (Chunks.tla): TLC-generated uploads, damage and downloads over a faulty server, every answer and stored chunk judged by TLC",
       "Bounded: objects to 9 bytes in chunks of 1 to 4, 10 operations, one wrong request each. The server is an in-process Doer; a stored "
       "object only changes by a whole put. A chunk of the right size but other bytes cannot be told and is not generated. ")
def T05(c):
    n = c.pick(16000, 300000)
    for damage in (False, True):
        c.judge("ChunksTrace", "chunks", c.sim("SimChunks", dict(Depth=10, Damage=damage), n, 13, ["Emit"]))


@check("TLA+ mask store spec (MaskStore), laws checked exhaustively by TLC, seeded histories replayed on the sqlite store and, with odd names, on overlays",
       "Bounded: histories of 30 calls over names to depth 3, each under one of ten renamings of a,b,c (prefixes of each other, SQL and glob "
       "wildcards, quotes, case, invalid UTF-8, separators' neighbours) and six spellings per name; reopened now and then or after every call. "
       "Names with NUL bytes are not tried. Overlay histories with such names are compared with the same history under plain names.")
def O08(c):
    n = c.pick(1, 10)
    c.bfs("MaskStore", dict(NameSet=["a", "b"], MaxLen=2, Depth=9), properties=["Law"], view="View", spec="SpecAll", sample=0)
    k = dict(NameSet=["a", "b", "c"], MaxLen=3, Depth=30)
    h = c.sim("MaskStore", k, 1600 * n, 32, ["Emit"])
    c.drive("marks", ["-kind", "mem"] + h)
    h = c.sim("MaskStore", dict(k, MaxLen=2, Depth=12), 400 * n, 14, ["Emit"])
    c.drive("marks", ["-kind", "os", "-every"] + h)
    o = dict(DirOver="skip", Spell=[""], Bases=[""], Kinds=["mkdir", "mkdirall", "write", "excl", "remove", "removeall", "rename", "rename", "link", "symlink"])
    for names in (["d", "d-", "d0"], ["d", "d.x", "D"], ["%", "_", "_%"]):
        c.drive("overlay", ["-for", "O08", "-always", "-kinds", "memsql,mem"] + ovl_sim(c, 240 * n, NameSet=names, **o))
