package main

import (
	"archive/tar"
	"fmt"
	"os"
	"strings"
	"time"
)

// sameAfterRebuild compares what the running instance shows with what a reopened and a rebuilt one show.
func sameAfterRebuild(in *Inst) (View, string) {
	live := walk(in, "/", true)
	t := in.medium()
	if in.DB != ":memory:" {
		db, err := os.ReadFile(in.DB)
		if err != nil {
			return live, err.Error()
		}
		re, err := onCopy(in, db, Opt{})
		if err != nil {
			return live, "opening the index again: " + err.Error()
		}
		defer re.Destroy()
		if _, err := re.FS.Initialize("/", os.ModePerm); err != nil {
			return live, "initializing with the existing index: " + err.Error()
		}
		if d := diffViews(live, walk(re, "/", true), "running instance", "reopened"); d != "" {
			return live, d
		}
		if re.medium() != t {
			return live, "opening the filesystem again appended to the tape"
		}
	}
	return live, sameAsRebuilt(in, t, live)
}

func sameAsRebuilt(in *Inst, t string, live View) string {
	rb, err := onCopy(in, nil, Opt{})
	if err != nil {
		return "rebuilding from the tape alone: " + err.Error()
	}
	defer rb.Destroy()
	if _, err := rb.FS.Initialize("/", os.ModePerm); err != nil {
		return "rebuilding from the tape alone: " + err.Error()
	}
	if d := diffViews(live, walk(rb, "/", true), "running instance", "rebuilt from the tape"); d != "" {
		return d
	}
	if rb.medium() != t {
		return "rebuilding appended to the tape"
	}
	return ""
}

// rebuildOracle follows a live instance and rebuilds at every checked step.
type rebuildOracle struct{ last string }

func (o *rebuildOracle) State() string { return o.last }

func (o *rebuildOracle) Step(in *Inst, op Op, out Out, check bool) string {
	if !check {
		return ""
	}
	v, d := sameAfterRebuild(in)
	if d != "" {
		return "after " + op.Name + " (" + out.Class + "): " + d
	}
	o.last = v.stable()
	return ""
}

// stable is the view without times taken from the clock.
func (v View) stable() string {
	s := ""
	for _, p := range v.keys() {
		e := v[p]
		for _, t := range []*int64{&e.Mtime, &e.Atime, &e.Ctime} {
			if *t != tA.UnixNano() && *t != tM.UnixNano() && *t != tArch.UnixNano() {
				*t = 0
			}
		}
		s += fmt.Sprintf("%q %v\n", p, e)
	}
	return s
}

// archOps are calls of the archive interface on the same small universe.
func archOps() []Op {
	return []Op{
		opArchive(Member{Path: "/a", Dir: true}, Member{Path: "/a/c", Data: big}, Member{Path: "/b", Data: []byte("bb")}),
		opArchive(Member{Path: "/b", Data: nil}),
		opArchive(Member{Path: "/a", Data: []byte("file now")}, Member{Path: "/b", Dir: true}),
		opUpdate(true, Member{Path: "/b", Data: pat(700, 4), Perm: 0o600}),
		opUpdate(false, Member{Path: "/b", Data: []byte("bb"), Perm: 0o400, Time: tM}),
		opUpdate(true, Member{Path: "/a/c", Data: []byte("n")}, Member{Path: "/a", Dir: true, Perm: 0o500}),
		opDelete("/a"),
		opDelete("/b"),
		opMove("/a", "/d"),
		opMove("/b", "/a/c"),
	}
}

// oddMembers carry metadata from the edges of what a header can hold, and kinds the filesystem itself does not make.
func oddMembers() []Member {
	odd := func(h tar.Header) *tar.Header {
		if h.ModTime.IsZero() {
			h.ModTime = tArch
		}
		if h.Typeflag == 0 {
			h.Typeflag = tar.TypeReg
		}
		return &h
	}
	far := time.FixedZone("", 5*3600+45*60)
	return []Member{
		{Path: "/b", Data: []byte("bb"), Hdr: odd(tar.Header{Mode: 0o6755, Uid: 1 << 21, Gid: 1<<31 - 1, Uname: "\u00fcser name", Gname: strings.Repeat("g", 40)})},
		{Path: "/b", Data: big, Hdr: odd(tar.Header{Mode: 0o1000, ModTime: tM.In(far), AccessTime: tA.In(far), ChangeTime: tA.In(time.FixedZone("X", -3601))})},
		{Path: "/b", Hdr: odd(tar.Header{ModTime: time.Unix(-5, 999999999), AccessTime: time.Unix(1<<33, 1)})},
		{Path: "/b", Data: []byte("xattr"), Hdr: odd(tar.Header{Mode: 0o644, PAXRecords: map[string]string{"SCHILY.xattr.user.k": "v\n=%", "comment": "c"}})},
		{Path: "/a", Hdr: odd(tar.Header{Typeflag: tar.TypeDir, Mode: 0o3777, Uid: 1<<32 - 2, ModTime: tA.In(far)})},
		{Path: "/a/fifo", Hdr: odd(tar.Header{Typeflag: tar.TypeFifo, Mode: 0o622})},
		{Path: "/dev", Hdr: odd(tar.Header{Typeflag: tar.TypeChar, Mode: 0o666, Devmajor: 1, Devminor: 1 << 20})},
		{Path: "/blk", Hdr: odd(tar.Header{Typeflag: tar.TypeBlock, Mode: 0o660, Devmajor: 259, Devminor: 3})},
		{Path: "/b", Link: "/a", Hdr: odd(tar.Header{Typeflag: tar.TypeSymlink, Mode: 0o777})},
	}
}

// oddOps archive and update odd members, and do to them what the filesystem can.
func oddOps() []Op {
	var out []Op
	for i, m := range oddMembers() {
		a := opArchive(m)
		a.Name = fmt.Sprintf("%s (odd %d)", a.Name, i)
		u := opUpdate(false, m)
		u.Name = fmt.Sprintf("%s (odd %d)", u.Name, i)
		out = append(out, a, u)
		if len(m.Data) > 0 {
			r := opUpdate(true, m)
			r.Name = fmt.Sprintf("%s (odd %d)", r.Name, i)
			out = append(out, r)
		}
	}
	for _, p := range []string{"/b", "/a", "/dev", "/a/fifo"} {
		out = append(out, opChmod(p, 0o640), opRename(p, "/z"), opRemoveAll(p))
	}
	return append(out, opPut("/b", []byte("put")), opChtimes("/dev"), opChown("/blk", 1, 2))
}

func opSync(p string) Op {
	return Op{Name: "open " + p + " write sync write close", Do: func(in *Inst) Out {
		f, err := in.FS.OpenFile(p, os.O_RDWR|os.O_CREATE, 0o640)
		if err != nil {
			return fail("open", err)
		}
		if _, err := f.Write([]byte("1st")); err != nil {
			f.Close()
			return fail("write", err)
		}
		if err := f.Sync(); err != nil {
			f.Close()
			return fail("sync", err)
		}
		if _, err := f.Write([]byte("+2nd")); err != nil {
			f.Close()
			return fail("write", err)
		}
		return res("close", f.Close())
	}, Mod: func(m *Model) string {
		if r := m.open(p, os.O_RDWR|os.O_CREATE, 0o640); r != mOK {
			return r
		}
		m.write(p, false, 0, []byte("1st+2nd"))
		return mOK
	}, Path: []string{p}}
}

func init() {
	checks["C01"] = checkDef{level: "model_checking", quickS: 240, thorS: 800, run: runC01,
		rule: "every history of the stated length is executed on the real code; after its last calls the running instance, an instance opened on a copy of tape and index, and an instance rebuilt from a copy of the tape alone are compared entry by entry"}
}

func newRebuildOracle(*Inst) Oracle { return &rebuildOracle{} }

var popSetup = []Op{opMkdir("/a"), opPut("/a/c", big), opPut("/b", []byte("bbb"))}

var pipeCfgs = []Cfg{
	{Comp: "gzip"}, {Comp: "zstandard", Sig: "minisign"}, {Enc: "age"}, {Enc: "pgp", Sig: "pgp", Comp: "lz4"}, {Sig: "minisign", RS: 3}, {Enc: "age", Sig: "minisign", Comp: "brotli", Cache: "file", RS: 1},
}

// smallOps is a shorter alphabet for the products with configurations.
func smallOps() []Op {
	return []Op{
		opMkdir("/a"), opPut("/a/c", big), opPut("/b", []byte("x")), opCreate("/b"), opRename("/b", "/a/c"), opRename("/a", "/b"),
		opRemoveAll("/a"), opRemove("/b"), opChmod("/b", 0o600), opChtimes("/a"), opOpen("/b", os.O_WRONLY|os.O_APPEND, []byte("zz")),
		opOpen("/b", os.O_RDWR|os.O_TRUNC, nil),
	}
}

func linkOps() []Op {
	return []Op{
		opSymlink("/b", "/l"), opSymlink("/a", "/l"), opSymlink("/missing", "/l"), opSymlink("/b", "/a/l"), opPut("/b", []byte("x")), opMkdir("/a"), opPut("/c", big),
		opChmod("/c", 0o600), opRename("/c", "/d"), opRemove("/c"), opRemove("/l"), opRename("/l", "/m"), opRemove("/b"), opRename("/b", "/e"), opRemoveAll("/a"), opChmod("/l", 0o600),
	}
}

func runC01(c *Check) {
	c.processes(c.pick(2, 3))
	fsOps := append(coreOps(), opSync("/b"))
	c.exploreSeqs(&SeqSpec{Name: "filesystem calls", Ops: fsOps, Depth: 2, Oracle: newRebuildOracle})
	c.exploreSeqs(&SeqSpec{Name: "filesystem calls on a populated tree", Setup: popSetup, Ops: fsOps, Depth: 2, Oracle: newRebuildOracle})
	c.exploreSeqs(&SeqSpec{Name: "attributes", Setup: popSetup, Ops: attrOps(), Depth: c.pick(1, 2), Oracle: newRebuildOracle})
	for i, ns := range nameSets {
		for j, cfg := range []Cfg{{}, pipeCfgs[1], pipeCfgs[2]} {
			if c.quick() && j > 0 && i < 9 {
				continue
			}
			c.exploreSeqs(&SeqSpec{Name: "names " + ns.dir, Cfg: cfg, Ops: ns.ops(), Depth: 2, Oracle: newRebuildOracle})
			c.exploreSeqs(&SeqSpec{Name: "names on a populated tree " + ns.dir, Cfg: cfg, Setup: ns.ops()[:5], Ops: ns.ops(), Depth: c.pick(1, 2), Oracle: newRebuildOracle})
		}
	}
	c.exploreSeqs(&SeqSpec{Name: "odd members", Setup: []Op{opMkdir("/a")}, Ops: oddOps(), Depth: 2, Oracle: newRebuildOracle})
	for _, cfg := range pipeCfgs {
		c.exploreSeqs(&SeqSpec{Name: "odd members, configurations", Cfg: cfg, Setup: []Op{opMkdir("/a")}, Ops: oddOps(), Depth: c.pick(1, 2), Oracle: newRebuildOracle})
	}
	c.exploreSeqs(&SeqSpec{Name: "archive and filesystem calls", Ops: append(archOps(), opPut("/b", []byte("x")), opMkdir("/a"), opRename("/b", "/a"), opRename("/a", "/b"), opRemoveAll("/a"), opChmod("/b", 0o611)), Depth: c.pick(2, 3), Oracle: newRebuildOracle})
	c.exploreSeqs(&SeqSpec{Name: "links", Ops: linkOps(), Depth: c.pick(2, 3), Oracle: newRebuildOracle})
	held, inside := heldSpaces()
	c.exploreSeqs(&SeqSpec{Name: "file held open", Setup: append(append([]Op{}, popSetup...), held[0]), Ops: held, Depth: c.pick(2, 3), DB: ":memory:", Oracle: newRebuildOracle})
	c.exploreSeqs(&SeqSpec{Name: "file in a directory held open", Setup: append(append([]Op{}, popSetup...), inside[0]), Ops: inside, Depth: c.pick(2, 3), DB: ":memory:", Oracle: newRebuildOracle})
	for _, lt := range linkTrees() {
		c.exploreSeqs(&SeqSpec{Name: lt.name, Setup: lt.setup, Ops: lt.ops, Depth: 2, DB: ":memory:", Oracle: newRebuildOracle})
	}
	for _, cfg := range pipeCfgs {
		c.exploreSeqs(&SeqSpec{Name: "configurations", Cfg: cfg, Ops: smallOps(), Depth: c.pick(2, 3), Oracle: newRebuildOracle})
	}
	for _, cfg := range []Cfg{{}, {RS: 2}, {RS: 1, Enc: "age", Sig: "pgp"}} {
		rs := cfg.norm().RS
		vt := func() Opt { return Opt{Tape: newVtape(rs)} }
		c.exploreSeqs(&SeqSpec{Name: "emulated tape", Cfg: cfg, Ops: append(smallOps(), archOps()...), Depth: 2, Oracle: newRebuildOracle, FreshOpt: vt})
		if cfg.Enc == "" {
			c.exploreSeqs(&SeqSpec{Name: "emulated tape, populated", Cfg: cfg, Setup: popSetup, Ops: append(smallOps(), archOps()...), Depth: c.pick(1, 2), Oracle: newRebuildOracle, FreshOpt: vt})
		}
	}
	for _, vt := range []bool{false, true} {
		sp := &SeqSpec{Name: "after an explicit overwrite", Ops: append(smallOps(), archOps()...), Depth: c.pick(1, 2), Oracle: newRebuildOracle, Live: overwritten}
		if vt {
			sp.Name, sp.FreshOpt = sp.Name+", emulated tape", func() Opt { return Opt{Tape: newVtape(20)} }
		}
		c.exploreSeqs(sp)
	}
	extra := func(in *Inst, before *snap, op Op, out Out) string {
		_, d := sameAfterRebuild(in)
		return d
	}
	c.exploreBFS(&BFSSpec{Name: "search on rebuilt indexes", NoDB: true, Ops: fsOps, Depth: c.pick(3, 5), Extra: extra})
	c.exploreBFS(&BFSSpec{Name: "search on reopened indexes", Ops: append(smallOps(), archOps()...), Depth: c.pick(3, 5), Extra: extra})
	if !c.quick() {
		c.exploreSeqs(&SeqSpec{Name: "filesystem calls, deeper", Ops: fsOps, Depth: 3, Oracle: newRebuildOracle})
	}
}
