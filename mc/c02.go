package main

import (
	"os"
	"strings"
)

// modelOracle compares the live instance with the reference file system.
type modelOracle struct {
	m *Model
}

func newModelOracle(in *Inst) Oracle { return &modelOracle{m: newModel()} }

func (o *modelOracle) State() string { return o.m.String() }

func (o *modelOracle) Step(in *Inst, op Op, out Out, check bool) string {
	o.m.touch(op.Path)
	want := op.Mod(o.m)
	o.m.touch(op.Path)
	if d := judge(want, out); d != "" {
		return d
	}
	if !check && !op.Look {
		return ""
	}
	// The model adopts the times it leaves open.
	v := walkLight(in, "/", true)
	if d := o.m.compare(v); d != "" {
		return "after " + op.Name + " (" + out.Class + "): " + d
	}
	return ""
}

func pat(n int, seed byte) []byte {
	b := make([]byte, n)
	x := uint32(seed)*2654435761 + 12345
	for i := range b {
		x = x*1664525 + 1013904223
		b[i] = byte(x >> 24)
	}
	return b
}

var big = pat(1500, 3)

// coreOps is the small colliding universe: /a, /b, /a/c, used as files and as directories.
func coreOps() []Op {
	return []Op{
		opMkdir("/a"),
		opCreate("/a"),
		opPut("/b", []byte("x")),
		opMkdir("/b"),
		opMkdir("/a/c"),
		opPut("/a/c", big),
		opCreate("/b"),
		opRename("/a", "/b"),
		opRename("/b", "/a"),
		opRename("/a/c", "/b"),
		opRename("/b", "/a/c"),
		opRename("/a", "/a"),
		opRename("/a", "/a/c"),
		opRemove("/a"),
		opRemove("/b"),
		opRemove("/a/c"),
		opRemoveAll("/a"),
		opRemoveAll("/b"),
		opMkdirAll("/a/c/d"),
		opMkdirAll("/b"),
		opChmod("/a", 0o600),
		opChown("/b", 7, 9),
		opChtimes("/a/c"),
		opOpen("/b", os.O_RDWR, []byte("YY")),
		opOpen("/b", os.O_WRONLY|os.O_APPEND, []byte("zz")),
		opOpen("/b", os.O_RDWR|os.O_TRUNC, nil),
		opOpen("/a", os.O_RDWR|os.O_CREATE|os.O_EXCL, []byte("E")),
		opOpen("/b", os.O_RDONLY, []byte("no")),
		opOpen("/a/c", os.O_RDWR|os.O_CREATE, []byte("q")),
	}
}

func init() {
	checks["C02"] = checkDef{level: "model_checking", quickS: 240, thorS: 780, run: runC02,
		rule: "every history of the stated alphabets and lengths is executed on the real code and on the reference file system; outcomes and whole trees are compared after each call"}
}

// nameOps is a universe of names which a pattern match, a prefix test or a suffix rule could confuse.
func (n nameSet) ops() []Op {
	dir, other, file, sib := n.dir, n.other, n.file, n.sib
	return []Op{
		opMkdir(dir), opMkdir(other), opPut(dir+"/"+file, []byte("in")), opPut(other+"/"+file, []byte("other")), opPut(sib, []byte("sib")),
		opRename(dir, other), opRename(other, dir), opRename(sib, dir+"/"+sib[1:]), opRename(dir+"/"+file, sib),
		opRemove(dir), opRemove(sib), opRemoveAll(dir), opRemoveAll(other), opRemove(dir + "/" + file), opChmod(dir, 0o700), opOpen(sib, os.O_RDWR|os.O_APPEND, []byte("+")),
	}
}

type nameSet struct{ dir, other, file, sib string }

var nameSets = []nameSet{
	{"/x_y", "/xay", "f", "/x_y.txt"},
	{"/p%", "/pq", "100%", "/p%%"},
	{"/a b", "/a", "c d", "/a  b"},
	{"/ä", "/a\u0308", "ünï", "/Ä"},
	{"/.d", "/d", "..f", "/..."},
	{"/d", "/dd", "d", "/ddd"},
	{"/q'\"", "/q", "\\b", "/*?["},
	{"/f.gz", "/f", "f.gz", "/f.gz.gz"},
	{"/f.age", "/f", "f.age", "/f.zst.pgp"},
	{"/\xff", "/\xfe", "\xc3", "/\xff\xfe"},
	{"/n\nl", "/n", "\t", "/n=l\r"},
	{"/" + strings.Repeat("n", 150), "/" + strings.Repeat("n", 151), strings.Repeat("é", 120), "/" + strings.Repeat("m", 260)},
}

// flagOps is every combination of open flags, with and without a write, on a missing, a regular and a directory entry.
func flagOps() []Op {
	var out []Op
	for _, p := range []string{"/m", "/b", "/a"} {
		for _, acc := range []int{os.O_RDONLY, os.O_WRONLY, os.O_RDWR} {
			for x := 0; x < 16; x++ {
				fl := acc
				if x&1 != 0 {
					fl |= os.O_CREATE
				}
				if x&2 != 0 {
					fl |= os.O_EXCL
				}
				if x&4 != 0 {
					fl |= os.O_TRUNC
				}
				if x&8 != 0 {
					fl |= os.O_APPEND
				}
				if fl&os.O_TRUNC != 0 && acc == os.O_RDONLY || fl&os.O_EXCL != 0 && fl&os.O_CREATE == 0 {
					continue // unspecified
				}
				out = append(out, opOpen(p, fl, nil), opOpen(p, fl, []byte("data!")))
			}
		}
	}
	return out
}

func runC02(c *Check) {
	c.exploreSeqs(&SeqSpec{Name: "open flags", Setup: popSetup, Ops: flagOps(), Depth: 1, DB: ":memory:", Oracle: newModelOracle})
	for i, ns := range nameSets {
		cfg := Cfg{}
		switch i {
		case 7:
			cfg = Cfg{Comp: "gzip"}
		case 8:
			cfg = Cfg{Comp: "zstandard", Enc: "age"}
		}
		c.exploreSeqs(&SeqSpec{Name: "names " + ns.dir, Cfg: cfg, Ops: ns.ops(), Depth: 2, DB: ":memory:", Oracle: newModelOracle})
		c.exploreSeqs(&SeqSpec{Name: "names on a populated tree " + ns.dir, Cfg: cfg, Setup: ns.ops()[:5], Ops: ns.ops(), Depth: 2, DB: ":memory:", Oracle: newModelOracle})
	}
	c.exploreSeqs(&SeqSpec{Name: "attributes", Setup: popSetup, Ops: attrOps(), Depth: 2, DB: ":memory:", Oracle: newModelOracle})
	for _, cfg := range pipeCfgs[1:4] {
		for _, ns := range nameSets[9:11] {
			c.exploreSeqs(&SeqSpec{Name: "names " + ns.dir, Cfg: cfg, Ops: ns.ops(), Depth: c.pick(1, 2), DB: ":memory:", Oracle: newModelOracle})
		}
	}
	held, inside := heldSpaces()
	for _, cfg := range []Cfg{{}, {Cache: "file"}, {Enc: "age", Sig: "minisign", Comp: "gzip", RS: 1}} {
		d := c.pick(2, 3)
		if cfg == (Cfg{}) {
			d++
		}
		c.exploreSeqs(&SeqSpec{Name: "file held open " + cfg.Cache, Cfg: cfg, Setup: append(append([]Op{}, popSetup...), opChmod("/b", 0o755), held[0]), Ops: held, Depth: d, DB: ":memory:", Oracle: newModelOracle})
		c.exploreSeqs(&SeqSpec{Name: "file in a directory held open " + cfg.Cache, Cfg: cfg, Setup: append(append([]Op{}, popSetup...), opChmod("/a/c", 0o755), inside[0]), Ops: inside, Depth: d, DB: ":memory:", Oracle: newModelOracle})
	}
	for _, cfg := range pipeCfgs {
		c.exploreSeqs(&SeqSpec{Name: "configurations", Cfg: cfg, Ops: smallOps(), Depth: c.pick(2, 3), DB: ":memory:", Oracle: newModelOracle})
	}
	for _, rs := range []int{1, 20} {
		rs := rs
		c.exploreSeqs(&SeqSpec{Name: "emulated tape", Cfg: Cfg{RS: rs}, Setup: popSetup, Ops: coreOps(), Depth: c.pick(1, 2), DB: ":memory:", Oracle: newModelOracle, FreshOpt: func() Opt { return Opt{Tape: newVtape(rs)} }})
	}
	c.exploreSeqs(&SeqSpec{Name: "core on a populated tree", Setup: popSetup, Ops: coreOps(), Depth: 2, DB: ":memory:", Oracle: newModelOracle})
	c.exploreSeqs(&SeqSpec{Name: "core", Ops: coreOps(), Depth: c.pick(2, 3), DB: ":memory:", Oracle: newModelOracle})
	c.exploreBFS(&BFSSpec{Name: "core search", Model: true, Ops: coreOps(), Depth: c.pick(5, 7)})
	if !c.quick() {
		c.exploreSeqs(&SeqSpec{Name: "open flags, pairs", Setup: popSetup, Ops: flagOps(), Depth: 2, DB: ":memory:", Oracle: newModelOracle})
		for _, ns := range nameSets {
			c.exploreSeqs(&SeqSpec{Name: "names deeper " + ns.dir, Ops: ns.ops(), Depth: 3, DB: ":memory:", Oracle: newModelOracle})
		}
		c.exploreSeqs(&SeqSpec{Name: "small, four calls", Ops: smallOps(), Depth: 4, DB: ":memory:", Oracle: newModelOracle})
	}
}

// heldSpaces are a file, and one in a directory, which is held open, and what happens meanwhile.
func heldSpaces() ([]Op, []Op) {
	return append(heldOps(0, "/b"), opRename("/b", "/e"), opRename("/e", "/b"), opRecreate("/b"), opRemove("/b"), opPut("/c", []byte("c")), opRename("/c", "/b"), opRename("/b", "/a/d"), opRemoveAll("/a")),
		append(heldOps(1, "/a/c"), opRename("/a", "/e"), opRename("/e", "/a"), opRecreate("/a"), opRemoveAll("/a"), opRename("/b", "/a/c"), opRename("/a/c", "/a/d"), opChmod("/a", 0o711))
}
