package main

import (
	"fmt"
	"path"
	"strings"
)

// treeOp is one recursive call.
type treeOp struct {
	kind string // removeall, rename, delete (archive interface), move (archive interface)
	a, b string
}

func (t treeOp) op() Op {
	switch t.kind {
	case "removeall":
		return opRemoveAll(t.a)
	case "rename":
		return opRename(t.a, t.b)
	case "delete":
		return opDelete(t.a)
	}
	return opMove(t.a, t.b)
}

func within(p, dir string) bool {
	return p == dir || strings.HasPrefix(p, strings.TrimSuffix(dir, "/")+"/")
}

// judgeTree says what is wrong with a recursive call that turned one view into another.
func judgeTree(t treeOp, out Out, before, after View) string {
	if strings.HasPrefix(out.Class, "panic") || strings.HasPrefix(out.Class, "hang") {
		return out.Class
	}
	src, has := before[t.a]
	want := View{}
	same := func(ignored string) string {
		loose := func(v View) View {
			o := View{}
			up := map[string]bool{}
			for _, p := range []string{t.a, t.b} {
				if p != "" {
					for d := range ancestors(p) {
						up[d] = true
					}
				}
			}
			for p, e := range v {
				if up[p] {
					e.Mtime, e.Atime, e.Ctime = 0, 0, 0
				}
				if t.b != "" && within(p, t.b) {
					e.Ctime = 0
				}
				e.LstatN = ""
				o[p] = e
			}
			return o
		}
		return diffViews(loose(want), loose(after), "what it should leave", ignored)
	}
	switch t.kind {
	case "removeall", "delete":
		if !has && t.kind == "removeall" && out.Class == "ok" || out.Class != "ok" {
			if has {
				return "failed with " + out.Class
			}
			want = before
			return same("the tree after a call without a target")
		}
		for p, e := range before {
			if !within(p, t.a) {
				want[p] = e
			}
		}
		return same("the tree after removing")
	}
	into := t.a != t.b && within(t.b, t.a)
	if into && out.Class == "ok" && has && src.Dir {
		return "moving a directory into its own subtree was not refused"
	}
	dst, dstHas := before[t.b]
	par, parHas := before[path.Dir(t.b)]
	if out.Class != "ok" {
		want = before
		if d := same("the tree after a refused move"); d != "" {
			return "failed with " + out.Class + ", but " + d
		}
		if has && !into && !dstHas && parHas && par.Dir {
			return "refused with " + out.Class
		}
		return ""
	}
	if !has {
		return "moving what does not exist succeeded"
	}
	if t.a == t.b {
		want = before
		return same("the tree after moving to the same name")
	}
	if dstHas && dst.Dir != src.Dir {
		return "replaced an entry of another kind"
	}
	for p, e := range before {
		switch {
		case within(p, t.a):
			want[t.b+p[len(t.a):]] = e
		case within(p, t.b):
			if p != t.b {
				return "replaced a directory which is not empty"
			}
		default:
			want[p] = e
		}
	}
	return same("the tree after moving")
}

// treeOracle judges every recursive call of a history by the views before and after it.
type treeOracle struct {
	ops  map[string]treeOp
	prev View
}

func (o *treeOracle) State() string { return o.prev.stable() }

func (o *treeOracle) Step(in *Inst, op Op, out Out, check bool) string {
	t, is := o.ops[op.Name]
	if is && o.prev == nil {
		return ""
	}
	if !is && !op.Look && !check {
		o.prev = nil
		return ""
	}
	after := walkList(in, "/")
	prev := o.prev
	o.prev = after
	if !is || prev == nil {
		return ""
	}
	if d := judgeTree(t, out, prev, after); d != "" {
		return op.Name + ": " + d
	}
	return ""
}

var treeNames = []string{"a", "ab", "a_", "a%", "A", "a b", "a.b", ".a", "ä", "a\u0308", "a'\"", "a\\", "a*", "[a]", "_", "%", "a ", "aa", "日本", "a-"}

// treeSetup is one tree over two names, in which each name occurs as directory, child, sibling, prefix and file.
func treeSetup(x, y string) []Op {
	d := "/" + x
	e := "/" + y
	return []Op{
		opMkdir(d), opMkdir(e), opMkdir(d + "/" + x), opMkdir(d + "/" + y), opPut(d+"/"+x+"/"+y, []byte("1")), opPut(d+"/"+y+"/"+x, []byte("22")),
		opPut(e+"/"+x, []byte("333")), opMkdir(e + "/" + y), opPut(e+"/"+y+"/f", []byte("4")), opPut("/"+x+y, []byte("5")), opMkdir("/z"), opPut("/z/"+x, []byte("6")),
	}
}

func treeOpsFor(x, y string) []treeOp {
	d, e := "/"+x, "/"+y
	srcs := []string{d, e, d + "/" + x, d + "/" + y, e + "/" + y, "/z", "/" + x + y, e + "/" + x}
	var out []treeOp
	for _, s := range srcs {
		out = append(out, treeOp{"removeall", s, ""}, treeOp{"delete", s, ""})
		for _, t := range append([]string{"/N0", "/z/N0", d + "/N0", e + "/N0", d + "/" + x + "/N0", s + "/N0", s + "_", "/z/" + y, s}, srcs...) {
			out = append(out, treeOp{"rename", s, t})
		}
		// The archive interface leaves checking the target to its caller: absent names below directories only.
		for _, t := range []string{"/N0", "/z/N0", "/N0" + y} {
			if !within(t, s) {
				out = append(out, treeOp{"move", s, t})
			}
		}
	}
	return append(out, treeOp{"removeall", "/missing", ""}, treeOp{"rename", "/missing", "/N0"}, treeOp{"removeall", d + "/missing", ""}, treeOp{"removeall", d[:len(d)-1] + "?", ""})
}

func init() {
	checks["C12"] = checkDef{level: "model_checking", quickS: 240, thorS: 800, run: runC12,
		rule: "for every ordered pair of names of the colliding alphabet, every recursive call of the stated set is made on the tree over that pair; the whole tree before and after, live and rebuilt from the tape, is compared"}
}

const parts = 8

// universe is a tree and the recursive calls to make on it.
type universe struct {
	setup []Op
	ops   []treeOp
}

func (c *Check) treeCases(name string, cfg Cfg, pairs [][2]string, second bool) {
	var us []universe
	for _, p := range pairs {
		us = append(us, universe{treeSetup(p[0], p[1]), treeOpsFor(p[0], p[1])})
	}
	c.universes(name, fmt.Sprintf("trees over %d ordered pairs of names", len(pairs)), cfg, us, second)
}

func (c *Check) universes(name, what string, cfg Cfg, us []universe, second bool) {
	c.each(name+" "+cfg.keyPart(), fmt.Sprintf("%s under %s, all recursive calls on each, in %d parts", what, cfg.norm(), parts), int64(len(us)*parts), func(i int64) {
		u := us[i/parts]
		in, err := freshInst(cfg, "", Opt{})
		if err != nil {
			c.report(Violation{Key: "initialize", Detail: err.Error()})
			return
		}
		var hist []string
		for _, op := range u.setup {
			journal(op.Name)
			if o := guarded(func() Out { return op.Do(in) }); o.Class != "ok" {
				hist = append(hist, op.Name)
				c.add("skipped trees", 1) // whether creating works is not this property
				c.note(fmt.Sprintf("a tree of %s could not be built: %s: %s", name, op.Name, o.Class))
				in.Destroy()
				return
			}
		}
		before := walkList(in, "/")
		c.saw("states", before.stable())
		s := &snap{}
		s.Tape, s.DB = in.snapshot()
		in.Destroy()
		for k, t := range u.ops {
			if int64(k)%parts != i%parts {
				continue
			}
			if c.over() || c.nviol() >= maxViol {
				return
			}
			if d := c.treeCase(cfg, s, before, t, second && k%3 == 0); d != "" {
				if c.treeCase(cfg, s, before, t, second && k%3 == 0) == "" {
					c.add("unreproduced", 1)
					continue
				}
				h := append(append([]string{}, opNames(u.setup)...), t.op().Name)
				if len(h) > 60 {
					h = append(append(h[:20:20], fmt.Sprintf("… (%d more calls)", len(h)-25)), h[len(h)-5:]...)
				}
				c.report(Violation{Key: cfg.keyPart() + strings.Join(h, "; "), Sub: name, Cfg: cfg.norm().String(), Ops: h, Detail: t.op().Name + ": " + d})
			}
		}
	})
}

// scaled are trees of which a limit on the number of entries or levels would leave something behind.
func scaled(n, levels int) []universe {
	wide := []Op{opMkdir("/w"), opMkdir("/w_"), opPut("/w_/keep", []byte("k")), opPut("/wx", []byte("kk"))}
	var ms []Member
	for i := 0; i < n; i++ {
		switch {
		case i%10 == 3:
			ms = append(ms, Member{Path: fmt.Sprintf("/w/%03d", i), Dir: true}, Member{Path: fmt.Sprintf("/w/%03d/in", i), Data: []byte(fmt.Sprint("in ", i))})
		default:
			ms = append(ms, Member{Path: fmt.Sprintf("/w/%03d", i), Data: pat(i%7*100, byte(i))})
		}
	}
	wide = append(wide, opArchive(ms...), opMkdir("/e"))
	deep := []Op{opPut("/dd", []byte("other"))}
	p, mid := "", ""
	for i := 0; i < levels; i++ {
		p += "/d"
		if i == levels/2 {
			mid = p
		}
		deep = append(deep, opMkdir(p), opPut(p+"/f", []byte(fmt.Sprint("level ", i))))
	}
	links := []Op{opMkdir("/a"), opMkdir("/a/s"), opPut("/a/f", []byte("f")), opPut("/a/s/g", []byte("g")), opMkdir("/o"), opPut("/o/h", []byte("h")), opMkdir("/z"),
		opSymlink("/a/f", "/a/l1"), opSymlink("/a/s", "/a/l2"), opSymlink("/o", "/a/l3"), opSymlink("/gone", "/a/s/l4"), opSymlink("/a", "/z/l5"), opSymlink("/o/h", "/z/l6"), opSymlink("/a", "/a/s/up"), opSymlink("f", "/a/rel")}
	var lo []treeOp
	for _, s := range []string{"/a", "/a/s", "/o", "/z"} {
		lo = append(lo, treeOp{"removeall", s, ""}, treeOp{"delete", s, ""}, treeOp{"rename", s, "/N0"}, treeOp{"rename", s, "/z/N0"}, treeOp{"rename", s, s + "/N0"}, treeOp{"move", s, "/N0"})
	}
	return []universe{
		{wide, []treeOp{{"removeall", "/w", ""}, {"delete", "/w", ""}, {"rename", "/w", "/N0"}, {"rename", "/w", "/e"}, {"rename", "/w", "/e/N0"}, {"move", "/w", "/e/N0"}, {"rename", "/w", "/w/003/N0"}, {"rename", "/w/003", "/w/N0"}, {"rename", "/e", "/w"}, {"removeall", "/w/013", ""}}},
		{deep, []treeOp{{"removeall", "/d", ""}, {"delete", "/d", ""}, {"rename", "/d", "/N0"}, {"rename", "/d/d", "/dd"}, {"rename", "/d/d", "/N0"}, {"rename", mid, "/N0"}, {"move", mid, "/N0"}, {"removeall", mid, ""}, {"rename", "/d", mid + "/N0"}, {"rename", "/d", p + "/N0"}, {"rename", mid, p + "/f"}, {"rename", p, "/d/N0"}, {"delete", p, ""}}},
		{links, lo},
	}
}

func (c *Check) treeCase(cfg Cfg, s *snap, before View, t treeOp, second bool) string {
	return guardS(func() string {
		in, err := s.open(cfg, Opt{})
		if err != nil {
			return "reopening: " + err.Error()
		}
		defer in.Destroy()
		op := t.op()
		journal(op.Name)
		out := op.Do(in)
		c.add("transitions", 1)
		c.add("histories", 1)
		after := walkList(in, "/")
		if d := judgeTree(t, out, before, after); d != "" {
			return d
		}
		c.saw("states", after.stable())
		rb, err := rebuilt(cfg, in.Tape(), Opt{})
		if err != nil {
			return "rebuilding: " + err.Error()
		}
		defer rb.Destroy()
		if d := judgeTree(t, out, before, walkList(rb, "/")); d != "" {
			return "after a rebuild: " + d
		}
		if !second {
			return ""
		}
		// Recreate what was removed or moved away, then do it again.
		b2 := walkList(in, "/")
		for _, t2 := range []treeOp{{"rename", t.b, t.a}, {"removeall", t.b, ""}, {"removeall", path.Dir(t.a), ""}} {
			if t2.a == "" || t2.a == "/" {
				continue
			}
			out := t2.op().Do(in)
			c.add("transitions", 1)
			a2 := walkList(in, "/")
			if d := judgeTree(t2, out, b2, a2); d != "" {
				return "followed by " + t2.op().Name + ": " + d
			}
			b2 = a2
		}
		return ""
	})
}

func runC12(c *Check) {
	var pairs [][2]string
	for i, x := range treeNames {
		for j, y := range treeNames {
			// Quick: the first names among each other, and each of the others with the plain one.
			if x != y && (!c.quick() || i < 3 && j < 3 || i == 0) {
				pairs = append(pairs, [2]string{x, y})
			}
		}
	}
	long := strings.Repeat("l", 120)
	pairs = append(pairs, [2]string{long, long + "l"}, [2]string{long + "l", long}, [2]string{"f.gz", "f"}, [2]string{"n\nl", "n"})
	c.treeCases("pairs", Cfg{}, pairs, true)
	c.universes("scaled", fmt.Sprintf("a directory with %d entries, one of %d levels and one with links", c.pick(330, 2100), c.pick(34, 56)), Cfg{}, scaled(c.pick(330, 2100), c.pick(34, 56)), false)
	some := [][2]string{{"\xff", "\xfe"}, {"a", "ab"}, {"a_", "ab"}, {"a%", "a"}, {"f.gz", "f"}, {"f.age", "f"}}
	for _, cfg := range []Cfg{{Comp: "gzip"}, {Enc: "age", Sig: "minisign"}, {Enc: "pgp", Sig: "pgp", Comp: "lz4", RS: 3}} {
		n := 3
		if !c.quick() {
			n = len(some)
		}
		c.treeCases("configurations", cfg, some[:n], false)
		c.universes("scaled, configurations", "a wide, a deep and a linked directory", cfg, scaled(c.pick(45, 330), c.pick(17, 34)), false)
	}
	// Histories of recursive calls and creations over prefix-related names, three levels deep.
	ops := map[string]treeOp{}
	var alphabet []Op
	for _, t := range []treeOp{{"rename", "/a", "/ab"}, {"rename", "/ab", "/a"}, {"rename", "/a", "/a_/a"}, {"rename", "/a_/a", "/a"}, {"rename", "/a/a", "/a_"}, {"rename", "/a_", "/a/a"}, {"rename", "/a", "/a/b"},
		{"removeall", "/a", ""}, {"removeall", "/a_", ""}, {"removeall", "/ab", ""}, {"delete", "/a", ""}, {"rename", "/a", "/a__"}, {"rename", "/a__", "/a_"}} {
		ops[t.op().Name] = t
		alphabet = append(alphabet, t.op())
	}
	alphabet = append(alphabet, opMkdirAll("/a/a/a"), opPut("/ab/c", []byte("c")), opPut("/a_", []byte("file")), opMkdir("/ab"))
	setup := []Op{opMkdirAll("/a/a/a"), opPut("/a/a/a/x", []byte("x")), opPut("/a/a/f", []byte("f")), opMkdir("/ab"), opPut("/ab/c", []byte("c")), opMkdir("/a_"), opPut("/a_/x", []byte("y"))}
	setup[len(setup)-1].Look = true
	c.exploreSeqs(&SeqSpec{Name: "histories", Setup: setup, Ops: lookAll(alphabet), Depth: c.pick(2, 4), DB: ":memory:", Oracle: func(*Inst) Oracle { return &treeOracle{ops: ops} }})
}

func lookAll(ops []Op) []Op {
	for i := range ops {
		ops[i].Look = true
	}
	return ops
}
