package main

import (
	"fmt"
	"os"
)

// replayOracle replays the whole tape into the index of every prefix of its records.
type replayOracle struct{ state string }

func newReplayOracle(*Inst) Oracle { return &replayOracle{} }

func (o *replayOracle) State() string { return o.state }

func (o *replayOracle) Step(in *Inst, op Op, out Out, check bool) string {
	if !check {
		return ""
	}
	rep := replays
	if in.VT != nil {
		rep = replaysOnTape
	}
	st, d := rep(in)
	if d != "" {
		return "after " + op.Name + " (" + out.Class + "): " + d
	}
	o.state = st
	return ""
}

func replays(in *Inst) (string, string) {
	t := in.Tape()
	rs, err := scanTape(t)
	if err != nil {
		return "", "independent scan: " + err.Error()
	}
	scratch, err := onTape(in.Cfg, t, nil, Opt{})
	if err != nil {
		return "", err.Error()
	}
	defer scratch.Destroy()
	if err := indexTape(scratch, nil, true, 0, 0); err != nil {
		return "", "rebuilding from scratch: " + err.Error()
	}
	want := walk(scratch, "/", true)
	again := func(x *Inst, what string) string {
		for _, nth := range []string{"replaying the whole tape", "replaying it a second time"} {
			if err := indexTape(x, nil, false, 0, 0); err != nil {
				return nth + " into " + what + ": " + err.Error()
			}
			if d := diffViews(want, walk(x, "/", true), "a rebuild from scratch", nth+" into "+what); d != "" {
				return d
			}
		}
		return ""
	}
	// The live index, opened anew and as it is.
	if in.DB != ":memory:" {
		db, err := os.ReadFile(in.DB)
		if err != nil {
			return "", err.Error()
		}
		re, err := onTape(in.Cfg, t, db, Opt{})
		if err != nil {
			return "", "opening the index again: " + err.Error()
		}
		defer re.Destroy()
		if d := again(re, "the live index"); d != "" {
			return "", d
		}
	}
	for j := len(rs); j >= 0; j-- {
		var cut int64
		if j > 0 {
			cut = rs[j-1].end
		}
		d := newDir()
		x, err := openInst(in.Cfg, d+"/t.tar", ":memory:", Opt{})
		if err != nil {
			return "", err.Error()
		}
		x.Dir = d
		dd := func() string {
			must(os.WriteFile(x.Drive, t[:cut], 0o600))
			if j > 0 {
				if err := indexTape(x, nil, true, 0, 0); err != nil {
					return fmt.Sprintf("indexing the first %d of %d records: %v", j, len(rs), err)
				}
			}
			must(os.WriteFile(x.Drive, t, 0o600))
			return again(x, fmt.Sprintf("the index of the first %d of %d records", j, len(rs)))
		}()
		x.Destroy()
		if dd != "" {
			return "", dd
		}
	}
	return want.stable() + fmt.Sprint(len(rs)), ""
}

// replaysOnTape does the same with an emulated tape, of which every prefix is one of its files.
func replaysOnTape(in *Inst) (string, string) {
	index := func(t *vtape, x *Inst, overwrite bool) error {
		x.VT.mu.Lock()
		x.VT.items, x.VT.pos, x.VT.off = t.items, len(t.items), 0
		x.VT.mu.Unlock()
		return indexTape(x, nil, overwrite, 0, 0)
	}
	whole := in.VT.dup()
	scratch, err := onTape(in.Cfg, nil, nil, Opt{Tape: in.VT.dup()})
	if err != nil {
		return "", err.Error()
	}
	defer scratch.Destroy()
	if err := index(whole, scratch, true); err != nil {
		return "", "rebuilding from scratch: " + err.Error()
	}
	want := walk(scratch, "/", true)
	var cuts []int
	for i, it := range whole.items {
		if it.mark {
			cuts = append(cuts, i+1)
		}
	}
	for j := len(cuts) - 1; j >= 0; j-- {
		x, err := onTape(in.Cfg, nil, nil, Opt{Tape: in.VT.dup()})
		if err != nil {
			return "", err.Error()
		}
		what := fmt.Sprintf("the index of the first %d of %d files of the tape", j+1, len(cuts))
		d := func() string {
			if err := index(&vtape{items: whole.items[:cuts[j]:cuts[j]]}, x, true); err != nil {
				return "building " + what + ": " + err.Error()
			}
			for _, nth := range []string{"replaying the whole tape", "replaying it a second time"} {
				if err := index(whole, x, false); err != nil {
					return nth + " into " + what + ": " + err.Error()
				}
				if d := diffViews(want, walk(x, "/", true), "a rebuild from scratch", nth+" into "+what); d != "" {
					return d
				}
			}
			return ""
		}()
		x.Destroy()
		if d != "" {
			return "", d
		}
	}
	return want.stable() + fmt.Sprint(len(cuts)), ""
}

func init() {
	checks["C07"] = checkDef{level: "model_checking", quickS: 240, thorS: 800, run: runC07,
		rule: "for every history of the stated alphabets and lengths and every number j of its records: the index of the first j records is built, the whole tape is replayed into it twice, and the result is compared with a rebuild from scratch"}
}

// replayOps are calls which append.
func replayOps() []Op {
	return []Op{
		opMkdir("/a"), opPut("/b", []byte("x")), opPut("/a/c", big), opMkdir("/b"), opCreate("/a"), opMkdirAll("/a/d/e"),
		opRename("/a", "/b"), opRename("/b", "/a"), opRename("/a/c", "/b"), opRename("/b", "/a/c"), opRename("/a", "/e"), opRename("/e", "/a"),
		opRemoveAll("/a"), opRemoveAll("/b"), opRemove("/a/c"), opChmod("/a", 0o600), opChtimes("/b"), opOpen("/b", os.O_WRONLY|os.O_APPEND, []byte("zz")), opOpen("/b", os.O_RDWR|os.O_TRUNC, nil),
	}
}

func runC07(c *Check) {
	ops := append(replayOps(), archOps()...)
	c.exploreSeqs(&SeqSpec{Name: "moves and deletions", Ops: ops, Depth: 2, Oracle: newReplayOracle})
	c.exploreSeqs(&SeqSpec{Name: "moves and deletions on a populated tree", Setup: popSetup, Ops: ops, Depth: 2, Oracle: newReplayOracle})
	c.exploreSeqs(&SeqSpec{Name: "links", Ops: linkOps(), Depth: c.pick(2, 3), Oracle: newReplayOracle})
	for _, lt := range linkTrees() {
		c.exploreSeqs(&SeqSpec{Name: lt.name, Setup: lt.setup, Ops: lt.ops, Depth: c.pick(1, 2), DB: ":memory:", Oracle: newReplayOracle})
	}
	for i, ns := range nameSets {
		c.exploreSeqs(&SeqSpec{Name: "names " + ns.dir, Cfg: pipeCfgs[i%3], Setup: ns.ops()[:5], Ops: ns.ops(), Depth: c.pick(1, 2), DB: ":memory:", Oracle: newReplayOracle})
	}
	c.exploreSeqs(&SeqSpec{Name: "odd members", Setup: []Op{opMkdir("/a")}, Ops: oddOps(), Depth: c.pick(1, 2), DB: ":memory:", Oracle: newReplayOracle})
	for _, rs := range []int{1, 20} {
		rs := rs
		c.exploreSeqs(&SeqSpec{Name: "emulated tape", Cfg: Cfg{RS: rs}, Setup: popSetup, Ops: ops, Depth: c.pick(1, 2), DB: ":memory:", Oracle: newReplayOracle, FreshOpt: func() Opt { return Opt{Tape: newVtape(rs)} }})
	}
	for _, cfg := range pipeCfgs {
		c.exploreSeqs(&SeqSpec{Name: "configurations", Cfg: cfg, Setup: popSetup, Ops: smallOps(), Depth: c.pick(1, 2), DB: ":memory:", Oracle: newReplayOracle})
	}
	small := []Op{opPut("/a", []byte("1")), opRename("/a", "/b"), opRename("/b", "/a"), opRemove("/a"), opRemove("/b"), opMkdir("/b"), opPut("/b", []byte("22"))}
	c.exploreSeqs(&SeqSpec{Name: "two names", Ops: small, Depth: c.pick(4, 5), DB: ":memory:", Oracle: newReplayOracle})
	if !c.quick() {
		c.exploreSeqs(&SeqSpec{Name: "moves and deletions on a populated tree, three calls", Setup: popSetup, Ops: ops, Depth: 3, DB: ":memory:", Oracle: newReplayOracle})
	}
	c.exploreBFS(&BFSSpec{Name: "search", Setup: popSetup, Ops: replayOps(), Depth: c.pick(2, 4), Extra: func(in *Inst, before *snap, op Op, out Out) string {
		_, d := replays(in)
		return d
	}})
}
