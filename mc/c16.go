package main

import (
	"archive/tar"
	"bytes"
	"fmt"
	"os"
	"strings"
)

// reopenOracle opens a filesystem over the tape of every checked state: whole and cut, with every kind of index.
type reopenOracle struct {
	c       *Check
	prev    int
	prevDB  []byte
	last    string
	allCuts bool
	root    string // proposed when opening; "/" if empty
}

func newReopenOracle(c *Check, allCuts bool) func(*Inst) Oracle {
	return func(in *Inst) Oracle {
		o := &reopenOracle{c: c, prev: mediumOf(in).size(), allCuts: allCuts}
		o.prevDB = readDB(in)
		return o
	}
}

func readDB(in *Inst) []byte {
	if in.DB == ":memory:" {
		return nil
	}
	b, err := os.ReadFile(in.DB)
	must(err)
	return b
}

func (o *reopenOracle) State() string { return o.last }

func (o *reopenOracle) Step(in *Inst, op Op, out Out, check bool) string {
	m := mediumOf(in)
	prev, prevDB := o.prev, o.prevDB
	o.prev, o.prevDB = m.size(), readDB(in)
	if !check {
		return ""
	}
	o.last = op.Name + contentKey([]byte(strings.Join(paxless(m.flat()), ",")))
	dbs := []namedDB{{"the index of before the last call", prevDB}, {"the index of the whole tape", o.prevDB}}
	d := ""
	if m.vt != nil {
		d = o.reopenDrive(in, prev, dbs)
	} else {
		d = o.reopen(in.Cfg, m.t, prev, dbs)
	}
	if d != "" {
		return "after " + op.Name + " (" + out.Class + "): " + d
	}
	return ""
}

type namedDB struct {
	name string
	db   []byte
}

func (o *reopenOracle) reopen(cfg Cfg, t []byte, prev int, dbs []namedDB) string {
	rs, err := scanTape(t)
	if err != nil {
		return "independent scan: " + err.Error()
	}
	// The whole tape with the index of every number of records.
	all := append([]namedDB{{"no index", nil}, {"an empty index", emptyDB(cfg)}}, dbs...)
	for j := 1; j < len(rs); j++ {
		if rs[j-1].end >= int64(prev) || o.allCuts {
			all = append(all, namedDB{fmt.Sprintf("the index of the first %d of %d records", j, len(rs)), indexOf(cfg, t[:rs[j-1].end])})
		}
	}
	for _, x := range all {
		if d := o.open(cfg, t, rs, len(t), x, true); d != "" {
			return "whole tape, " + x.name + ": " + d
		}
	}
	// Another root than the tape has is proposed.
	for _, root := range []string{".", "/other", "/b"} {
		for _, x := range append([]namedDB{{"no index", nil}}, dbs...) {
			p := *o
			p.root = root
			if d := p.open(cfg, t, rs, len(t), x, root == "/b"); d != "" {
				return fmt.Sprintf("whole tape, %s, %q is proposed as its root: %s", x.name, root, d)
			}
		}
	}
	// What may follow the end of an archive.
	for _, tl := range tails(o.c.quick()) {
		tt := append(t[:len(t):len(t)], tl.b...)
		for _, x := range append([]namedDB{{"no index", nil}}, dbs...) {
			if d := o.open(cfg, tt, rs, len(tt), x, true); d != "" {
				return fmt.Sprintf("whole tape followed by %s, %s: %s", tl.name, x.name, d)
			}
		}
	}
	cuts := cutPoints(prev, len(t), 0, 0, o.c.quick())
	if o.allCuts {
		cuts = cutPoints(0, len(t), 0, 0, o.c.quick())
	}
	for _, cut := range cuts {
		for _, x := range append([]namedDB{{"no index", nil}}, dbs...) {
			if d := o.open(cfg, t[:cut], rs, cut, x, cut%blk != blk-1); d != "" {
				return fmt.Sprintf("cut at byte %d (%d bytes into block %d), %s: %s", cut, cut%blk, cut/blk, x.name, d)
			}
		}
	}
	return ""
}

// tails is what can be found behind the end of a tape.
func tails(quick bool) []content {
	head := func() []byte {
		var b bytes.Buffer
		w := tar.NewWriter(&b)
		must(w.WriteHeader(&tar.Header{Name: "/torn", Typeflag: tar.TypeReg, Size: 700, Mode: 0o600, Format: tar.FormatPAX}))
		return b.Bytes()
	}()
	out := []content{{"a block of zeros", make([]byte, blk)}, {"100 zero bytes", make([]byte, 100)}, {"20 blocks of zeros", make([]byte, 20*blk)}, {"half a header", head[:200]}, {"garbage of half a block", pat(blk/2, 99)}, {"a block of garbage", pat(blk, 99)}}
	if !quick {
		out = append(out, content{"19 blocks of zeros", make([]byte, 19*blk)}, content{"3 blocks of garbage", pat(3*blk, 99)}, content{"a zero byte", []byte{0}}, content{"a header without its content", head}, content{"0xff bytes", bytes.Repeat([]byte{0xff}, 20*blk)}, content{"2000 blocks of zeros", make([]byte, 2000*blk)})
	}
	return out
}

// emptyDB is an index without entries.
func emptyDB(cfg Cfg) []byte {
	in, err := onTape(cfg, nil, nil, Opt{})
	must(err)
	defer in.Destroy()
	in.Close()
	return readDB(in)
}

// indexOf is the index of a tape.
func indexOf(cfg Cfg, t []byte) []byte {
	in, err := onTape(cfg, t, nil, Opt{})
	must(err)
	defer in.Destroy()
	must(indexTape(in, nil, true, 0, 0))
	in.Close()
	return readDB(in)
}

// followups are what is written through the opened filesystem.
var followups = []Op{opPut("/new", pat(900, 6)), opMkdir("/newdir"), opOpen("/new", os.O_RDWR|os.O_APPEND, []byte("more")), opRename("/new", "/newdir/n")}

func (o *reopenOracle) open(cfg Cfg, t []byte, rs []rec, cut int, db namedDB, write bool) string {
	return o.openOn(cfg, fMedium{t: t}, rs, cut, db, write)
}

// prefixOf says whether a tape continues another one.
func (m fMedium) prefixOf(n fMedium) bool {
	if m.vt == nil {
		return bytes.HasPrefix(n.t, m.t)
	}
	if len(n.vt.items) < len(m.vt.items) {
		return false
	}
	for i, it := range m.vt.items {
		if y := n.vt.items[i]; y.mark != it.mark || !bytes.Equal(y.data, it.data) {
			return false
		}
	}
	return true
}

func (m fMedium) size() int {
	if m.vt == nil {
		return len(m.t)
	}
	return len(m.vt.items)
}

// flat are the bytes without marks.
func (m fMedium) flat() []byte {
	if m.vt == nil {
		return m.t
	}
	var b []byte
	for _, it := range m.vt.items {
		b = append(b, it.data...)
	}
	return b
}

// indexed is a rebuild from scratch.
func (m fMedium) indexed(cfg Cfg) (*Inst, error, error) {
	if m.vt == nil {
		return indexedInst(cfg, m.t)
	}
	in, err := onTape(cfg, nil, nil, Opt{Tape: m.vt.dup()})
	if err != nil {
		return nil, nil, err
	}
	return in, indexVtape(in), nil
}

// openOn opens a filesystem over what is left of a tape of which cut bytes are left.
func (o *reopenOracle) openOn(cfg Cfg, m fMedium, rs []rec, cut int, db namedDB, write bool) string {
	o.c.add("openings", 1)
	orig := m.dup()
	in, err := onTape(cfg, m.t, db.db, Opt{Tape: m.dup().vt})
	if err != nil {
		o.c.add("openings which fail", 1)
		return ""
	}
	defer in.Destroy()
	rootWhole := len(rs) > 0 && rs[0].end <= int64(cut)
	proposal := o.root
	if proposal == "" {
		proposal = "/"
	}
	_, ierr := in.FS.Initialize(proposal, os.ModePerm)
	now := mediumOf(in)
	if !orig.prefixOf(now) {
		return "opening changed what was on the tape: " + tapeDiff(orig.flat(), now.flat())
	}
	if rootWhole && now.size() != orig.size() {
		return fmt.Sprintf("opening appended %d bytes although the tape has a root (it said %v)", len(now.flat())-len(orig.flat()), ierr)
	}
	if ierr != nil {
		if rootWhole && cut >= int(lastEnd(rs))+2*blk && db.name == "no index" {
			return "initializing over a whole tape fails: " + ierr.Error()
		}
		o.c.add("openings which fail", 1)
		return ""
	}
	torn := map[string]bool{}
	for _, r := range rs {
		if r.end > int64(cut) {
			for _, p := range recNames(r, in.Cfg) {
				torn[p] = true
			}
			break
		}
	}
	same := func(when string) (View, string) {
		got := walkLight(in, "/", true)
		ref, rerr, err := mediumOf(in).indexed(cfg)
		if err != nil {
			return nil, err.Error()
		}
		defer ref.Destroy()
		want := walkLight(ref, "/", true)
		if d := diffViews(got, want, "the opened filesystem", "a rebuild from scratch"); d != "" {
			return nil, fmt.Sprintf("%s: %s (the rebuild said %v)", when, d, rerr)
		}
		return got, ""
	}
	before, d := same("after opening")
	if d != "" {
		return d
	}
	if !write {
		return ""
	}
	o.c.add("openings written through", 1)
	for i, f := range followups {
		out := f.Do(in)
		if out.Class != "ok" {
			return fmt.Sprintf("afterwards %s fails: %s", f.Name, out.Class)
		}
		if !orig.prefixOf(mediumOf(in)) {
			return "afterwards " + f.Name + " changed what was on the tape"
		}
		if i != 0 && i != len(followups)-1 {
			continue
		}
		after, d := same("after " + f.Name)
		if d != "" {
			return d
		}
		p, want := "/new", pat(900, 6)
		if i > 0 {
			p, want = "/newdir/n", append(append([]byte{}, want...), "more"...)
		}
		if e := after[p]; e.Content != contentKey(want) {
			return fmt.Sprintf("after %s: %q is %v, written was %s", f.Name, p, e, contentKey(want))
		}
		for q, e := range before {
			if a, has := after[q]; q != "/" && !torn[q] && (!has || a != e) {
				return fmt.Sprintf("after %s: %q is %v, it was %v", f.Name, q, a, e)
			}
		}
	}
	return ""
}

// reopenDrive does with an emulated tape what reopen does: it is whole, or cut after every record of the drive its last
// call wrote (or all of them), with a mark, as the drive writes one when it is closed, and without, after which only
// opening is judged.
func (o *reopenOracle) reopenDrive(in *Inst, prev int, dbs []namedDB) string {
	vt := mediumOf(in).vt
	rs, err := scanTape(fMedium{vt: vt}.flat())
	if err != nil {
		return "independent scan: " + err.Error()
	}
	upTo := func(n int, mark bool) fMedium {
		x := &vtape{bs: vt.bs, items: append([]vitem{}, vt.items[:n]...)}
		if mark {
			x.items = append(x.items, vitem{mark: true})
		}
		return fMedium{vt: x}
	}
	all := append([]namedDB{{"no index", nil}, {"an empty index", emptyDB(in.Cfg)}}, dbs...)
	for n, it := range vt.items {
		if it.mark && n+1 < len(vt.items) && (n >= prev-1 || o.allCuts) {
			x, ierr, err := upTo(n+1, false).indexed(in.Cfg)
			if err != nil || ierr != nil {
				return fmt.Sprintf("indexing the tape up to item %d: %v %v", n, err, ierr)
			}
			x.Close()
			all = append(all, namedDB{fmt.Sprintf("the index of the first %d of %d records and marks", n+1, len(vt.items)), readDB(x)})
			x.Destroy()
		}
	}
	for _, x := range all {
		if d := o.openOn(in.Cfg, upTo(len(vt.items), false), rs, len(upTo(len(vt.items), false).flat()), x, true); d != "" {
			return "whole tape, " + x.name + ": " + d
		}
	}
	from := prev
	if o.allCuts {
		from = 0
	}
	for n := from; n < len(vt.items); n++ {
		for _, mark := range []bool{false, true} {
			if mark && (n == 0 || vt.items[n-1].mark) {
				continue
			}
			m := upTo(n, mark)
			cut := len(m.flat())
			root := len(rs) > 0 && rs[0].end <= int64(cut)
			clean := mark || n == 0 || vt.items[n-1].mark
			if !clean && !root {
				continue
			}
			for _, x := range append([]namedDB{{"no index", nil}}, dbs...) {
				if d := o.openOn(in.Cfg, m, rs, cut, x, clean); d != "" {
					return fmt.Sprintf("cut after %d of %d records and marks (mark added: %v), %s: %s", n, len(vt.items), mark, x.name, d)
				}
			}
		}
	}
	return ""
}

// openFaults lets every event while opening fail, in every way: the tape keeps what is on it, nothing is appended if it
// has a root, and opening again afterwards works as if nothing had failed.
func (c *Check) openFaults(cfg Cfg, vt, pairs bool, hist []Op) {
	cfg = cfg.norm()
	var opt Opt
	if vt {
		opt.Tape = newVtape(cfg.RS)
	}
	d := newDir()
	defer os.RemoveAll(d)
	in, err := openInst(cfg, d+"/t.tar", d+"/i.db", opt)
	must(err)
	_, err = in.FS.Initialize("/", os.ModePerm)
	must(err)
	dbs := []namedDB{{"no index", nil}, {"an empty index", emptyDB(cfg)}, {"the index of the root", readDB(in)}}
	for i, o := range hist {
		o.Do(in)
		if i%2 == 0 || i == len(hist)-1 {
			dbs = append(dbs, namedDB{fmt.Sprintf("the index after %d of %d calls", i+1, len(hist)), readDB(in)})
		}
	}
	m := mediumOf(in)
	in.Close()
	ref, _, err := m.indexed(cfg)
	must(err)
	want := walkLight(ref, "/", true)
	ref.Destroy()
	const parts = 4
	c.each(fmt.Sprintf("openings with a fault %s %v", cfg, vt), fmt.Sprintf("%d indexes, every event of opening failing before and after it is done, and all from it on (pairs: %v), under %s, emulated tape=%v", len(dbs), pairs, cfg, vt), int64(len(dbs)*parts), func(i int64) {
		db, part := dbs[int(i)/parts], int(i)%parts
		one := func(f *faults) (n int, d string) {
			journal("opening " + cfg.String() + " " + db.name + f.String())
			o := f.opt()
			o.Tape = m.dup().vt
			x, err := onTape(cfg, m.t, db.db, o)
			if err != nil {
				return 0, err.Error()
			}
			defer x.Destroy()
			f.set(true)
			var ierr error
			out := guarded(func() Out { _, ierr = x.FS.Initialize("/", os.ModePerm); return ok() })
			f.set(false)
			if out.Class != "ok" {
				return f.n, out.Class
			}
			c.add("openings", 1)
			now := mediumOf(x)
			if !m.prefixOf(now) {
				return f.n, "opening changed what was on the tape"
			}
			// A blank tape can't be read either, so with two faults this one may look like one.
			blank := vt && len(f.at) > 1 && now.size() > m.size()
			if now.size() != m.size() && !blank {
				return f.n, fmt.Sprintf("opening appended something although the tape has a root (it said %v)", ierr)
			}
			// Where there's no next file, a tape ends.
			ends := false
			for k, kind := range f.kinds {
				if (f.at[k+1] != "" || f.from > 0 && k+1 >= f.from) && kind == "go to the next file on the tape" {
					ends = true
				}
			}
			if ierr == nil && !blank && !ends {
				if d := diffViews(walkLight(x, "/", true), want, "the opened filesystem", "a rebuild from scratch"); d != "" {
					return f.n, d
				}
			}
			x.Close()
			if blank {
				return f.n, ""
			}
			// Again.
			y, err := onTape(cfg, m.t, readDB(x), Opt{Tape: m.dup().vt})
			if err != nil {
				return f.n, err.Error()
			}
			defer y.Destroy()
			if _, err := y.FS.Initialize("/", os.ModePerm); err != nil {
				return f.n, "opening again: " + err.Error()
			}
			if mediumOf(y).size() != m.size() || !m.prefixOf(mediumOf(y)) {
				return f.n, "opening again changes the tape"
			}
			if d := diffViews(walkLight(y, "/", true), want, "the filesystem opened again", "a rebuild from scratch"); d != "" {
				return f.n, d
			}
			return f.n, ""
		}
		run := func(f *faults) int {
			n, d := one(f)
			c.add("histories", 1)
			c.add("transitions", int64(n)+1)
			if d != "" {
				if _, d2 := one(&faults{at: f.at, from: f.from}); d2 != "" {
					c.report(Violation{Key: "openings with a fault " + cfg.String() + fmt.Sprint(vt) + db.name + f.keys(), Sub: "openings with a fault", Cfg: cfg.String(), Ops: []string{db.name}, Detail: "with" + f.String() + ": " + d})
				}
			}
			return n
		}
		n := run(&faults{})
		for k := 1; k <= n+1; k++ {
			if k%parts != part {
				continue
			}
			if c.over() || c.nviol() >= maxViol {
				return
			}
			run(&faults{at: map[int]string{k: "before"}})
			run(&faults{at: map[int]string{k: "after"}})
			run(&faults{from: k})
			if pairs && int(i)/parts%3 == 0 {
				for l := k + 1; l <= n+2; l++ {
					run(&faults{at: map[int]string{k: "before", l: "before"}})
				}
			}
		}
		c.saw("states", fmt.Sprint(cfg, vt, db.name, n))
	})
}

func lastEnd(rs []rec) int64 {
	if len(rs) == 0 {
		return 0
	}
	return rs[len(rs)-1].end
}

func tapeDiff(a, b []byte) string {
	n := len(a)
	if len(b) < n {
		return fmt.Sprintf("%d bytes became %d", len(a), len(b))
	}
	for i := 0; i < n; i++ {
		if a[i] != b[i] {
			return fmt.Sprintf("first difference at byte %d", i)
		}
	}
	return ""
}

func init() {
	checks["C16"] = checkDef{level: "model_checking", quickS: 240, thorS: 800, run: runC16,
		rule:   "for every history of the stated alphabets and lengths: the tape as it is and cut at the first, second and last byte of every block its last call appended, with no index, an empty index, the index of before the last call, of every number of records and of the whole tape: a filesystem is opened, compared with a rebuild from scratch, written through, and compared again",
		assume: []string{"the index given is one of the same tape (older, current or newer), not of another tape"}}
}

func runC16(c *Check) {
	ops := append(replayOps(), archOps()...)
	c.exploreSeqs(&SeqSpec{Name: "openings", Setup: popSetup, Ops: ops, Depth: 1, Oracle: newReopenOracle(c, false)})
	c.exploreSeqs(&SeqSpec{Name: "openings of short tapes", Ops: smallOps(), Depth: 1, Oracle: newReopenOracle(c, true)})
	for _, cfg := range append([]Cfg{{RS: 1}, {RS: 3}}, pipeCfgs...) {
		c.exploreSeqs(&SeqSpec{Name: "configurations", Cfg: cfg, Setup: popSetup[:2], Ops: []Op{opPut("/b", pat(1500, 8)), opRename("/a", "/e"), opRemoveAll("/a")}, Depth: 1, Oracle: newReopenOracle(c, false)})
	}
	faulty := []Op{opMkdir("/a"), opPut("/a/c", pat(900, 1)), opPut("/b", []byte("x")), opRename("/b", "/e"), opRemoveAll("/a"), opPut("/n", pat(700, 2))}
	for i, cfg := range append([]Cfg{{}, {RS: 3}}, pipeCfgs[:c.pick(1, len(pipeCfgs))]...) {
		c.openFaults(cfg, false, !c.quick() && i == 0, faulty)
	}
	c.openFaults(Cfg{}, true, !c.quick(), faulty)
	c.openFaults(Cfg{RS: 2}, true, false, faulty)
	for _, rs := range []int{20, 1} {
		c.exploreSeqs(&SeqSpec{Name: "emulated tape", Cfg: Cfg{RS: rs}, Setup: popSetup[:2], Ops: smallOps(), Depth: c.pick(1, 2), Oracle: newReopenOracle(c, rs == 1), FreshOpt: func() Opt { return Opt{Tape: newVtape(rs)} }})
	}
	if !c.quick() {
		c.exploreSeqs(&SeqSpec{Name: "openings, two calls", Setup: popSetup, Ops: ops, Depth: 2, Oracle: newReopenOracle(c, false)})
		c.exploreSeqs(&SeqSpec{Name: "links", Ops: linkOps(), Depth: 2, Oracle: newReopenOracle(c, false)})
		for _, cfg := range pipeCfgs {
			c.exploreSeqs(&SeqSpec{Name: "configurations, all calls", Cfg: cfg, Setup: popSetup, Ops: smallOps(), Depth: 1, Oracle: newReopenOracle(c, true)})
		}
	}
}
