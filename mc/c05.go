package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"os"
	"strings"

	"github.com/pojntfx/stfs/pkg/config"
)

// tapeOracle follows the bytes of the tape.
type tapeOracle struct {
	prev  []byte
	state string
}

func newTapeOracle(in *Inst) Oracle { return &tapeOracle{prev: []byte(in.medium())} }

func (o *tapeOracle) State() string { return o.state }

// tapeStep judges one call by the bytes before and after it.
func tapeStep(before, after []byte, op Op, out Out) string {
	if len(after) < len(before) || !bytes.Equal(after[:len(before)], before) {
		return fmt.Sprintf("%s (%s) changed bytes which were already on the tape: %s", op.Name, out.Class, firstDiff(before, after))
	}
	if out.Class != "ok" && !partial[out.Step] && len(after) != len(before) {
		return fmt.Sprintf("%s failed (%s: %s) but appended %d bytes", op.Name, out.Step, out.Class, len(after)-len(before))
	}
	return ""
}

// partial are the later steps of sessions; what the steps before them appended stays.
var partial = map[string]bool{"write": true, "sync": true, "close": true, "seek": true}

func firstDiff(a, b []byte) string {
	if len(b) < len(a) {
		return fmt.Sprintf("it shrank from %d to %d bytes", len(a), len(b))
	}
	for i := range a {
		if a[i] != b[i] {
			return fmt.Sprintf("byte %d (block %d) was %#x, is %#x", i, i/blk, a[i], b[i])
		}
	}
	return "nothing"
}

// archives are the files of a tape; a regular file is one.
func (in *Inst) archives() (out [][]byte) {
	if in.VT == nil {
		return [][]byte{in.Tape()}
	}
	var b []byte
	for _, it := range in.VT.items {
		if it.mark {
			out, b = append(out, b), nil
			continue
		}
		b = append(b, it.data...)
	}
	if len(b) > 0 {
		out = append(out, b)
	}
	return
}

// wellFormed reads the whole tape with two independent readers and compares the members with the live contents.
func wellFormed(in *Inst) (string, string) {
	rs, err := in.records()
	if err != nil {
		return "", "independent scan: " + err.Error()
	}
	var names []string
	var contents [][]byte
	for _, t := range in.archives() {
		n, c, err := stdScan(t)
		if err != nil {
			return "", "archive/tar: " + err.Error()
		}
		names, contents = append(names, n...), append(contents, c...)
	}
	if len(names) != len(rs) {
		return "", fmt.Sprintf("archive/tar iterates %d records, the block scan finds %d", len(names), len(rs))
	}
	state := fmt.Sprint(len(in.medium()), len(rs))
	if in.Cfg.Comp != "" || in.Cfg.Enc != "" {
		return state, ""
	}
	ks := keysFor(in.Cfg)
	dec := make([]rec, len(rs))
	for i, r := range rs {
		if dec[i], err = r.decrypted(in.Cfg, ks); err != nil {
			return state, fmt.Sprintf("record at block %d: %v", r.block, err)
		}
		if dec[i].link != "" {
			return state, "" // records of links carry the name of their target; contents are compared in histories without links
		}
	}
	rp := replay(dec, in.Cfg)
	v := walkLight(in, "/", true)
	for _, p := range v.keys() {
		e := v[p]
		if e.Kind != "file" || e.Link != "" {
			continue
		}
		pl, has := rp[p]
		if !has {
			return state, "the records of the tape do not explain the live file " + p
		}
		if got := contentKey(contents[pl.content]); got != e.Content {
			return state, fmt.Sprintf("%s: its content record (block %d) extracts to %s, reading gives %s", p, rs[pl.content].block, got, e.Content)
		}
	}
	return state, ""
}

func (o *tapeOracle) Step(in *Inst, op Op, out Out, check bool) string {
	t := []byte(in.medium())
	if d := tapeStep(o.prev, t, op, out); d != "" {
		return d
	}
	o.prev = t
	if !check {
		return ""
	}
	st, d := wellFormed(in)
	if d != "" {
		return "after " + op.Name + " (" + out.Class + "): " + d
	}
	o.state = st
	if t2 := []byte(in.medium()); !bytes.Equal(t, t2) {
		return "after " + op.Name + ": reading changed the tape: " + firstDiff(t, t2)
	}
	return ""
}

// Sources which fail.

type failingFile struct {
	*bytes.Reader
	left int
}

var errSource = errors.New("injected: the source cannot be read")

func (f *failingFile) Read(p []byte) (int, error) {
	if f.left <= 0 {
		return 0, errSource
	}
	f.left--
	return f.Reader.Read(p)
}
func (f *failingFile) Close() error { return nil }

// opArchiveFail archives members, the last of which fails after a number of reads (or when it is opened).
func opArchiveFail(reads int, ms ...Member) Op {
	return Op{Name: fmt.Sprintf("archive (source of the last fails after %d reads) %s", reads, memberNames(ms)), Do: func(in *Inst) Out {
		src := source(ms)
		n := 0
		_, err := in.WriteOps.Archive(func() (config.FileConfig, error) {
			fc, err := src()
			n++
			if n == len(ms) {
				data := ms[n-1].Data
				fc.GetFile = func() (io.ReadSeekCloser, error) {
					if reads < 0 {
						return nil, errSource
					}
					return &failingFile{bytes.NewReader(data), reads}, nil
				}
			}
			return fc, err
		}, in.Cfg.Level, false, false)
		return res("close", err) // not a precondition
	}, Mod: modAny, Path: paths(ms)}
}

// sessionOps keep handles open over several steps in one call session.
func opHandle(name, p string, flag int, f func(h fileHandle) error) Op {
	return Op{Name: name, Do: func(in *Inst) Out {
		h, err := in.FS.OpenFile(p, flag, 0o640)
		if err != nil {
			return fail("open", err)
		}
		if err := f(h); err != nil {
			h.Close()
			return fail("write", err)
		}
		return res("close", h.Close())
	}, Mod: modAny, Path: []string{p}}
}

type fileHandle interface {
	io.ReadWriteSeeker
	io.WriterAt
	io.ReaderAt
	Truncate(int64) error
	Sync() error
	WriteString(string) (int, error)
}

func tapeOps() []Op {
	return []Op{
		opMkdir("/a"), opCreate("/a"), opPut("/b", []byte("bb")), opPut("/a/c", big), opCreate("/b"), opMkdirAll("/a/d/e"),
		opRename("/a", "/b"), opRename("/b", "/a"), opRename("/b", "/a/c"), opRename("/a", "/a/x"), opRename("/", "/b"),
		opRemove("/a"), opRemove("/b"), opRemove("/zz"), opRemoveAll("/a"), opRemoveAll("/zz"), opChmod("/a", 0o600), opChown("/b", 3, 4), opChtimes("/b"), opChmod("/zz", 0o600),
		opOpen("/b", os.O_WRONLY|os.O_APPEND, []byte("zz")), opOpen("/b", os.O_RDWR|os.O_TRUNC, nil), opOpen("/b", os.O_RDONLY, []byte("no")), opOpen("/zz", os.O_RDWR, nil),
		opOpen("/b", os.O_RDWR|os.O_CREATE|os.O_EXCL, []byte("E")), opSync("/b"),
		opHandle("open /b truncate 700, sync twice", "/b", os.O_RDWR, func(h fileHandle) error {
			if err := h.Truncate(700); err != nil {
				return err
			}
			if err := h.Sync(); err != nil {
				return err
			}
			return h.Sync()
		}),
	}
}

func init() {
	checks["C05"] = checkDef{level: "model_checking", quickS: 240, thorS: 800, run: runC05,
		rule: "every history of the stated alphabets and lengths is executed; after every call the tape's bytes are compared with those before it and read with two independent tar readers"}
}

// failing lets every event of every call fail: the tape is continued only, before and after the next call, and unless
// it was writing to the drive what failed, a file is a standard tar stream afterwards.
func (c *Check) failing(cfg Cfg, vt bool) {
	cfg = cfg.norm()
	var ops []fop
	for _, o := range append(fsOps(), archiveOps()...) {
		if !strings.Contains(o.name, "overwrite=true") {
			ops = append(ops, o)
		}
	}
	const parts = 2
	c.each(fmt.Sprintf("calls with a fault %s %v", cfg, vt), fmt.Sprintf("%d calls and sessions, every event on every seam failing before and after it is done, under %s, emulated tape=%v", len(ops), cfg, vt), int64(len(ops)*parts), func(i int64) {
		op, part := ops[int(i)/parts], int(i)%parts
		one := func(f *faults) (n int, d string) {
			journal("calls with a fault " + cfg.String() + " " + op.name + f.String())
			opt := f.opt()
			if vt {
				opt.Tape = newVtape(cfg.RS)
			}
			in, err := freshInst(cfg, ":memory:", opt)
			if err != nil {
				return 0, err.Error()
			}
			defer in.Destroy()
			for _, o := range popSetup {
				o.Do(in)
			}
			was := mediumOf(in)
			f.set(true)
			out := guarded(func() Out { op.do(in, f); return ok() })
			f.set(false)
			if out.Class != "ok" {
				return f.n, "" // see C10
			}
			now := mediumOf(in)
			if !was.prefixOf(now) {
				return f.n, "it changed what was on the tape: " + firstDiff(was.flat(), now.flat())
			}
			opMkdir("/after").Do(in)
			next := mediumOf(in)
			// What is appended after it may complete the last block.
			if !now.prefixOf(next) {
				return f.n, "the next call changed what was on the tape: " + firstDiff(now.flat(), next.flat())
			}
			if vt && len(f.at) > 0 {
				return f.n, "" // what a call appended before it failed can't be taken back
			}
			for k, kind := range f.kinds {
				if f.at[k+1] != "" && strings.Contains(kind, "drive") && !strings.Contains(kind, "read") {
					return f.n, ""
				}
			}
			// What is live is judged in a rebuild, as the call may have failed before it indexed what it appended.
			rb, ierr, err := next.indexed(cfg)
			if err != nil || ierr != nil {
				return f.n, fmt.Sprint("rebuilding from scratch: ", ierr, err)
			}
			defer rb.Destroy()
			_, d = wellFormed(rb)
			return f.n, d
		}
		run := func(f *faults) int {
			n, d := one(f)
			c.add("histories", 1)
			c.add("transitions", int64(n)+1)
			if d != "" {
				if _, d2 := one(&faults{at: f.at}); d2 != "" {
					c.report(Violation{Key: "calls with a fault " + cfg.String() + fmt.Sprint(vt) + op.name + f.keys(), Sub: "calls with a fault", Cfg: cfg.String(), Ops: []string{op.name}, Detail: "with" + f.String() + ": " + d})
				}
			}
			return n
		}
		n := run(&faults{})
		for k := 1; k <= n+1; k++ {
			if k%parts != part {
				continue
			}
			if c.over() || c.nviol() >= maxViol {
				return
			}
			run(&faults{at: map[int]string{k: "before"}})
			run(&faults{at: map[int]string{k: "after"}})
		}
		c.saw("states", fmt.Sprint(cfg, vt, op.name, n))
	})
}

func runC05(c *Check) {
	c.failing(Cfg{}, false)
	c.failing(Cfg{RS: 2}, true)
	if !c.quick() {
		c.failing(Cfg{Comp: "gzip", Enc: "age", Sig: "minisign", Cache: "file"}, false)
		c.failing(Cfg{RS: 1, Comp: "lz4", Sig: "pgp"}, false)
	}
	ops := append(tapeOps(), archOps()...)
	ops = append(ops, opArchiveFail(1, Member{Path: "/n", Data: big}, Member{Path: "/o", Data: big}), opArchiveFail(2, Member{Path: "/b", Data: big}), opArchiveFail(-1, Member{Path: "/n", Dir: true}, Member{Path: "/b", Data: big}),
		opDelete("/zz"), opMove("/zz", "/b"), opUpdate(true, Member{Path: "/zz", Data: big}))
	c.exploreSeqs(&SeqSpec{Name: "all calls", Ops: ops, Depth: 2, DB: ":memory:", Oracle: newTapeOracle})
	c.exploreSeqs(&SeqSpec{Name: "all calls on a populated tree", Setup: popSetup, Ops: ops, Depth: c.pick(2, 3), DB: ":memory:", Oracle: newTapeOracle})
	held, inside := heldSpaces()
	c.exploreSeqs(&SeqSpec{Name: "file held open", Setup: append(append([]Op{}, popSetup...), held[0]), Ops: held, Depth: c.pick(2, 3), DB: ":memory:", Oracle: newTapeOracle})
	c.exploreSeqs(&SeqSpec{Name: "file in a directory held open", Setup: append(append([]Op{}, popSetup...), inside[0]), Ops: inside, Depth: c.pick(2, 3), DB: ":memory:", Oracle: newTapeOracle})
	for _, lt := range linkTrees() {
		c.exploreSeqs(&SeqSpec{Name: lt.name, Setup: lt.setup, Ops: lt.ops, Depth: 2, DB: ":memory:", Oracle: newTapeOracle})
	}
	c.exploreSeqs(&SeqSpec{Name: "links", Ops: linkOps(), Depth: c.pick(2, 3), DB: ":memory:", Oracle: newTapeOracle})
	for _, cfg := range append(pipeCfgs, Cfg{RS: 1}, Cfg{RS: 7}, Cfg{Sig: "pgp"}, Cfg{Cache: "file"}) {
		c.exploreSeqs(&SeqSpec{Name: "configurations", Cfg: cfg, Setup: popSetup, Ops: append(smallOps(), archOps()...), Depth: c.pick(1, 2), DB: ":memory:", Oracle: newTapeOracle})
		c.exploreSeqs(&SeqSpec{Name: "configurations, fresh", Cfg: cfg, Ops: smallOps(), Depth: c.pick(2, 3), DB: ":memory:", Oracle: newTapeOracle})
	}
	for _, vt := range []bool{false, true} {
		name := ""
		var tape func(over bool) func() Opt
		tape = func(over bool) func() Opt { return func() Opt { return Opt{Overwrite: over} } }
		if vt {
			name = ", emulated tape"
			tape = func(over bool) func() Opt {
				return func() Opt { return Opt{Overwrite: over, Tape: newVtape(20)} }
			}
			c.exploreSeqs(&SeqSpec{Name: "emulated tape", Setup: popSetup, Ops: append(smallOps(), archOps()...), Depth: 2, DB: ":memory:", Oracle: newTapeOracle, FreshOpt: tape(false)})
		}
		some := append(smallOps(), archOps()...)
		c.exploreSeqs(&SeqSpec{Name: "drive opened to be overwritten" + name, Ops: some, Depth: 2, DB: ":memory:", Oracle: newTapeOracle, FreshOpt: tape(true)})
		c.exploreSeqs(&SeqSpec{Name: "after an explicit overwrite" + name, Ops: some, Depth: c.pick(1, 2), Oracle: newTapeOracle, FreshOpt: tape(false), Live: overwritten})
		c.exploreSeqs(&SeqSpec{Name: "after initializing again" + name, Ops: some, Depth: c.pick(1, 2), Oracle: newTapeOracle, FreshOpt: tape(false), Live: initialized})
	}
	c.exploreBFS(&BFSSpec{Name: "search", Ops: ops, Depth: c.pick(3, 5), Extra: func(in *Inst, before *snap, op Op, out Out) string {
		if d := tapeStep(before.Tape, in.Tape(), op, out); d != "" {
			return d
		}
		_, d := wellFormed(in)
		return d
	}})
}
