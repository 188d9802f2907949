package main

import (
	"fmt"
	"io"
	"io/fs"
	"os"
	"sort"
	"strings"
	"time"

	"github.com/pojntfx/stfs/pkg/cache"
	"github.com/pojntfx/stfs/pkg/config"
	sfs "github.com/pojntfx/stfs/pkg/fs"
	"github.com/pojntfx/stfs/pkg/operations"
	"github.com/pojntfx/stfs/pkg/recovery"
)

// fop is one call, or a session of calls on a handle in which every call is made whether or not the ones before
// it failed.
type fop struct {
	name string
	do   func(in *Inst, f *faults) string // what happened, for counting
}

func fopOf(o Op) fop {
	return fop{o.Name, func(in *Inst, _ *faults) string { r := o.Do(in); return r.Step + ":" + faultClass(r.Class) }}
}

func faultClass(c string) string {
	if strings.Contains(c, errInjected.Error()) {
		return "injected"
	}
	return c
}

func cl(err error) string {
	if err == nil {
		return "ok"
	}
	return faultClass(errClass(err))
}

// session opens a file and makes the calls on it.
func session(p string, flag int, calls ...hop) fop {
	var names []string
	for _, h := range calls {
		names = append(names, h.name)
	}
	return fop{fmt.Sprintf("open %s %s; %s; close", p, flagName(flag), strings.Join(names, "; ")), func(in *Inst, _ *faults) string {
		h, err := in.FS.OpenFile(p, flag, 0o640)
		if err != nil {
			return "open:" + cl(err)
		}
		s := "open:ok"
		for _, x := range calls {
			s += " " + fmt.Sprint(x.do(h).err)
		}
		s += " close:" + cl(h.Close())
		h.Close() // closing again has to return, too
		return s
	}}
}

func archiveOps() []fop {
	ms := []Member{{Path: "/a", Dir: true}, {Path: "/n", Data: pat(700, 1)}, {Path: "/b", Data: nil}}
	over := func(overwrite bool) fop {
		return fop{fmt.Sprintf("archive overwrite=%v", overwrite), func(in *Inst, f *faults) string {
			_, err := in.WriteOps.Archive(f.source(source(ms)), in.Cfg.Level, overwrite, false)
			return cl(err)
		}}
	}
	upd := func(replace bool, m ...Member) fop {
		return fop{fmt.Sprintf("update replace=%v %s", replace, memberNames(m)), func(in *Inst, f *faults) string {
			_, err := in.WriteOps.Update(f.source(source(m)), in.Cfg.Level, replace, false)
			return cl(err)
		}}
	}
	restore := func(from string) fop {
		return fop{"restore " + from, func(in *Inst, f *faults) string {
			m := map[string][]byte{}
			return cl(in.ReadOps.Restore(
				f.dst(func(p string, mode fs.FileMode) (io.WriteCloser, error) { return &memDst{m: m, p: p}, nil }),
				func(p string, mode fs.FileMode) error {
					return f.do("make the destination directory", func() error { return nil })
				},
				from, "", false))
		}}
	}
	return []fop{
		over(false), over(true),
		upd(true, Member{Path: "/b", Data: pat(900, 2)}), upd(false, Member{Path: "/b", Data: []byte("bbb"), Perm: 0o600}), upd(true, Member{Path: "/missing", Data: []byte("x")}),
		upd(true, Member{Path: "/a/c", Data: []byte("n")}, Member{Path: "/b", Data: nil}),
		fopOf(opDelete("/a")), fopOf(opDelete("/b")), fopOf(opDelete("/missing")), fopOf(opMove("/a", "/z")), fopOf(opMove("/b", "/a/y")), fopOf(opMove("/missing", "/z")),
		restore("/"), restore("/b"), restore("/a"), restore("/missing"),
		{"initialize", func(in *Inst, f *faults) string { _, err := in.FS.Initialize("/", os.ModePerm); return cl(err) }},
		{"index", func(in *Inst, f *faults) string { return cl(indexFrom(in, 0, 0, true)) }},
		{"index over it", func(in *Inst, f *faults) string { return cl(indexFrom(in, 0, 0, false)) }},
		{"query", func(in *Inst, f *faults) string {
			rd, err := in.Backend.GetReader()
			if err != nil {
				return cl(err)
			}
			defer in.Backend.CloseReader()
			ks := keysFor(in.Cfg)
			_, err = recovery.Query(rd, in.Backend.MagneticTapeIO, in.Cfg.pipes(), config.CryptoConfig{Recipient: ks.SigPub, Identity: ks.EncPriv}, 0, 0, func(*config.Header) {})
			return cl(err)
		}},
	}
}

func fsOps() []fop {
	W, R, RW, A, T, C := os.O_WRONLY, os.O_RDONLY, os.O_RDWR, os.O_APPEND, os.O_TRUNC, os.O_CREATE
	out := []fop{
		fopOf(opMkdir("/n")), fopOf(opMkdir("/missing/n")), fopOf(opMkdirAll("/m/n/o")), fopOf(opCreate("/n")), fopOf(opPut("/n", pat(1500, 9))),
		fopOf(opRemove("/b")), fopOf(opRemove("/missing")), fopOf(opRemove("/a")), fopOf(opRemoveAll("/a")), fopOf(opRemoveAll("/missing")),
		fopOf(opRename("/b", "/n")), fopOf(opRename("/b", "/a/c")), fopOf(opRename("/a", "/n")), fopOf(opRename("/missing", "/n")), fopOf(opRename("/a", "/a/c/d")),
		fopOf(opChmod("/b", 0o600)), fopOf(opChown("/b", 7, 8)), fopOf(opChtimes("/a")), fopOf(opChmod("/missing", 0o600)), fopOf(opStat("/a/c")), fopOf(opStat("/missing")),
		fopOf(opSymlink("/b", "/l")),
		{"readlink /b", func(in *Inst, _ *faults) string { _, err := in.FS.ReadlinkIfPossible("/b"); return cl(err) }},
		{"lstat /b", func(in *Inst, _ *faults) string { _, _, err := in.FS.LstatIfPossible("/b"); return cl(err) }},
		{"list /", func(in *Inst, _ *faults) string { _, err := list(in, "/", -1); return cl(err) }},
		{"list 1 of /a", func(in *Inst, _ *faults) string { _, err := list(in, "/a", 1); return cl(err) }},
		session("/b", R, hRead(2), hRead(100), hRead(1)),
		session("/a/c", R, hRead(700), hSeek(0, 0), hRead(10), hReadAt(5, 1000), hStat()),
		session("/a/c", R, hSeek(-10, 2), hRead(100), hSeek(3, 1)),
		session("/a/c", R),
		session("/b", RW, hWrite(pat(600, 3)), hSync(), hSeek(0, 0), hRead(10), hWrite([]byte("q")), hTruncate(3)),
		session("/b", W|A, hWrite([]byte("more")), hSync(), hWrite([]byte("even more"))),
		session("/b", RW|T, hStat(), hRead(1)),
		session("/a/c", RW, hTruncate(100), hWriteAt([]byte("zz"), 200), hReadAt(10, 195)),
		session("/new", RW|C, hWrite(pat(2000, 4)), hReadAt(10, 1500), hSeek(0, 2)),
		session("/new", W|C|os.O_EXCL),
		session("/missing", RW),
		{"leave /a/c open after reading of it; stat /b; read on; close", func(in *Inst, _ *faults) string {
			h, err := in.FS.Open("/a/c")
			if err != nil {
				return cl(err)
			}
			b := make([]byte, 10)
			_, e1 := h.Read(b)
			_, e2 := in.FS.Stat("/b")
			e3 := in.FS.Mkdir("/during", 0o700)
			_, e4 := h.Read(b)
			return fmt.Sprint(cl(e1), cl(e2), cl(e3), cl(e4), cl(h.Close()))
		}},
		{"leave /b open after writing to it; put /n; write on; close", func(in *Inst, _ *faults) string {
			h, err := in.FS.OpenFile("/b", os.O_RDWR, 0)
			if err != nil {
				return cl(err)
			}
			_, e1 := h.Write([]byte("one"))
			r := opPut("/n", []byte("n")).Do(in)
			_, e2 := h.Write([]byte("two"))
			return fmt.Sprint(cl(e1), r.Class, cl(e2), cl(h.Close()))
		}},
		{"read /a/c to the end through two handles", func(in *Inst, _ *faults) string {
			h1, e1 := in.FS.Open("/a/c")
			h2, e2 := in.FS.Open("/a/c")
			if e1 != nil || e2 != nil {
				if e1 == nil {
					h1.Close()
				}
				if e2 == nil {
					h2.Close()
				}
				return "open"
			}
			b := make([]byte, 100)
			h1.Read(b)
			h2.Read(b)
			_, r1 := readAll(h1)
			_, r2 := readAll(h2)
			return fmt.Sprint(cl(r1), cl(r2), cl(h2.Close()), cl(h1.Close()))
		}},
	}
	return out
}

// probe makes calls of every kind after the faults are over. They have to return, and to do what they say.
func probe(in *Inst, overwritten bool) string {
	if _, err := in.FS.Stat("/"); err != nil {
		return "stat /: " + err.Error()
	}
	if out := opPut("/probe", pat(1300, 5)).Do(in); out.Class != "ok" {
		return "put /probe: " + out.Step + " " + out.Class
	}
	b, err := readFile(in.FS, "/probe")
	if err != nil {
		return "reading /probe: " + err.Error()
	}
	if contentKey(b) != contentKey(pat(1300, 5)) {
		return "reading /probe gives " + contentKey(b)
	}
	if _, err := list(in, "/", -1); err != nil {
		return "listing /: " + err.Error()
	}
	if _, _, err := restoreTo(in, "/probe"); err != nil {
		return "restoring /probe: " + err.Error()
	}
	if out := opArchive(Member{Path: "/probe2", Data: []byte("p")}).Do(in); out.Class != "ok" {
		return "archiving: " + out.Class
	}
	if out := opRemove("/probe").Do(in); out.Class != "ok" {
		return "removing /probe: " + out.Class
	}
	return ""
}

func hangs() time.Duration { return 20 * time.Second }

// faultRun executes one call with the given faults on a populated instance and probes it. It returns how many events
// there were, what happened, and what is wrong.
func faultRun(cfg Cfg, setup []Op, ops []fop, f *faults, vt bool) (n int, what, d string) {
	opt := f.opt()
	if vt {
		opt.Tape = newVtape(cfg.RS)
	}
	in, err := freshInst(cfg, ":memory:", opt)
	if err != nil {
		return 0, "", "initialize: " + err.Error()
	}
	hung := false
	defer func() {
		if !hung {
			in.Destroy()
		}
	}()
	for _, o := range setup {
		if out := o.Do(in); out.Class != "ok" {
			return 0, "", "setup " + o.Name + ": " + out.Class
		}
	}
	f.set(true)
	for _, op := range ops {
		out := guarded(func() Out { what += op.do(in, f) + ";"; return ok() })
		if out.Class != "ok" {
			hung = true
			return f.n, what, op.name + ": " + out.Class + "\n" + out.Info
		}
	}
	f.set(false)
	n = f.n
	var pd string
	out := guarded(func() Out { pd = probe(in, false); return ok() })
	if out.Class != "ok" {
		hung = true
		return n, what, "the drive is not free afterwards: " + out.Class + "\n" + out.Info
	}
	for _, op := range ops {
		if strings.Contains(op.name, "overwrite=true") || op.name == "index" {
			return n, what, "" // there may be nothing left to probe with
		}
	}
	// What a failed append leaves on a tape cannot be taken back, so there the next calls have to return only.
	if pd != "" && (!vt || n == 0 || len(f.at) == 0 && f.from == 0) {
		return n, what, "the next calls fail: " + pd
	}
	return n, what, ""
}

// faultsOf runs the calls without faults, then with every single event failing in every way, then with all events
// from each one on failing, and (deep) with every pair of events failing.
func (c *Check) faultsOf(name string, cfg Cfg, ops []fop, vt bool, deep int) {
	cfg = cfg.norm()
	type job struct {
		op   fop
		part int
	}
	const parts = 2
	var jobs []job
	for _, o := range ops {
		for p := 0; p < parts; p++ {
			jobs = append(jobs, job{o, p})
		}
	}
	c.each(name+" "+cfg.keyPart()+fmt.Sprint(cfg.RS), fmt.Sprintf("%d calls and sessions, every event on every seam failing before and after it is done, and all events from it on, under %s", len(ops), cfg), int64(len(jobs)), func(i int64) {
		op, part := jobs[i].op, jobs[i].part
		run := func(f *faults) (int, string) {
			journal(name + " " + cfg.String() + " " + op.name + f.String())
			n, what, d := faultRun(cfg, popSetup, []fop{op}, f, vt)
			c.add("histories", 1)
			c.add("transitions", int64(n)+1)
			c.saw("states", op.name+what+fmt.Sprint(vt)+cfg.String())
			if d != "" {
				f2 := &faults{at: f.at, from: f.from}
				if _, _, d2 := faultRun(cfg, popSetup, []fop{op}, f2, vt); d2 == "" {
					c.note("not reproduced: " + op.name + f.String() + ": " + d)
					d = ""
				}
			}
			if d != "" {
				c.report(Violation{Key: name + " " + cfg.keyPart() + op.name + f.keys(), Sub: name, Cfg: cfg.String(), Ops: []string{op.name}, Detail: "with" + f.String() + ": " + d})
			}
			return n, d
		}
		base := &faults{}
		n, d := run(base)
		if d != "" {
			return
		}
		kinds := base.kinds
		for k := 1; k <= n+1; k++ { // a failing event may lead to further ones
			if k%parts != part {
				continue
			}
			for _, how := range []string{"before", "after"} {
				if c.over() || c.nviol() >= maxViol {
					return
				}
				if k <= n && how == "after" && onlyBefore(kinds[k-1]) {
					continue
				}
				run(&faults{at: map[int]string{k: how}})
			}
			run(&faults{from: k})
			for l := k + 1; deep > 0 && l <= n+deep; l++ {
				if c.over() || c.nviol() >= maxViol {
					return
				}
				run(&faults{at: map[int]string{k: "before", l: "before"}})
			}
		}
	})
}

func onlyBefore(kind string) bool {
	return strings.HasPrefix(kind, "open ") || strings.HasPrefix(kind, "close ") || strings.HasPrefix(kind, "clean ") || strings.HasPrefix(kind, "next ")
}

// keys names the faults stably: kinds of the failing events.
func (f *faults) keys() string {
	var s []string
	for k, how := range f.at {
		kind := "?"
		if k <= len(f.kinds) {
			kind = f.kinds[k-1]
		}
		s = append(s, fmt.Sprintf("%d %s fails %s", k, kind, how))
	}
	sort.Strings(s)
	if f.from > 0 {
		s = append(s, fmt.Sprintf("all from %d fail", f.from))
	}
	if len(s) == 0 {
		return ""
	}
	return " with " + strings.Join(s, ", ")
}

func init() {
	checks["C10"] = checkDef{level: "model_checking", quickS: 240, thorS: 800, run: runC10,
		rule: "every call of the alphabet on a populated filesystem is run once to count its events on the seams (drive, index, source, destination, write cache); then once for every event and way of failing, for everything from that event on failing, and (thorough) for pairs of events; every call has to return, and calls of every kind have to succeed afterwards"}
}

// rejected are calls with something that is not supported or not there, on several kinds of instances.
func (c *Check) rejected() {
	type inst struct {
		name string
		cfg  Cfg
		opt  Opt
		set  func(in *Inst)
	}
	bad := func(what string, set func(in *Inst)) inst { return inst{what, Cfg{}, Opt{}, set} }
	rewire := func(in *Inst, p config.PipeConfig, rc, wc config.CryptoConfig, level string) {
		mc := config.MetadataConfig{Metadata: in.Meta}
		in.ReadOps = operations.NewOperations(in.Backend, mc, p, rc, func(*config.HeaderEvent) {})
		in.WriteOps = operations.NewOperations(in.Backend, mc, p, wc, func(*config.HeaderEvent) {})
		in.Cfg.Level = level
		in.FS = sfs.NewSTFS(in.ReadOps, in.WriteOps, mc, level, func() (cache.WriteCache, func() error, error) {
			return cache.NewCacheWrite(scratch+"/wc", in.Cfg.Cache)
		}, false, false, func(*config.Header) {}, nopLogger{})
	}
	pipe := func(what string, p config.PipeConfig) inst {
		p.RecordSize = 20
		return bad(what, func(in *Inst) { rewire(in, p, config.CryptoConfig{}, config.CryptoConfig{}, "fastest") })
	}
	insts := []inst{
		pipe("unsupported compression", config.PipeConfig{Compression: "nonsense"}), pipe("unsupported encryption", config.PipeConfig{Encryption: "nonsense"}), pipe("unsupported signature", config.PipeConfig{Signature: "nonsense"}),
		pipe("no keys for age", config.PipeConfig{Encryption: "age"}), pipe("no keys for pgp", config.PipeConfig{Encryption: "pgp"}), pipe("no keys for minisign", config.PipeConfig{Signature: "minisign"}), pipe("no keys for pgp signatures", config.PipeConfig{Signature: "pgp"}),
		pipe("reading plain records as encrypted", config.PipeConfig{Encryption: "age", Compression: "gzip"}),
		{"no write cache", Cfg{}, Opt{WrapCache: func(func() (cache.WriteCache, func() error, error)) func() (cache.WriteCache, func() error, error) {
			return func() (cache.WriteCache, func() error, error) { return nil, nil, errInjected }
		}}, nil},
		{"an unsupported write cache", Cfg{}, Opt{WrapCache: func(func() (cache.WriteCache, func() error, error)) func() (cache.WriteCache, func() error, error) {
			return func() (cache.WriteCache, func() error, error) { return cache.NewCacheWrite(scratch, "nonsense") }
		}}, nil},
	}
	for _, comp := range config.KnownCompressionFormats {
		comp := comp
		insts = append(insts, bad("unsupported level of "+or(comp, "no compression"), func(in *Inst) {
			rewire(in, config.PipeConfig{Compression: comp, RecordSize: 20}, config.CryptoConfig{}, config.CryptoConfig{}, "nonsense")
		}))
	}
	pos := func(name string, record, block int64) fop {
		return fop{name, func(in *Inst, f *faults) string {
			rd, err := in.Backend.GetReader()
			if err != nil {
				return cl(err)
			}
			defer in.Backend.CloseReader()
			_, _, err = fetchFrom(rd, in.Backend.MagneticTapeIO, in.Cfg, keysFor(in.Cfg), record, block)
			return cl(err)
		}}
	}
	idx := func(name string, record, block int) fop {
		return fop{name, func(in *Inst, f *faults) string { return cl(indexFrom(in, record, block, false)) }}
	}
	ops := append(append(fsOps(), archiveOps()...), pos("fetch at record 0 block 1", 0, 1), pos("fetch past the end", 9, 19), pos("fetch far past the end", 1<<30, 0), pos("fetch at a negative record", -1, 0),
		idx("index past the end", 99, 0), idx("index at a negative record", -1, 0), idx("index in the middle of a record", 0, 1))
	for _, vt := range []bool{false, true} {
		for _, x := range insts {
			x, vt := x, vt
			c.each(fmt.Sprintf("rejected calls, %s, emulated tape=%v", x.name, vt), fmt.Sprintf("%d calls and sessions", len(ops)), int64(len(ops)), func(i int64) {
				op := ops[i]
				journal("rejected calls, " + x.name + ": " + op.name)
				run := func() string {
					opt := x.opt
					if vt {
						opt.Tape = newVtape(20)
					}
					plain := opt
					plain.WrapCache = nil
					in, err := freshInst(x.cfg, ":memory:", plain)
					if err != nil {
						return err.Error()
					}
					for _, o := range popSetup {
						if out := o.Do(in); out.Class != "ok" {
							return "setup " + o.Name + ": " + out.Class
						}
					}
					good := *in
					if x.set != nil {
						x.set(in)
					} else {
						bad, err := openInst(x.cfg, in.Drive, ":memory:", opt)
						if err != nil {
							return err.Error()
						}
						if _, err := bad.FS.Initialize("/", os.ModePerm); err != nil {
							return err.Error()
						}
						in, good = bad, *bad
					}
					what := ""
					f := &faults{}
					if d := guardS(func() string { what = op.do(in, f); return "" }); d != "" {
						return d
					}
					c.add("transitions", 1)
					c.add("histories", 1)
					c.saw("states", x.name+op.name+what+fmt.Sprint(vt))
					if d := guardS(func() string { probe(in, false); return "" }); d != "" {
						return "the drive is not free afterwards: " + d
					}
					if x.set == nil || vt || strings.Contains(op.name, "overwrite=true") || op.name == "index" {
						good.Destroy()
						return ""
					}
					// The same drive and index through an instance with nothing wrong.
					d := guardS(func() string { return probe(&good, false) })
					good.Destroy()
					if d != "" {
						return "the next calls through another instance fail: " + d
					}
					return ""
				}
				if d := run(); d != "" && run() != "" {
					c.report(Violation{Key: fmt.Sprintf("rejected calls, %s, %s, tape=%v", x.name, op.name, vt), Sub: "rejected calls", Ops: []string{x.name, op.name}, Detail: d})
				}
			})
		}
	}
}

func runC10(c *Check) {
	defer c.rejected()
	hangLimit = hangs()
	c.faultsOf("filesystem calls", Cfg{}, fsOps(), false, c.pick(0, 1))
	c.faultsOf("archive calls", Cfg{}, archiveOps(), false, c.pick(0, 1))
	c.faultsOf("emulated tape: filesystem calls", Cfg{RS: 2}, fsOps(), true, 0)
	c.faultsOf("emulated tape: archive calls", Cfg{RS: 2}, archiveOps(), true, 0)
	c.faultsOf("filesystem calls", Cfg{Comp: "gzip", Enc: "age", Sig: "minisign", Cache: "file"}, fsOps(), false, 0)
}
