package main

import (
	"archive/tar"
	"fmt"
	"os"
	"path"
	"strings"

	"github.com/pojntfx/stfs/pkg/config"
	"github.com/pojntfx/stfs/pkg/encryption"
	"github.com/pojntfx/stfs/pkg/recovery"
	"github.com/pojntfx/stfs/pkg/signature"
)

// tornOracle cuts the tape at every point inside what the last call appended and rebuilds from what is left.
type tornOracle struct {
	c           *Check
	part, parts int // every byte whose offset is part modulo parts; not only the bytes around block boundaries
	prev        int // length of the tape before the call
	last        string
}

func newTornOracle(c *Check, part, parts int) func(*Inst) Oracle {
	return func(in *Inst) Oracle { return &tornOracle{c: c, part: part, parts: parts, prev: len(in.Tape())} }
}

func (o *tornOracle) State() string { return o.last }

func (o *tornOracle) Step(in *Inst, op Op, out Out, check bool) string {
	t := in.Tape()
	prev := o.prev
	o.prev = len(t)
	if !check || len(t) == prev {
		return ""
	}
	d := tornTape(o.c, in.Cfg, t, prev, cutPoints(prev, len(t), o.part, o.parts, o.c.quick()))
	o.last = fmt.Sprint(len(t)-prev, op.Name) + contentKey([]byte(strings.Join(paxless(t), ",")))
	if d != "" {
		return "cut during " + op.Name + " (" + out.Class + "): " + d
	}
	return ""
}

// paxless names the records of a tape without what depends on the time.
func paxless(t []byte) (out []string) {
	rs, _ := scanTape(t)
	for _, r := range rs {
		out = append(out, fmt.Sprintf("%s %c %d %s %s", r.name, r.typ, r.size, r.pax["STFS.Action"], r.pax["STFS.ReplacesName"]))
	}
	return
}

func cutPoints(from, to, part, parts int, quick bool) (out []int) {
	if parts > 0 {
		for x := from + part; x < to; x += parts {
			out = append(out, x)
		}
		return
	}
	for b := from; b < to; b += blk {
		for _, d := range []int{0, 1, 256, blk - 1} {
			if b+d < to && !(quick && d == 256) {
				out = append(out, b+d)
			}
		}
	}
	return
}

// rebuiltView indexes a tape from scratch into a fresh index and shows it. The error of the indexer is returned
// too, but what counts is the index it leaves.
func indexedInst(cfg Cfg, t []byte) (*Inst, error, error) {
	d := newDir()
	in, err := openInst(cfg, d+"/t.tar", ":memory:", Opt{})
	if err != nil {
		return nil, nil, err
	}
	in.Dir = d
	must(os.WriteFile(in.Drive, t, 0o600))
	return in, indexTape(in, nil, true, 0, 0), nil
}

// recName is the path of the entry a record is about.
func recNames(r rec, cfg Cfg) (out []string) {
	x, err := r.decrypted(cfg, keysFor(cfg))
	if err != nil {
		return nil
	}
	n := x.name
	if _, sized := x.pax["STFS.UncompressedSize"]; sized {
		out = append(out, path.Clean("/"+strings.TrimSuffix(n, cfg.suffix())))
	}
	out = append(out, path.Clean("/"+n))
	if f := x.pax["STFS.ReplacesName"]; f != "" {
		out = append(out, path.Clean("/"+f))
	}
	return
}

func under(p, dir string) bool {
	return p != dir && (dir == "/" || strings.HasPrefix(p, dir+"/"))
}

// noContent is the entry without what reading it gives.
func (e Ent) noContent() Ent { e.Content, e.Err = "", ""; return e }

// tornTape rebuilds from every given cut of the tape and compares with the states after the records before and
// after the cut, as rebuilt from whole tapes.
func tornTape(c *Check, cfg Cfg, t []byte, prev int, cuts []int) string {
	rs, err := scanTape(t)
	if err != nil {
		return "independent scan: " + err.Error()
	}
	look := walkLight
	for _, r := range rs {
		if x, err := r.decrypted(cfg, keysFor(cfg)); err != nil || x.typ == tar.TypeSymlink || x.link != "" || c.Tier == "thorough" {
			look = walk
		}
	}
	views := map[int]View{}
	view := func(j int) (View, string) { // after the first j records
		if v, has := views[j]; has {
			return v, ""
		}
		var whole []byte
		if j > 0 {
			whole = append(append(whole, t[:rs[j-1].end]...), make([]byte, 2*blk)...)
		}
		in, ierr, err := indexedInst(cfg, whole)
		if err != nil {
			return nil, err.Error()
		}
		defer in.Destroy()
		if ierr != nil && j > 0 {
			return nil, fmt.Sprintf("indexing the first %d records: %v", j, ierr)
		}
		v := look(in, "/", true)
		// The independent reading of the same records.
		if j > 0 {
			var dec []rec
			for _, r := range rs[:j] {
				x, err := r.decrypted(in.Cfg, keysFor(in.Cfg))
				if err != nil {
					return nil, "independent scan: " + err.Error()
				}
				dec = append(dec, x)
			}
			want := replay(dec, in.Cfg)
			for _, x := range dec {
				if x.typ == '2' || x.link != "" {
					want = nil // what links show is compared before and after only
				}
			}
			for p, e := range v {
				if want == nil {
					break
				}
				w, has := want[p]
				if !has {
					return nil, fmt.Sprintf("after %d records %q is shown, which no record created", j, p)
				}
				if e.Kind == "file" && e.Link == "" && e.Size != w.size {
					return nil, fmt.Sprintf("after %d records %q has %d bytes, its record says %d", j, p, e.Size, w.size)
				}
			}
		}
		views[j] = v
		return v, ""
	}
	// The index of the previous cut is purged and used again, except at block boundaries, where it is made anew.
	var reused *Inst
	defer func() {
		if reused != nil {
			reused.Destroy()
		}
	}()
	for k := len(cuts) - 1; k >= 0; k-- {
		cut := cuts[k]
		j := 0
		for j < len(rs) && rs[j].end <= int64(cut) {
			j++
		}
		vj, d := view(j)
		if d != "" {
			return d
		}
		vn, torn := vj, map[string]bool{}
		if j < len(rs) {
			if vn, d = view(j + 1); d != "" {
				return d
			}
			for _, p := range recNames(rs[j], cfg.norm()) {
				torn[p] = true
			}
			for p, e := range vn { // Links show the entry they lead to
				if e.Link != "" && torn[path.Join(path.Dir(p), e.Link)] || torn[e.Link] || torn["/"+e.Link] {
					torn[p] = true
				}
			}
		}
		what := fmt.Sprintf("cut at byte %d (%d of %d records whole, %d bytes into block %d)", cut, j, len(rs), cut%blk, cut/blk)
		var in *Inst
		var ierr, err error
		if reused != nil && cut%blk != 0 {
			in = reused
			must(os.Truncate(in.Drive, int64(cut)))
			ierr = indexTape(in, nil, true, 0, 0)
		} else if in, ierr, err = indexedInst(cfg, t[:cut]); err != nil {
			return err.Error()
		}
		c.add("cuts", 1)
		d = func() string {
			got := look(in, "/", true)
			if d := cutView(got, vj, vn, torn); d != "" {
				return fmt.Sprintf("%s (the indexer said %v)", d, ierr)
			}
			for p := range torn {
				e, has := got[p]
				if !has || e.Kind != "file" || e.Link != "" {
					continue
				}
				m, _, err := restoreTo(in, p)
				if err != nil {
					continue
				}
				b, has := m[p]
				if !has {
					return fmt.Sprintf("restoring %q reports success and restores nothing", p)
				}
				want := vj[p]
				if e.noContent() != want.noContent() {
					want = vn[p]
				}
				if contentKey(b) != want.Content {
					return fmt.Sprintf("restoring %q gives %s without an error, written was %s", p, contentKey(b), want.Content)
				}
			}
			// Fetching the torn record by its position.
			if j < len(rs) && rs[j].size > 0 && rs[j].typ == '0' {
				n := rs[j].block
				got, _, err := fetchAt(in.Cfg, keysFor(in.Cfg), in.Drive, n/int64(in.Cfg.RS), n%int64(in.Cfg.RS))
				if err == nil && len(got) > 0 {
					okc := false
					for p := range torn {
						okc = okc || vn[p].Content == contentKey(got)
					}
					if !okc {
						return fmt.Sprintf("fetching the torn record gives %s without an error", contentKey(got))
					}
				}
			}
			return ""
		}()
		tl := len(in.Tape())
		if reused != nil && reused != in {
			reused.Destroy()
		}
		reused = in
		if d != "" {
			return what + ": " + d
		}
		if tl != cut {
			return what + ": rebuilding changed the tape's length"
		}
	}
	return ""
}

// cutView compares what is shown after a cut inside record j+1 with the states after j and j+1 records.
func cutView(got, vj, vn View, torn map[string]bool) string {
	below := func(p string) bool {
		for q := range torn {
			if under(p, q) && q != "/" {
				return true
			}
		}
		return false
	}
	for _, p := range got.keys() {
		e := got[p]
		w, has := vj[p]
		if has && e == w {
			continue
		}
		if !torn[p] {
			return fmt.Sprintf("%q is %v, the state after the last whole record has %v", p, e, w)
		}
		n, nhas := vn[p]
		if !nhas || e.noContent() != n.noContent() {
			return fmt.Sprintf("torn entry %q is %v, before the torn record %v, after it %v", p, e, w, n)
		}
		if e.Kind == "file" && e.Content != n.Content && !strings.HasPrefix(e.Content, "ERR") {
			return fmt.Sprintf("torn entry %q reads as %s without an error, written was %s", p, e.Content, n.Content)
		}
	}
	for _, p := range vj.keys() {
		if _, has := got[p]; has {
			continue
		}
		if _, inNext := vn[p]; !inNext && (torn[p] || below(p)) {
			continue
		}
		return fmt.Sprintf("%q is lost, the state after the last whole record has %v", p, vj[p])
	}
	return ""
}

// tornMatrix cuts one record with content under one configuration, at every byte around block boundaries.
func (c *Check) tornMatrix(cfgs []Cfg, contents []content) {
	c.each("content records of all pipelines", fmt.Sprintf("%d configurations x %d contents, created and replaced, cut around every block boundary", len(cfgs), len(contents)), int64(len(cfgs)*len(contents)), func(i int64) {
		cfg, x := cfgs[int(i)%len(cfgs)].norm(), contents[int(i)/len(cfgs)]
		journal("pipelines " + cfg.String() + " " + x.name)
		run := func() string {
			return guardS(func() string {
				in, err := freshInst(cfg, ":memory:", Opt{})
				if err != nil {
					return err.Error()
				}
				defer in.Destroy()
				for _, how := range []string{"file", "file extended", "update", "archive"} {
					from := len(in.Tape())
					if how == "update" || how == "archive" {
						err = writeAs(in, how, srcKinds[0], "/x", append([]byte("new"), x.b...))
					} else {
						err = writeAs(in, how, "", "/x", x.b)
					}
					if err != nil {
						return how + ": " + err.Error()
					}
					t := in.Tape()
					c.add("transitions", 1)
					c.add("histories", 1)
					c.saw("states", cfg.String()+x.name+how)
					if d := tornTape(c, cfg, t, from, cutPoints(from, len(t), 0, 0, c.quick())); d != "" {
						return x.name + " by " + how + ": " + d
					}
				}
				return ""
			})
		}
		if d := run(); d != "" && (run() != "" || run() != "") {
			c.report(Violation{Key: "pipelines " + cfg.String() + " " + x.name, Sub: "pipelines", Cfg: cfg.String(), Ops: []string{"put " + x.name}, Detail: d})
		}
	})
}

// tornDrive cuts an emulated tape after every record, with and without a file mark.
func (c *Check) tornDrive(cfg Cfg, ops []Op) {
	n := int64(len(ops) * len(ops))
	c.each("emulated tape "+cfg.norm().String(), fmt.Sprintf("all %d^2 call sequences, cut after every record of the drive, with and without a mark", len(ops)), n, func(i int64) {
		seq := []Op{ops[int(i)/len(ops)], ops[int(i)%len(ops)]}
		journal("emulated tape " + strings.Join(opNames(seq), "; "))
		run := func() string { return guardS(func() string { return c.tornDriveCase(cfg.norm(), seq) }) }
		if d := run(); d != "" && run() != "" {
			c.report(Violation{Key: "emulated tape " + strings.Join(opNames(seq), "; "), Sub: "emulated tape", Cfg: cfg.norm().String(), Ops: opNames(seq), Detail: d})
		}
	})
}

func (c *Check) tornDriveCase(cfg Cfg, seq []Op) string {
	vt := newVtape(cfg.RS)
	in, err := freshInst(cfg, ":memory:", Opt{Tape: vt})
	if err != nil {
		return err.Error()
	}
	defer in.Destroy()
	must2 := func(o Op) { o.Do(in) }
	must2(opPut("/k", []byte("kept")))
	must2(opMkdir("/a"))
	var from int
	for _, op := range seq {
		from = len(vt.items)
		op.Do(in)
		c.add("transitions", 1)
	}
	c.add("histories", 1)
	// The same bytes as one stream: marks fall between archives.
	var flat []byte
	for _, it := range vt.items {
		flat = append(flat, it.data...)
	}
	rs, err := scanTape(flat)
	if err != nil {
		return "independent scan: " + err.Error()
	}
	for cut := from; cut < len(vt.items); cut++ {
		var n int64
		for _, it := range vt.items[:cut] {
			n += int64(len(it.data))
		}
		for _, mark := range []bool{false, true} {
			if mark && (cut == 0 || vt.items[cut-1].mark) {
				continue
			}
			j := 0
			for j < len(rs) && rs[j].end <= n {
				j++
			}
			x := newVtape(cfg.RS)
			x.items = append([]vitem{}, vt.items[:cut]...)
			if mark {
				x.items = append(x.items, vitem{mark: true})
			}
			d := newDir()
			rb, err := openInst(cfg, d+"/none", ":memory:", Opt{Tape: x})
			if err != nil {
				return err.Error()
			}
			rb.Dir = d
			c.add("cuts", 1)
			ierr := indexVtape(rb)
			got := walk(rb, "/", true)
			rb.Destroy()
			view := func(j int) View {
				whole := append(append([]byte{}, flat[:rs[j-1].end]...), make([]byte, 2*blk)...)
				y, _, err := indexedInst(cfg, whole)
				must(err)
				defer y.Destroy()
				return walk(y, "/", true)
			}
			vj := view(j)
			vn, torn := vj, map[string]bool{}
			if j < len(rs) {
				vn = view(j + 1)
				for _, p := range recNames(rs[j], cfg) {
					torn[p] = true
				}
			}
			c.saw("states", got.stable()+fmt.Sprint(cut, mark))
			if d := cutView(got, vj, vn, torn); d != "" {
				return fmt.Sprintf("tape cut after %d of %d records and marks (mark added: %v, %d of %d tar records whole, the indexer said %v): %s", cut, len(vt.items), mark, j, len(rs), ierr, d)
			}
		}
	}
	return ""
}

func init() {
	checks["C06"] = checkDef{level: "model_checking", quickS: 240, thorS: 800, run: runC06,
		rule:   "for every history of the stated alphabets and lengths the tape is cut inside everything its last call appended (every byte, or for the longer histories the first, second, middle and last byte of every block), the index is rebuilt from what is left, and every entry is compared with the states after the records before and after the cut; what a call appended earlier is cut by the shorter histories",
		assume: []string{"a cut tape is a prefix of the tape the finished call leaves (the calls only append, see C05)"}}
}

func runC06(c *Check) {
	ops := append(replayOps(), archOps()...)
	every := []Op{opMkdir("/d"), opPut("/b", []byte("x")), opPut("/n", pat(700, 3)), opRename("/a", "/e"), opRemoveAll("/a"), opChmod("/b", 0o600), opUpdate(true, Member{Path: "/b", Data: pat(700, 4), Perm: 0o600}), opSymlink("/b", "/l")}
	if c.quick() {
		c.everyByte([]Cfg{{}}, []Op{every[0], every[2], every[3], every[6]}, 1)
	} else {
		c.everyByte([]Cfg{{}, {RS: 1}, {Comp: "gzip", Enc: "age", Sig: "minisign"}}, every, 1)
	}
	c.each("root record", "the record of the root, cut at every byte", int64(len(pipeCfgs)+1), func(i int64) {
		cfg := append([]Cfg{{}}, pipeCfgs...)[i].norm()
		run := func() string {
			return guardS(func() string {
				in, err := freshInst(cfg, ":memory:", Opt{})
				if err != nil {
					return err.Error()
				}
				defer in.Destroy()
				t := in.Tape()
				c.add("histories", 1)
				return tornTape(c, cfg, t, 0, cutPoints(0, len(t), 0, c.pick(3, 1), c.quick()))
			})
		}
		if d := run(); d != "" && run() != "" {
			c.report(Violation{Key: "root record " + cfg.String(), Sub: "root record", Cfg: cfg.String(), Detail: d})
		}
	})
	c.exploreSeqs(&SeqSpec{Name: "cut calls", Ops: ops, Depth: 2, DB: ":memory:", Oracle: newTornOracle(c, 0, 0)})
	c.exploreSeqs(&SeqSpec{Name: "cut calls on a populated tree", Setup: popSetup, Ops: ops, Depth: c.pick(1, 2), DB: ":memory:", Oracle: newTornOracle(c, 0, 0)})
	c.exploreSeqs(&SeqSpec{Name: "links", Ops: linkOps(), Depth: 2, DB: ":memory:", Oracle: newTornOracle(c, 0, 0)})
	for _, cfg := range append([]Cfg{{RS: 1}, {RS: 2}, {RS: 7}}, pipeCfgs...) {
		c.exploreSeqs(&SeqSpec{Name: "configurations", Cfg: cfg, Setup: popSetup, Ops: smallOps(), Depth: c.pick(1, 2), DB: ":memory:", Oracle: newTornOracle(c, 0, 0)})
	}
	c.tornMatrix(withRS(pipelines([]string{"fastest"}), 20, "memory"), []content{{"3000 text", text(3000)}, {"1500 random", pat(1500, 5)}}[:c.pick(1, 2)])
	c.tornDrive(Cfg{RS: 2}, smallOps()[:c.pick(6, 12)])
	c.tornDrive(Cfg{RS: 20}, smallOps()[:c.pick(6, 12)])
	if !c.quick() {
		c.everyByte(pipeCfgs, every, 1)
		c.everyByte([]Cfg{{}}, every, 2)
	}
}

// everyByte cuts at every byte of what the last call appended. The bytes are dealt out by their offset modulo 13, so
// that no part of the work gets long.
func (c *Check) everyByte(cfgs []Cfg, ops []Op, depth int) {
	const parts = 13
	for _, cfg := range cfgs {
		for part := 0; part < parts; part++ {
			c.exploreSeqs(&SeqSpec{Name: fmt.Sprintf("every byte (offset %d modulo %d)", part, parts), Cfg: cfg, Setup: popSetup, Ops: ops, Depth: depth, DB: ":memory:", Oracle: newTornOracle(c, part, parts)})
		}
	}
}

// indexVtape indexes an emulated tape.
func indexVtape(in *Inst) error { return indexFrom(in, 0, 0, true) }

// indexFrom indexes through the instance's own drive functions.
func indexFrom(in *Inst, record, block int, overwrite bool) error {
	rd, err := in.Backend.GetReader()
	if err != nil {
		return err
	}
	defer in.Backend.CloseReader()
	p, ks := in.Cfg.pipes(), keysFor(in.Cfg)
	return recovery.Index(rd, in.Backend.MagneticTapeIO, config.MetadataConfig{Metadata: in.Meta}, p,
		config.CryptoConfig{Recipient: ks.SigPub, Identity: ks.EncPriv}, record, block, overwrite, false, 0,
		func(hdr *tar.Header, i int) error { return encryption.DecryptHeader(hdr, p.Encryption, ks.EncPriv) },
		func(hdr *tar.Header, isRegular bool) error {
			return signature.VerifyHeader(hdr, isRegular, p.Signature, ks.SigPub)
		},
		func(*config.Header) {})
}
