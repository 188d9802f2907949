package main

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"path"

	"github.com/pojntfx/stfs/pkg/config"
	"github.com/pojntfx/stfs/pkg/recovery"
)

// posOracle compares the index with an independent scan of the tape.
type posOracle struct {
	state string
}

func newPosOracle(in *Inst) Oracle { return &posOracle{} }

func (o *posOracle) State() string { return o.state }

func (o *posOracle) Step(in *Inst, op Op, out Out, check bool) string {
	if !check {
		return ""
	}
	st, d := positions(in)
	if d != "" {
		return "after " + op.Name + " (" + out.Class + "): " + d
	}
	o.state = st
	if d := positionsRebuilt(in); d != "" {
		return "after " + op.Name + " (" + out.Class + "), in an index rebuilt from the tape: " + d
	}
	return ""
}

// positionsRebuilt checks the index which a rebuild from the same tape makes.
func positionsRebuilt(in *Inst) string {
	var rb *Inst
	var err error
	if in.VT != nil {
		d := newDir()
		rb, err = openInst(in.Cfg, d+"/none", ":memory:", Opt{Tape: in.VT})
		if err == nil {
			rb.Dir = d
			_, err = rb.FS.Initialize("/", os.ModePerm)
		}
	} else {
		rb, err = rebuilt(in.Cfg, in.Tape(), Opt{})
	}
	if err != nil {
		return err.Error()
	}
	defer rb.Destroy()
	_, d := positions(rb)
	return d
}

func (in *Inst) fetch(record, block int64) ([]byte, bool, error) {
	ks := in.Keys
	if in.VT == nil {
		return fetchAt(in.Cfg, ks, in.Drive, record, block)
	}
	r, err := in.Backend.GetReader()
	if err != nil {
		return nil, false, err
	}
	defer in.Backend.CloseReader()
	return fetchFrom(r, in.Backend.MagneticTapeIO, in.Cfg, ks, record, block)
}

func (in *Inst) records() ([]rec, error) {
	if in.VT != nil {
		return in.VT.recs()
	}
	return scanTape(in.Tape())
}

// positions checks every live row, and the last indexed position.
func positions(in *Inst) (string, string) {
	rs, err := in.records()
	if err != nil {
		return "", "independent scan: " + err.Error()
	}
	ks := keysFor(in.Cfg)
	rsz := int64(in.Cfg.RS)
	dec := make([]rec, len(rs))
	for i, r := range rs {
		if dec[i], err = r.decrypted(in.Cfg, ks); err != nil {
			return "", fmt.Sprintf("record at block %d: %v", r.block, err)
		}
	}
	rp := replay(dec, in.Cfg)
	hdrs, err := in.Meta.GetHeaders(context.Background())
	if err != nil {
		return "", "GetHeaders: " + err.Error()
	}
	seen := map[string]bool{}
	state := fmt.Sprint(in.Cfg.RS)
	for _, h := range hdrs {
		n := path.Clean("/" + h.Name)
		if seen[n] {
			return "", "two live rows for " + n
		}
		seen[n] = true
		where := fmt.Sprintf("%s: content at record %d block %d, last at record %d block %d", n, h.Record, h.Block, h.Lastknownrecord, h.Lastknownblock)
		if h.Block < 0 || h.Record < 0 || h.Block >= rsz || h.Lastknownblock < 0 || h.Lastknownblock >= rsz {
			return "", where + ": the block is not smaller than the record size"
		}
		pl, has := rp[n]
		if !has {
			return "", where + ": the records of the tape do not explain this live entry"
		}
		pos, last := h.Record*rsz+h.Block, h.Lastknownrecord*rsz+h.Lastknownblock
		if last < pos {
			return "", where + ": last-known position before the content position"
		}
		if want := rs[pl.content].block; pos != want {
			return "", where + fmt.Sprintf(": the record of its current content starts at record %d block %d", want/rsz, want%rsz)
		}
		if want := rs[pl.last].block; last != want {
			return "", where + fmt.Sprintf(": the last record mentioning it starts at record %d block %d", want/rsz, want%rsz)
		}
		state += fmt.Sprintf(" %d/%d", h.Block, h.Lastknownblock)
		got, dir, err := in.fetch(h.Record, h.Block)
		if err != nil {
			return "", where + ": fetching there: " + err.Error()
		}
		if wantDir := h.Typeflag == '5'; dir != wantDir {
			return "", where + fmt.Sprintf(": fetching there gives a directory: %v", dir)
		}
		if !dir {
			want, err := readFile(in.FS, n)
			if err != nil {
				return "", where + ": reading it: " + err.Error()
			}
			if !bytes.Equal(got, want) || int64(len(want)) != h.Size || int64(len(want)) != pl.size {
				return "", where + fmt.Sprintf(": fetching there gives %s, reading %s, size in the index %d, on the tape %d", contentKey(got), contentKey(want), h.Size, pl.size)
			}
		}
	}
	for n := range rp {
		if !seen[n] {
			return "", "the tape has a live entry the index does not have: " + n
		}
	}
	r, b, err := in.Meta.GetLastIndexedRecordAndBlock(context.Background(), in.Cfg.RS)
	if err != nil {
		return "", err.Error()
	}
	if want := rs[len(rs)-1].block; r*rsz+b != want || b >= rsz {
		return "", fmt.Sprintf("last indexed position is record %d block %d, the final record starts at record %d block %d", r, b, want/rsz, want%rsz)
	}
	return state, queried(in, rs)
}

// queried compares a query of the whole tape with the scan.
func queried(in *Inst, rs []rec) string {
	var pos []int64
	ks := keysFor(in.Cfg)
	onh := func(h *config.Header) { pos = append(pos, h.Record*int64(in.Cfg.RS)+h.Block) }
	rd, err := in.Backend.GetReader()
	if err != nil {
		return err.Error()
	}
	defer in.Backend.CloseReader()
	if _, err := recovery.Query(rd, in.Backend.MagneticTapeIO, in.Cfg.pipes(), config.CryptoConfig{Recipient: ks.SigPub, Identity: ks.EncPriv}, 0, 0, onh); err != nil {
		return "query from the start: " + err.Error()
	}
	if len(pos) != len(rs) {
		return fmt.Sprintf("query from the start finds %d records, there are %d", len(pos), len(rs))
	}
	for i, r := range rs {
		if pos[i] != r.block {
			return fmt.Sprintf("query reports record %d of the tape at block %d, it starts at block %d", i, pos[i], r.block)
		}
	}
	return ""
}

// posOps have contents of every length class modulo the record.
func posOps(sz int) []Op {
	ms := []Member{{Path: "/a", Dir: true}}
	for i := 0; i < 3; i++ {
		ms = append(ms, Member{Path: fmt.Sprintf("/a/m%d", i), Data: pat(sz+i*511, byte(i))})
	}
	return []Op{
		opMkdir("/a"), opPut("/b", pat(sz, 7)), opPut("/a/m1", pat(sz+600, 9)), opCreate("/b"),
		opArchive(ms...), opArchive(Member{Path: "/b", Data: pat(sz+1, 2)}),
		opUpdate(true, Member{Path: "/b", Data: pat(sz+512, 4)}), opUpdate(false, Member{Path: "/b", Data: pat(sz, 7), Perm: 0o400}), opUpdate(true, Member{Path: "/zz", Data: big}),
		opChmod("/b", 0o600), opChtimes("/a"), opRename("/b", "/a/m1"), opRename("/a", "/d"), opMove("/a", "/d"), opRename("/b", "/e"),
		opRemove("/b"), opRemoveAll("/a"), opDelete("/d"), opOpen("/b", os.O_WRONLY|os.O_APPEND, pat(700, 1)), opOpen("/b", os.O_RDWR|os.O_TRUNC, nil),
	}
}

// batchOps are single calls about n entries.
func batchOps(n int) []Op {
	var all, some, meta []Member
	all = append(all, Member{Path: "/a", Dir: true})
	for i := 0; i < n; i++ {
		p := fmt.Sprintf("/a/m%03d", i)
		all = append(all, Member{Path: p, Data: pat(i*97%1300, byte(i))})
		if i%2 == 0 {
			some = append(some, Member{Path: p, Data: pat(i*61%1100+1, byte(i+1))})
		}
		if i%3 == 0 {
			meta = append(meta, Member{Path: p, Data: all[len(all)-1].Data, Perm: 0o440})
		}
	}
	return []Op{opArchive(all...), opUpdate(true, some...), opUpdate(false, meta...), opMove("/a", "/d"), opDelete("/a"), opRename("/a", "/e"), opPut("/a/m000", pat(900, 5)), opRemoveAll("/a")}
}

func init() {
	checks["C04"] = checkDef{level: "model_checking", quickS: 240, thorS: 800, run: runC04,
		rule: "every history of the stated alphabets and lengths is executed for every listed record size; every row of the index is compared with an independent scan of the tape and fetched by its position"}
}

func tapeDrive(rs int) func(*SeqSpec) {
	return func(sp *SeqSpec) { sp.FreshOpt = func() Opt { return Opt{Tape: newVtape(rs)} } }
}

func runC04(c *Check) {
	sizes := func(rs int) (out []int) {
		for _, sz := range []int{0, 1, 512*rs - 1500, 512*rs - 1} {
			if sz >= 0 {
				out = append(out, sz)
			}
		}
		return
	}
	all := []int{1, 2, 3, 5, 7, 20, 64}
	for _, rs := range all {
		for _, sz := range sizes(rs) {
			c.exploreSeqs(&SeqSpec{Name: fmt.Sprintf("file, size %d", sz), Cfg: Cfg{RS: rs}, Ops: posOps(sz), Depth: 2, DB: ":memory:", Oracle: newPosOracle})
		}
		for _, sz := range []int{700, 512*rs - 1500} {
			if sz < 0 {
				continue
			}
			sp := &SeqSpec{Name: fmt.Sprintf("emulated tape, size %d", sz), Cfg: Cfg{RS: rs}, Ops: posOps(sz), Depth: 2, DB: ":memory:", Oracle: newPosOracle}
			tapeDrive(rs)(sp)
			c.exploreSeqs(sp)
		}
	}
	for _, cfg := range pipeCfgs {
		c.exploreSeqs(&SeqSpec{Name: "configurations", Cfg: cfg, Ops: posOps(900), Depth: 2, DB: ":memory:", Oracle: newPosOracle})
	}
	for _, cfg := range []Cfg{{Comp: "zstandard", RS: 64}, {Enc: "age", RS: 3}, {Enc: "pgp", Sig: "pgp", RS: 20}} {
		sp := &SeqSpec{Name: "configurations, emulated tape", Cfg: cfg, Ops: posOps(900), Depth: c.pick(1, 2), DB: ":memory:", Oracle: newPosOracle}
		tapeDrive(cfg.RS)(sp)
		c.exploreSeqs(sp)
	}
	for _, vt := range []bool{false, true} {
		for _, rs := range []int{1, 3, 20} {
			sp := &SeqSpec{Name: "after an explicit overwrite", Cfg: Cfg{RS: rs}, Ops: posOps(700), Depth: c.pick(1, 2), Oracle: newPosOracle, Live: overwritten}
			if vt {
				sp.Name += ", emulated tape"
				tapeDrive(rs)(sp)
			}
			c.exploreSeqs(sp)
		}
	}
	for _, rs := range []int{1, 3, 20} {
		b := batchOps(c.pick(70, 300))
		c.exploreSeqs(&SeqSpec{Name: "large batches", Cfg: Cfg{RS: rs}, Setup: b[:1], Ops: b, Depth: 2, DB: ":memory:", Oracle: newPosOracle})
		sp := &SeqSpec{Name: "large batches, emulated tape", Cfg: Cfg{RS: rs}, Setup: b[:1], Ops: b, Depth: c.pick(1, 2), DB: ":memory:", Oracle: newPosOracle}
		tapeDrive(rs)(sp)
		c.exploreSeqs(sp)
	}
	held, inside := heldSpaces()
	c.exploreSeqs(&SeqSpec{Name: "file held open", Setup: append(append([]Op{}, popSetup...), held[0]), Ops: held, Depth: c.pick(2, 3), DB: ":memory:", Oracle: newPosOracle})
	c.exploreSeqs(&SeqSpec{Name: "file in a directory held open", Setup: append(append([]Op{}, popSetup...), inside[0]), Ops: inside, Depth: c.pick(2, 3), DB: ":memory:", Oracle: newPosOracle})
	popd := []Op{posOps(0)[0], opPut("/b", pat(513, 1)), opPut("/a/m1", pat(2000, 2))}
	for _, rs := range []int{3, 20} {
		c.exploreBFS(&BFSSpec{Name: fmt.Sprintf("search, record size %d", rs), Cfg: Cfg{RS: rs}, Setup: popd, Ops: posOps(600), Depth: c.pick(2, 4), Extra: func(in *Inst, before *snap, op Op, out Out) string {
			_, d := positions(in)
			return d
		}})
	}
	if !c.quick() {
		for _, rs := range all {
			for _, sz := range sizes(rs) {
				c.exploreSeqs(&SeqSpec{Name: fmt.Sprintf("file, three calls, size %d", sz), Cfg: Cfg{RS: rs}, Ops: posOps(sz), Depth: 3, DB: ":memory:", Oracle: newPosOracle})
			}
			sp := &SeqSpec{Name: "emulated tape, three calls", Cfg: Cfg{RS: rs}, Ops: posOps(700), Depth: 3, DB: ":memory:", Oracle: newPosOracle}
			tapeDrive(rs)(sp)
			c.exploreSeqs(sp)
		}
	}
}
