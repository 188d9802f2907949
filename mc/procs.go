package main

import (
	"context"
	"fmt"
	"io/fs"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

// Calls of the archive interface, each made by a process of its own as the commands do: it opens the index, makes the
// call and ends, without a filesystem in between.

// process is another process on the same drive and index.
func process(in *Inst, overwrite bool, f func(p *Inst) error) error {
	p, err := openInst(in.Cfg, in.Drive, in.DB, Opt{Tape: in.VT, Overwrite: overwrite})
	if err != nil {
		return err
	}
	defer p.Close()
	return f(p)
}

func opProcess(op Op) Op {
	do := op.Do
	op.Name = "process: " + strings.TrimPrefix(op.Name, "process: ")
	op.Do = func(in *Inst) (out Out) {
		err := process(in, strings.HasSuffix(op.Name, "initialize /"), func(p *Inst) error { out = do(p); return nil })
		if err != nil {
			return fail("open", err)
		}
		return out
	}
	return op
}

// rows are all rows of an index, those of deleted entries apart.
func rows(in *Inst) (live, deleted []string, err error) {
	hs, err := in.MP.GetHeaders(context.Background())
	if err != nil {
		return nil, nil, err
	}
	for _, h := range hs {
		live = append(live, fmt.Sprintf("%q link %q type %d at %d.%d, last %d.%d, size %d, mode %o, uid %d, mtime %d", h.Name, h.Linkname, h.Typeflag, h.Record, h.Block, h.Lastknownrecord, h.Lastknownblock, h.Size, fs.FileMode(h.Mode), h.UID, h.Modtime.UnixNano()))
	}
	sort.Strings(live)
	return
}

// processOracle compares the index the processes left with one which a process made of the tape, and the filesystems
// over both.
type processOracle struct{ state string }

func (o *processOracle) State() string { return o.state }

func (o *processOracle) Step(in *Inst, op Op, out Out, check bool) string {
	if !check {
		return ""
	}
	if d := o.compare(in); d != "" {
		return "after " + op.Name + " (" + out.Class + "): " + d
	}
	return ""
}

func (o *processOracle) compare(in *Inst) string {
	var live []string
	if err := process(in, false, func(p *Inst) (err error) { live, _, err = rows(p); return }); err != nil {
		return err.Error()
	}
	d := newDir()
	defer os.RemoveAll(d)
	reb, err := openInst(in.Cfg, in.Drive, filepath.Join(d, "i.db"), Opt{Tape: in.VT})
	if err != nil {
		return err.Error()
	}
	defer reb.Close()
	if err := indexTape(reb, in.Keys, true, 0, 0); err != nil {
		return "indexing the tape: " + err.Error()
	}
	again, _, err := rows(reb)
	if err != nil {
		return err.Error()
	}
	if a, b := fmt.Sprint(live), fmt.Sprint(again); a != b {
		return fmt.Sprintf("the index of the processes and the one made of the tape differ:\n    %s\n    %s", linesOf(live), linesOf(again))
	}
	if len(again) == 0 {
		return "" // opening the filesystem makes a new root
	}
	// What filesystems over them show.
	view := func(db string) (View, error) {
		c, err := os.ReadFile(db)
		if err != nil {
			return nil, err
		}
		x, err := onCopy(in, c, Opt{})
		if err != nil {
			return nil, err
		}
		defer x.Destroy()
		if _, err := x.FS.Initialize("/", os.ModePerm); err != nil {
			return nil, err
		}
		return walk(x, "/", true), nil
	}
	v1, err := view(in.DB)
	if err != nil {
		return "opening the filesystem: " + err.Error()
	}
	v2, err := view(reb.DB)
	if err != nil {
		return "opening the filesystem over the index made of the tape: " + err.Error()
	}
	o.state = v1.stable()
	return diffViews(v1, v2, "index of the processes", "index made of the tape")
}

func linesOf(s []string) (out string) {
	for _, x := range s {
		out += "\n      " + x
	}
	return
}

// blank is a drive and an index nothing was written to yet.
func blank(in *Inst) (*Inst, error) {
	in.Close()
	d := newDir()
	o := Opt{}
	if in.VT != nil {
		o.Tape = newVtape(in.Cfg.RS)
	}
	x, err := openInst(in.Cfg, filepath.Join(d, "t.tar"), filepath.Join(d, "i.db"), o)
	if err != nil {
		return nil, err
	}
	x.Dir = d
	os.RemoveAll(in.Dir)
	return x, nil
}

// processSet is an alphabet, and what the tape starts with: how the names are spelled by the commands' users.
type processSet struct {
	name  string
	first []Op
	ops   []Op
}

func processSets(wrapOp func(Op) Op) (out []processSet) {
	dir := func(p string) Member { return Member{Path: p, Dir: true, Perm: 0o755} }
	file := func(p string, n int) Member { return Member{Path: p, Data: pat(n, 5)} }
	wrap := func(in ...Op) (out []Op) {
		for _, o := range in {
			out = append(out, wrapOp(o))
		}
		return out
	}
	calls := func(a, ac, b, d string) []Op {
		return []Op{
			opArchive(dir(a), file(ac, 1500), file(b, 3)), opArchive(file(b, 20)), opArchive(dir(a)), opUpdate(true, file(b, 700)), opUpdate(false, Member{Path: b, Data: pat(3, 5), Perm: 0o600}),
			opDelete(a), opDelete(b), opMove(a, d), opMove(b, ac), opMove(b, d),
		}
	}
	in := func(p string) []Op { return calls(p+"a", p+"a/c", p+"b", p+"d") }
	whole := func(root, p string) []Op {
		return []Op{opArchive(dir(root), dir(p+"a"), file(p+"a/c", 1500), file(p+"b", 3))}
	}
	add := func(name string, first []Op, ops ...Op) {
		out = append(out, processSet{name, first, append(wrap(ops...), wrap(first...)...)})
	}
	init := wrap(Op{Name: "initialize /", Do: func(in *Inst) Out {
		return res("initialize", in.WriteOps.Initialize("/", os.ModePerm, in.Cfg.Level))
	}, Mod: modAny, Path: []string{"/"}})
	out = append(out, processSet{"initialized, absolute names", init, append(wrap(in("/")...), init...)}, processSet{"initialized, relative names", init, append(wrap(in("")...), init...)})
	add("absolute names", wrap(whole("/", "/")...), in("/")...)
	add("names below .", wrap(whole(".", "")...), in("")...)
	add("names below ./", wrap(whole("./", "./")...), in("./")...)
	add("names below a directory", wrap(whole("x", "x/")...), in("x/")...)
	add("names below an absolute directory", wrap(whole("/x/y", "/x/y/")...), in("/x/y/")...)
	return
}

func (c *Check) processes(depth int) {
	for _, s := range processSets(func(o Op) Op { return o }) {
		if strings.HasPrefix(s.name, "initialized") {
			s.ops = s.ops[:len(s.ops)-1] // it is for drives opened to be overwritten
		}
		c.exploreSeqs(&SeqSpec{Name: "one process of the archive interface, " + s.name, Setup: s.first, Ops: s.ops, Depth: depth, Oracle: func(*Inst) Oracle { return &processOracle{} }, Live: blank})
	}
	for _, s := range processSets(opProcess) {
		c.exploreSeqs(&SeqSpec{Name: "processes of the archive interface, " + s.name, Setup: s.first, Ops: s.ops, Depth: depth, Oracle: func(*Inst) Oracle { return &processOracle{} }, Live: blank})
	}
}
