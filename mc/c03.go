package main

import (
	"bytes"
	"context"
	"fmt"
	"io"
	"os"
	"path"
	"path/filepath"
	"strings"

	"github.com/pojntfx/stfs/pkg/config"
)

// content is one byte content of the matrix.
type content struct {
	name string
	b    []byte
}

func text(n int) []byte {
	b := bytes.Repeat([]byte("the quick brown fox jumps over the lazy dog. "), n/45+1)
	return b[:n]
}

func contents(rs int, fastest, thorough bool) []content {
	out := []content{{"empty", []byte{}}, {"one byte", []byte{0}}}
	add := func(n int) {
		if n > 1 {
			out = append(out, content{fmt.Sprintf("%d random", n), pat(n, byte(n))})
		}
	}
	for _, n := range []int{512, 513, 512 * rs, 512*rs + 1} {
		add(n)
	}
	out = append(out, content{"3000 text", text(3000)}, content{"70000 random", pat(70000, 7)}, content{"120000 random", pat(120000, 5)})
	if fastest || thorough {
		out = append(out, content{"200000 zero", make([]byte, 200000)})
	}
	if thorough {
		add(511)
		add(512*rs - 1)
		out = append(out, content{"65536 random", pat(65536, 8)}, content{"1048577 text", text(1048577)}, content{"1100000 random", pat(1100000, 9)})
	}
	seen := map[string]bool{}
	var uniq []content
	for _, x := range out {
		if !seen[x.name] {
			uniq = append(uniq, x)
		}
		seen[x.name] = true
	}
	return uniq
}

// supportedOnTape says which combinations the code documents as usable with tape drives (the others are refused
// with an error that says so).
func supportedOnTape(cfg Cfg) bool {
	n := 512 * cfg.RS
	switch cfg.Comp {
	case "parallelgzip", "brotli":
		return false
	case "gzip", "lz4":
		if n < 65536 {
			return false
		}
	case "zstandard":
		if n < 1024 || n > 1<<29 {
			return false
		}
	}
	return cfg.Sig != "minisign"
}

// sameBytes reads an entry in every way there is and compares it with what was written.
func sameBytes(in *Inst, p string, want []byte) string {
	rd, err := in.FS.Open(p)
	if err != nil {
		return "open: " + err.Error()
	}
	b, err := readAll(rd)
	if err != nil {
		rd.Close()
		return "read: " + err.Error()
	}
	if !bytes.Equal(b, want) {
		rd.Close()
		return "reading through the filesystem gives " + contentKey(b) + ", written was " + contentKey(want)
	}
	// Seeking back and reading in pieces which fit nothing.
	if _, err := rd.Seek(0, io.SeekStart); err != nil {
		rd.Close()
		return "seek: " + err.Error()
	}
	var pieces []byte
	step := len(want)/7 + 3
	for {
		buf := make([]byte, step)
		n, err := rd.Read(buf)
		pieces = append(pieces, buf[:n]...)
		if err == io.EOF {
			break
		}
		if err != nil {
			rd.Close()
			return "reading in pieces: " + err.Error()
		}
		if len(pieces) > len(want)+step {
			break
		}
	}
	if err := rd.Close(); err != nil {
		return "close after reading: " + err.Error()
	}
	if !bytes.Equal(pieces, want) {
		return "reading in pieces gives " + contentKey(pieces) + ", written was " + contentKey(want)
	}
	fi, err := in.FS.Stat(p)
	if err != nil {
		return "stat: " + err.Error()
	}
	if fi.Size() != int64(len(want)) {
		return fmt.Sprintf("Stat reports size %d, the content has %d bytes", fi.Size(), len(want))
	}
	infos, err := list(in, path.Dir(p), -1)
	if err != nil {
		return "list: " + err.Error()
	}
	for _, x := range infos {
		if x.Name() == path.Base(p) && x.Size() != int64(len(want)) {
			return fmt.Sprintf("the listing reports size %d, the content has %d bytes", x.Size(), len(want))
		}
	}
	m, _, err := restoreTo(in, p)
	if err != nil {
		return "restore: " + err.Error()
	}
	if r, has := m[p]; !has || !bytes.Equal(r, want) || len(m) != 1 {
		return fmt.Sprintf("restoring gives %d files, %s, written was %s", len(m), contentKey(r), contentKey(want))
	}
	h, err := in.Meta.GetHeader(context.Background(), p)
	if err != nil {
		return "index row: " + err.Error()
	}
	f, _, err := in.fetch(h.Record, h.Block)
	if err != nil {
		return fmt.Sprintf("fetch at record %d block %d: %v", h.Record, h.Block, err)
	}
	if !bytes.Equal(f, want) {
		return fmt.Sprintf("fetching at record %d block %d gives %s, written was %s", h.Record, h.Block, contentKey(f), contentKey(want))
	}
	return ""
}

// rebuiltAny is an instance rebuilt from the tape alone, whichever drive.
func rebuiltAny(in *Inst) (*Inst, error) {
	if in.VT == nil {
		return rebuilt(in.Cfg, in.Tape(), Opt{})
	}
	d := newDir()
	rb, err := openInst(in.Cfg, d+"/none", ":memory:", Opt{Tape: in.VT})
	if err != nil {
		return nil, err
	}
	rb.Dir = d
	if _, err := rb.FS.Initialize("/", os.ModePerm); err != nil {
		rb.Destroy()
		return nil, err
	}
	return rb, nil
}

// srcKinds are sources whose Read and copying behave differently.
var srcKinds = []string{"bytes.Reader", "os.File", "short reads"}

type shortReads struct{ nopSeekCloser }

func (s shortReads) Read(p []byte) (int, error) {
	if len(p) > 333 {
		p = p[:333]
	}
	return s.Reader.Read(p)
}

// plainReads hides everything but reading, seeking and closing.
type plainReads struct{ io.ReadSeekCloser }

func openSource(kind string, b []byte) (io.ReadSeekCloser, error) {
	switch kind {
	case "os.File":
		p := filepath.Join(newDir(), "src")
		if err := os.WriteFile(p, b, 0o600); err != nil {
			return nil, err
		}
		return os.Open(p)
	case "short reads":
		return plainReads{shortReads{nopSeekCloser{bytes.NewReader(b)}}}, nil
	}
	return nopSeekCloser{bytes.NewReader(b)}, nil
}

// writers are the ways content gets onto the tape.
var writers = []string{"file", "file in pieces", "file extended", "archive", "update"}

func writeAs(in *Inst, how, kind, p string, b []byte) error {
	member := func(m Member) func() (config.FileConfig, error) {
		src := source([]Member{m})
		return func() (config.FileConfig, error) {
			fc, err := src()
			if err == nil {
				fc.GetFile = func() (io.ReadSeekCloser, error) { return openSource(kind, m.Data) }
			}
			return fc, err
		}
	}
	switch how {
	case "archive":
		_, err := in.WriteOps.Archive(member(Member{Path: p, Data: b}), in.Cfg.Level, false, false)
		return err
	case "update":
		if _, err := in.FS.Stat(p); err != nil {
			f, err := in.FS.Create(p)
			if err != nil {
				return err
			}
			if err := f.Close(); err != nil {
				return err
			}
		}
		_, err := in.WriteOps.Update(member(Member{Path: p, Data: b}), in.Cfg.Level, true, true)
		return err
	}
	f, err := in.FS.Create(p)
	if err != nil {
		return err
	}
	put := func(b []byte, step int) error {
		for len(b) > 0 {
			n := step
			if n > len(b) || n == 0 {
				n = len(b)
			}
			if k, err := f.Write(b[:n]); err != nil || k != n {
				return fmt.Errorf("write of %d bytes: %d, %v", n, k, err)
			}
			b = b[n:]
		}
		return nil
	}
	switch how {
	case "file":
		if err = put(b, 0); err == nil {
			return f.Close()
		}
	case "file in pieces":
		if err = put(b, len(b)/5+1); err == nil {
			return f.Close()
		}
	case "file extended":
		if err = put(b[:len(b)/2], 0); err == nil {
			if err = f.Close(); err != nil {
				return err
			}
			if f, err = in.FS.OpenFile(p, os.O_WRONLY|os.O_APPEND, 0); err != nil {
				return err
			}
			if err = put(b[len(b)/2:], 0); err == nil {
				return f.Close()
			}
		}
	}
	f.Close()
	return err
}

// matrixCase writes every content in the given ways under one configuration and reads it back in every way.
func (c *Check) matrixCase(cfg Cfg, tapeDrive bool, hows []string, cs []content) (what, d string) {
	opt := Opt{}
	if tapeDrive {
		opt.Tape = newVtape(cfg.RS)
	}
	in, err := freshInst(cfg, ":memory:", opt)
	if err != nil {
		return "initialize", err.Error()
	}
	defer in.Destroy()
	type wr struct {
		p string
		b []byte
		w string
	}
	var all []wr
	for hi, how := range hows {
		for i, x := range cs {
			kind := srcKinds[(hi+i)%len(srcKinds)]
			p := fmt.Sprintf("/%d-%d", hi, i)
			w := fmt.Sprintf("%s by %s", x.name, how)
			if how == "archive" || how == "update" {
				w += " from " + kind
			}
			c.add("histories", 1)
			c.add("transitions", 1)
			if err := writeAs(in, how, kind, p, x.b); err != nil {
				return w, "writing: " + err.Error()
			}
			if d := sameBytes(in, p, x.b); d != "" {
				return w, d
			}
			c.saw("states", cfg.String()+w+fmt.Sprint(tapeDrive))
			all = append(all, wr{p, x.b, w})
		}
	}
	rb, err := rebuiltAny(in)
	if err != nil {
		return "all of them", "rebuilding the index: " + err.Error()
	}
	defer rb.Destroy()
	for _, x := range all {
		if d := sameBytes(rb, x.p, x.b); d != "" {
			return x.w, "after rebuilding the index: " + d
		}
	}
	return "", ""
}

func (c *Check) matrix(name string, cfgs []Cfg, tapeDrive bool, hows []string) {
	c.each(name, fmt.Sprintf("%d configurations, contents of all classes written by %s", len(cfgs), strings.Join(hows, ", ")), int64(len(cfgs)), func(i int64) {
		cfg := cfgs[i].norm()
		journal(name + " " + cfg.String())
		run := func() (w, d string) {
			g := guardS(func() string {
				cs := contents(cfg.RS, cfg.Level == config.CompressionLevelFastestKey, !c.quick())
				if c.quick() && cfg.Level != config.CompressionLevelFastestKey { // The levels differ in the compressor only
					cs = []content{{"one byte", []byte{0}}, {"513 random", pat(513, 1)}, {"3000 text", text(3000)}, {"120000 random", pat(120000, 5)}}
				}
				w, d = c.matrixCase(cfg, tapeDrive, hows, cs)
				return ""
			})
			if g != "" {
				return w, g
			}
			return
		}
		w, d := run()
		if d == "" {
			return
		}
		if _, d2 := run(); d2 == "" {
			if _, d3 := run(); d3 == "" {
				c.add("unreproduced", 1)
				c.note("not reproduced: " + name + " " + cfg.String() + " " + w + ": " + d)
				return
			}
		}
		c.report(Violation{Key: name + " " + cfg.String() + ": " + w, Sub: name, Cfg: cfg.String(), Ops: []string{w}, Detail: d})
	})
}

func pipelines(levels []string) (out []Cfg) {
	for _, comp := range config.KnownCompressionFormats {
		for li, l := range levels {
			if comp == "" && li > 0 {
				continue
			}
			for _, e := range config.KnownEncryptionFormats {
				for _, s := range config.KnownSignatureFormats {
					out = append(out, Cfg{Comp: comp, Level: l, Enc: e, Sig: s})
				}
			}
		}
	}
	return
}

func withRS(in []Cfg, rs int, cache string) (out []Cfg) {
	for _, x := range in {
		x.RS, x.Cache = rs, cache
		out = append(out, x)
	}
	return
}

// overwriteCase replaces every content by every other one.
func (c *Check) overwriteCase(cfg Cfg, cs []content, i int) string {
	in, err := freshInst(cfg, ":memory:", Opt{})
	if err != nil {
		return err.Error()
	}
	defer in.Destroy()
	for j := range cs {
		for _, how := range []string{"file", "update"} {
			c.add("histories", 1)
			c.add("transitions", 2)
			p := fmt.Sprintf("/%s-%d", how, j)
			if err := writeAs(in, "file", srcKinds[0], p, cs[i].b); err != nil {
				return cs[i].name + ": " + err.Error()
			}
			if err := writeAs(in, how, srcKinds[j%3], p, cs[j].b); err != nil {
				return cs[i].name + " replaced by " + cs[j].name + ": " + err.Error()
			}
			if d := sameBytes(in, p, cs[j].b); d != "" {
				return cs[i].name + " replaced by " + cs[j].name + " by " + how + ": " + d
			}
			// What an update of the attributes leaves.
			if err := in.FS.Chmod(p, 0o600); err != nil {
				return "chmod: " + err.Error()
			}
			if err := in.FS.Rename(p, p+"r"); err != nil {
				return "rename: " + err.Error()
			}
			if d := sameBytes(in, p+"r", cs[j].b); d != "" {
				return cs[i].name + " replaced by " + cs[j].name + " by " + how + ", chmod, renamed: " + d
			}
			c.saw("states", cfg.String()+cs[i].name+">"+cs[j].name)
		}
	}
	return ""
}

var suffixes = []string{".gz", ".lz4", ".zst", ".br", ".bz2", ".age", ".pgp"}

// suffixNames are names which end like those the pipeline gives to the records on the tape.
func suffixNames() (out []string) {
	out = append(out, "/n", "/d/n")
	for _, a := range suffixes {
		out = append(out, "/n"+a, "/n"+a+a, "/n"+a+a+a, "/"+a, "/d"+a+"/n", "/d"+a+"/n"+a)
		for _, b := range suffixes {
			if a != b {
				out = append(out, "/n"+a+b)
			}
		}
	}
	return
}

// suffixCase writes entries with such names, which differ in their contents only, changes and moves some of them and
// reads all of them back.
func (c *Check) suffixCase(cfg Cfg, tapeDrive bool, how string) string {
	opt := Opt{}
	if tapeDrive {
		opt.Tape = newVtape(cfg.RS)
	}
	in, err := freshInst(cfg, ":memory:", opt)
	if err != nil {
		return err.Error()
	}
	defer in.Destroy()
	want := map[string][]byte{}
	check := func(x *Inst, when string) string {
		v := walkLight(x, "/", true)
		n := 0
		for _, p := range v.keys() {
			if v[p].Kind == "file" {
				n++
			}
		}
		if n != len(want) {
			return fmt.Sprintf("%s: %d files were written, %d are listed: %q", when, len(want), n, v.keys())
		}
		for p, b := range want {
			if e, has := v[p]; !has || e.Kind != "file" || e.Content != contentKey(b) || e.Size != int64(len(b)) {
				return fmt.Sprintf("%s: %q is %v, written was %s", when, p, e, contentKey(b))
			}
		}
		return ""
	}
	for i, p := range suffixNames() {
		b := []byte(fmt.Sprint(i, p))
		c.add("histories", 1)
		c.add("transitions", 1)
		if d := path.Dir(p); d != "/" {
			if err := in.FS.MkdirAll(d, 0o755); err != nil {
				return "mkdirall " + d + ": " + err.Error()
			}
		}
		if err := writeAs(in, how, srcKinds[0], p, b); err != nil {
			return "writing " + p + ": " + err.Error()
		}
		want[p] = b
		c.saw("states", cfg.String()+p+how)
	}
	if d := check(in, "written"); d != "" {
		return d
	}
	for i, a := range suffixes {
		b := suffixes[(i+1)%len(suffixes)]
		c.add("transitions", 3)
		if err := in.FS.Chmod("/n"+a+a, 0o600); err != nil {
			return "chmod: " + err.Error()
		}
		if err := in.FS.Rename("/n"+a+a+a, "/m"+b); err != nil {
			return "rename: " + err.Error()
		}
		want["/m"+b] = want["/n"+a+a+a]
		delete(want, "/n"+a+a+a)
		if err := in.FS.Remove("/" + a); err != nil {
			return "remove: " + err.Error()
		}
		delete(want, "/"+a)
	}
	if d := check(in, "changed"); d != "" {
		return d
	}
	rb, err := rebuiltAny(in)
	if err != nil {
		return "rebuilding the index: " + err.Error()
	}
	defer rb.Destroy()
	return check(rb, "after rebuilding the index")
}

func init() {
	checks["C03"] = checkDef{level: "model_checking", quickS: 240, thorS: 800, run: runC03,
		rule: "every supported combination of the listed configuration values is instantiated; contents of every class are written in every listed way and read back through the filesystem (whole, in pieces), by restoring and by fetching at the indexed position, before and after rebuilding the index"}
}

func runC03(c *Check) {
	all := pipelines(config.KnownCompressionLevels)
	fastest := pipelines([]string{config.CompressionLevelFastestKey})
	c.matrix("all pipelines on files", withRS(all, 20, "memory"), false, []string{"file", "archive"})
	c.matrix("all formats on files", withRS(fastest, 20, "memory"), false, writers[1:])
	c.matrix("file write cache", withRS(fastest, 20, "file"), false, writers[:3])
	for _, rs := range []int{1, 2, 7, 64} {
		var some []Cfg
		for i, x := range fastest {
			if !c.quick() || i%5 == rs%5 || x.Enc == "" && x.Sig == "" {
				some = append(some, x)
			}
		}
		c.matrix(fmt.Sprintf("record size %d", rs), withRS(some, rs, "memory"), false, []string{"file extended", "archive", "update"})
	}
	for _, rs := range []int{1, 2, 20, 128, 256, 600} {
		var ok []Cfg
		for i, x := range withRS(all, rs, "memory") {
			if supportedOnTape(x) && (!c.quick() || rs == 128 || i%7 == rs%7) {
				ok = append(ok, x)
			}
		}
		c.matrix(fmt.Sprintf("emulated tape, record size %d", rs), ok, true, []string{"file extended", "archive", "update"}[:c.pick(2, 3)])
	}
	c.exploreSeqs(&SeqSpec{Name: "restored trees", Setup: []Op{opMkdir("/d")}, Ops: restoreOps(), Depth: c.pick(3, 4), DB: ":memory:", Oracle: newRestoreOracle})
	for _, cfg := range []Cfg{{RS: 1}, {Comp: "zstandard", Enc: "age", Sig: "minisign"}, {Comp: "gzip", Enc: "pgp", Sig: "pgp"}} {
		c.exploreSeqs(&SeqSpec{Name: "restored trees", Cfg: cfg, Setup: []Op{opMkdir("/d"), opMkdir("/a")}, Ops: restoreOps(), Depth: c.pick(1, 2), DB: ":memory:", Oracle: newRestoreOracle})
	}
	c.exploreSeqs(&SeqSpec{Name: "restored trees, emulated tape", Setup: []Op{opMkdir("/d"), opMkdir("/a")}, Ops: restoreOps(), Depth: c.pick(2, 3), DB: ":memory:", FreshOpt: func() Opt { return Opt{Tape: newVtape(20)} }, Oracle: newRestoreOracle})
	for _, how := range []string{"file", "archive", "update"} {
		for _, vt := range []bool{false, true} {
			var ok []Cfg
			for i, x := range withRS(fastest, 64, "memory") {
				if vt && !supportedOnTape(x) || c.quick() && (i%2 == 1 || vt && how != "update") {
					continue
				}
				ok = append(ok, x)
			}
			name := "names with suffixes, " + how
			if vt {
				name += ", emulated tape"
			}
			c.each(name, fmt.Sprintf("%d configurations x %d names", len(ok), len(suffixNames())), int64(len(ok)), func(i int64) {
				cfg := ok[i].norm()
				journal(name + " " + cfg.String())
				run := func() string { return guardS(func() string { return c.suffixCase(cfg, vt, how) }) }
				if d := run(); d != "" && run() != "" {
					c.report(Violation{Key: name + " " + cfg.String(), Sub: name, Cfg: cfg.String(), Ops: []string{how + " files with suffixes in their names"}, Detail: d})
				}
			})
		}
	}
	for _, cfg := range append([]Cfg{{}, {RS: 1}, {Cache: "file"}, {Comp: "parallelgzip"}, {Comp: "bzip2", Enc: "age"}, {Comp: "parallelbzip2", Sig: "pgp"}}, pipeCfgs...) {
		cfg := cfg.norm()
		cs := contents(cfg.RS, !c.quick(), !c.quick())
		c.each("replacing "+cfg.String(), fmt.Sprintf("all %d^2 ordered pairs of contents", len(cs)), int64(len(cs)), func(i int64) {
			journal("replacing " + cfg.String())
			run := func() string { return guardS(func() string { return c.overwriteCase(cfg, cs, int(i)) }) }
			if d := run(); d != "" && run() != "" {
				c.report(Violation{Key: "replacing " + cfg.String() + " " + cs[i].name, Sub: "replacing", Cfg: cfg.String(), Ops: []string{"put " + cs[i].name}, Detail: d})
			}
		})
	}
}
