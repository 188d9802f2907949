package main

import (
	"archive/tar"
	"bytes"
	"fmt"
	"os"
	"path"
	"sort"
	"strings"
	"time"

	"github.com/spf13/afero"

	"github.com/pojntfx/stfs/pkg/cache"
	"github.com/pojntfx/stfs/pkg/config"
)

// fMember is a member of an archive which something else wrote, by its path below the top-level directory.
type fMember struct {
	p    string // "" is the top-level directory itself
	dir  bool
	data []byte
}

// fStyle is how members are named.
type fStyle struct {
	name string
	top  string // name of the top-level directory, as the prefix of all others
}

var fStyles = []fStyle{
	{"relative to ./", "./"},
	{"relative to /", "/"},
	{"under a named directory", "top/"},
	{"under a nested named directory", "home/user/"},
	{"under a directory named relative to ./", "./top/"},
	{"under a named absolute directory", "/srv/data/"},
}

// fTar is one archive: its members, and how they are written.
type fTar struct {
	what    string
	ms      []fMember
	style   fStyle
	format  tar.Format
	noSlash bool // directories without a trailing slash
	pad     int  // length is a multiple of this (GNU tar: 10240)
	drive   bool // on an emulated tape, in records of the size which is used
}

func (t fTar) String() string {
	s := fmt.Sprintf("%s, %s, %v", t.what, t.style.name, t.format)
	if t.noSlash {
		s += ", directories without slash"
	}
	if t.pad > 0 {
		s += fmt.Sprintf(", padded to %d", t.pad)
	}
	if t.drive {
		s += ", on a tape"
	}
	return s
}

// onDrive is the archives as they are on tapes.
func onDrive(ts []fTar) (out []fTar) {
	for _, t := range ts {
		t.drive = true
		out = append(out, t)
	}
	return
}

// medium is the archive on what it is opened from.
func (t fTar) medium(cfg Cfg, b []byte) fMedium {
	if !t.drive {
		return fMedium{t: b}
	}
	v := newVtape(cfg.norm().RS)
	for len(b)%v.bs != 0 {
		b = append(b[:len(b):len(b)], 0)
	}
	for i := 0; i < len(b); i += v.bs {
		v.put(vitem{data: b[i : i+v.bs]})
	}
	v.put(vitem{mark: true})
	return fMedium{vt: v}
}

// fMedium is a tape or a file.
type fMedium struct {
	t  []byte
	vt *vtape
}

func (m fMedium) String() string {
	if m.vt != nil {
		return m.vt.String()
	}
	return string(m.t)
}

func (m fMedium) dup() fMedium {
	if m.vt != nil {
		return fMedium{vt: m.vt.dup()}
	}
	return m
}

func mediumOf(in *Inst) fMedium {
	if in.VT != nil {
		return fMedium{vt: in.VT.dup()}
	}
	return fMedium{t: in.Tape()}
}

var tForeign = time.Unix(1400000000, 0)

func (t fTar) bytes() ([]byte, error) {
	var b bytes.Buffer
	w := tar.NewWriter(&b)
	for _, m := range t.ms {
		h := &tar.Header{Name: t.style.top + m.p, Format: t.format, ModTime: tForeign, Mode: 0o640, Uid: 1234, Gid: 567, Uname: "user", Gname: "group", Typeflag: tar.TypeReg, Size: int64(len(m.data))}
		if m.dir {
			h.Typeflag, h.Mode = tar.TypeDir, 0o751
			h.Name = strings.TrimSuffix(h.Name, "/") + "/"
			if t.noSlash && h.Name != "/" {
				h.Name = strings.TrimSuffix(h.Name, "/")
			}
		}
		if t.format != tar.FormatUSTAR {
			h.AccessTime = tForeign.Add(time.Hour)
		}
		if err := w.WriteHeader(h); err != nil {
			return nil, err
		}
		if _, err := w.Write(m.data); err != nil {
			return nil, err
		}
	}
	if err := w.Close(); err != nil {
		return nil, err
	}
	out := b.Bytes()
	if t.pad > 0 {
		for len(out)%t.pad != 0 {
			out = append(out, make([]byte, blk)...)
		}
	}
	return out, nil
}

func (t fTar) model() *Model {
	m := newModel()
	for _, x := range t.ms {
		n := &node{dir: x.dir, perm: 0o640, uid: 1234, gid: 567, data: x.data, mtime: tForeign.UnixNano()}
		if x.dir {
			n.perm = 0o751
		}
		m.n[path.Join("/", x.p)] = n
	}
	return m
}

// comp is a filesystem put together as documented.
type comp struct {
	in   *Inst
	root string
	fs   afero.Fs
}

func compose(cfg Cfg, m fMedium, db []byte, proposal, cacheType string) (*comp, error) {
	in, err := onTape(cfg, m.t, db, Opt{Tape: m.vt})
	if err != nil {
		return nil, err
	}
	root, err := in.FS.Initialize(proposal, os.ModePerm)
	if err != nil {
		in.Destroy()
		return nil, fmt.Errorf("initialize: %w", err)
	}
	fs, err := cache.NewCacheFilesystem(in.FS, root, cacheType, time.Hour, path.Join(in.Dir, "fscache"))
	if err != nil {
		in.Destroy()
		return nil, fmt.Errorf("cache: %w", err)
	}
	return &comp{in, root, fs}, nil
}

// view is the tree as the composed filesystem shows it.
func (k *comp) view() View {
	v := View{}
	var rec func(p string, depth int)
	one := func(p string, fi os.FileInfo) Ent {
		var e Ent
		entFromInfo(&e, fi)
		if e.Kind == "file" {
			if b, err := readFile(k.fs, p); err != nil {
				e.Err = "read: " + errClass(err)
			} else {
				e.Content = contentKey(b)
			}
		}
		return e
	}
	rec = func(p string, depth int) {
		f, err := k.fs.Open(p)
		if err != nil {
			v["!open:"+p] = Ent{Err: errClass(err)}
			return
		}
		fis, err := f.Readdir(-1)
		f.Close()
		if err != nil || depth > 40 {
			v["!list:"+p] = Ent{Err: errClass(err)}
			return
		}
		for _, fi := range fis {
			if strings.Contains(fi.Name(), "/") || fi.Name() == "" || fi.Name() == "." {
				v["!name:"+p] = Ent{Err: fmt.Sprintf("lists %q", fi.Name())}
				continue
			}
			q := path.Join(p, fi.Name())
			if _, dup := v[q]; dup {
				v["!dup:"+q] = Ent{Err: "listed twice"}
				continue
			}
			v[q] = one(q, fi)
			if st, err := k.fs.Stat(q); err != nil {
				v["!stat:"+q] = Ent{Err: errClass(err)}
			} else if e := one(q, st); e != v[q] {
				v["!mismatch:"+q] = Ent{Err: fmt.Sprintf("the listing says %v, Stat says %v", v[q], e)}
			}
			if fi.IsDir() {
				rec(q, depth+1)
			}
		}
	}
	if fi, err := k.fs.Stat("/"); err != nil {
		v["!stat:/"] = Ent{Err: errClass(err)}
	} else {
		v["/"] = one("/", fi)
	}
	rec("/", 0)
	return v
}

// spellings is other ways to write a path.
func spellings(p string) []string {
	rel := strings.TrimPrefix(p, "/")
	if rel == "" {
		return []string{"/", ".", "./", "", "//"}
	}
	out := []string{rel, "./" + rel, "/./" + rel, "//" + rel, "/x/../" + rel, rel + "/", p + "/", "./" + rel + "/."}
	if strings.Contains(rel, "/") {
		out = append(out, strings.ReplaceAll(p, "/", "//"), "/"+strings.ReplaceAll(rel, "/", "/./"))
	}
	return out
}

// sameEntry says whether every spelling of every path leads to the same entry.
func (k *comp) sameEntry(paths []string) string {
	for _, p := range paths {
		a, err := k.fs.Stat(p)
		for _, s := range spellings(p) {
			if s == "" && k.root != "" && !strings.HasPrefix(k.root, ".") && k.root != "/" {
				// still the root
				_ = s
			}
			b, err2 := k.fs.Stat(s)
			if coarse(err) != coarse(err2) {
				return fmt.Sprintf("Stat(%q) gives %s, Stat(%q) gives %s", p, errClass(err), s, errClass(err2))
			}
			if err != nil {
				continue
			}
			x, _ := infoStr(a, nil)
			y, _ := infoStr(b, nil)
			if p == "/" {
				x, y = strings.TrimPrefix(x, a.Name()), strings.TrimPrefix(y, b.Name())
			}
			if x != y {
				return fmt.Sprintf("Stat(%q) gives %s, Stat(%q) gives %s", p, x, s, y)
			}
			if a.IsDir() {
				f, e1 := k.fs.Open(p)
				g, e2 := k.fs.Open(s)
				if s == "" {
					continue // opening nothing is an error everywhere
				}
				if e1 != nil || e2 != nil {
					return fmt.Sprintf("Open(%q) gives %v, Open(%q) gives %v", p, e1, s, e2)
				}
				n1, e1 := f.Readdirnames(-1)
				n2, e2 := g.Readdirnames(-1)
				f.Close()
				g.Close()
				sort.Strings(n1)
				sort.Strings(n2)
				if e1 != nil || e2 != nil || strings.Join(n1, "\n") != strings.Join(n2, "\n") {
					return fmt.Sprintf("%q lists %q (%v), %q lists %q (%v)", p, n1, e1, s, n2, e2)
				}
				continue
			}
			b1, e1 := readFile(k.fs, p)
			b2, e2 := readFile(k.fs, s)
			if e1 != nil || e2 != nil || !bytes.Equal(b1, b2) {
				return fmt.Sprintf("%q reads %s (%v), %q reads %s (%v)", p, contentKey(b1), e1, s, contentKey(b2), e2)
			}
		}
	}
	return ""
}

func (m *Model) paths() []string {
	var out []string
	for p := range m.n {
		out = append(out, p)
	}
	sort.Strings(out)
	return out
}

// opened checks an archive as a filesystem.
func (c *Check) opened(t fTar, cfg Cfg) string {
	b, err := t.bytes()
	if err != nil {
		c.add("archives the format cannot express", 1)
		return ""
	}
	c.add("archives", 1)
	return guardS(func() string {
		was := t.medium(cfg, b)
		k, err := compose(cfg, was.dup(), nil, "/", config.NoneKey)
		if err != nil {
			return err.Error()
		}
		defer k.in.Destroy()
		if now := k.in.medium(); now != was.String() {
			return "opening changed the tape: " + tapeDiff([]byte(was.String()), []byte(now))
		}
		m := t.model()
		if d := m.compare(k.view()); d != "" {
			return fmt.Sprintf("(root %q) %s", k.root, d)
		}
		return k.sameEntry(append(m.paths(), "/missing"))
	})
}

// fOp is a call on the composed filesystem with its reference semantics.
type fOp struct {
	name string
	do   func(fs afero.Fs) error
	mod  func(m *Model) string
	path []string
}

func fOpen(p string, flag int, data []byte) fOp {
	return fOp{fmt.Sprintf("open %s %s write %s", p, flagName(flag), contentKey(data)), func(fs afero.Fs) error {
		f, err := fs.OpenFile(p, flag, 0o640)
		if err != nil {
			return err
		}
		if n, err := f.Write(data); err != nil || n != len(data) {
			f.Close()
			return fmt.Errorf("write: %d %w", n, err)
		}
		return f.Close()
	}, func(m *Model) string {
		if r := m.open(path.Join("/", p), flag, 0o640); r != mOK {
			return r
		}
		m.write(path.Join("/", p), flag&os.O_APPEND != 0, 0, data)
		return mOK
	}, []string{path.Join("/", p)}}
}

func fSimple(name string, ps []string, do func(fs afero.Fs) error, mod func(m *Model) string) fOp {
	return fOp{name, do, mod, ps}
}

// fOps is calls on the composed filesystem, with paths spelled in different ways.
func fOps() []fOp {
	mk := func(p string) fOp {
		return fSimple("mkdir "+p, []string{p}, func(fs afero.Fs) error { return fs.Mkdir(p, 0o700) }, func(m *Model) string { return m.mkdir(path.Join("/", p), 0o700) })
	}
	mka := func(p string) fOp {
		return fSimple("mkdirall "+p, []string{p}, func(fs afero.Fs) error { return fs.MkdirAll(p, 0o700) }, func(m *Model) string { return m.mkdirAll(path.Join("/", p), 0o700) })
	}
	rm := func(p string) fOp {
		return fSimple("remove "+p, []string{p}, func(fs afero.Fs) error { return fs.Remove(p) }, func(m *Model) string { return m.remove(path.Join("/", p)) })
	}
	rma := func(p string) fOp {
		return fSimple("removeall "+p, []string{p}, func(fs afero.Fs) error { return fs.RemoveAll(p) }, func(m *Model) string { return m.removeAll(path.Join("/", p)) })
	}
	mv := func(a, b string) fOp {
		return fSimple("rename "+a+" "+b, []string{a, b}, func(fs afero.Fs) error { return fs.Rename(a, b) }, func(m *Model) string { return m.rename(path.Join("/", a), path.Join("/", b)) })
	}
	chmod := func(p string) fOp {
		return fSimple("chmod "+p, []string{p}, func(fs afero.Fs) error { return fs.Chmod(p, 0o600) }, func(m *Model) string {
			return m.attr(path.Join("/", p), func(n *node) { n.perm = 0o600 })
		})
	}
	chtimes := func(p string) fOp {
		return fSimple("chtimes "+p, []string{p}, func(fs afero.Fs) error { return fs.Chtimes(p, tA, tM) }, func(m *Model) string {
			return m.attr(path.Join("/", p), func(n *node) { n.atime, n.mtime = tA.UnixNano(), tM.UnixNano() })
		})
	}
	// Renamed (or, with its directory, moved) while it is being written to.
	held := func(p, from, to string) fOp {
		return fSimple("write "+p+", rename "+from+" "+to+", close", []string{p, from, to}, func(fs afero.Fs) error {
			f, err := fs.OpenFile(p, os.O_RDWR, 0o640)
			if err != nil {
				return err
			}
			if _, err := f.Write([]byte("held")); err != nil {
				f.Close()
				return err
			}
			if err := fs.Rename(from, to); err != nil {
				f.Close()
				return err
			}
			return f.Close()
		}, func(m *Model) string {
			if r := m.open(path.Join("/", p), os.O_RDWR, 0o640); r != mOK {
				return r
			}
			m.hold(0, path.Join("/", p), os.O_RDWR)
			h := m.held[0]
			m.held[0] = nil
			h.write([]byte("held"))
			r := m.rename(path.Join("/", from), path.Join("/", to))
			m.sync(h)
			return r
		})
	}
	put := os.O_RDWR | os.O_CREATE | os.O_TRUNC
	return []fOp{
		held("b", "./b", "/d/b"), held("./d/f", "d", "h"), held("/d/f", "/d/f", "e/f"),
		fOpen("/new", put, []byte("new")), fOpen("d/new", put, big), fOpen("./d/f", put, []byte("replaced")), fOpen("b", os.O_RDWR|os.O_APPEND, []byte("+more")), fOpen("/d/f", os.O_WRONLY, []byte("XY")),
		mk("/g"), mk("./d/g"), mk("/d"), mka("d/x/y"), rm("/b"), rm("./d"), rm("e"), rm("d/f"), rma("/d"), rma("./b"),
		mv("/d", "/h"), mv("b", "d/b"), mv("./d/f", "./b"), mv("/d/f", "/e/f"), mv("/e", "/d/e"), mv("d", "e"), chmod("/d"), chmod("./b"), chtimes("d/f"), chmod("/"),
	}
}

// use executes calls on an archive opened as a filesystem.
func (c *Check) use(t fTar, cfg Cfg, ops []fOp) string {
	b, err := t.bytes()
	if err != nil {
		return ""
	}
	return guardS(func() string {
		was := t.medium(cfg, b)
		k, err := compose(cfg, was.dup(), nil, "/", config.NoneKey)
		if err != nil {
			return err.Error()
		}
		defer k.in.Destroy()
		m := t.model()
		did := ""
		for i, o := range ops {
			did += "; " + o.name
			want := o.mod(m)
			err := o.do(k.fs)
			c.add("transitions", 1)
			if d := judge(want, Out{Step: o.name, Class: errClass(err)}); d != "" {
				return did[2:] + ": " + d
			}
			m.touch(o.path)
			if i == len(ops)-1 {
				if d := m.compare(k.view()); d != "" {
					return did[2:] + ": " + d
				}
			}
		}
		now := mediumOf(k.in)
		if !strings.HasPrefix(now.String(), was.String()) {
			return did[2:] + ": what was on the tape changed: " + tapeDiff([]byte(was.String()), []byte(now.String()))
		}
		db := readDB(k.in)
		for _, x := range []namedDB{{"rebuilt", nil}, {"reopened", db}} {
			r, err := compose(cfg, now.dup(), x.db, "/", config.NoneKey)
			if err != nil {
				return did[2:] + ": " + x.name + ": " + err.Error()
			}
			d := m.compare(r.view())
			root := r.root
			r.in.Destroy()
			if d != "" {
				return fmt.Sprintf("%s: %s (root %q, before %q): %s", did[2:], x.name, root, k.root, d)
			}
		}
		return ""
	})
}

func init() {
	checks["C17"] = checkDef{level: "model_checking", quickS: 240, thorS: 800, run: runC17,
		rule:   "for every archive of the stated spaces (trees x names x sizes x root styles x formats x ways of ending x orders of members): opened through the documented composition, listed and read completely, every spelling of every path looked up, indexed again with another index, and every sequence of the stated calls up to the bound applied, compared with a reference model live, reopened and rebuilt",
		assume: []string{"archives have an entry for their top-level directory and for every directory below it; members are regular files and directories"}}
}

var fBasic = []fMember{{dir: true}, {p: "d", dir: true}, {p: "d/f", data: []byte("content of f")}, {p: "e", dir: true}, {p: "b", data: pat(700, 5)}, {p: "d/empty"}}

// fCollide has names which are prefixes or patterns of one another.
var fCollide = []fMember{{dir: true}, {p: "d", dir: true}, {p: "d/f", data: []byte("1")}, {p: "d/d", dir: true}, {p: "d/d/d", data: []byte("22")}, {p: "d/b", dir: true}, {p: "dd", dir: true}, {p: "dd/f", data: []byte("333")}, {p: "d_", dir: true}, {p: "d_/f", data: []byte("4")}, {p: "d.f", data: []byte("5")}, {p: "D", dir: true}, {p: "D/f", data: []byte("66")}, {p: "b", data: []byte("b")}, {p: "e", dir: true}}

var fFormats = []tar.Format{tar.FormatUSTAR, tar.FormatPAX, tar.FormatGNU}

// fTrees is every tree of up to n members below the top-level directory over the given names, parents first, with
// every kind of member; contents differ.
func fTrees(names []string, n int) [][]fMember {
	var out [][]fMember
	var rec func(ms []fMember, from int, all []fMember)
	type cand struct{ p string }
	rec = func(ms []fMember, min int, _ []fMember) {
		out = append(out, append([]fMember{}, ms...))
		if len(ms) > n {
			return
		}
		// Candidates: a name in any directory so far; each set of members once, in a canonical order.
		var cs []string
		for _, d := range ms {
			if d.dir {
				for _, x := range names {
					cs = append(cs, strings.TrimPrefix(d.p+"/"+x, "/"))
				}
			}
		}
		last := ""
		if len(ms) > 1 {
			last = ms[len(ms)-1].p
		}
	next:
		for _, p := range cs {
			if p <= last {
				continue
			}
			for _, m := range ms {
				if m.p == p {
					continue next
				}
			}
			for _, dir := range []bool{true, false} {
				m := fMember{p: p, dir: dir}
				if !dir {
					m.data = pat(100*len(ms)+len(p), byte(len(ms)))
				}
				rec(append(ms[:len(ms):len(ms)], m), 0, nil)
			}
		}
	}
	_ = cand{}
	rec([]fMember{{dir: true}}, 0, nil)
	return out
}

func fNames() []string {
	var out []string
	for _, n := range []int{1, 98, 99, 100, 101, 154, 155, 156, 200, 254, 255, 256, 257, 300, 512, 1000} {
		out = append(out, strings.Repeat("n", n), strings.Repeat("d", 50)+"/"+strings.Repeat("n", n))
	}
	return append(out, "a b", " lead", "trail ", "x.gz", "x.age", "..x", "...", ".hidden", "-dash", "%", "_", "q'uote", "dq\"", "back\\slash", "*", "top", "home", "home/user", "top/top", "srv/data",
		"ä", "日本語", strings.Repeat("é", 60), strings.Repeat("é", 130), "new\nline", "tab\t", "pax_global_header", "d", "dd", "d/d", "null", "0")
}

func runC17(c *Check) {
	rep := func(t fTar, cfg Cfg, d string) {
		if d != "" {
			key := t.String() + ": " + d
			if len(key) > 300 {
				key = key[:300]
			}
			c.report(Violation{Key: key, Sub: t.style.name, Cfg: cfg.norm().String(), Ops: []string{t.String()}, Detail: d})
		}
	}
	open := func(name, what string, ts []fTar, cfgs []Cfg) {
		c.each(name, fmt.Sprintf("%d archives (%s) x %d record sizes", len(ts), what, len(cfgs)), int64(len(ts)*len(cfgs)), func(i int64) {
			t, cfg := ts[int(i)/len(cfgs)], cfgs[int(i)%len(cfgs)]
			journal("C17 " + t.String())
			rep(t, cfg, c.opened(t, cfg))
		})
	}
	rs := func(ns ...int) (out []Cfg) {
		for _, n := range ns {
			out = append(out, Cfg{RS: n})
		}
		return
	}

	// Trees.
	var ts []fTar
	for _, tr := range fTrees([]string{"a", "b"}, c.pick(2, 3)) {
		for _, st := range fStyles {
			for _, fo := range fFormats {
				for _, ns := range []bool{false, true} {
					ts = append(ts, fTar{fmt.Sprint("tree ", memberKinds(tr)), tr, st, fo, ns, 0, false})
				}
			}
		}
	}
	open("trees", "all trees, ways of naming, formats, with and without slashes after directories", ts, rs(20))

	// Names.
	ts = nil
	for _, n := range fNames() {
		for _, dir := range []bool{false, true} {
			ms := []fMember{{dir: true}}
			if strings.Contains(n, "/") {
				ms = append(ms, fMember{p: path.Dir(n), dir: true})
			}
			if ms[len(ms)-1].p == "" || n != "" {
				ms = append(ms, fMember{p: n, dir: dir, data: nil})
				if dir {
					ms = append(ms, fMember{p: n + "/in", data: []byte("inside")})
				} else {
					ms[len(ms)-1].data = []byte("content of " + n)
				}
			}
			for _, st := range fStyles {
				for _, fo := range fFormats {
					ts = append(ts, fTar{fmt.Sprintf("name %.40q of %d bytes, directory %v", n, len(n), dir), ms, st, fo, false, 0, false})
				}
			}
		}
	}
	open("names", "long, non-ASCII and confusing names of files and directories", ts, rs(20, 3))

	// Sizes.
	ts = nil
	for _, n := range []int{0, 1, 511, 512, 513, 1023, 1024, 1025, 1536, 10239, 10240, 10241, 20480, 30000} {
		for _, st := range fStyles[:3] {
			for _, fo := range fFormats {
				for _, pad := range []int{0, 10240} {
					ts = append(ts, fTar{fmt.Sprintf("size %d", n), []fMember{{dir: true}, {p: "a", data: pat(n, 9)}, {p: "b", data: pat(n, 7)}, {p: "z", data: []byte("z")}}, st, fo, false, pad, false})
				}
			}
		}
	}
	all := []int{}
	for n := 1; n <= c.pick(24, 128); n++ {
		all = append(all, n)
	}
	open("sizes", "contents around blocks and records", ts, rs(1, 2, 20, 21))
	ts = nil
	for _, st := range fStyles {
		ts = append(ts, fTar{"basic", fBasic, st, tar.FormatPAX, false, 10240, false})
	}
	open("record sizes", "every way of naming", ts, rs(all...))

	// Orders.
	ts = nil
	small := []fMember{{dir: true}, {p: "d", dir: true}, {p: "d/f", data: []byte("content of f")}, {p: "b", data: []byte("b")}}
	for _, pe := range permutations(len(small)) {
		var ms []fMember
		for _, i := range pe {
			ms = append(ms, small[i])
		}
		for _, st := range fStyles {
			for _, fo := range fFormats {
				ts = append(ts, fTar{fmt.Sprint("order ", pe), ms, st, fo, false, 0, false})
			}
		}
	}
	open("orders", "all orders of the members", ts, rs(20))

	// On a tape drive.
	ts = nil
	for _, tr := range fTrees([]string{"a", "b"}, c.pick(1, 2)) {
		for _, st := range fStyles {
			for _, fo := range fFormats {
				for _, ns := range []bool{false, true} {
					ts = append(ts, fTar{fmt.Sprint("tree ", memberKinds(tr)), tr, st, fo, ns, 0, false})
				}
			}
		}
	}
	for _, st := range fStyles {
		ts = append(ts, fTar{"basic", fBasic, st, tar.FormatPAX, false, 0, false})
		for _, n := range []int{0, 511, 512, 513, 1024, 1536, 10240, 30000} {
			ts = append(ts, fTar{fmt.Sprintf("size %d", n), []fMember{{dir: true}, {p: "a", data: pat(n, 9)}, {p: "b", data: pat(n, 7)}, {p: "z", data: []byte("z")}}, st, tar.FormatGNU, false, 0, false})
		}
	}
	open("emulated tape", "trees, sizes and every way of naming", onDrive(ts), rs(20, 1, 3))

	// What is written afterwards.
	ops := fOps()
	ts = nil
	for _, st := range fStyles {
		for _, fo := range fFormats {
			for _, ns := range []bool{false, true} {
				ts = append(ts, fTar{"basic", fBasic, st, fo, ns, 10240 * map[bool]int{false: 0, true: 1}[fo == tar.FormatGNU], false})
			}
		}
	}
	uses := func(name string, ts []fTar, cfgs []Cfg, ops []fOp, depth int) {
		per := int64(1)
		for i := 0; i < depth; i++ {
			per *= int64(len(ops))
		}
		c.each(name, fmt.Sprintf("%d archives x %d record sizes x all %d^%d sequences of calls", len(ts), len(cfgs), len(ops), depth), int64(len(ts)*len(cfgs))*per, func(i int64) {
			r := i % per
			j := int(i / per)
			var seq []fOp
			for k := 0; k < depth; k++ {
				seq = append(seq, ops[r%int64(len(ops))])
				r /= int64(len(ops))
			}
			t, cfg := ts[j/len(cfgs)], cfgs[j%len(cfgs)]
			journal("C17 " + t.String())
			c.add("histories", 1)
			rep(t, cfg, c.use(t, cfg, seq))
		})
	}
	uses("further calls", ts, rs(20, 1, 7), ops, 1)
	var t2 []fTar
	for i, t := range ts {
		if !c.quick() || i%6 == 2*(i/6%3) {
			t2 = append(t2, t)
		}
	}
	uses("two further calls", t2, rs(20), ops, 2)
	var t3 []fTar
	for _, st := range fStyles {
		for _, ns := range []bool{false, true} {
			t3 = append(t3, fTar{"colliding names", fCollide, st, tar.FormatPAX, ns, 0, false})
		}
	}
	open("colliding names", "every way of naming", t3, rs(20))
	uses("colliding names, further calls", t3, rs(20), ops, 1)
	uses("colliding names, recursive calls", t3, rs(20), recursive(ops), 2)
	uses("further calls, emulated tape", onDrive(ts), rs(20, 1, 7), ops, 1)
	if !c.quick() {
		uses("two further calls, emulated tape", onDrive(t2), rs(20), ops, 2)
	}
}

// recursive is those of the calls which concern whole trees.
func recursive(ops []fOp) (out []fOp) {
	for _, o := range ops {
		for _, x := range []string{"removeall ", "rename /d ", "rename d ", "rename /e ", "mkdirall "} {
			if strings.HasPrefix(o.name, x) {
				out = append(out, o)
			}
		}
	}
	return
}

func permutations(n int) (out [][]int) {
	var rec func(cur []int)
	rec = func(cur []int) {
		if len(cur) == n {
			out = append(out, append([]int{}, cur...))
			return
		}
	next:
		for i := 0; i < n; i++ {
			for _, j := range cur {
				if i == j {
					continue next
				}
			}
			rec(append(cur, i))
		}
	}
	rec(nil)
	return
}

func memberKinds(ms []fMember) string {
	var s []string
	for _, m := range ms {
		k := m.p
		if m.dir {
			k += "/"
		}
		s = append(s, k)
	}
	return strings.Join(s, " ")
}
