package main

import (
	"context"
	"fmt"
	"os"
	"path"
	"sort"
	"strings"

	"github.com/spf13/afero"
)

// tree checks that what listings from the root reach is exactly the live entries of the index, and that every
// lookup agrees with the listing. It returns a name for the state and what is wrong.
func tree(in *Inst) (string, string) {
	hdrs, err := in.Meta.GetHeaders(context.Background())
	if err != nil {
		return "", "GetHeaders: " + err.Error()
	}
	kind := map[string]byte{}
	link := map[string]bool{}
	for _, h := range hdrs {
		n := path.Clean("/" + h.Name)
		if h.Linkname != "" {
			// The entry of a link is where the link is, its name is what it points to.
			l := path.Clean("/" + h.Linkname)
			if link[l] {
				return "", "two live links at " + l
			}
			link[l] = true
			continue
		}
		if _, dup := kind[n]; dup {
			return "", "two live entries at " + n
		}
		kind[n] = byte(h.Typeflag)
	}
	if kind["/"] != '5' {
		return "", "there is no live root directory"
	}
	kids := map[string][]string{}
	var names []string
	for l := range link {
		if _, dup := kind[l]; dup {
			return "", "a live link and another live entry at " + l
		}
		p := path.Dir(l)
		if k, has := kind[p]; !has {
			return "", "the link " + l + " has no parent"
		} else if k != '5' {
			return "", "the parent of the link " + l + " is not a directory"
		}
		kids[p] = append(kids[p], path.Base(l))
	}
	for n := range kind {
		names = append(names, n)
		if n == "/" {
			continue
		}
		p := path.Dir(n)
		if k, has := kind[p]; !has {
			return "", n + " has no parent"
		} else if k != '5' {
			return "", "the parent of " + n + " is not a directory"
		}
		kids[p] = append(kids[p], path.Base(n))
	}
	sort.Strings(names)
	for _, d := range names {
		if kind[d] != '5' {
			continue
		}
		sort.Strings(kids[d])
		if s := listings(in, d, kids[d], link); s != "" {
			return "", "listing " + d + ": " + s
		}
	}
	var links []string
	for l := range link {
		links = append(links, l)
	}
	sort.Strings(links)
	return fmt.Sprint(names, links), ""
}

func dirNames(fi []os.FileInfo) (out []string) {
	for _, x := range fi {
		out = append(out, x.Name())
	}
	return
}

func sameSet(a, b []string) string {
	x := append([]string{}, a...)
	y := append([]string{}, b...)
	sort.Strings(x)
	sort.Strings(y)
	if strings.Join(x, "\x00") != strings.Join(y, "\x00") {
		return fmt.Sprintf("got %q, the live children are %q", x, y)
	}
	return ""
}

// few checks a count-limited listing.
func few(got, all []string, n int) string {
	if n > 0 && len(got) > n {
		return fmt.Sprintf("a listing limited to %d returned %d: %q", n, len(got), got)
	}
	has := map[string]int{}
	for _, x := range all {
		has[x]++
	}
	for _, x := range got {
		if has[x]--; has[x] < 0 {
			return fmt.Sprintf("a listing limited to %d returned %q, the live children are %q", n, got, all)
		}
	}
	if len(got) == 0 && len(all) > 0 {
		return fmt.Sprintf("a listing limited to %d is empty, the live children are %q", n, all)
	}
	return ""
}

func listings(in *Inst, d string, want []string, link map[string]bool) string {
	with := func(f func(h afero.File) string) string {
		h, err := in.FS.Open(d)
		if err != nil {
			return "opening: " + err.Error()
		}
		defer h.Close()
		return f(h)
	}
	var infos []os.FileInfo
	for _, n := range []int{-1, 0, -7} {
		if s := with(func(h afero.File) string {
			fi, err := h.Readdir(n)
			if err != nil {
				return fmt.Sprintf("Readdir(%d): %v", n, err)
			}
			infos = fi
			return sameSet(dirNames(fi), want)
		}); s != "" {
			return s
		}
		if s := with(func(h afero.File) string {
			ns, err := h.Readdirnames(n)
			if err != nil {
				return fmt.Sprintf("Readdirnames(%d): %v", n, err)
			}
			return sameSet(ns, want)
		}); s != "" {
			return s
		}
	}
	k := len(want)
	for _, n := range []int{1, 2, 3, k - 1, k, k + 1, 1000} {
		if n <= 0 {
			continue
		}
		if s := with(func(h afero.File) string {
			fi, _ := h.Readdir(n)
			return few(dirNames(fi), want, n)
		}); s != "" {
			return s
		}
		if s := with(func(h afero.File) string {
			ns, _ := h.Readdirnames(n)
			return few(ns, want, n)
		}); s != "" {
			return s
		}
	}
	if infos2, err := afero.ReadDir(in.FS, d); err != nil {
		return "afero.ReadDir: " + err.Error()
	} else if s := sameSet(dirNames(infos2), want); s != "" {
		return "afero.ReadDir: " + s
	}
	for _, fi := range infos {
		if link[path.Join(d, fi.Name())] {
			continue
		}
		if s := lookup(in, path.Join(d, fi.Name()), fi); s != "" {
			return path.Join(d, fi.Name()) + ": " + s
		}
	}
	return ""
}

// lookup compares one listed entry with what Stat, Open and reading give.
func lookup(in *Inst, p string, fi os.FileInfo) string {
	same := func(how string, o os.FileInfo) string {
		if o.Name() != fi.Name() || o.IsDir() != fi.IsDir() || o.Mode() != fi.Mode() || (!fi.IsDir() && o.Size() != fi.Size()) {
			return fmt.Sprintf("listed as %s %v size %d, %s says %s %v size %d", fi.Name(), fi.Mode(), fi.Size(), how, o.Name(), o.Mode(), o.Size())
		}
		return ""
	}
	st, err := in.FS.Stat(p)
	if err != nil {
		return "listed, but Stat: " + err.Error()
	}
	if s := same("Stat", st); s != "" {
		return s
	}
	h, err := in.FS.Open(p)
	if err != nil {
		return "listed, but Open: " + err.Error()
	}
	defer h.Close()
	hst, err := h.Stat()
	if err != nil {
		return "Stat of the open file: " + err.Error()
	}
	if s := same("Stat of the open file", hst); s != "" {
		return s
	}
	if path.Clean("/"+h.Name()) != p {
		return "the open file is called " + h.Name()
	}
	if fi.IsDir() {
		return ""
	}
	b, err := readAll(h)
	if err != nil {
		return "listed, but reading: " + err.Error()
	}
	if int64(len(b)) != fi.Size() {
		return fmt.Sprintf("listed with size %d, reading gives %d bytes", fi.Size(), len(b))
	}
	return ""
}

type namespaceOracle struct{ state string }

func newNamespaceOracle(*Inst) Oracle { return &namespaceOracle{} }

func (o *namespaceOracle) State() string { return o.state }

func (o *namespaceOracle) Step(in *Inst, op Op, out Out, check bool) string {
	if !check {
		return ""
	}
	st, d := tree(in)
	if d == "" {
		if rb, err := rebuilt(in.Cfg, in.Tape(), Opt{}); err != nil {
			d = "rebuilding: " + err.Error()
		} else {
			var st2 string
			if st2, d = tree(rb); d != "" {
				d = "in a rebuilt index: " + d
			} else if st2 != st {
				d = "the entries of a rebuilt index are " + st2 + ", those of the live one " + st
			}
			rb.Destroy()
		}
	}
	if d != "" {
		return "after " + op.Name + " (" + out.Class + "): " + d
	}
	o.state = st
	return ""
}

// opDuring checks the namespace while a file is being written, and while it has been removed or renamed meanwhile.
func opDuring(p string, then Op) Op {
	return Op{Name: "open " + p + " write, " + then.Name + ", close", Path: []string{p}, Do: func(in *Inst) Out {
		f, err := in.FS.OpenFile(p, os.O_RDWR|os.O_CREATE, 0o640)
		if err != nil {
			return fail("open", err)
		}
		look := func(when string) string {
			if _, d := tree(in); d != "" {
				return when + " with a file open for writing: " + d
			}
			return ""
		}
		d := look("after opening")
		if _, err := f.Write([]byte("during")); err == nil && d == "" {
			d = look("after writing")
		}
		then.Do(in)
		if d == "" {
			d = look("after " + then.Name)
		}
		err = f.Close()
		if d != "" {
			return Out{Step: "panic", Class: d}
		}
		return res("close", err)
	}, Mod: modAny}
}

// treeArchOps are the archive calls whose members come with their directories.
func treeArchOps() []Op {
	return []Op{
		opArchive(Member{Path: "/a", Dir: true}, Member{Path: "/a/c", Data: big}, Member{Path: "/b", Data: []byte("bb")}),
		opArchive(Member{Path: "/e", Dir: true}, Member{Path: "/e/f", Dir: true}, Member{Path: "/e/f/g", Data: nil}, Member{Path: "/ef", Data: []byte("x")}),
		opUpdate(true, Member{Path: "/b", Data: pat(700, 4), Perm: 0o600}), opUpdate(false, Member{Path: "/b", Data: []byte("bb"), Perm: 0o400, Time: tM}),
		opDelete("/a"), opDelete("/e"), opMove("/a", "/d"), opMove("/e/f", "/h"),
	}
}

// linkTreeOps adds to the links what is created, removed and renamed where links are, and below them.
func linkTreeOps() []Op {
	ops := []Op{}
	for _, o := range linkOps() {
		if o.Name != "symlink /b /a/l" { // see "links in directories"
			ops = append(ops, o)
		}
	}
	return append(ops, opMkdir("/l"), opMkdirAll("/l/x"), opPut("/l", []byte("via link")), opCreate("/l/y"), opSymlink("/l", "/ll"), opSymlink("/c", "/l"), opSymlink("/a", "/b/l"), opRemoveAll("/l"), opMkdir("/missing"), opPut("/missing", []byte("m")), opRename("/b", "/l"), opDelete("/l"))
}

func init() {
	checks["C13"] = checkDef{level: "model_checking", quickS: 240, thorS: 800, run: runC13,
		rule: "in every state reached, the live rows of the index are compared with every directory listing (with and without count limits) and every listed entry is looked up, opened and read; likewise on an index rebuilt from the tape"}
}

func runC13(c *Check) {
	ops := coreOps()
	c.exploreSeqs(&SeqSpec{Name: "filesystem calls", Ops: ops, Depth: 2, DB: ":memory:", Oracle: newNamespaceOracle})
	c.exploreSeqs(&SeqSpec{Name: "filesystem calls on a populated tree", Setup: popSetup, Ops: ops, Depth: 2, DB: ":memory:", Oracle: newNamespaceOracle})
	during := []Op{
		opDuring("/b", opRemove("/b")), opDuring("/b", opRename("/b", "/e")), opDuring("/a/c", opRemoveAll("/a")), opDuring("/a/c", opRename("/a", "/e")), opDuring("/n", opMkdir("/b")), opDuring("/n", opRename("/b", "/n")),
		opDuring("/a/n", opRemove("/a/n")), opDuring("/b", opPut("/b", []byte("other"))),
	}
	c.exploreSeqs(&SeqSpec{Name: "files open meanwhile", Setup: popSetup, Ops: append(during, opPut("/b", []byte("q")), opMkdir("/a"), opMkdir("/b"), opRemoveAll("/a")), Depth: 2, DB: ":memory:", Oracle: newNamespaceOracle})
	c.exploreSeqs(&SeqSpec{Name: "archive and filesystem calls", Ops: append(treeArchOps(), opMkdirAll("/a/b/c"), opRename("/e", "/a/e"), opRename("/a", "/e/f"), opRemoveAll("/e"), opRemove("/ef"), opCreate("/a/x")), Depth: c.pick(2, 4), DB: ":memory:", Oracle: newNamespaceOracle})
	c.exploreSeqs(&SeqSpec{Name: "links", Ops: linkTreeOps(), Depth: c.pick(2, 3), DB: ":memory:", Oracle: newNamespaceOracle})
	for _, lt := range linkTrees() {
		c.exploreSeqs(&SeqSpec{Name: lt.name, Setup: lt.setup, Ops: lt.ops, Depth: 2, DB: ":memory:", Oracle: newNamespaceOracle})
	}
	// Prefix-related names at three levels.
	pre := []Op{
		opMkdirAll("/a/a/a"), opMkdir("/aa"), opPut("/a/aa", []byte("f")), opPut("/aa/a", []byte("g")), opMkdirAll("/aa/a/a"), opRename("/a", "/aa/b"), opRename("/a/a", "/a_"), opRename("/aa", "/a"), opRename("/a/a/a", "/aa"),
		opRemoveAll("/a"), opRemove("/a/a/a"), opRemoveAll("/a/a"), opMkdir("/a_"), opPut("/a_/a", nil), opRemove("/aa"),
	}
	c.exploreSeqs(&SeqSpec{Name: "prefix-related names", Setup: pre[:2], Ops: pre, Depth: c.pick(2, 4), DB: ":memory:", Oracle: newNamespaceOracle})
	// Wide, deep and oddly named directories, changed by one or two calls.
	var wide, deep, odd []Op
	wide = append(wide, opMkdir("/w"))
	for i := 0; i < 40; i++ {
		if i%5 == 0 {
			wide = append(wide, opMkdir(fmt.Sprintf("/w/d%d", i)), opCreate(fmt.Sprintf("/w/d%d/x", i)))
		} else {
			wide = append(wide, opPut(fmt.Sprintf("/w/f%d", i), pat(i, 1)))
		}
	}
	p := ""
	for i := 0; i < 14; i++ {
		p += "/" + strings.Repeat("n", i%3+1)
		deep = append(deep, opMkdir(p), opPut(p+"/"+strings.Repeat("n", i%3+1)+"x", pat(i, 2)))
	}
	for i, n := range treeNames {
		odd = append(odd, opMkdir("/"+n), opPut("/"+n+"/"+n, pat(i, 3)), opMkdir("/"+n+"/"+n+n))
	}
	odd = append(odd, opPut("/f.gz", []byte("z")), opPut("/f", []byte("y")), opPut("/f.age", nil), opPut("/"+strings.Repeat("L", 180), []byte("long")))
	for _, cfg := range []Cfg{{}, {Comp: "gzip"}, {Enc: "age", Sig: "minisign", RS: 3}} {
		c.exploreSeqs(&SeqSpec{Name: "wide directory", Cfg: cfg, Setup: wide, Ops: []Op{opRename("/w", "/v"), opRemove("/w/f7"), opRename("/w/d5", "/w/d0/d5"), opRemoveAll("/w/d10"), opPut("/w/f7", []byte("new")), opCreate("/w/zz")}, Depth: c.pick(1, 2), DB: ":memory:", Oracle: newNamespaceOracle})
		c.exploreSeqs(&SeqSpec{Name: "deep directories", Cfg: cfg, Setup: deep, Ops: []Op{opRename("/n", "/m"), opRemoveAll("/n/nn/nnn"), opRename("/n/nn/nnn", "/n/x"), opRename("/n/nn", "/nn")}, Depth: c.pick(1, 2), DB: ":memory:", Oracle: newNamespaceOracle})
		c.exploreSeqs(&SeqSpec{Name: "odd names", Cfg: cfg, Setup: odd, Ops: []Op{opRename("/a", "/z"), opRemoveAll("/a_"), opRemoveAll("/a%"), opRename("/a%", "/%/a%"), opRemoveAll("/_"), opRename("/a_", "/A/a_"), opRemove("/f"), opRename("/f.gz", "/a/f")}, Depth: c.pick(1, 2), DB: ":memory:", Oracle: newNamespaceOracle})
	}
	for _, n := range []int{130, c.pick(270, 1100)} {
		us := scaled(n, c.pick(34, 56))
		c.exploreSeqs(&SeqSpec{Name: fmt.Sprintf("directory with %d entries", n), Setup: us[0].setup, Ops: []Op{opRename("/w", "/v"), opRemove("/w/007"), opRemoveAll("/w/013"), opPut("/w/zz", []byte("z")), opRename("/w/003", "/e")}, Depth: 1, DB: ":memory:", Oracle: newNamespaceOracle})
	}
	c.exploreSeqs(&SeqSpec{Name: fmt.Sprintf("%d levels", c.pick(34, 56)), Setup: scaled(1, c.pick(34, 56))[1].setup, Ops: []Op{opRename("/d/d", "/e"), opRemoveAll("/d/d/d"), opRemoveAll("/d"), opMkdir("/d/d/e"), opPut("/d/d/d/d/d/d/d/d/d/d/d/d/d/d/d/d/d/d/f", []byte("z"))}, Depth: 1, DB: ":memory:", Oracle: newNamespaceOracle})
	extra := func(in *Inst, before *snap, op Op, out Out) string { _, d := tree(in); return d }
	c.exploreBFS(&BFSSpec{Name: "search", Ops: ops, Depth: c.pick(2, 5), Extra: extra})
	c.exploreBFS(&BFSSpec{Name: "search on rebuilt indexes", NoDB: true, Setup: popSetup, Ops: append(smallOps(), treeArchOps()...), Depth: c.pick(2, 5), Extra: extra})
}

type linkTree struct {
	name       string
	setup, ops []Op
}

// linkTrees have links in, to and beside directories.
func linkTrees() []linkTree {
	in := []Op{opMkdir("/a"), opPut("/b", []byte("b")), opPut("/a/c", []byte("c")), opSymlink("/b", "/a/l")}
	more := append(append([]Op{}, in...), opSymlink("/a/c", "/k"), opSymlink("/a", "/a/s"), opSymlink("/a/gone", "/a/g"), opMkdir("/d"), opSymlink("/a/l", "/d/l"))
	return []linkTree{
		{"links in directories", in, []Op{
			opRemove("/a"), opRemove("/a/l"), opRename("/a/l", "/a/m"), opRename("/a/l", "/m"), opRename("/b", "/a/l"), opRename("/a/c", "/a/l"), opRename("/b", "/c"), opRemove("/b"), opPut("/a/l", []byte("via link")), opMkdir("/a/l"), opSymlink("/a/c", "/a/l"), opChmod("/a/l", 0o600),
		}},
		{"links in moved and removed directories", more, []Op{opRemoveAll("/a"), opRename("/a", "/e"), opRename("/a", "/d/a"), opRename("/e", "/a"), opRename("/d", "/a/d"), opRename("/d", "/e"), opRemoveAll("/d"), opRemove("/a/l"), opRemoveAll("/k"), opMkdir("/a"), opRename("/a/c", "/e"), opRemove("/a/c"), opPut("/a/gone", []byte("g"))}},
	}
}
