package main

import (
	"bytes"
	"context"
	"fmt"
	"io"
	"net/http"
	"net/http/httptest"
	"os"
	"path/filepath"
	"reflect"
	"strings"
	"time"

	"github.com/spf13/afero"

	"github.com/pojntfx/stfs/pkg/cache"
	"github.com/pojntfx/stfs/pkg/config"
)

// roCall is one call on a filesystem. Calls which only read give the same on a writable filesystem.
type roCall struct {
	name string
	mut  bool // a method which changes something whenever it succeeds
	do   func(in *Inst) (res string, err error)
}

func coarse(err error) string {
	s := errClass(err)
	if strings.HasPrefix(s, "other(") {
		return "other"
	}
	return s
}

func infoStr(fi os.FileInfo, err error) (string, error) {
	if err != nil {
		return "", err
	}
	if fi == nil || reflect.ValueOf(fi).Kind() == reflect.Ptr && reflect.ValueOf(fi).IsNil() {
		return "no info", nil
	}
	var e Ent
	entFromInfo(&e, fi)
	return fmt.Sprintf("%s %v mode=%v size=%d", fi.Name(), e, fi.Mode(), fi.Size()), nil
}

// roReads is every reading call on a path.
func roReads(p string) []roCall {
	r := func(n string, f func(in *Inst) (string, error)) roCall { return roCall{name: n + " " + p, do: f} }
	return []roCall{
		r("stat", func(in *Inst) (string, error) { return infoStr(in.FS.Stat(p)) }),
		r("lstat", func(in *Inst) (string, error) {
			fi, ok, err := in.FS.LstatIfPossible(p)
			s, err := infoStr(fi, err)
			return fmt.Sprint(s, ok), err
		}),
		r("readlink", func(in *Inst) (string, error) { return in.FS.ReadlinkIfPossible(p) }),
		r("read", func(in *Inst) (string, error) {
			b, err := readFile(in.FS, p)
			return contentKey(b), err
		}),
		r("list", func(in *Inst) (string, error) {
			fis, err := list(in, p, -1)
			var s []string
			for _, fi := range fis {
				x, _ := infoStr(fi, nil)
				s = append(s, x)
			}
			return strings.Join(s, "; "), err
		}),
	}
}

// roMuts is every changing call on a path.
func roMuts(p string) []roCall {
	r := func(n string, f func(in *Inst) error) roCall {
		return roCall{name: n + " " + p, mut: true, do: func(in *Inst) (string, error) { return "", f(in) }}
	}
	closing := func(f afero.File, err error) error {
		if err == nil && f != nil {
			f.Close()
		}
		return err
	}
	return []roCall{
		r("create", func(in *Inst) error { return closing(in.FS.Create(p)) }),
		r("mkdir", func(in *Inst) error { return in.FS.Mkdir(p, 0o755) }),
		r("mkdirall", func(in *Inst) error { return in.FS.MkdirAll(p, 0o755) }),
		r("mkdirall below", func(in *Inst) error { return in.FS.MkdirAll(p+"/new/dir", 0o755) }),
		r("remove", func(in *Inst) error { return in.FS.Remove(p) }),
		r("removeall", func(in *Inst) error { return in.FS.RemoveAll(p) }),
		r("rename to /new", func(in *Inst) error { return in.FS.Rename(p, "/new") }),
		r("rename from /b", func(in *Inst) error { return in.FS.Rename("/b", p) }),
		r("rename to itself", func(in *Inst) error { return in.FS.Rename(p, p) }),
		r("chmod", func(in *Inst) error { return in.FS.Chmod(p, 0o600) }),
		r("chown", func(in *Inst) error { return in.FS.Chown(p, 7, 8) }),
		r("chtimes", func(in *Inst) error { return in.FS.Chtimes(p, tA, tM) }),
		r("symlink to /new", func(in *Inst) error { return in.FS.SymlinkIfPossible(p, "/new") }),
		r("symlink from /b", func(in *Inst) error { return in.FS.SymlinkIfPossible("/b", p) }),
	}
}

// allFlags is every combination of access mode and open flag.
func allFlags() []int {
	var out []int
	for _, acc := range []int{os.O_RDONLY, os.O_WRONLY, os.O_RDWR} {
		for x := 0; x < 32; x++ {
			fl := acc
			for i, f := range []int{os.O_CREATE, os.O_EXCL, os.O_TRUNC, os.O_APPEND, os.O_SYNC} {
				if x&(1<<i) != 0 {
					fl |= f
				}
			}
			out = append(out, fl)
		}
	}
	return out
}

// roFix is what a read-only filesystem is opened over.
type roFix struct {
	cfg  Cfg
	tape []byte
	db   []byte // nil: the index is missing
	vt   *vtape // instead of tape
	name string
}

// roMode is how the read-only filesystem is wired.
type roMode struct {
	noWrite, missing, impl bool
}

func (m roMode) String() string {
	s := "with a write backend"
	if m.noWrite {
		s = "without a write backend"
	}
	if m.impl {
		s += ", write permission implying read permission"
	}
	if m.missing {
		s += ", no index yet"
	}
	return s
}

var roModes = []roMode{{false, false, false}, {true, false, false}, {false, true, true}, {true, true, false}}

func (x roFix) open(m roMode, ro bool) (*Inst, error) {
	o := Opt{ReadOnly: ro, NoWrite: ro && m.noWrite, ImplRead: m.impl}
	if x.vt != nil {
		v := newVtape(x.cfg.norm().RS)
		v.items = append([]vitem{}, x.vt.items...)
		o.Tape = v
	}
	db := x.db
	if m.missing {
		db = nil
	}
	return onTape(x.cfg, x.tape, db, o)
}

// frozen is what must not change.
type frozen struct{ tape, index, raw string }

func freeze(in *Inst) frozen {
	var f frozen
	if in.VT != nil {
		f.tape = fmt.Sprintf("%v", in.VT.items)
	} else if b, err := os.ReadFile(in.Drive); err == nil {
		f.tape = string(b)
	} else {
		f.tape = "!" + errClass(err)
	}
	f.index, f.raw = dumpIndex(in), rawIndex(in)
	return f
}

// rawIndex is the files of the index; while they are the same, so is what is in them.
func rawIndex(in *Inst) string {
	var s string
	for _, x := range []string{"", "-wal", "-journal"} {
		if b, err := os.ReadFile(in.DB + x); err == nil {
			s += x + string(b)
		}
	}
	return s
}

// dumpIndex is every row of every table of the index.
func dumpIndex(in *Inst) string {
	db := rawDB(in.MP)
	var sb strings.Builder
	q := func(s string) [][]string {
		rows, err := db.Query(s)
		if err != nil {
			return [][]string{{"!" + err.Error()}}
		}
		defer rows.Close()
		cols, _ := rows.Columns()
		var out [][]string
		for rows.Next() {
			v := make([]interface{}, len(cols))
			pv := make([]interface{}, len(cols))
			for i := range v {
				pv[i] = &v[i]
			}
			if err := rows.Scan(pv...); err != nil {
				return [][]string{{"!" + err.Error()}}
			}
			var r []string
			for i := range v {
				r = append(r, fmt.Sprintf("%s=%v", cols[i], v[i]))
			}
			out = append(out, r)
		}
		return out
	}
	for _, t := range q("select name, sql from sqlite_master where type in ('table','index','trigger','view') order by name") {
		fmt.Fprintf(&sb, "## %v\n", t)
		n := strings.TrimPrefix(t[0], "name=")
		if strings.HasPrefix(n, "sqlite_") || !strings.Contains(strings.ToUpper(strings.Join(t, " ")), "CREATE TABLE") {
			continue
		}
		var rows []string
		for _, r := range q("select * from \"" + n + "\"") {
			rows = append(rows, strings.Join(r, "|"))
		}
		sb.WriteString(strings.Join(rows, "\n") + "\n")
	}
	return sb.String()
}

func (f frozen) diff(g frozen) string {
	if f.tape != g.tape {
		return fmt.Sprintf("the tape changed (%s)", tapeDiff([]byte(f.tape), []byte(g.tape)))
	}
	if f.index != g.index {
		a, b := strings.Split(f.index, "\n"), strings.Split(g.index, "\n")
		for i := range b {
			if i >= len(a) || a[i] != b[i] {
				return fmt.Sprintf("the index changed: there is now %q", b[i])
			}
		}
		return fmt.Sprintf("the index changed: %d lines became %d", len(a), len(b))
	}
	return ""
}

// roPair is a read-only filesystem and a writable one over copies of the same data.
type roPair struct {
	x      roFix
	m      roMode
	ro, tw *Inst
	before frozen
}

func (x roFix) pair(m roMode) (*roPair, string) {
	p := &roPair{x: x, m: m}
	var err error
	if p.tw, err = x.open(m, false); err != nil {
		return nil, err.Error()
	}
	if _, err := p.tw.FS.Initialize("/", os.ModePerm); err != nil {
		p.tw.Destroy()
		return nil, "the writable filesystem does not open: " + err.Error()
	}
	if p.ro, err = x.open(m, true); err != nil {
		p.tw.Destroy()
		return nil, err.Error()
	}
	b4 := freeze(p.ro)
	root, err := p.ro.FS.Initialize("/", os.ModePerm)
	p.before = freeze(p.ro)
	if err != nil {
		p.close()
		return nil, "the read-only filesystem does not open: " + err.Error()
	}
	if p.before.tape != b4.tape {
		p.close()
		return nil, "opening read-only: " + b4.diff(p.before)
	}
	if !m.missing && p.before.index != b4.index {
		p.close()
		return nil, "opening read-only: " + b4.diff(p.before)
	}
	if r2, _ := p.tw.Meta.GetRootPath(context.Background()); r2 != root {
		p.close()
		return nil, fmt.Sprintf("the root is %q, for a writable filesystem it is %q", root, r2)
	}
	return p, ""
}

func (p *roPair) close() {
	if p.ro != nil {
		p.ro.Destroy()
	}
	if p.tw != nil {
		p.tw.Destroy()
	}
}

func (p *roPair) frozen(what string) string {
	if p.ro.VT == nil && p.before.raw == rawIndex(p.ro) && p.before.tape == string(p.ro.Tape()) {
		return ""
	}
	if d := p.before.diff(freeze(p.ro)); d != "" {
		return what + ": " + d
	}
	return ""
}

// call executes one call on both.
func (p *roPair) call(k roCall) string {
	var r string
	var err error
	if d := guardS(func() string { r, err = k.do(p.ro); return "" }); d != "" {
		return k.name + ": " + d
	}
	if d := p.frozen(k.name); d != "" {
		return d
	}
	if k.mut {
		if coarse(err) != "permission" {
			return fmt.Sprintf("%s: %s, not a permission error", k.name, errClass(err))
		}
		return ""
	}
	var r2 string
	var err2 error
	if d := guardS(func() string { r2, err2 = k.do(p.tw); return "" }); d != "" {
		return k.name + " on the writable filesystem: " + d
	}
	if r != r2 || coarse(err) != coarse(err2) {
		return fmt.Sprintf("%s: %q, %s; a writable filesystem gives %q, %s", k.name, r, errClass(err), r2, errClass(err2))
	}
	return ""
}

// changes says whether opening (and closing) with these flags changes the data of a writable filesystem.
func (x roFix) changes(m roMode, p string, fl int) (bool, error) {
	m.missing = false
	in, err := x.open(m, false)
	must(err)
	defer in.Destroy()
	if _, err := in.FS.Initialize("/", os.ModePerm); err != nil {
		return false, err
	}
	a := freeze(in)
	f, err := in.FS.OpenFile(p, fl, 0o640)
	if err == nil {
		err = f.Close()
	}
	return a.diff(freeze(in)) != "", err
}

// handleOp is a call on an open file.
type handleOp struct {
	name  string
	write bool
	do    func(f afero.File) (string, error)
}

func roHandleOps() []handleOp {
	rd := func(n int) func(f afero.File) (string, error) {
		return func(f afero.File) (string, error) {
			b := make([]byte, n)
			k, err := f.Read(b)
			if k < 0 || k > n {
				return fmt.Sprint("count ", k), err
			}
			if err == io.EOF {
				return fmt.Sprintf("%q EOF", b[:k]), nil
			}
			return fmt.Sprintf("%q", b[:k]), err
		}
	}
	at := func(n int, off int64) func(f afero.File) (string, error) {
		return func(f afero.File) (string, error) {
			b := make([]byte, n)
			k, err := f.ReadAt(b, off)
			if err == io.EOF {
				return fmt.Sprintf("%q EOF", b[:k]), nil
			}
			return fmt.Sprintf("%q", b[:k]), err
		}
	}
	seek := func(off int64, wh int) func(f afero.File) (string, error) {
		return func(f afero.File) (string, error) { n, err := f.Seek(off, wh); return fmt.Sprint(n), err }
	}
	return []handleOp{
		{"write", true, func(f afero.File) (string, error) { n, err := f.Write([]byte("XX")); return fmt.Sprint(n), err }},
		{"write nothing", true, func(f afero.File) (string, error) { n, err := f.Write(nil); return fmt.Sprint(n), err }},
		{"writeat 1", true, func(f afero.File) (string, error) { n, err := f.WriteAt([]byte("YY"), 1); return fmt.Sprint(n), err }},
		{"writestring", true, func(f afero.File) (string, error) { n, err := f.WriteString("ZZ"); return fmt.Sprint(n), err }},
		{"truncate 0", true, func(f afero.File) (string, error) { return "", f.Truncate(0) }},
		{"truncate 9", true, func(f afero.File) (string, error) { return "", f.Truncate(9) }},
		{"read 2", false, rd(2)}, {"read 4000", false, rd(4000)}, {"readat 3 1", false, at(3, 1)}, {"readat 5 1490", false, at(5, 1490)},
		{"seek 0", false, seek(0, 0)}, {"seek end", false, seek(-1, 2)}, {"seek +1", false, seek(1, 1)},
		{"sync", false, func(f afero.File) (string, error) { return "", f.Sync() }},
		{"stat", false, func(f afero.File) (string, error) { return infoStr(f.Stat()) }},
		{"name", false, func(f afero.File) (string, error) { return f.Name(), nil }},
		{"readdir", false, func(f afero.File) (string, error) {
			fis, err := f.Readdir(-1)
			var s []string
			for _, fi := range fis {
				x, _ := infoStr(fi, nil)
				s = append(s, x)
			}
			return strings.Join(s, ";"), err
		}},
		{"readdirnames 1", false, func(f afero.File) (string, error) { n, err := f.Readdirnames(1); return fmt.Sprint(n), err }},
		{"close", false, func(f afero.File) (string, error) { return "", f.Close() }},
	}
}

// openRO opens on the read-only filesystem and, for reading, on the writable one.
func (p *roPair) openRO(path string, fl int, changes bool, twErr error) (f, g afero.File, d string) {
	var err error
	what := "open " + path + " " + flagName(fl)
	if changes && (fl&os.O_TRUNC == 0 || fl&3 == os.O_RDONLY) {
		if l, err := p.tw.FS.ReadlinkIfPossible(path); err == nil && l != "" {
			changes = false // a writable filesystem replaces links, here they may be followed
		}
	}
	if d := guardS(func() string { f, err = p.ro.FS.OpenFile(path, fl, 0o640); return "" }); d != "" {
		return nil, nil, what + ": " + d
	}
	if d := p.frozen(what); d != "" {
		return nil, nil, d
	}
	if changes && coarse(err) != "permission" {
		return nil, nil, fmt.Sprintf("%s: %s, not a permission error", what, errClass(err))
	}
	if err != nil {
		if fl == os.O_RDONLY && coarse(err) != coarse(twErr) {
			return nil, nil, fmt.Sprintf("%s: %s; a writable filesystem gives %s", what, errClass(err), errClass(twErr))
		}
		if twErr == nil && !changes && coarse(err) != "permission" {
			return nil, nil, fmt.Sprintf("%s: %s; a writable filesystem opens it", what, errClass(err))
		}
		return nil, nil, ""
	}
	g, err = p.tw.FS.OpenFile(path, os.O_RDONLY, 0)
	if err != nil {
		f.Close()
		return nil, nil, fmt.Sprintf("%s succeeds; a writable filesystem does not even open it for reading: %v", what, err)
	}
	return f, g, ""
}

func (p *roPair) session(path string, fl int, changes bool, twErr error, ops []handleOp) string {
	f, g, d := p.openRO(path, fl, changes, twErr)
	if d != "" || f == nil {
		return d
	}
	what := "open " + path + " " + flagName(fl)
	defer func() { f.Close(); g.Close() }()
	dir := false
	if fi, err := g.Stat(); err == nil {
		dir = fi.IsDir()
	}
	for _, o := range ops {
		what += "; " + o.name
		var r, r2 string
		var err, err2 error
		if d := guardS(func() string { r, err = o.do(f); return "" }); d != "" {
			return what + ": " + d
		}
		if o.write {
			// Directories are never writable; what is said about it may come first.
			if c := coarse(err); c != "permission" && !(dir && c == "isdir") {
				return fmt.Sprintf("%s: %s, not a permission error", what, errClass(err))
			}
			continue
		}
		if fl&3 == os.O_WRONLY && coarse(err) == "permission" {
			continue // not opened for reading
		}
		if d := guardS(func() string { r2, err2 = o.do(g); return "" }); d != "" {
			return what + " on the writable filesystem: " + d
		}
		if r != r2 || coarse(err) != coarse(err2) {
			return fmt.Sprintf("%s: %q, %s; on a writable filesystem it gives %q, %s", what, r, errClass(err), r2, errClass(err2))
		}
	}
	if err := f.Close(); coarse(err) != "ok" {
		return what + ": close: " + err.Error()
	}
	return p.frozen(what + "; close")
}

// frozenFix is the data after a history.
func frozenFix(cfg Cfg, ops []Op) roFix {
	in, err := freshInst(cfg, "", Opt{})
	must(err)
	defer in.Destroy()
	var names []string
	for _, o := range ops {
		out := guarded(func() Out { return o.Do(in) })
		names = append(names, o.Name+"="+out.Class)
	}
	in.Close()
	return roFix{cfg: cfg, tape: in.Tape(), db: readDB(in), name: strings.Join(names, "; ")}
}

func vtapeFix(cfg Cfg, ops []Op) roFix {
	v := newVtape(cfg.norm().RS)
	in, err := freshInst(cfg, "", Opt{Tape: v})
	must(err)
	defer in.Destroy()
	var names []string
	for _, o := range ops {
		out := guarded(func() Out { return o.Do(in) })
		names = append(names, o.Name+"="+out.Class)
	}
	in.Close()
	return roFix{cfg: cfg, vt: v, db: readDB(in), name: "on the emulated tape drive: " + strings.Join(names, "; ")}
}

var roPop = append(append([]Op{}, popSetup...), opMkdir("/a/s"), opCreate("/e"), opPut("/o", []byte("old")), opSymlink("/o", "/l"), opMkdir("/x"), opRename("/x", "/y"))

var roPaths = []string{"/", "/a", "/a/c", "/b", "/e", "/o", "/l", "/m", "/m/n", "/b/n", "a/c", "./b", "."}

func (c *Check) roReport(x roFix, m roMode, d string) {
	key := d
	if i := strings.IndexAny(key, "\n"); i > 0 {
		key = key[:i]
	}
	c.report(Violation{Key: x.cfg.keyPart() + key, Sub: m.String(), Cfg: x.cfg.norm().String(), Ops: []string{x.name}, Detail: d})
}

// roAll executes every call of a list, one after the other, on one filesystem.
func (c *Check) roAll(x roFix, m roMode, paths []string, flags []int) string {
	p, d := x.pair(m)
	if d != "" {
		return d
	}
	defer p.close()
	for _, q := range paths {
		for _, k := range append(roReads(q), roMuts(q)...) {
			c.add("calls", 1)
			if d := p.call(k); d != "" {
				return d
			}
		}
		for _, fl := range flags {
			c.add("calls", 1)
			ch, err := x.changes(m, q, fl)
			if d := p.session(q, fl, ch, err, nil); d != "" {
				return d
			}
		}
	}
	if d := diffViews(walk(p.ro, "/", true), walk(p.tw, "/", true), "the read-only filesystem", "a writable one"); d != "" {
		return d
	}
	return p.frozen("walking")
}

func init() {
	checks["C15"] = checkDef{level: "model_checking", quickS: 240, thorS: 800, run: runC15,
		rule:   "read-only filesystems, wired in every way, over tapes from all histories of an alphabet: every call with every path and flag, all sequences of calls and of calls on handles to a bound; after each call the bytes of the tape and every row of the index are compared with before, changing calls have to give a permission error (for opening: whenever the same call changes a writable copy), reading calls what a writable filesystem over the same data gives",
		assume: []string{"the index belongs to the tape; with an index older than the tape only the absence of changes is checked, as a writable filesystem would update it", "writing to a handle of a directory may say that it is a directory"}}
}

func runC15(c *Check) {
	// Every call on tapes of all histories.
	hist := append(append(append([]Op{}, coreOps()...), archOps()...), linkOps()...)
	flags := []int{os.O_RDONLY, os.O_WRONLY, os.O_RDWR, os.O_RDWR | os.O_CREATE, os.O_RDWR | os.O_TRUNC, os.O_WRONLY | os.O_CREATE | os.O_TRUNC, os.O_RDWR | os.O_APPEND, os.O_RDWR | os.O_CREATE | os.O_EXCL}
	paths := []string{"/", "/a", "/a/c", "/b", "/l", "/m"}
	nh := len(hist)
	depth := c.pick(1, 2)
	total := int64(len(roModes))
	for i := 0; i < depth; i++ {
		total *= int64(nh)
	}
	c.each("every call over every tape", fmt.Sprintf("all %d^%d histories on a populated tree x %d ways of wiring x %d paths x (%d calls + %d ways of opening)", nh, depth, len(roModes), len(paths), 19, len(flags)), total, func(i int64) {
		m := roModes[i%int64(len(roModes))]
		j := i / int64(len(roModes))
		ops := append([]Op{}, popSetup...)
		for k := 0; k < depth; k++ {
			ops = append(ops, hist[j%int64(nh)])
			j /= int64(nh)
		}
		x := frozenFix(Cfg{}, ops)
		c.add("histories", 1)
		c.saw("tapes", x.name)
		journal("C15 " + x.name + " " + m.String())
		fl := flags
		if depth > 1 {
			fl = flags[3:6]
		}
		if d := c.roAll(x, m, paths, fl); d != "" {
			c.roReport(x, m, d)
		}
	})

	// Every flag and path.
	fixed := frozenFix(Cfg{}, roPop)
	af := allFlags()
	c.each("every flag combination", fmt.Sprintf("%d ways of wiring x %d paths x %d flag combinations", len(roModes), len(roPaths), len(af)), int64(len(roModes)*len(roPaths)*len(af)), func(i int64) {
		m := roModes[i%int64(len(roModes))]
		j := int(i) / len(roModes)
		p, d := fixed.pair(m)
		if d == "" {
			ch, err := fixed.changes(m, roPaths[j%len(roPaths)], af[j/len(roPaths)])
			d = p.session(roPaths[j%len(roPaths)], af[j/len(roPaths)], ch, err, roHandleOps())
			if d == "" {
				d = p.frozen("afterwards")
			}
			p.close()
		}
		c.add("sessions", 1)
		if d != "" {
			c.roReport(fixed, m, d)
		}
	})

	// Sequences of calls on a handle.
	hp := []string{"/a/c", "/b", "/a", "/e", "/l"}
	hf := []int{os.O_RDONLY, os.O_RDWR, os.O_RDWR | os.O_CREATE, os.O_WRONLY | os.O_APPEND, os.O_RDWR | os.O_APPEND}
	if c.quick() {
		c.roHandles(fixed, roModes[:2], hp[:3], hf[:2], 3)
	} else {
		c.roHandles(fixed, roModes[:2], hp, hf, 3)
		c.roHandles(fixed, roModes[1:2], []string{"/a/c", "/a"}, hf[1:2], 4)
	}

	// Sequences of calls on one filesystem, read-only and (for what reads) writable.
	var al []roCall
	for _, q := range []string{"/", "/a", "/b", "/l", "/m"} {
		rs, ms := roReads(q), roMuts(q)
		al = append(al, rs[0], rs[3], rs[4], ms[0], ms[1], ms[5], ms[6], ms[9])
	}
	al = append(al, roCall{name: "initialize", do: func(in *Inst) (string, error) { return in.FS.Initialize("/", os.ModePerm) }},
		roCall{name: "initialize /other", do: func(in *Inst) (string, error) { return in.FS.Initialize("/other", os.ModePerm) }},
		roCall{name: "name", do: func(in *Inst) (string, error) { return in.FS.Name(), nil }})
	sd := c.pick(2, 3)
	st := int64(len(roModes))
	for i := 0; i < sd; i++ {
		st *= int64(len(al))
	}
	c.each("sequences of calls", fmt.Sprintf("%d ways of wiring x all %d^%d sequences of calls", len(roModes), len(al), sd), st, func(i int64) {
		m := roModes[i%int64(len(roModes))]
		j := i / int64(len(roModes))
		p, d := fixed.pair(m)
		for k := 0; k < sd && d == ""; k++ {
			d = p.call(al[j%int64(len(al))])
			j /= int64(len(al))
			c.add("calls", 1)
		}
		if p != nil {
			p.close()
		}
		if d != "" {
			c.roReport(fixed, m, d)
		}
	})

	// Pipelines, record sizes and tape drives.
	var fixes []func() roFix
	for _, cfg := range append([]Cfg{{RS: 1}, {RS: 7}, {Cache: config.WriteCacheTypeFile}}, pipeCfgs...) {
		cfg := cfg
		fixes = append(fixes, func() roFix { return frozenFix(cfg, roPop) })
	}
	for _, cfg := range []Cfg{{}, {RS: 1}, {RS: 3, Comp: "gzip"}, {Enc: "age", Sig: "pgp"}} {
		cfg := cfg
		fixes = append(fixes, func() roFix { return vtapeFix(cfg, roPop) })
	}
	c.each("configurations", fmt.Sprintf("%d pipelines, record sizes and drives x %d ways of wiring x all calls", len(fixes), len(roModes)), int64(len(fixes)*len(roModes)), func(i int64) {
		m := roModes[i%int64(len(roModes))]
		x := fixes[i/int64(len(roModes))]()
		if d := c.roAll(x, m, roPaths, flags); d != "" {
			c.roReport(x, m, d)
		}
	})

	// Opening what is incomplete.
	c.roOpenings()
	c.roServed(fixed)
}

// roOpenings opens read-only over missing, empty and torn tapes with every kind of index.
func (c *Check) roOpenings() {
	whole := frozenFix(Cfg{}, popSetup)
	rs, err := scanTape(whole.tape)
	must(err)
	short := indexOf(Cfg{}, whole.tape[:rs[len(rs)-2].end])
	type tp struct {
		name string
		b    []byte
	}
	tapes := []tp{{"no tape", nil}, {"an empty tape", []byte{}}, {"a whole tape", whole.tape}}
	step := c.pick(64, 1)
	for n := 1; n < len(whole.tape); n++ {
		if n%step == 0 || n%blk <= 1 || n%blk == blk-1 {
			tapes = append(tapes, tp{fmt.Sprintf("the first %d bytes of a tape", n), whole.tape[:n]})
		}
	}
	idx := []namedDB{{"no index", nil}, {"an empty index", emptyDB(Cfg{})}, {"the index of the whole tape", whole.db}, {"an older index", short}}
	total := int64(len(tapes) * len(idx) * 2)
	c.each("opening incomplete tapes", fmt.Sprintf("%d missing, empty and torn tapes x %d indexes x with and without a write backend", len(tapes), len(idx)), total, func(i int64) {
		noWrite := i%2 == 1
		ix := idx[(i/2)%int64(len(idx))]
		t := tapes[i/2/int64(len(idx))]
		c.add("openings", 1)
		if d := c.roOpening(t.b, t.name, ix, noWrite); d != "" {
			c.roReport(roFix{name: t.name + ", " + ix.name}, roMode{noWrite: noWrite}, t.name+", "+ix.name+": "+d)
		}
	})
}

func (c *Check) roOpening(t []byte, name string, ix namedDB, noWrite bool) string {
	mk := func(ro bool) *Inst {
		in, err := onTape(Cfg{}, t, ix.db, Opt{ReadOnly: ro, NoWrite: ro && noWrite})
		must(err)
		if t == nil {
			must(os.Remove(in.Drive))
		}
		return in
	}
	ro := mk(true)
	defer ro.Destroy()
	fill := ix.name == "no index" || ix.name == "an empty index"
	check := func(b frozen, what string, index bool) string {
		a := freeze(ro)
		if !index {
			a.index = b.index
		}
		if d := b.diff(a); d != "" {
			return what + ": " + d
		}
		return ""
	}
	b := freeze(ro)
	// Before it has been initialised.
	muts := append(roMuts("/a"), roMuts("/new")...)
	if !fill {
		for _, k := range muts {
			_, err := k.do(ro)
			if coarse(err) != "permission" {
				return fmt.Sprintf("%s before initializing: %s, not a permission error", k.name, errClass(err))
			}
		}
		if d := check(b, "calls before initializing", true); d != "" {
			return d
		}
	}
	var ierr error
	if d := guardS(func() string { _, ierr = ro.FS.Initialize("/", os.ModePerm); return "" }); d != "" {
		return d
	}
	if d := check(b, "initializing", !fill); d != "" {
		return d
	}
	b = freeze(ro)
	for _, k := range muts {
		var err error
		if d := guardS(func() string { _, err = k.do(ro); return "" }); d != "" {
			return k.name + ": " + d
		}
		if coarse(err) != "permission" {
			return fmt.Sprintf("%s after initializing (%s): %s, not a permission error", k.name, errClass(ierr), errClass(err))
		}
		if d := check(b, k.name, true); d != "" {
			return d
		}
	}
	// What a writable filesystem shows.
	tw := mk(false)
	defer tw.Destroy()
	if _, err := tw.FS.Initialize("/", os.ModePerm); err != nil {
		return ""
	}
	if after := tw.Tape(); !bytes.Equal(after, t) || t == nil {
		// It started a new tape.
		if ierr == nil && fill {
			return "a writable filesystem writes a root, the read-only one opens without"
		}
		if fill && coarse(ierr) != "permission" {
			return "a writable filesystem writes a root, the read-only one fails with " + errClass(ierr) + ", not a permission error"
		}
		return ""
	}
	if ierr != nil {
		return "a writable filesystem opens, the read-only one fails: " + ierr.Error()
	}
	if !fill {
		return check(b, "opening", true)
	}
	if d := diffViews(walk(ro, "/", true), walk(tw, "/", true), "the read-only filesystem", "a writable one"); d != "" {
		return d
	}
	return check(b, "walking", true)
}

// roServed serves the filesystem as the HTTP server does.
func (c *Check) roServed(x roFix) {
	methods := []string{"GET", "HEAD", "PUT", "DELETE", "POST", "MKCOL"}
	paths := []string{"/", "/a/", "/a", "/a/c", "/b", "/e", "/l", "/m", "/a/../b", "/b/"}
	ranges := []string{"", "bytes=0-1", "bytes=1400-", "bytes=-5", "bytes=99999-", "bytes=0-0,5-6"}
	caches := []string{config.NoneKey, config.FileSystemCacheTypeMemory, config.FileSystemCacheTypeDir}
	total := int64(len(methods) * len(paths) * len(ranges) * len(caches))
	c.each("requests to the served filesystem", fmt.Sprintf("%d methods x %d paths x %d ranges x %d caches, each twice", len(methods), len(paths), len(ranges), len(caches)), total, func(i int64) {
		j := int(i)
		me := methods[j%len(methods)]
		j /= len(methods)
		pa := paths[j%len(paths)]
		j /= len(paths)
		ra := ranges[j%len(ranges)]
		j /= len(ranges)
		ca := caches[j]
		c.add("requests", 2)
		d := guardS(func() string {
			p, d := x.pair(roModes[1])
			if d != "" {
				return d
			}
			defer p.close()
			ask := func(in *Inst) string {
				fs, err := cache.NewCacheFilesystem(in.FS, "/", ca, time.Hour, filepath.Join(in.Dir, "fscache"))
				must(err)
				h := http.FileServer(afero.NewHttpFs(fs))
				var s []string
				for k := 0; k < 2; k++ {
					rq := httptest.NewRequest(me, "http://x"+pa, strings.NewReader("body"))
					if ra != "" {
						rq.Header.Set("Range", ra)
					}
					w := httptest.NewRecorder()
					h.ServeHTTP(w, rq)
					body := w.Body.String()
					if b := w.Header().Get("Content-Type"); strings.HasPrefix(b, "multipart/byteranges; boundary=") {
						body = strings.ReplaceAll(body, strings.TrimPrefix(b, "multipart/byteranges; boundary="), "BOUNDARY")
					}
					s = append(s, fmt.Sprintf("%d %s %s %s", w.Code, w.Header().Get("Content-Range"), w.Header().Get("Location"), contentKey([]byte(body))))
				}
				for _, e := range []error{fs.Mkdir("/new", 0o755), fs.Remove("/b"), fs.Rename("/b", "/n"), fs.Chmod("/b", 0o600), fs.RemoveAll("/a")} {
					if e == nil && in == p.ro {
						s = append(s, "a changing call through the cache succeeds")
					}
					if in == p.tw {
						break // for the read-only one only
					}
				}
				return strings.Join(s, " then ")
			}
			r := ask(p.ro)
			if d := p.frozen(me + " " + pa); d != "" {
				return d
			}
			tw2, err := x.open(roModes[0], false)
			must(err)
			defer tw2.Destroy()
			if _, err := tw2.FS.Initialize("/", os.ModePerm); err != nil {
				return err.Error()
			}
			if w := ask(tw2); w != r && !strings.Contains(r, "succeeds") {
				return fmt.Sprintf("%s %s (%s) through cache %q: %s; over a writable filesystem: %s", me, pa, ra, ca, r, w)
			}
			if strings.Contains(r, "succeeds") {
				return fmt.Sprintf("cache %q: %s", ca, r)
			}
			if me == "GET" && ra == "" && ca == config.NoneKey && pa == "/a/c" && !strings.Contains(r, contentKey(big)) {
				return "GET /a/c gives " + r
			}
			return ""
		})
		if d != "" {
			c.roReport(x, roModes[1], d)
		}
	})
}

// roHandles executes all sequences of calls on handles.
func (c *Check) roHandles(fixed roFix, modes []roMode, hp []string, hf []int, hd int) {
	ho := roHandleOps()
	per := int64(1)
	for i := 0; i < hd; i++ {
		per *= int64(len(ho))
	}
	type comb struct {
		m    roMode
		p    string
		fl   int
		ch   bool
		err  error
		pair *roPair
	}
	var combs []comb
	for _, m := range modes {
		for _, q := range hp {
			for _, fl := range hf {
				combs = append(combs, comb{m: m, p: q, fl: fl})
			}
		}
	}
	// The filesystems of a shard are kept: nothing may change them.
	c.each("calls on handles", fmt.Sprintf("%d ways of wiring, paths and flags x all %d^%d sequences of calls on the handle", len(combs), len(ho), hd), int64(len(combs))*per, func(i int64) {
		k := &combs[i/per]
		if k.pair == nil {
			for j := range combs {
				if combs[j].pair != nil {
					combs[j].pair.close()
					combs[j].pair = nil
				}
			}
			p, d := fixed.pair(k.m)
			if d != "" {
				c.roReport(fixed, k.m, d)
				return
			}
			k.pair = p
			k.ch, k.err = fixed.changes(k.m, k.p, k.fl)
		}
		var seq []handleOp
		r := i % per
		for j := 0; j < hd; j++ {
			seq = append(seq, ho[r%int64(len(ho))])
			r /= int64(len(ho))
		}
		c.add("sessions", 1)
		if d := k.pair.session(k.p, k.fl, k.ch, k.err, seq); d != "" {
			c.roReport(fixed, k.m, d)
		}
	})
	for _, k := range combs {
		if k.pair != nil {
			k.pair.close()
		}
	}
}
