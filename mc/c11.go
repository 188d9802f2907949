package main

import (
	"context"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/spf13/afero"

	"github.com/pojntfx/stfs/pkg/cache"
	"github.com/pojntfx/stfs/pkg/config"
	"github.com/pojntfx/stfs/verif/vsync"
)

// ---- the seams as points of the scheduler

func pointed(kind string, g func() error) error {
	vsync.Point(kind)
	return g()
}

func pBackend(b config.BackendConfig) config.BackendConfig {
	out := b
	out.GetWriter = func() (config.DriveWriterConfig, error) {
		vsync.Point("opening the drive for writing")
		w, err := b.GetWriter()
		if err == nil {
			if sf, can := w.Drive.(statTruncater); can {
				w.Drive = pfile{pwriter{w.Drive}, sf}
			} else {
				w.Drive = pwriter{w.Drive}
			}
		}
		return w, err
	}
	out.CloseWriter = func() error { return pointed("closing the drive after writing", b.CloseWriter) }
	out.GetReader = func() (config.DriveReaderConfig, error) {
		vsync.Point("opening the drive for reading")
		r, err := b.GetReader()
		if err == nil {
			r.Drive = preader{r.Drive}
		}
		return r, err
	}
	out.CloseReader = func() error { return pointed("closing the drive after reading", b.CloseReader) }
	return out
}

type pwriter struct{ w io.Writer }

func (w pwriter) Write(p []byte) (int, error) {
	vsync.Point("writing to the drive")
	return w.w.Write(p)
}

type pfile struct {
	pwriter
	s statTruncater
}

func (w pfile) Stat() (os.FileInfo, error) { vsync.Point("size of the drive"); return w.s.Stat() }
func (w pfile) Truncate(n int64) error     { vsync.Point("truncating the drive"); return w.s.Truncate(n) }

type preader struct{ r config.ReadSeekFder }

func (r preader) Fd() uintptr { return r.r.Fd() }
func (r preader) Read(p []byte) (int, error) {
	vsync.Point("reading from the drive")
	return r.r.Read(p)
}
func (r preader) Seek(o int64, w int) (int64, error) {
	vsync.Point("seeking the drive")
	return r.r.Seek(o, w)
}

type pmeta struct{ m config.MetadataPersister }

func (m pmeta) UpsertHeader(ctx context.Context, h *config.Header, i bool) error {
	vsync.Point("index: upsert")
	return m.m.UpsertHeader(ctx, h, i)
}
func (m pmeta) UpdateHeaderMetadata(ctx context.Context, h *config.Header) error {
	vsync.Point("index: update")
	return m.m.UpdateHeaderMetadata(ctx, h)
}
func (m pmeta) MoveHeader(ctx context.Context, a, b string, r, bl int64) error {
	vsync.Point("index: move")
	return m.m.MoveHeader(ctx, a, b, r, bl)
}
func (m pmeta) GetHeaders(ctx context.Context) ([]*config.Header, error) {
	vsync.Point("index: all")
	return m.m.GetHeaders(ctx)
}
func (m pmeta) GetHeader(ctx context.Context, n string) (*config.Header, error) {
	vsync.Point("index: get")
	return m.m.GetHeader(ctx, n)
}
func (m pmeta) GetHeaderByLinkname(ctx context.Context, n string) (*config.Header, error) {
	vsync.Point("index: get by link")
	return m.m.GetHeaderByLinkname(ctx, n)
}
func (m pmeta) GetHeaderChildren(ctx context.Context, n string) ([]*config.Header, error) {
	vsync.Point("index: children")
	return m.m.GetHeaderChildren(ctx, n)
}
func (m pmeta) GetRootPath(ctx context.Context) (string, error) {
	vsync.Point("index: root")
	return m.m.GetRootPath(ctx)
}
func (m pmeta) GetHeaderDirectChildren(ctx context.Context, n string, l int) ([]*config.Header, error) {
	vsync.Point("index: direct children")
	return m.m.GetHeaderDirectChildren(ctx, n, l)
}
func (m pmeta) DeleteHeader(ctx context.Context, n string, r, b int64) (*config.Header, error) {
	vsync.Point("index: delete")
	return m.m.DeleteHeader(ctx, n, r, b)
}
func (m pmeta) GetLastIndexedRecordAndBlock(ctx context.Context, rs int) (int64, int64, error) {
	vsync.Point("index: last position")
	return m.m.GetLastIndexedRecordAndBlock(ctx, rs)
}
func (m pmeta) PurgeAllHeaders(ctx context.Context) error {
	vsync.Point("index: purge")
	return m.m.PurgeAllHeaders(ctx)
}

type pcache struct{ cache.WriteCache }

func (c pcache) Read(p []byte) (int, error) {
	vsync.Point("reading from a cache")
	return c.WriteCache.Read(p)
}
func (c pcache) Write(p []byte) (int, error) {
	vsync.Point("writing to a cache")
	return c.WriteCache.Write(p)
}
func (c pcache) Seek(o int64, w int) (int64, error) {
	vsync.Point("seeking a cache")
	return c.WriteCache.Seek(o, w)
}
func (c pcache) Truncate(s int64) error {
	vsync.Point("truncating a cache")
	return c.WriteCache.Truncate(s)
}
func (c pcache) Size() (int64, error) { vsync.Point("size of a cache"); return c.WriteCache.Size() }
func (c pcache) Close() error         { vsync.Point("closing a cache"); return c.WriteCache.Close() }

func pCache(g func() (cache.WriteCache, func() error, error)) func() (cache.WriteCache, func() error, error) {
	return func() (cache.WriteCache, func() error, error) {
		vsync.Point("opening a cache")
		c, clean, err := g()
		if err != nil {
			return c, clean, err
		}
		return pcache{c}, func() error { return pointed("cleaning up a cache", clean) }, nil
	}
}

// ---- programs

// client is one goroutine which uses the filesystem.
type client struct {
	in     *Inst
	h      afero.File            // its own handle
	shared map[string]afero.File // handles which several clients use
}

type ccall struct {
	name string
	do   func(x *client) string
}

type cprog struct {
	name  string
	calls []ccall
}

func es(err error) string { return errClass(err) }

func cOpen(p string, flag int) ccall {
	return ccall{"open " + p + " " + flagName(flag), func(x *client) string {
		f, err := x.in.FS.OpenFile(p, flag, 0o640)
		x.h = nil
		if err == nil {
			x.h = f
		}
		return es(err)
	}}
}
func cCreate(p string) ccall {
	return ccall{"create " + p, func(x *client) string {
		f, err := x.in.FS.Create(p)
		x.h = nil
		if err == nil {
			x.h = f
		}
		return es(err)
	}}
}

// on runs a call on the client's own or a shared handle.
func on(h, what string, f func(h afero.File) string) ccall {
	name := what
	if h != "" {
		name = what + " on " + h
	}
	return ccall{name, func(x *client) string {
		f1 := x.h
		if h != "" {
			f1 = x.shared[h]
		}
		if f1 == nil {
			return "-"
		}
		return f(f1)
	}}
}
func cWrite(h, s string) ccall {
	return on(h, "write "+s, func(f afero.File) string {
		n, err := f.Write([]byte(s))
		return fmt.Sprint(n, es(err))
	})
}
func cRead(h string, n int) ccall {
	return on(h, fmt.Sprintf("read %d", n), func(f afero.File) string {
		b := make([]byte, n)
		m, err := f.Read(b)
		if err == io.EOF {
			return fmt.Sprintf("%q EOF", b[:m])
		}
		return fmt.Sprintf("%q %s", b[:m], es(err))
	})
}
func cReadAt(h string, n int, at int64) ccall {
	return on(h, fmt.Sprintf("read %d at %d", n, at), func(f afero.File) string {
		b := make([]byte, n)
		m, err := f.ReadAt(b, at)
		if err == io.EOF {
			return fmt.Sprintf("%q EOF", b[:m])
		}
		return fmt.Sprintf("%q %s", b[:m], es(err))
	})
}
func cWriteAt(h, s string, at int64) ccall {
	return on(h, fmt.Sprintf("write %s at %d", s, at), func(f afero.File) string {
		n, err := f.WriteAt([]byte(s), at)
		return fmt.Sprint(n, es(err))
	})
}
func cSeek(h string, o int64, w int) ccall {
	return on(h, fmt.Sprintf("seek %d/%d", o, w), func(f afero.File) string {
		n, err := f.Seek(o, w)
		return fmt.Sprint(n, es(err))
	})
}
func cTrunc(h string, n int64) ccall {
	return on(h, fmt.Sprintf("truncate %d", n), func(f afero.File) string { return es(f.Truncate(n)) })
}
func cSync(h string) ccall {
	return on(h, "sync", func(f afero.File) string { return es(f.Sync()) })
}
func cFstat(h string) ccall {
	return on(h, "fstat", func(f afero.File) string {
		fi, err := f.Stat()
		if err != nil {
			return es(err)
		}
		return fmt.Sprint(f.Name(), fi.Name(), fi.Size(), fi.Mode(), fi.IsDir())
	})
}
func cClose(h string) ccall {
	return on(h, "close", func(f afero.File) string { return es(f.Close()) })
}
func cList(p string) []ccall {
	return []ccall{cOpen(p, os.O_RDONLY), on("", "readdir", func(f afero.File) string {
		fis, err := f.Readdir(-1)
		var s []string
		for _, fi := range fis {
			s = append(s, fmt.Sprint(fi.Name(), fi.Size()*int64(b2i(!fi.IsDir())), fi.Mode()))
		}
		sort.Strings(s)
		return fmt.Sprint(s, es(err))
	}), cClose("")}
}
func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}
func cErr(name string, f func(x *client) error) ccall {
	return ccall{name, func(x *client) string { return es(f(x)) }}
}
func cStat(p string) ccall {
	return ccall{"stat " + p, func(x *client) string {
		fi, err := x.in.FS.Stat(p)
		if err != nil {
			return es(err)
		}
		s := fmt.Sprint(fi.Name(), fi.Size()*int64(b2i(!fi.IsDir())), fi.Mode())
		if e := (Ent{}); fi.Sys() != nil {
			entFromInfo(&e, fi)
			s += fmt.Sprint(e.UID, e.GID)
		}
		return s
	}}
}
func cMkdir(p string) ccall {
	return cErr("mkdir "+p, func(x *client) error { return x.in.FS.Mkdir(p, 0o750) })
}
func cMkdirAll(p string) ccall {
	return cErr("mkdirall "+p, func(x *client) error { return x.in.FS.MkdirAll(p, 0o750) })
}
func cRename(a, b string) ccall {
	return cErr("rename "+a+" "+b, func(x *client) error { return x.in.FS.Rename(a, b) })
}
func cRemove(p string) ccall {
	return cErr("remove "+p, func(x *client) error { return x.in.FS.Remove(p) })
}
func cRemoveAll(p string) ccall {
	return cErr("removeall "+p, func(x *client) error { return x.in.FS.RemoveAll(p) })
}

var chTime = time.Unix(1234567890, 0)

func cChmod(p string, m os.FileMode) ccall {
	return cErr(fmt.Sprintf("chmod %s %o", p, m), func(x *client) error { return x.in.FS.Chmod(p, m) })
}
func cChown(p string) ccall {
	return cErr("chown "+p, func(x *client) error { return x.in.FS.Chown(p, 7, 8) })
}
func cChtimes(p string) ccall {
	return cErr("chtimes "+p, func(x *client) error { return x.in.FS.Chtimes(p, chTime, chTime) })
}

func one(c ccall) cprog { return cprog{c.name, []ccall{c}} }
func many(cs ...ccall) cprog {
	var s []string
	for _, c := range cs {
		s = append(s, c.name)
	}
	return cprog{strings.Join(s, ", "), cs}
}

const (
	fRW, fW, fR = os.O_RDWR, os.O_WRONLY, os.O_RDONLY
	fC, fT, fX  = os.O_CREATE, os.O_TRUNC, os.O_EXCL
)

// clientProgs are what the clients do. The filesystem contains /f ("hello"), /d/x ("xx"), /e and, unless it is
// without links, /k -> /d/x; R and W are handles of /f which all clients may use, for reading and for both.
func clientProgs() []cprog {
	return []cprog{
		many(cCreate("/n"), cWrite("", "AA"), cClose("")),
		many(cOpen("/f", fRW), cWrite("", "BBB"), cClose("")),
		many(cOpen("/f", fW|os.O_APPEND), cWrite("", "C"), cClose("")),
		many(cOpen("/f", fW|fT), cClose("")),
		many(cOpen("/f", fR), cRead("", 3), cRead("", 9), cClose("")),
		many(cOpen("/n", fRW|fC|fX), cWrite("", "X"), cClose("")),
		many(cCreate("/d/y"), cWrite("", "YYYY"), cSync(""), cClose("")),
		one(cMkdir("/d/s")), one(cMkdir("/n")), one(cMkdirAll("/e/a/b")),
		one(cRename("/f", "/g")), one(cRename("/d", "/e2")), one(cRename("/d/x", "/f")), one(cRename("/f", "/d/f")),
		one(cRemove("/f")), many(cRemove("/d/x"), cRemove("/d")), one(cRemoveAll("/d")), one(cRemove("/e")),
		many(cRemove("/f"), cCreate("/f"), cClose("")),
		one(cChmod("/f", 0o600)), one(cChown("/f")), one(cChtimes("/d")),
		many(cStat("/f"), cStat("/d/x"), cStat("/n")),
		many(cList("/")...), many(cList("/d")...),
		many(cErr("symlink /f /l", func(x *client) error { return x.in.FS.SymlinkIfPossible("/f", "/l") }), ccall{"readlink /l", func(x *client) string {
			l, err := x.in.FS.ReadlinkIfPossible("/l")
			return l + " " + es(err)
		}}, ccall{"lstat /l", func(x *client) string {
			fi, _, err := x.in.FS.LstatIfPossible("/l")
			if err != nil {
				return es(err)
			}
			return fmt.Sprint(fi.Name(), fi.Mode())
		}}),
		one(cErr("initialize", func(x *client) error { _, err := x.in.FS.Initialize("/", os.ModePerm); return err })),
		many(cWrite("W", "SS"), cFstat("W")), many(cSeek("W", 1, 0), cRead("W", 2)), many(cWriteAt("W", "P", 4), cSync("W")), many(cTrunc("W", 2), cReadAt("W", 4, 0)), one(cClose("W")),
		many(cRead("R", 2), cRead("R", 2)), many(cReadAt("R", 3, 1), cSeek("R", 1, 1)), many(cFstat("R"), cClose("R")),
	}
}

// shortProgs are single calls for more clients.
func shortProgs() []cprog {
	return []cprog{
		one(cMkdir("/n")), one(cCreate("/n")), one(cRename("/f", "/n")), one(cRename("/d", "/n")), one(cRemove("/f")), one(cRemoveAll("/d")), one(cMkdirAll("/d/s/t")),
		one(cOpen("/f", fRW|fT)), one(cWrite("W", "SS")), one(cClose("W")), one(cRead("R", 2)), one(cStat("/n")), one(cChmod("/f", 0o600)),
	}
}

// coldProgs initialize the filesystem themselves.
func coldProgs() (out []cprog) {
	init := cErr("initialize", func(x *client) error { _, err := x.in.FS.Initialize("/", os.ModePerm); return err })
	for _, cs := range [][]ccall{{cStat("/d/x")}, cList("/d"), {cOpen("/f", fR), cRead("", 9)}, {cMkdir("/n")}, {cCreate("/n"), cClose("")}, {cRename("/f", "/n")}, {cRemove("/f")}} {
		out = append(out, many(append([]ccall{init}, cs...)...))
	}
	return
}

var clientSetup = []Op{opPut("/f", []byte("hello")), opMkdir("/d"), opPut("/d/x", []byte("xx")), opMkdir("/e")}

// ---- executions

type cres struct {
	out        []string
	begin, end []int64
	panicked   string
}

// world is a filesystem with the clients' shared handles.
func (c *Check) world(t *tuple) (*Inst, map[string]afero.File, error) {
	o := Opt{}
	if t.mk != nil {
		o = t.mk()
	}
	if t.cold && c.tape == nil {
		in, err := freshInst(t.cfg, ":memory:", o)
		if err != nil {
			return nil, nil, err
		}
		for _, op := range clientSetup {
			op.Do(in)
		}
		c.tape = in.Tape()
		in.Destroy()
	}
	o.WrapMeta = func(m config.MetadataPersister) config.MetadataPersister { return pmeta{m} }
	o.WrapBackend = pBackend
	o.WrapCache = pCache
	if t.cold {
		in, err := onTape(t.cfg, c.tape, nil, o)
		return in, nil, err
	}
	in, err := freshInst(t.cfg, ":memory:", o)
	if err != nil {
		return nil, nil, err
	}
	for _, op := range clientSetup {
		if out := op.Do(in); out.Class != "ok" {
			in.Destroy()
			return nil, nil, fmt.Errorf("set-up %s: %s", op.Name, out.Class)
		}
	}
	sh := map[string]afero.File{}
	for n, fl := range map[string]int{"R": os.O_RDONLY, "W": os.O_RDWR} {
		f, err := in.FS.OpenFile("/f", fl, 0)
		if err != nil {
			in.Destroy()
			return nil, nil, err
		}
		sh[n] = f
	}
	return in, sh, nil
}

// finalState is everything visible in the end, without the times at which things were done. The shared handles
// are closed first, as what was written to them would otherwise be lost.
func finalState(in *Inst, sh map[string]afero.File, tape bool) (string, string) {
	s := ""
	for _, n := range []string{"W", "R"} {
		if sh[n] == nil {
			continue
		}
		s += n + " " + es(sh[n].Close()) + "\n"
	}
	v := walkList(in, "/")
	if !tape {
		return s + v.still(), ""
	}
	rb, err := rebuiltAny(in)
	if err != nil {
		return "", "the index cannot be rebuilt: " + err.Error()
	}
	defer rb.Destroy()
	if rowsOf(in) != rowsOf(rb) {
		if d := diffViews(v, walkList(rb, "/"), "the filesystem", "a rebuild from the tape"); d != "" {
			return "", "the final state is not reproducible from the tape: " + d
		}
	}
	return s + v.still(), ""
}

// rowsOf is what is in an index, or something unique.
func rowsOf(in *Inst) string {
	hs, err := in.MP.GetHeaders(context.Background())
	if err != nil {
		return err.Error() + in.Dir
	}
	var s []string
	for _, h := range hs {
		s = append(s, fmt.Sprint(*h))
	}
	sort.Strings(s)
	return strings.Join(s, "\n")
}

// still is the view without the times at which things were done.
func (v View) still() string {
	for p, e := range v {
		for _, t := range []*int64{&e.Mtime, &e.Atime, &e.Ctime} {
			if *t > 1500000000e9 {
				*t = 1
			}
		}
		v[p] = e
	}
	return v.String()
}

type tuple struct {
	cfg   Cfg
	mk    func() Opt
	cold  bool // over an existing tape, not initialized
	progs []cprog
	seq   map[string]seqRes // sequential orders executed so far
}

func (t *tuple) name() string {
	var s []string
	for _, p := range t.progs {
		s = append(s, "["+p.name+"]")
	}
	return strings.Join(s, " || ")
}

// twin says whether a possibility begins the same program as another one before it.
func (t *tuple) twin(ch vsync.Choice, e int) bool {
	if !ch.Fresh[e] || ch.Enabled[e] >= len(t.progs) {
		return false
	}
	for k := 0; k < e; k++ {
		if ch.Fresh[k] && ch.Enabled[k] < len(t.progs) && t.progs[ch.Enabled[k]].name == t.progs[ch.Enabled[e]].name {
			return true
		}
	}
	return false
}

type seqRes struct {
	out   [][]string
	final string
	bad   string
}

// sequential executes one order of the calls on a filesystem of its own.
func (c *Check) sequential(t *tuple, order []int) seqRes {
	key := fmt.Sprint(order)
	if r, found := t.seq[key]; found {
		return r
	}
	var r seqRes
	d := guardS(func() string {
		in, sh, err := c.world(t)
		if err != nil {
			return err.Error()
		}
		xs := make([]*client, len(t.progs))
		at := make([]int, len(t.progs))
		r.out = make([][]string, len(t.progs))
		for i := range xs {
			xs[i] = &client{in: in, shared: sh}
		}
		for _, i := range order {
			r.out[i] = append(r.out[i], t.progs[i].calls[at[i]].do(xs[i]))
			at[i]++
		}
		r.final, r.bad = finalState(in, sh, false)
		in.Destroy()
		return ""
	})
	if d != "" {
		r.bad = d
	}
	c.add("sequential executions", 1)
	t.seq[key] = r
	return r
}

// explain finds a sequential order with the same outcomes which respects which calls ended before others began.
func (c *Check) explain(t *tuple, res []*cres, final string) (string, bool) {
	same := func(r seqRes) bool {
		if r.bad != "" || r.final != final {
			return false
		}
		for i := range res {
			for j := range res[i].out {
				if r.out[i][j] != res[i].out[j] {
					return false
				}
			}
		}
		return true
	}
	// First the orders in which the calls ended and began.
	type ev struct {
		i int
		s int64
	}
	n := 0
	for _, by := range []int{0, 1} {
		var evs []ev
		for i, r := range res {
			for j := range r.out {
				if by == 0 {
					evs = append(evs, ev{i, r.end[j]})
				} else {
					evs = append(evs, ev{i, r.begin[j]})
				}
			}
		}
		sort.Slice(evs, func(a, b int) bool { return evs[a].s < evs[b].s })
		var o []int
		for _, e := range evs {
			o = append(o, e.i)
		}
		n = len(o)
		if same(c.sequential(t, o)) {
			return "", true
		}
	}
	at := make([]int, len(res))
	var order []int
	tried := 0
	var first string
	var rec func() bool
	rec = func() bool {
		if len(order) == n {
			tried++
			r := c.sequential(t, order)
			if same(r) {
				return true
			}
			if first == "" {
				first = fmt.Sprintf("e.g. order %v gives %v\n%s%s", order, r.out, r.final, r.bad)
			}
			return false
		}
		for i := range res {
			if at[i] == len(res[i].out) {
				continue
			}
			// Nothing which has not been placed may have ended before this call began.
			may := true
			for k := range res {
				if k != i && at[k] < len(res[k].out) && res[k].end[at[k]] < res[i].begin[at[i]] {
					may = false
				}
			}
			if !may {
				continue
			}
			at[i]++
			order = append(order, i)
			if rec() {
				return true
			}
			order = order[:len(order)-1]
			at[i]--
		}
		return false
	}
	if rec() {
		return "", true
	}
	return fmt.Sprintf("none of the %d sequential orders gives these outcomes; %s", tried, first), false
}

type execution struct {
	choices  []vsync.Choice
	firsts   []vsync.First
	diverged bool
	points   int
}

// execute runs the clients under one schedule and judges what happened.
func (c *Check) execute(t *tuple, prefix []int) (*execution, string) {
	var ex *execution
	for try := 1; ; try++ {
		races := vsync.Races()
		in, sh, err := c.world(t)
		if err != nil {
			return nil, err.Error()
		}
		patience := 300 * time.Millisecond
		if try > 1 {
			patience = 3 * time.Second
		}
		run := vsync.New(prefix, patience, 60*time.Second)
		res := make([]*cres, len(t.progs))
		var wg sync.WaitGroup
		for i := range t.progs {
			i, n := i, len(t.progs[i].calls)
			r := &cres{out: make([]string, n), begin: make([]int64, n), end: make([]int64, n)}
			res[i] = r
			x := &client{in: in, shared: sh}
			wg.Add(1)
			run.Start(t.progs[i].calls[0].name, func(th *vsync.Thread) {
				defer wg.Done()
				defer func() {
					if p := recover(); p != nil {
						r.panicked = fmt.Sprintf("panic: %v\n%s", p, debug.Stack())
					}
				}()
				for j, call := range t.progs[i].calls {
					if j > 0 {
						vsync.Boundary(call.name)
					}
					r.begin[j] = vsync.Stamp()
					r.out[j] = call.do(x)
					r.end[j] = vsync.Stamp()
				}
			})
		}
		run.Go()
		c.add("schedules", 1)
		c.add("transitions", int64(run.Points))
		if run.Dead != "" {
			return nil, run.Dead + "\n" + firstLines(allStacks(), 150)
		}
		wg.Wait()
		if run.Outside > 0 && try < 2 {
			in.Destroy()
			continue
		}
		if run.Outside > 0 {
			c.add("schedules with blocking which the scheduler does not see", 1)
		}
		ex = &execution{run.Choices, run.Firsts, run.Diverged, run.Points}
		for _, r := range res {
			if r.panicked != "" {
				return ex, r.panicked
			}
		}
		if vsync.Races() > races {
			return ex, "data race:\n" + raceLog()
		}
		var final, bad string
		if d := guardS(func() string { final, bad = finalState(in, sh, true); return "" }); d != "" {
			return ex, "looking at the final state: " + d
		}
		if vsync.Races() > races {
			return ex, "data race:\n" + raceLog()
		}
		if bad != "" {
			return ex, bad
		}
		d, fine := c.explain(t, res, final)
		in.Destroy()
		if !fine {
			var s []string
			for i, r := range res {
				for j := range r.out {
					s = append(s, fmt.Sprintf("thread %d: %s -> %s [%d..%d]", i, t.progs[i].calls[j].name, r.out[j], r.begin[j], r.end[j]))
				}
			}
			return ex, "not linearizable: " + strings.Join(s, "; ") + "\n" + final + d
		}
		c.saw("states", t.name()+final)
		return ex, ""
	}
}

// raceLog is what the race detector reported.
func raceLog() string {
	b, _ := os.ReadFile(filepath.Join(shared, fmt.Sprintf("race.%d", os.Getpid())))
	s := string(b)
	if i := strings.LastIndex(s, "WARNING: DATA RACE"); i >= 0 {
		s = s[i:]
	}
	return firstLines(s, 80)
}

type job struct {
	t      *tuple
	prefix []int
	cost   int
	begins string // the call which it lets begin while another one holds a lock
}

// schedules explores all schedules of all tuples with at most bound preemptions, fewer preemptions first.
func (c *Check) schedules(name, what string, tuples []*tuple, bound int) {
	sp := c.space(name, fmt.Sprintf("%s: all schedules with at most %d preemptions of %d sets of programs", what, bound, len(tuples)), 0)
	sp.Sum = true
	if c.firsts == nil {
		c.firsts = map[string]bool{}
	}
	queue := make([][]job, bound+1)
	for i, t := range tuples {
		if i%c.shards == c.shard {
			t.seq = map[string]seqRes{}
			queue[0] = append(queue[0], job{t, nil, 0, ""})
		}
	}
	for cost := 0; cost <= bound; cost++ {
		for len(queue[cost]) > 0 {
			sp.Total += int64(len(queue[cost]))
			todo := queue[cost]
			queue[cost] = nil
			for k := 0; k < len(todo); k++ {
				if c.over() || c.nviol() >= maxViol {
					sp.Cut = true
					return
				}
				j := todo[k]
				if lock, known := c.firsts[j.begins]; known && lock {
					// It would wait for the lock at once, and could as well begin later.
					sp.Total--
					continue
				}
				journal(j.t.name() + fmt.Sprint(j.prefix))
				ex, d := c.execute(j.t, j.prefix)
				sp.Done++
				c.add(fmt.Sprintf("%s with %d preemptions", name, cost), 1)
				c.add("histories", 1)
				if d != "" {
					// Once more, to be sure that it is not this one execution.
					_, d2 := c.execute(j.t, j.prefix)
					if d2 != "" || strings.HasPrefix(d, "data race") {
						c.report(Violation{Key: name + " " + j.t.name(), Sub: name, Cfg: j.t.cfg.norm().String(), Ops: append([]string{j.t.name(), "schedule " + fmt.Sprint(j.prefix)}, scheduleOf(ex)...), Detail: firstLines(d, 200)})
						if ex == nil {
							return // goroutines are stuck
						}
						continue
					}
					c.note("an execution of " + j.t.name() + " with an unexplained outcome was not repeatable: " + firstLines(d, 3))
					continue
				}
				for _, f := range ex.firsts {
					lock, known := c.firsts[f.Call]
					c.firsts[f.Call] = f.Lock && (lock || !known)
				}
				if ex.diverged {
					c.add("schedules which could not be followed", 1)
					continue
				}
				if sp.Done%500 == 1 {
					c.sample("%s: %s; schedule %v, %d decisions, %d steps", name, j.t.name(), j.prefix, len(ex.choices), ex.points)
				}
				spent := 0
				for p, ch := range ex.choices {
					if p >= len(j.prefix) {
						for e, id := range ch.Enabled {
							if id == ch.Took || j.t.twin(ch, e) {
								continue
							}
							if n := spent + ch.Cost[e]; n <= bound {
								pre := make([]int, p+1)
								for q := 0; q < p; q++ {
									pre[q] = ex.choices[q].Took
								}
								pre[p] = id
								queue[n] = append(queue[n], job{j.t, pre, n, ch.Begins[e]})
							}
						}
					}
					for e, id := range ch.Enabled {
						if id == ch.Took {
							spent += ch.Cost[e]
						}
					}
				}
			}
		}
	}
}

func scheduleOf(ex *execution) (out []string) {
	if ex == nil {
		return nil
	}
	for _, ch := range ex.choices {
		out = append(out, fmt.Sprintf("thread %d of %v continues at: %s", ch.Took, ch.Enabled, ch.Label))
	}
	return
}

// combos are all multisets of k programs.
func combos(ps []cprog, k int, f func([]cprog)) {
	idx := make([]int, k)
	var rec func(d, from int)
	rec = func(d, from int) {
		if d == k {
			var s []cprog
			for _, i := range idx {
				s = append(s, ps[i])
			}
			f(s)
			return
		}
		for i := from; i < len(ps); i++ {
			idx[d] = i
			rec(d+1, i)
		}
	}
	rec(0, 0)
}

func init() {
	checks["C11"] = checkDef{level: "model_checking", quickS: 240, thorS: 800, run: runC11,
		rule: "every schedule (up to the preemption bound) of every set of client programs on one real filesystem, under a controlled scheduler which decides at every lock and every call through the drive, the index and the write cache, with the race detector on; deadlocks, races, panics, outcomes or final states of no sequential order which respects real time, and final states which the tape does not reproduce are violations"}
}

func runC11(c *Check) {
	if !vsync.Racing {
		c.report(Violation{Key: "build", Sub: "build", Detail: "built without the race detector and the controlled scheduler"})
		return
	}
	mk := func(ps []cprog, k int, cfg Cfg, opt func() Opt) (out []*tuple) {
		combos(ps, k, func(s []cprog) { out = append(out, &tuple{cfg: cfg, mk: opt, progs: s}) })
		return
	}
	pipe := Cfg{Comp: "gzip", Enc: "age", Sig: "minisign", RS: 20}
	file := Cfg{Cache: "file", RS: 3}
	cold := mk(coldProgs(), 2, Cfg{RS: 20}, nil)
	for _, t := range cold {
		t.cold = true
	}
	c.schedules("two clients", "two clients", mk(clientProgs(), 2, Cfg{RS: 1}, nil), 1)
	c.schedules("three clients", "three clients", mk(shortProgs(), 3, Cfg{RS: 20}, nil), 0)
	c.schedules("first calls", "two clients of a filesystem over an existing tape which has not been initialized", cold, 1)
	if c.quick() {
		return
	}
	c.schedules("encrypted", "two clients with "+pipe.String(), mk(clientProgs(), 2, pipe, nil), 1)
	c.schedules("file cache", "two clients with "+file.String(), mk(clientProgs(), 2, file, func() Opt { return Opt{CacheDir: newDir()} }), 1)
	c.schedules("emulated tape", "two clients of an emulated tape drive", mk(shortProgs(), 2, Cfg{RS: 2}, func() Opt { return Opt{Tape: newVtape(2)} }), 2)
	c.schedules("three clients, more", "three clients", mk(shortProgs(), 3, Cfg{RS: 20}, nil), 1)
	var eight []*tuple
	for i := 0; i+3 < len(shortProgs()); i += 3 {
		p := shortProgs()[i : i+4]
		eight = append(eight, &tuple{cfg: Cfg{RS: 20}, progs: []cprog{p[0], p[0], p[1], p[1], p[2], p[2], p[3], p[3]}})
	}
	c.schedules("four clients", "four clients", mk(shortProgs()[:8], 4, Cfg{RS: 20}, nil), 0)
	c.schedules("eight clients", "eight clients", eight, 0)
	c.schedules("two clients, more", "two clients", mk(clientProgs(), 2, Cfg{RS: 1}, nil), 2)
}
