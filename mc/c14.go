package main

import (
	"bytes"
	"fmt"
	"io"
	"os"
	"strings"

	"github.com/spf13/afero"
)

// refFile is a byte array with a cursor.
type refFile struct {
	data        []byte
	pos         int64
	rd, wr, app bool
}

// hres is what a call on a handle reports.
type hres struct {
	n    int64
	b    []byte
	err  bool // failed, other than by the end of the file
	eof  bool
	skip bool // the reference leaves it open
}

func (r hres) String() string {
	s := fmt.Sprintf("%d", r.n)
	if r.b != nil {
		s += " " + contentKey(r.b)
	}
	if r.eof {
		s += " EOF"
	}
	if r.err {
		s += " error"
	}
	return s
}

func got(n int64, b []byte, err error) hres {
	return hres{n: n, b: b, err: err != nil && err != io.EOF, eof: err == io.EOF}
}

// hop is one call on a handle.
type hop struct {
	name string
	do   func(h afero.File) hres
	ref  func(f *refFile) hres
}

func hRead(n int) hop {
	return hop{fmt.Sprintf("read %d", n), func(h afero.File) hres {
		b := make([]byte, n)
		k, err := h.Read(b)
		if k < 0 || k > n {
			return got(int64(k), nil, err)
		}
		return got(int64(k), b[:k], err)
	}, func(f *refFile) hres {
		if !f.rd {
			return hres{err: true, b: []byte{}}
		}
		if n == 0 {
			return hres{b: []byte{}}
		}
		if f.pos >= int64(len(f.data)) {
			return hres{eof: true, b: []byte{}}
		}
		b := make([]byte, n)
		k := copy(b, f.data[f.pos:])
		f.pos += int64(k)
		return hres{n: int64(k), b: b[:k]}
	}}
}

func hReadAt(n int, off int64) hop {
	return hop{fmt.Sprintf("readat %d@%d", n, off), func(h afero.File) hres {
		b := make([]byte, n)
		k, err := h.ReadAt(b, off)
		if k < 0 || k > n {
			return got(int64(k), nil, err)
		}
		return got(int64(k), b[:k], err)
	}, func(f *refFile) hres {
		if !f.rd || off < 0 {
			return hres{err: true, b: []byte{}}
		}
		b := make([]byte, n)
		k := 0
		if off < int64(len(f.data)) {
			k = copy(b, f.data[off:])
		}
		return hres{n: int64(k), b: b[:k], eof: k < n}
	}}
}

var whences = []string{"start", "current", "end"}

func hSeek(off int64, whence int) hop {
	return hop{fmt.Sprintf("seek %d from %s", off, whences[whence]), func(h afero.File) hres {
		k, err := h.Seek(off, whence)
		if err != nil {
			k = 0 // what a failing seek returns besides its error means nothing
		}
		return got(k, nil, err)
	}, func(f *refFile) hres {
		to := off
		switch whence {
		case io.SeekCurrent:
			to += f.pos
		case io.SeekEnd:
			to += int64(len(f.data))
		}
		if to < 0 {
			return hres{err: true}
		}
		f.pos = to
		return hres{n: to}
	}}
}

func hWrite(b []byte) hop {
	return hop{"write " + contentKey(b), func(h afero.File) hres {
		n, err := h.Write(append([]byte{}, b...))
		return got(int64(n), nil, err)
	}, func(f *refFile) hres { return f.write(b) }}
}

func (f *refFile) write(b []byte) hres {
	if !f.wr {
		return hres{err: true}
	}
	if f.app {
		f.pos = int64(len(f.data))
	}
	f.data = overlay(f.data, f.pos, b)
	f.pos += int64(len(b))
	return hres{n: int64(len(b))}
}

func hWriteString(s string) hop {
	return hop{fmt.Sprintf("writestring %q", s), func(h afero.File) hres {
		n, err := h.WriteString(s)
		return got(int64(n), nil, err)
	}, func(f *refFile) hres { return f.write([]byte(s)) }}
}

func hWriteAt(b []byte, off int64) hop {
	return hop{fmt.Sprintf("writeat %s@%d", contentKey(b), off), func(h afero.File) hres {
		n, err := h.WriteAt(append([]byte{}, b...), off)
		return got(int64(n), nil, err)
	}, func(f *refFile) hres {
		if !f.wr || off < 0 {
			return hres{err: true}
		}
		f.data = overlay(f.data, off, b)
		return hres{n: int64(len(b))}
	}}
}

func hTruncate(n int64) hop {
	return hop{fmt.Sprintf("truncate %d", n), func(h afero.File) hres { return got(0, nil, h.Truncate(n)) }, func(f *refFile) hres {
		if !f.wr || n < 0 {
			return hres{err: true}
		}
		if n <= int64(len(f.data)) {
			f.data = append([]byte{}, f.data[:n]...)
		} else {
			f.data = append(append([]byte{}, f.data...), make([]byte, n-int64(len(f.data)))...)
		}
		return hres{}
	}}
}

func hSync() hop {
	return hop{"sync", func(h afero.File) hres { return got(0, nil, h.Sync()) }, func(f *refFile) hres { return hres{skip: !f.wr} }}
}

func hStat() hop {
	return hop{"stat", func(h afero.File) hres {
		fi, err := h.Stat()
		if err != nil {
			return got(0, nil, err)
		}
		return hres{n: fi.Size()}
	}, func(f *refFile) hres { return hres{n: int64(len(f.data))} }}
}

// handleOps is the alphabet for a file of n bytes. Positioned writes and empty writes have no agreed meaning on
// files opened for appending.
func handleOps(n int, app bool) []hop {
	s := int64(n)
	ops := []hop{
		hRead(1), hRead(3), hRead(n + 10), hReadAt(3, 0), hReadAt(2, s-2), hReadAt(5, s-2), hReadAt(1, s), hReadAt(1, s+9), hReadAt(1, -1),
		hSeek(0, 0), hSeek(2, 0), hSeek(s, 0), hSeek(s+4, 0), hSeek(-1, 0), hSeek(0, 1), hSeek(1, 1), hSeek(-2, 1), hSeek(0, 2), hSeek(-1, 2), hSeek(3, 2), hSeek(-s-50, 2),
		hWrite([]byte("AB")), hWrite(pat(n+3, 9)), hWriteString("st"), hTruncate(0), hTruncate(2), hTruncate(s + 4), hTruncate(-1), hSync(), hStat(), hRead(0),
	}
	if !app {
		ops = append(ops, hWriteAt([]byte("wx"), 1), hWriteAt([]byte("yz"), s+3), hWriteAt([]byte("q"), -1), hWrite(nil))
	}
	return ops
}

// shortHandleOps is the part of it for longer sequences.
func shortHandleOps(n int, app bool) []hop {
	s := int64(n)
	ops := []hop{hRead(2), hReadAt(2, s-1), hSeek(1, 0), hSeek(2, 1), hSeek(-1, 2), hSeek(s+2, 0), hWrite([]byte("AB")), hWriteString("s"), hTruncate(1), hTruncate(s + 3), hSync()}
	if !app {
		ops = append(ops, hWriteAt([]byte("wx"), s))
	}
	return ops
}

type handleSpec struct {
	name    string
	cfg     Cfg
	flag    int
	content []byte // nil: the file does not exist
	ops     []hop
	depth   int
	tape    bool // on an emulated tape drive
}

func init() {
	checks["C14"] = checkDef{level: "model_checking", quickS: 240, thorS: 800, run: runC14,
		rule: "every sequence of handle calls of the stated length is executed on a real open file and on a byte array with a cursor; every result is compared, and after closing the content and size a fresh open and Stat give"}
}

// handlePool keeps one filesystem per configuration and renews it from time to time.
type handlePool struct {
	in *Inst
	n  int
}

type poolKey struct {
	cfg  Cfg
	tape bool
}

var pools = map[poolKey]*handlePool{}

func pooled(cfg Cfg, onTape bool) *Inst {
	k := poolKey{cfg, onTape}
	p := pools[k]
	if p == nil {
		p = &handlePool{}
		pools[k] = p
	}
	if p.in != nil && p.n > 60 {
		p.in.Destroy()
		p.in = nil
	}
	if p.in == nil {
		opt := Opt{}
		if onTape {
			opt.Tape = newVtape(cfg.norm().RS)
		}
		in, err := freshInst(cfg, ":memory:", opt)
		must(err)
		p.in, p.n = in, 0
	}
	p.n++
	return p.in
}

func dropPool(cfg Cfg, onTape bool) { delete(pools, poolKey{cfg, onTape}) }

func (c *Check) handles(sp handleSpec) {
	total := int64(1)
	for i := 0; i < sp.depth; i++ {
		total *= int64(len(sp.ops))
	}
	what := "absent"
	if sp.content != nil {
		what = fmt.Sprintf("of %d bytes", len(sp.content))
	}
	name := fmt.Sprintf("%s, %s, file %s", sp.name, flagName(sp.flag), what)
	c.each(name+" "+sp.cfg.norm().String(), fmt.Sprintf("all %d^%d sequences of handle calls under %s", len(sp.ops), sp.depth, sp.cfg.norm()), total, func(k int64) {
		seq := make([]hop, sp.depth)
		for i := sp.depth - 1; i >= 0; i-- {
			seq[i] = sp.ops[k%int64(len(sp.ops))]
			k /= int64(len(sp.ops))
		}
		d := c.handleRun(sp, seq)
		if d == "" {
			return
		}
		if c.handleRun(sp, seq) == "" {
			c.add("unreproduced", 1)
			c.note("not reproduced: " + d)
			return
		}
		for changed := true; changed; {
			changed = false
			for i := range seq {
				cand := append(append([]hop{}, seq[:i]...), seq[i+1:]...)
				if dd := c.handleRun(sp, cand); dd != "" {
					seq, d, changed = cand, dd, true
					break
				}
			}
		}
		h := []string{"open " + flagName(sp.flag) + " (file " + what + ")"}
		for _, o := range seq {
			h = append(h, o.name)
		}
		h = append(h, "close")
		c.report(Violation{Key: sp.cfg.keyPart() + strings.Join(h, "; "), Sub: name, Cfg: sp.cfg.norm().String(), Ops: h, Detail: d})
	})
}

func (c *Check) handleRun(sp handleSpec, seq []hop) string {
	c.add("histories", 1)
	in := pooled(sp.cfg, sp.tape)
	d := guardS(func() string {
		const p = "/f"
		in.FS.Remove(p)
		if sp.content != nil {
			f, err := in.FS.Create(p)
			if err != nil {
				return "creating the file: " + err.Error()
			}
			if len(sp.content) > 0 {
				if _, err := f.Write(sp.content); err != nil {
					f.Close()
					return "filling the file: " + err.Error()
				}
			}
			if err := f.Close(); err != nil {
				return "closing the new file: " + err.Error()
			}
		}
		ref := &refFile{data: append([]byte{}, sp.content...), app: sp.flag&os.O_APPEND != 0}
		ref.rd = sp.flag&3 != os.O_WRONLY
		ref.wr = sp.flag&3 != os.O_RDONLY
		if sp.flag&os.O_TRUNC != 0 {
			ref.data = nil
		}
		open := in.FS.OpenFile
		if sp.name == "created" {
			open = func(p string, _ int, _ os.FileMode) (afero.File, error) { return in.FS.Create(p) }
		}
		h, err := open(p, sp.flag, 0o644)
		if err != nil {
			return "open: " + err.Error()
		}
		closed := false
		defer func() {
			if !closed {
				h.Close()
			}
		}()
		var trace []string
		for i, op := range seq {
			journal(sp.name + " " + flagName(sp.flag) + " " + op.name)
			want := op.ref(ref)
			g := op.do(h)
			c.add("transitions", 1)
			trace = append(trace, g.String())
			if want.skip {
				continue
			}
			if g.n != want.n || !bytes.Equal(g.b, want.b) || g.err != want.err || g.eof != want.eof {
				return fmt.Sprintf("call %d, %s: a byte array gives %v, got %v", i+1, op.name, want, g)
			}
		}
		c.saw("outcome vectors", sp.name+flagName(sp.flag)+strings.Join(trace, ","))
		closed = true
		if err := h.Close(); err != nil {
			return "close: " + err.Error()
		}
		b, err := readFile(in.FS, p)
		if err != nil {
			return "reading it again: " + err.Error()
		}
		if !bytes.Equal(b, ref.data) {
			return fmt.Sprintf("after close a byte array has %s, reading gives %s", contentKey(ref.data), contentKey(b))
		}
		fi, err := in.FS.Stat(p)
		if err != nil {
			return "stat after close: " + err.Error()
		}
		if fi.Size() != int64(len(ref.data)) {
			return fmt.Sprintf("after close the size is %d, Stat says %d", len(ref.data), fi.Size())
		}
		c.saw("states", fmt.Sprintf("%s %d", contentKey(ref.data), ref.pos))
		return ""
	})
	if d != "" {
		dropPool(sp.cfg, sp.tape)
	}
	return d
}

func runC14(c *Check) {
	flags := []int{os.O_RDONLY, os.O_WRONLY, os.O_RDWR, os.O_WRONLY | os.O_APPEND, os.O_RDWR | os.O_APPEND, os.O_RDWR | os.O_TRUNC, os.O_WRONLY | os.O_TRUNC}
	six := []byte("012345")
	for _, cache := range []string{"memory", "file"} {
		cfg := Cfg{Cache: cache}
		for _, fl := range flags {
			app := fl&os.O_APPEND != 0
			c.handles(handleSpec{"all calls", cfg, fl, six, handleOps(6, app), 2, false})
			c.handles(handleSpec{"all calls", cfg, fl, []byte{}, handleOps(6, app), c.pick(1, 2), false})
		}
		for _, fl := range []int{os.O_RDWR | os.O_CREATE, os.O_WRONLY | os.O_CREATE | os.O_APPEND, os.O_RDWR | os.O_CREATE | os.O_EXCL, os.O_RDWR | os.O_CREATE | os.O_TRUNC} {
			c.handles(handleSpec{"all calls", cfg, fl, nil, handleOps(6, fl&os.O_APPEND != 0), c.pick(1, 2), false})
		}
	}
	mem := Cfg{}
	for _, fl := range append(flags, os.O_RDWR|os.O_CREATE, os.O_RDWR|os.O_CREATE|os.O_APPEND) {
		app := fl&os.O_APPEND != 0
		c.handles(handleSpec{"longer", mem, fl, six, shortHandleOps(6, app), 3, false})
		if fl&3 == os.O_RDWR {
			c.handles(handleSpec{"longer", Cfg{Cache: "file"}, fl, six, shortHandleOps(6, app), 3, false})
		}
	}
	c.handles(handleSpec{"created", mem, os.O_RDWR | os.O_CREATE | os.O_TRUNC, six, handleOps(6, false), 2, false})
	c.handles(handleSpec{"created", mem, os.O_RDWR | os.O_CREATE | os.O_TRUNC, nil, handleOps(6, false), 2, false})
	large := pat(70001, 5)
	for _, fl := range []int{os.O_RDONLY, os.O_RDWR, os.O_RDWR | os.O_APPEND} {
		c.handles(handleSpec{"large", Cfg{Cache: "file"}, fl, large, shortHandleOps(len(large), fl&os.O_APPEND != 0), 2, false})
		c.handles(handleSpec{"large", mem, fl, large, shortHandleOps(len(large), fl&os.O_APPEND != 0), 2, false})
	}
	for _, cfg := range pipeCfgs {
		for _, fl := range []int{os.O_RDONLY, os.O_RDWR, os.O_WRONLY | os.O_APPEND} {
			c.handles(handleSpec{"configurations", cfg, fl, pat(700, 6), shortHandleOps(700, fl&os.O_APPEND != 0), c.pick(2, 3), false})
		}
	}
	for i, cfg := range []Cfg{{}, {RS: 1}, {RS: 3, Cache: "file"}} {
		d := c.pick(2, 3)
		if i == 0 {
			d++
		}
		for _, fl := range append(flags, os.O_RDWR|os.O_CREATE|os.O_APPEND) {
			app := fl&os.O_APPEND != 0
			c.handles(handleSpec{"emulated tape", cfg, fl, six, shortHandleOps(6, app), d, true})
			c.handles(handleSpec{"emulated tape", cfg, fl, pat(2000, 3), shortHandleOps(2000, app), d - 1, true})
		}
	}
	if !c.quick() {
		for _, cache := range []string{"memory", "file"} {
			cfg := Cfg{Cache: cache}
			for _, fl := range flags {
				app := fl&os.O_APPEND != 0
				c.handles(handleSpec{"three of all calls", cfg, fl, six, handleOps(6, app), 3, false})
				c.handles(handleSpec{"long", cfg, fl, six, shortHandleOps(6, app), 4, false})
			}
		}
		c.handles(handleSpec{"longest", mem, os.O_RDWR, six, shortHandleOps(6, false), 5, false})
	}
}
