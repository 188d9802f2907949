package main

import (
	"fmt"
	"os"
	"strings"
	"time"

	"github.com/spf13/afero"
)

// Out is the outcome of one operation: "" or the step that failed and how.
type Out struct {
	Step  string // failing step, "" on success
	Class string // error class, "ok" on success
	Info  string
}

func ok() Out { return Out{Class: "ok"} }
func fail(step string, err error) Out {
	return Out{Step: step, Class: errClass(err)}
}
func res(step string, err error) Out {
	if err != nil {
		return fail(step, err)
	}
	return ok()
}

// Op is one call (or one open-write-close session) with its reference semantics.
type Op struct {
	Name string
	Do   func(in *Inst) Out
	Mod  func(m *Model) string // expected class of the failing step, or ok
	Path []string              // paths named by the call
	Look bool                  // observe after this call even in a prefix
}

func opMkdir(p string) Op {
	return Op{"mkdir " + p, func(in *Inst) Out { return res("mkdir", in.FS.Mkdir(p, 0o750)) },
		func(m *Model) string { return m.mkdir(p, 0o750) }, []string{p}, false}
}

func opMkdirAll(p string) Op {
	return Op{"mkdirall " + p, func(in *Inst) Out { return res("mkdirall", in.FS.MkdirAll(p, 0o711)) },
		func(m *Model) string { return m.mkdirAll(p, 0o711) }, []string{p}, false}
}

func opCreate(p string) Op {
	return Op{"create " + p, func(in *Inst) Out {
		f, err := in.FS.Create(p)
		if err != nil {
			return fail("create", err)
		}
		return res("close", f.Close())
	}, func(m *Model) string { return m.open(p, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0o666) }, []string{p}, false}
}

func flagName(fl int) string {
	var s []string
	switch fl & 3 {
	case os.O_RDONLY:
		s = append(s, "r")
	case os.O_WRONLY:
		s = append(s, "w")
	case os.O_RDWR:
		s = append(s, "rw")
	}
	for _, x := range []struct {
		f int
		n string
	}{{os.O_CREATE, "creat"}, {os.O_EXCL, "excl"}, {os.O_TRUNC, "trunc"}, {os.O_APPEND, "app"}} {
		if fl&x.f != 0 {
			s = append(s, x.n)
		}
	}
	return strings.Join(s, "|")
}

// opOpen opens with flags, optionally writes data, closes.
func opOpen(p string, flag int, data []byte) Op {
	name := fmt.Sprintf("open %s %s", p, flagName(flag))
	if data != nil {
		name += fmt.Sprintf(" write %s", contentKey(data))
	}
	return Op{name, func(in *Inst) Out {
		f, err := in.FS.OpenFile(p, flag, 0o640)
		if err != nil {
			return fail("open", err)
		}
		if data != nil {
			n, err := f.Write(data)
			if err != nil {
				f.Close()
				return fail("write", err)
			}
			if n != len(data) {
				f.Close()
				return Out{Step: "write", Class: fmt.Sprintf("short count %d", n)}
			}
		}
		return res("close", f.Close())
	}, func(m *Model) string {
		r := m.open(p, flag, 0o640)
		if r != mOK {
			return r
		}
		if data != nil {
			if flag&3 == os.O_RDONLY {
				if m.isDir(p) {
					return mFail
				}
				return mPerm
			}
			m.write(p, flag&os.O_APPEND != 0, 0, data)
		}
		return mOK
	}, []string{p}, false}
}

func opPut(p string, data []byte) Op {
	o := opOpen(p, os.O_RDWR|os.O_CREATE|os.O_TRUNC, data)
	o.Name = "put " + p + " " + contentKey(data)
	return o
}

func opRemove(p string) Op {
	return Op{"remove " + p, func(in *Inst) Out { return res("remove", in.FS.Remove(p)) },
		func(m *Model) string { return m.remove(p) }, []string{p}, false}
}

func opRemoveAll(p string) Op {
	return Op{"removeall " + p, func(in *Inst) Out { return res("removeall", in.FS.RemoveAll(p)) },
		func(m *Model) string { return m.removeAll(p) }, []string{p}, false}
}

func opRename(a, b string) Op {
	return Op{"rename " + a + " " + b, func(in *Inst) Out { return res("rename", in.FS.Rename(a, b)) },
		func(m *Model) string { return m.rename(a, b) }, []string{a, b}, false}
}

func opChmod(p string, perm os.FileMode) Op {
	return Op{fmt.Sprintf("chmod %s %o", p, perm), func(in *Inst) Out { return res("chmod", in.FS.Chmod(p, perm)) },
		func(m *Model) string { return m.attr(p, func(n *node) { n.perm = perm }) }, []string{p}, false}
}

func opChown(p string, uid, gid int) Op {
	return Op{fmt.Sprintf("chown %s %d %d", p, uid, gid), func(in *Inst) Out { return res("chown", in.FS.Chown(p, uid, gid)) },
		func(m *Model) string { return m.attr(p, func(n *node) { n.uid, n.gid, n.own = uid, gid, true }) }, []string{p}, false}
}

var (
	tA = time.Unix(1000000000, 123456789)
	tM = time.Unix(1200000000, 987654321)
)

func opChtimes(p string) Op {
	return Op{"chtimes " + p, func(in *Inst) Out { return res("chtimes", in.FS.Chtimes(p, tA, tM)) },
		func(m *Model) string {
			return m.attr(p, func(n *node) { n.atime, n.mtime = tA.UnixNano(), tM.UnixNano() })
		}, []string{p}, false}
}

func opChtimesTo(p string, a, t time.Time) Op {
	return Op{fmt.Sprintf("chtimes %s %s %s", p, a.UTC().Format(time.RFC3339Nano), t.UTC().Format(time.RFC3339Nano)), func(in *Inst) Out { return res("chtimes", in.FS.Chtimes(p, a, t)) },
		func(m *Model) string {
			return m.attr(p, func(n *node) { n.atime, n.mtime = a.UnixNano(), t.UnixNano() })
		}, []string{p}, false}
}

// attrOps set the attributes to the values at which an encoding could end, and do what could bring old ones back.
func attrOps() []Op {
	var out []Op
	for _, mode := range []os.FileMode{0, 0o777, 0o001, os.ModeSetuid | 0o755, os.ModeSetgid | 0o750, os.ModeSticky | 0o777, os.ModeSetuid | os.ModeSetgid | os.ModeSticky} {
		out = append(out, opChmod("/b", mode), opChmod("/a", mode))
	}
	for _, o := range [][2]int{{0, 0}, {65534, 1}, {1<<21 - 1, 1 << 21}, {1<<31 - 1, 1<<32 - 2}} {
		out = append(out, opChown("/b", o[0], o[1]), opChown("/a", o[1], o[0]))
	}
	for _, t := range [][2]time.Time{
		{time.Unix(0, 1), time.Unix(-1, 999999999)}, {time.Unix(1<<33, 1), time.Unix(1<<33-1, 999999999)},
		{time.Unix(-1<<31-1, 0), time.Unix(1<<31, 0)}, {tM, tA}, {time.Date(2020, 1, 1, 0, 0, 0, 7, time.FixedZone("", 5*3600+1800)), time.Date(2020, 6, 1, 0, 0, 0, 700, time.FixedZone("", -12*3600))},
	} {
		out = append(out, opChtimesTo("/b", t[0], t[1]), opChtimesTo("/a", t[0], t[1]))
	}
	return append(out, opRename("/b", "/e"), opRename("/a", "/e"), opOpen("/b", os.O_WRONLY, []byte("Z")), opOpen("/b", os.O_RDWR|os.O_TRUNC, nil), opRemoveAll("/a"), opPut("/b", []byte("new")), opMkdir("/a"), opChmod("/", 0o711), opChown("/", 3, 4), opChtimesTo("/", tM, tA))
}

func opStat(p string) Op {
	return Op{"stat " + p, func(in *Inst) Out { _, err := in.FS.Stat(p); return res("stat", err) },
		func(m *Model) string { return m.attr(p, func(*node) {}) }, []string{p}, false}
}

func opSymlink(a, b string) Op {
	return Op{"symlink " + a + " " + b, func(in *Inst) Out { return res("symlink", in.FS.SymlinkIfPossible(a, b)) }, nil, []string{a, b}, false}
}

// judge compares an outcome with the class the model gave.
func judge(want string, got Out) string {
	if want == mAny {
		return ""
	}
	if want == mOK {
		if got.Class != "ok" {
			return fmt.Sprintf("reference succeeds, got error at %s: %s", got.Step, got.Class)
		}
		return ""
	}
	if got.Class == "ok" {
		return "reference fails with " + want + ", got success"
	}
	if strings.HasPrefix(got.Class, "panic") {
		return got.Class
	}
	switch want {
	case mNotExist, mPerm, mExist:
		if got.Class != want {
			return fmt.Sprintf("reference fails with %s, got %s at %s", want, got.Class, got.Step)
		}
	}
	return ""
}

// opHold opens a file which stays open; the other calls on it do nothing if it is not.
func opHold(i int, p string, flag int) Op {
	return Op{fmt.Sprintf("hold %d open %s %s", i, p, flagName(flag)), func(in *Inst) Out {
		if in.Held[i] != nil {
			return res("open", nil)
		}
		f, err := in.FS.OpenFile(p, flag, 0o640)
		if err == nil {
			in.Held[i] = f
		}
		return res("open", err)
	}, func(m *Model) string { return m.hold(i, p, flag) }, []string{p}, false}
}

func opHeld(i int, what, p string, do func(f afero.File) error, mod func(m *Model, h *heldFile)) Op {
	return Op{fmt.Sprintf("hold %d %s", i, what), func(in *Inst) Out {
		f := in.Held[i]
		if f == nil {
			return res(what, nil)
		}
		if what == "close" {
			in.Held[i] = nil
		}
		return res(what, do(f))
	}, func(m *Model) string {
		if h := m.held[i]; h != nil {
			mod(m, h)
		}
		return mOK
	}, []string{p}, false}
}

// heldOps are calls on an open file at p and on its entry.
func heldOps(i int, p string) []Op {
	return []Op{
		opHold(i, p, os.O_RDWR), opHold(i, p, os.O_WRONLY|os.O_APPEND|os.O_CREATE),
		opHeld(i, "write 2", p, func(f afero.File) error { _, err := f.Write([]byte("xy")); return err }, func(m *Model, h *heldFile) { h.write([]byte("xy")) }),
		opHeld(i, "truncate 1", p, func(f afero.File) error { return f.Truncate(1) }, func(m *Model, h *heldFile) {
			h.data, h.pending = overlay(nil, 0, append(append([]byte{}, h.data...), 0)[:1]), true
		}),
		opHeld(i, "sync", p, func(f afero.File) error { return f.Sync() }, func(m *Model, h *heldFile) { m.sync(h) }),
		opHeld(i, "close", p, func(f afero.File) error { return f.Close() }, func(m *Model, h *heldFile) { m.sync(h); m.held[i] = nil }),
		opChmod(p, 0o600), opChown(p, 11, 12), opChtimes(p),
	}
}

// opRecreate removes what is at p and makes a file there.
func opRecreate(p string) Op {
	rm, put := opRemoveAll(p), opPut(p, []byte("another"))
	return Op{"recreate " + p, func(in *Inst) Out {
		if o := rm.Do(in); o.Class != "ok" {
			return o
		}
		return put.Do(in)
	}, func(m *Model) string {
		rm.Mod(m)
		return put.Mod(m)
	}, []string{p}, false}
}
