package main

import (
	"fmt"
	"os"
	"path"
	"sort"
	"strings"
)

// The reference file system: a map from clean absolute path to node. It knows nothing about tapes.

type node struct {
	dir     bool
	perm    os.FileMode
	uid     int // -1: whatever the process is (taken from the first observation)
	gid     int
	mtime   int64 // 0: unknown, adopt what is observed
	atime   int64
	data    []byte
	own     bool // owner was set explicitly
	touched bool // content written since the last observation: modification time may have moved
}

type Model struct {
	n    map[string]*node
	held [2]*heldFile
}

// heldFile is a file open across calls. What is written to it becomes visible when it is synced or closed; if its
// entry has been removed by then, nowhere.
type heldFile struct {
	of      *node
	data    []byte
	off     int64
	app     bool
	pending bool
}

func (m *Model) hold(i int, p string, flag int) string {
	if m.held[i] != nil {
		return mOK
	}
	if r := m.open(p, flag, 0o640); r != mOK {
		return r
	}
	n := m.n[p]
	m.held[i] = &heldFile{of: n, data: append([]byte{}, n.data...), app: flag&os.O_APPEND != 0}
	return mOK
}

func (h *heldFile) write(b []byte) {
	if h.app {
		h.off = int64(len(h.data))
	}
	h.data = overlay(h.data, h.off, b)
	h.off += int64(len(b))
	h.pending = true
}

func (m *Model) sync(h *heldFile) {
	if !h.pending {
		return
	}
	for _, n := range m.n {
		if n == h.of { // wherever it is now
			n.data, n.touched = append([]byte{}, h.data...), true
		}
	}
}

func newModel() *Model {
	return &Model{n: map[string]*node{"/": {dir: true, perm: os.ModePerm.Perm(), uid: -1, gid: -1}}}
}

func (m *Model) clone() *Model {
	c := &Model{n: make(map[string]*node, len(m.n))}
	for k, v := range m.n {
		x := *v
		x.data = append([]byte(nil), v.data...)
		c.n[k] = &x
	}
	return c
}

func (m *Model) isDir(p string) bool  { n, ok := m.n[p]; return ok && n.dir }
func (m *Model) exists(p string) bool { _, ok := m.n[p]; return ok }

func (m *Model) hasChildren(p string) bool {
	pre := strings.TrimSuffix(p, "/") + "/"
	for k := range m.n {
		if k != p && strings.HasPrefix(k, pre) {
			return true
		}
	}
	return false
}

func (m *Model) children(p string) []string {
	var out []string
	for k := range m.n {
		if k != "/" && path.Dir(k) == p {
			out = append(out, k)
		}
	}
	sort.Strings(out)
	return out
}

const (
	mOK       = "ok"
	mNotExist = "notexist"
	mExist    = "exist"
	mPerm     = "permission"
	mIsDir    = "isdir"
	mNotDir   = "notdir"
	mNotEmpty = "notempty"
	mInvalid  = "invalid"
	mFail     = "fail" // some error, whichever
	mAny      = "any"  // either outcome is acceptable, as long as nothing changes on failure
)

func (m *Model) parentOK(p string) string {
	d := path.Dir(p)
	n, ok := m.n[d]
	if !ok {
		return mNotExist
	}
	if !n.dir {
		return mNotDir
	}
	return mOK
}

func (m *Model) mkdir(p string, perm os.FileMode) string {
	p = path.Clean(p)
	if m.exists(p) {
		return mExist
	}
	if r := m.parentOK(p); r != mOK {
		return r
	}
	m.n[p] = &node{dir: true, perm: perm, uid: -1, gid: -1}
	return mOK
}

func (m *Model) mkdirAll(p string, perm os.FileMode) string {
	p = path.Clean(p)
	parts := strings.Split(strings.Trim(p, "/"), "/")
	cur := ""
	for _, part := range parts {
		if part == "" {
			continue
		}
		cur += "/" + part
		if n, ok := m.n[cur]; ok {
			if !n.dir {
				return mNotDir
			}
			continue
		}
	}
	cur = ""
	for _, part := range parts {
		if part == "" {
			continue
		}
		cur += "/" + part
		if !m.exists(cur) {
			m.n[cur] = &node{dir: true, perm: perm, uid: -1, gid: -1}
		}
	}
	return mOK
}

// open applies the effects of opening and says whether the handle may read and write.
func (m *Model) open(p string, flag int, perm os.FileMode) (r string) {
	p = path.Clean(p)
	acc := flag & (os.O_RDONLY | os.O_WRONLY | os.O_RDWR)
	wr := acc == os.O_WRONLY || acc == os.O_RDWR
	n, ok := m.n[p]
	if ok {
		if flag&os.O_CREATE != 0 && flag&os.O_EXCL != 0 {
			return mExist
		}
		if n.dir && (wr || flag&(os.O_TRUNC|os.O_APPEND) != 0) {
			return mIsDir
		}
		if flag&os.O_TRUNC != 0 && wr {
			if len(n.data) > 0 {
				n.data = nil
				n.touched = true
			}
		}
		return mOK
	}
	// A regular file on the way makes every lookup fail.
	if flag&os.O_CREATE == 0 {
		return mNotExist
	}
	if r := m.parentOK(p); r != mOK {
		return r
	}
	m.n[p] = &node{perm: perm, uid: -1, gid: -1}
	return mOK
}

// write applies one write at the given position (or at the end).
func (m *Model) write(p string, app bool, off int64, b []byte) {
	n := m.n[path.Clean(p)]
	if app {
		off = int64(len(n.data))
	}
	n.data = overlay(n.data, off, b)
	if len(b) > 0 {
		n.touched = true
	}
}

func overlay(d []byte, off int64, b []byte) []byte {
	if len(b) == 0 {
		return d
	}
	end := off + int64(len(b))
	out := make([]byte, max64(int64(len(d)), end))
	copy(out, d)
	copy(out[off:], b)
	return out
}

func max64(a, b int64) int64 {
	if a > b {
		return a
	}
	return b
}

func (m *Model) remove(p string) string {
	p = path.Clean(p)
	n, ok := m.n[p]
	if !ok {
		return mNotExist
	}
	if n.dir && m.hasChildren(p) {
		return mNotEmpty
	}
	delete(m.n, p)
	return mOK
}

func (m *Model) removeAll(p string) string {
	p = path.Clean(p)
	if !m.exists(p) {
		// Removing what is not there succeeds; below a regular file real systems disagree.
		for d := path.Dir(p); d != "/"; d = path.Dir(d) {
			if m.exists(d) && !m.isDir(d) {
				return mAny
			}
		}
		return mOK
	}
	pre := strings.TrimSuffix(p, "/") + "/"
	for k := range m.n {
		if k == p || strings.HasPrefix(k, pre) {
			delete(m.n, k)
		}
	}
	return mOK
}

func (m *Model) rename(a, b string) string {
	a, b = path.Clean(a), path.Clean(b)
	if a == "/" {
		return mInvalid
	}
	src, ok := m.n[a]
	if !ok {
		return mNotExist
	}
	if r := m.parentOK(b); b != "/" && r != mOK {
		return r
	}
	if a == b {
		return mOK
	}
	if src.dir && strings.HasPrefix(b, a+"/") {
		return mInvalid
	}
	if dst, ok := m.n[b]; ok {
		if dst.dir != src.dir {
			return mFail
		}
		if dst.dir && m.hasChildren(b) {
			return mFail
		}
		delete(m.n, b)
	}
	mv := map[string]*node{}
	for k, n := range m.n {
		if k == a || strings.HasPrefix(k, a+"/") {
			mv[k] = n
		}
	}
	for k := range mv {
		delete(m.n, k)
	}
	for k, n := range mv {
		m.n[b+k[len(a):]] = n
	}
	return mOK
}

func (m *Model) attr(p string, f func(*node)) string {
	p = path.Clean(p)
	n, ok := m.n[p]
	if !ok {
		return mNotExist
	}
	f(n)
	return mOK
}

// ancestors of p, p excluded.
func ancestors(p string) map[string]bool {
	out := map[string]bool{"/": true}
	for d := path.Dir(path.Clean(p)); d != "/" && d != "."; d = path.Dir(d) {
		out[d] = true
	}
	return out
}

// compare checks an observed tree against the model and lets the model adopt the times and owners it
// leaves open.
func (m *Model) compare(v View) string {
	for _, p := range v.keys() {
		if strings.HasPrefix(p, "!") {
			return "walk: " + p + " " + v[p].Err
		}
		if _, ok := m.n[p]; !ok {
			return "unexpected entry " + p + ": " + v[p].String()
		}
	}
	ks := make([]string, 0, len(m.n))
	for k := range m.n {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		n := m.n[k]
		e, ok := v[k]
		if !ok {
			return "missing entry " + k
		}
		if e.Err != "" {
			return k + ": " + e.Err
		}
		if n.dir != e.Dir || (!n.dir && e.Kind != "file") {
			return k + ": kind is " + e.Kind
		}
		if n.perm&permMask != e.Perm {
			return k + ": permission bits: want " + (n.perm & permMask).String() + " got " + e.Perm.String()
		}
		if !n.dir {
			if e.Content != contentKey(n.data) {
				return k + ": content: want " + contentKey(n.data) + " got " + e.Content
			}
			if e.Size != int64(len(n.data)) {
				return k + ": size is wrong: " + e.String()
			}
		}
		if n.uid < 0 {
			n.uid, n.gid = int(e.UID), int(e.GID)
		} else if n.uid != int(e.UID) || n.gid != int(e.GID) {
			return k + ": owner changed: " + e.String()
		}
		if n.mtime == 0 || n.touched {
			n.mtime, n.touched = e.Mtime, false
		} else if n.mtime != e.Mtime {
			return k + ": modification time changed: " + e.String()
		}
		if n.atime != 0 && n.atime != e.Atime {
			return k + ": access time changed: " + e.String()
		}
		if e.Link != "" {
			return k + ": is a link to " + e.Link
		}
	}
	return ""
}

// String names the state of the reference: what is there, without the times it leaves open.
func (m *Model) String() string {
	ks := make([]string, 0, len(m.n))
	for k := range m.n {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var b strings.Builder
	for _, k := range ks {
		n := m.n[k]
		fmt.Fprintf(&b, "%q %v %o %d %s", k, n.dir, n.perm, n.atime, contentKey(n.data))
		if n.own {
			fmt.Fprintf(&b, " %d:%d", n.uid, n.gid)
		}
		b.WriteByte('\n')
	}
	return b.String()
}

// touch notes that the times of the directories above the paths may move.
func (m *Model) touch(ps []string) {
	for _, p := range ps {
		for a := range ancestors(p) {
			if n := m.n[a]; n != nil && n.dir {
				n.touched = true
			}
		}
	}
}
