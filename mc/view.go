package main

import (
	"crypto/sha256"
	"encoding/hex"
	"errors"
	"fmt"
	"io"
	"os"
	"path"
	"sort"
	"strings"
	"time"

	"github.com/spf13/afero"

	"github.com/pojntfx/stfs/pkg/config"
	sfs "github.com/pojntfx/stfs/pkg/fs"
	"github.com/pojntfx/stfs/pkg/inventory"
)

// Ent is everything a user can observe about one entry.
type Ent struct {
	Dir     bool
	Kind    string // "dir", "file", "other"
	Perm    os.FileMode
	Size    int64
	UID     uint32
	GID     uint32
	Mtime   int64
	Atime   int64
	Ctime   int64
	Uname   string
	Gname   string
	Link    string
	LstatN  string
	Content string // hash or error
	Err     string
}

func (e Ent) String() string {
	return fmt.Sprintf("%s perm=%o size=%d uid=%d gid=%d mtime=%d atime=%d ctime=%d own=%s:%s link=%q/%q content=%s err=%s", e.Kind, e.Perm, e.Size, e.UID, e.GID, e.Mtime, e.Atime, e.Ctime, e.Uname, e.Gname, e.Link, e.LstatN, e.Content, e.Err)
}

// permMask are the bits chmod can change.
const permMask = os.ModePerm | os.ModeSetuid | os.ModeSetgid | os.ModeSticky

// View maps path to entry; walk problems are recorded under keys starting with "!".
type View map[string]Ent

func contentKey(b []byte) string {
	if len(b) <= 24 {
		return fmt.Sprintf("%d:%q", len(b), b)
	}
	s := sha256.Sum256(b)
	return fmt.Sprintf("%d:%s", len(b), hex.EncodeToString(s[:8]))
}

func readAll(f afero.File) ([]byte, error) {
	var out []byte
	buf := make([]byte, 32*1024)
	for i := 0; ; i++ {
		n, err := f.Read(buf)
		if n > 0 {
			out = append(out, buf[:n]...)
		}
		if err == io.EOF {
			return out, nil
		}
		if err != nil {
			return out, err
		}
		if n == 0 {
			return out, errors.New("read returned 0 bytes without error")
		}
		if i > 1<<16 {
			return out, errors.New("read never reaches end of file")
		}
	}
}

type symFs interface {
	afero.Fs
	afero.Symlinker
}

// readFile opens, reads fully and closes.
func readFile(fs afero.Fs, p string) ([]byte, error) {
	f, err := fs.Open(p)
	if err != nil {
		return nil, err
	}
	b, err := readAll(f)
	if err != nil {
		f.Close()
		return b, err
	}
	return b, f.Close()
}

func entFromInfo(e *Ent, fi os.FileInfo) {
	e.Perm = fi.Mode() & permMask
	e.Size = fi.Size()
	e.Mtime = fi.ModTime().UnixNano()
	switch {
	case fi.IsDir():
		e.Kind, e.Dir = "dir", true
		e.Size = 0
	case fi.Mode().IsRegular():
		e.Kind = "file"
	default:
		e.Kind = "other:" + fi.Mode().Type().String()
	}
	if st, ok := fi.Sys().(*sfs.Stat); ok {
		e.UID, e.GID = st.Uid, st.Gid
		e.Atime = st.Atim.Nano()
		e.Ctime = st.Ctim.Nano()
	}
}

// statEnt is the entry at p as Stat, Lstat, Readlink and a full read show it.
func statEnt(in *Inst, p string, content bool) Ent {
	var e Ent
	fi, err := in.FS.Stat(p)
	if err != nil {
		e.Err = "stat:" + errClass(err)
		e.Kind = "none"
	} else {
		entFromInfo(&e, fi)
		if hdr, err := inventory.Stat(config.MetadataConfig{Metadata: in.Meta}, p, false, nil); err == nil {
			e.Uname, e.Gname = hdr.Uname, hdr.Gname
		}
	}
	if lfi, _, err := in.FS.LstatIfPossible(p); err == nil {
		e.LstatN = lfi.Name() + "/" + lfi.Mode().String()
	}
	if l, err := in.FS.ReadlinkIfPossible(p); err == nil {
		e.Link = l
	}
	if content && e.Kind == "file" {
		b, err := readFile(in.FS, p)
		if err != nil {
			e.Content = "ERR " + errClass(err)
			e.Err += " read:" + errClass(err)
		} else {
			e.Content = contentKey(b)
		}
	}
	return e
}

// walk lists everything reachable from root.
func walk(in *Inst, root string, content bool) View {
	v := View{}
	walkDir(in, root, content, v, 0, statEnt)
	return v
}

// walkLight leaves out what only links and the archive interface show.
func walkLight(in *Inst, root string, content bool) View {
	v := View{}
	walkDir(in, root, content, v, 0, statLight)
	return v
}

// statLight is the entry at p as Stat and a full read show it.
func statLight(in *Inst, p string, content bool) Ent {
	var e Ent
	fi, err := in.FS.Stat(p)
	if err != nil {
		return Ent{Kind: "none", Err: "stat:" + errClass(err)}
	}
	entFromInfo(&e, fi)
	if content && e.Kind == "file" {
		b, err := readFile(in.FS, p)
		if err != nil {
			e.Content = "ERR " + errClass(err)
			e.Err += " read:" + errClass(err)
		} else {
			e.Content = contentKey(b)
		}
	}
	return e
}

// walkList is the tree as listings show it, with the contents of files and links not followed.
func walkList(in *Inst, root string) View {
	v := View{}
	var rec func(dir string, depth int)
	rec = func(dir string, depth int) {
		infos, err := list(in, dir, -1)
		if err != nil || depth > 60 {
			v["!list:"+dir] = Ent{Err: errClass(err)}
			return
		}
		for _, fi := range infos {
			p := path.Join(dir, fi.Name())
			if _, dup := v[p]; dup {
				v["!dup:"+p] = Ent{Err: "listed twice or cycle"}
				continue
			}
			var e Ent
			if l, err := in.FS.ReadlinkIfPossible(p); err == nil && l != "" {
				v[p] = Ent{Kind: "link"} // its target is kept by name, and follows the entry it names
				continue
			}
			entFromInfo(&e, fi)
			if e.Kind == "file" {
				if b, err := readFile(in.FS, p); err != nil {
					e.Content = "ERR " + errClass(err)
				} else {
					e.Content = contentKey(b)
				}
			}
			v[p] = e
			if e.Dir {
				rec(p, depth+1)
			}
		}
	}
	v[root] = statLight(in, root, false)
	if v[root].Dir {
		rec(root, 0)
	}
	return v
}

func walkDir(in *Inst, dir string, content bool, v View, depth int, stat func(*Inst, string, bool) Ent) {
	v[dir] = stat(in, dir, content)
	if depth > 60 {
		v["!deep:"+dir] = Ent{Err: "too deep"}
		return
	}
	if v[dir].Kind != "dir" {
		return
	}
	if v[dir].Link != "" && depth > 0 {
		return // do not follow links to directories
	}
	infos, err := list(in, dir, -1)
	if err != nil {
		v["!list:"+dir] = Ent{Err: errClass(err)}
		return
	}
	for _, fi := range infos {
		p := path.Join(dir, fi.Name())
		if _, dup := v[p]; dup {
			v["!dup:"+p] = Ent{Err: "listed twice or cycle"}
			continue
		}
		if fi.IsDir() {
			walkDir(in, p, content, v, depth+1, stat)
		} else {
			v[p] = stat(in, p, content)
		}
		if e := v[p]; e.Dir != fi.IsDir() || (!fi.IsDir() && e.Size != fi.Size()) || e.Perm != fi.Mode()&permMask || e.Mtime != fi.ModTime().UnixNano() {
			v["!mismatch:"+p] = Ent{Err: fmt.Sprintf("listing says dir=%v size=%d perm=%o, stat says %v", fi.IsDir(), fi.Size(), fi.Mode()&permMask, e)}
		}
	}
}

func list(in *Inst, dir string, n int) ([]os.FileInfo, error) {
	f, err := in.FS.Open(dir)
	if err != nil {
		return nil, err
	}
	infos, err := f.Readdir(n)
	if cerr := f.Close(); err == nil {
		err = cerr
	}
	return infos, err
}

func (v View) keys() []string {
	k := make([]string, 0, len(v))
	for p := range v {
		k = append(k, p)
	}
	sort.Strings(k)
	return k
}

func (v View) String() string {
	var b strings.Builder
	for _, p := range v.keys() {
		fmt.Fprintf(&b, "%s %v\n", p, v[p])
	}
	return b.String()
}

// diffViews describes the first difference or returns "".
func diffViews(a, b View, an, bn string) string {
	for _, p := range a.keys() {
		eb, ok := b[p]
		if !ok {
			return fmt.Sprintf("%q only in %s: %v", p, an, a[p])
		}
		if a[p] != eb {
			return fmt.Sprintf("%q differs: %s: %v; %s: %v", p, an, a[p], bn, eb)
		}
	}
	for _, p := range b.keys() {
		if _, ok := a[p]; !ok {
			return fmt.Sprintf("%q only in %s: %v", p, bn, b[p])
		}
	}
	return ""
}

// errClass names an error coarsely and without volatile text.
func errClass(err error) string {
	switch {
	case err == nil:
		return "ok"
	case errors.Is(err, os.ErrNotExist):
		return "notexist"
	case errors.Is(err, os.ErrExist):
		return "exist"
	case errors.Is(err, os.ErrPermission):
		return "permission"
	case errors.Is(err, os.ErrInvalid):
		return "invalid"
	case errors.Is(err, config.ErrIsDirectory):
		return "isdir"
	case errors.Is(err, config.ErrIsFile):
		return "isfile"
	case errors.Is(err, config.ErrDirectoryNotEmpty):
		return "notempty"
	}
	return "other(" + err.Error() + ")"
}

func ns(t time.Time) int64 { return t.UnixNano() }
