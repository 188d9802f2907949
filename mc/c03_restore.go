package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"path"
	"sort"
	"strings"
)

// disk is a directory restored into, which behaves like that of an operating system: files can only be created in
// directories which exist, and not in place of a directory.
type disk struct {
	dirs  map[string]bool
	files map[string][]byte
}

func newDisk() *disk {
	return &disk{dirs: map[string]bool{"/": true, "/out": true}, files: map[string][]byte{}}
}

func (d *disk) abs(p string) string { return path.Clean("/" + p) }

func (d *disk) mkdirAll(p string, mode fs.FileMode) error {
	p = d.abs(p)
	for q := p; q != "/"; q = path.Dir(q) {
		if _, has := d.files[q]; has {
			return fmt.Errorf("mkdir %s: not a directory", q)
		}
	}
	for q := p; q != "/"; q = path.Dir(q) {
		d.dirs[q] = true
	}
	return nil
}

type diskFile struct {
	d  *disk
	p  string
	bb bytes.Buffer
}

func (f *diskFile) Write(b []byte) (int, error) { return f.bb.Write(b) }
func (f *diskFile) Close() error {
	f.d.files[f.p] = append([]byte{}, f.bb.Bytes()...)
	return nil
}

func (d *disk) getDst(p string, mode fs.FileMode) (io.WriteCloser, error) {
	p = d.abs(p)
	if d.dirs[p] {
		return nil, fmt.Errorf("open %s: is a directory", p)
	}
	if !d.dirs[path.Dir(p)] {
		return nil, fmt.Errorf("open %s: %w", p, errNoDir)
	}
	d.files[p] = []byte{}
	return &diskFile{d: d, p: p}, nil
}

var errNoDir = errors.New("no such file or directory")

// restoredTrees restores every directory and file of an instance, in every way there is to say so, and compares what
// arrives with what the filesystem shows.
func restoredTrees(in *Inst) (state, what string) {
	v := walkLight(in, "/", true)
	keys := v.keys()
	sort.Strings(keys)
	var st strings.Builder
	for _, p := range keys {
		e := v[p]
		fmt.Fprintf(&st, "%s %s %s;", p, e.Kind, e.Content)
		type try struct {
			from, to string
			flat     bool
		}
		var tries []try
		switch e.Kind {
		case "dir":
			froms := []string{p}
			if p != "/" {
				froms = append(froms, p+"/")
			}
			for _, f := range froms {
				tries = append(tries, try{f, "", false}, try{f, "/out", false}, try{f, "/out/", false}, try{f, "out", false}, try{f, "/new/one", false})
			}
		case "file":
			tries = append(tries, try{p, "", true}, try{p, "/out", false}, try{p, "/out/", false}, try{p, "/out/x", true})
		default:
			continue
		}
		for _, t := range tries {
			d := newDisk()
			if t.to == "" {
				d.mkdirAll(path.Dir(p), 0)
			}
			if err := in.ReadOps.Restore(d.getDst, d.mkdirAll, t.from, t.to, t.flat); err != nil {
				return "", fmt.Sprintf("restoring %q to %q: %v", t.from, t.to, err)
			}
			n := 0
			for _, q := range keys {
				if q != p && !strings.HasPrefix(q, strings.TrimSuffix(p, "/")+"/") {
					continue
				}
				rel := strings.TrimPrefix(strings.TrimPrefix(q, p), "/")
				dst := path.Join("/", t.to, rel)
				if t.to == "" {
					dst = q
				} else if e.Kind == "file" && !t.flat {
					dst = path.Join("/", t.to, path.Base(q))
				}
				switch v[q].Kind {
				case "dir":
					if !d.dirs[dst] {
						return "", fmt.Sprintf("restoring %q to %q: directory %q isn't at %q", t.from, t.to, q, dst)
					}
				case "file":
					n++
					b, has := d.files[dst]
					if !has || contentKey(b) != v[q].Content {
						return "", fmt.Sprintf("restoring %q to %q: %q (%s) isn't at %q, there is %q %s", t.from, t.to, q, v[q].Content, dst, names(d.files), contentKey(b))
					}
				}
			}
			if n != len(d.files) {
				return "", fmt.Sprintf("restoring %q to %q gives the files %q", t.from, t.to, names(d.files))
			}
		}
	}
	return st.String(), ""
}

func names(m map[string][]byte) (out []string) {
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return
}

type restoreOracle struct{ state string }

func newRestoreOracle(*Inst) Oracle { return &restoreOracle{} }

func (o *restoreOracle) State() string { return o.state }

func (o *restoreOracle) Step(in *Inst, op Op, out Out, check bool) string {
	if !check {
		return ""
	}
	st, d := restoredTrees(in)
	if d == "" {
		if rb, err := rebuiltAny(in); err != nil {
			d = "rebuilding: " + err.Error()
		} else {
			if _, d = restoredTrees(rb); d != "" {
				d = "in a rebuilt index: " + d
			}
			rb.Destroy()
		}
	}
	if d != "" {
		return "after " + op.Name + " (" + out.Class + "): " + d
	}
	o.state = st
	return ""
}

// restoreOps build trees in which an entry may be older than the directory it is in, and in which names repeat.
func restoreOps() []Op {
	return []Op{
		opPut("/d/f", []byte("one")), opPut("/f", []byte("two")), opMkdir("/d/d"), opMkdir("/a"), opPut("/d/d", []byte("three")), opPut("/d/d/d", []byte("four")), opPut("/dd", []byte("five")),
		opRename("/f", "/a/f"), opRename("/d", "/a/d"), opRename("/d/d", "/d/a"), opRename("/a", "/d/out"), opRename("/d/out", "/a"), opRename("/f", "/d/d/f"), opRemoveAll("/d/d"),
		opArchive(Member{Path: "/a", Dir: true, Perm: 0o755}, Member{Path: "/a/a", Dir: true, Perm: 0o755}, Member{Path: "/a/a/f", Data: []byte("seven"), Perm: 0o600}, Member{Path: "/a/d", Data: []byte("six"), Perm: 0o600}),
	}
}
