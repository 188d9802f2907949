package main

import (
	"archive/tar"
	"bytes"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"os"
	"path/filepath"
	"strings"
	"time"

	"github.com/pojntfx/stfs/pkg/config"
	"github.com/pojntfx/stfs/pkg/encryption"
	"github.com/pojntfx/stfs/pkg/mtio"
	"github.com/pojntfx/stfs/pkg/recovery"
	"github.com/pojntfx/stfs/pkg/signature"
	"github.com/pojntfx/stfs/pkg/tape"
)

// The archive interface.

type nopSeekCloser struct{ *bytes.Reader }

func (nopSeekCloser) Close() error { return nil }

// Member is one entry handed to an archive or update call.
type Member struct {
	Path string
	Dir  bool
	Data []byte
	Perm os.FileMode
	Time time.Time

	Uname, Gname string
	UID, GID     int

	Link string
	Hdr  *tar.Header // everything but the name and the size, if set
}

var tArch = time.Unix(1300000000, 5000000)

func (m Member) config() config.FileConfig {
	perm := m.Perm
	if perm == 0 {
		perm = 0o644
	}
	t := m.Time
	if t.IsZero() {
		t = tArch
	}
	h := &tar.Header{Typeflag: tar.TypeReg, Name: m.Path, Mode: int64(perm), Size: int64(len(m.Data)), ModTime: t, Uid: 3, Gid: 4, Uname: "u", Gname: "g"}
	if m.Dir {
		h.Typeflag = tar.TypeDir
	}
	if m.Uname != "" {
		h.Uname, h.Gname, h.Uid, h.Gid = m.Uname, m.Gname, m.UID, m.GID
	}
	if m.Hdr != nil {
		x := *m.Hdr
		x.Name, x.Size = m.Path, int64(len(m.Data))
		h = &x
	}
	return config.FileConfig{
		GetFile: func() (io.ReadSeekCloser, error) { return nopSeekCloser{bytes.NewReader(m.Data)}, nil },
		Info:    h.FileInfo(),
		Path:    m.Path,
		Link:    m.Link,
	}
}

func source(ms []Member) func() (config.FileConfig, error) {
	i := 0
	return func() (config.FileConfig, error) {
		if i >= len(ms) {
			return config.FileConfig{}, io.EOF
		}
		i++
		return ms[i-1].config(), nil
	}
}

func memberNames(ms []Member) string {
	var s []string
	for _, m := range ms {
		if m.Dir {
			s = append(s, m.Path+"/")
		} else {
			s = append(s, m.Path+"="+contentKey(m.Data))
		}
	}
	return strings.Join(s, " ")
}

func paths(ms []Member) (out []string) {
	for _, m := range ms {
		out = append(out, m.Path)
	}
	return
}

// modAny marks calls without reference semantics.
func modAny(*Model) string { return mAny }

func opArchive(ms ...Member) Op {
	return Op{Name: "archive " + memberNames(ms), Do: func(in *Inst) Out {
		_, err := in.WriteOps.Archive(source(ms), in.Cfg.Level, false, false)
		return res("archive", err)
	}, Mod: modAny, Path: paths(ms)}
}

func opUpdate(replace bool, ms ...Member) Op {
	return Op{Name: fmt.Sprintf("update replace=%v %s", replace, memberNames(ms)), Do: func(in *Inst) Out {
		_, err := in.WriteOps.Update(source(ms), in.Cfg.Level, replace, false)
		return res("update", err)
	}, Mod: modAny, Path: paths(ms)}
}

func opDelete(p string) Op {
	return Op{Name: "delete " + p, Do: func(in *Inst) Out { return res("delete", in.WriteOps.Delete(p)) }, Mod: modAny, Path: []string{p}}
}

func opMove(a, b string) Op {
	return Op{Name: "move " + a + " " + b, Do: func(in *Inst) Out { return res("move", in.WriteOps.Move(a, b)) }, Mod: modAny, Path: []string{a, b}}
}

// restoreAll restores from the archive interface into memory: path -> content.
type memDst struct {
	m  map[string][]byte
	p  string
	bb bytes.Buffer
}

func (d *memDst) Write(b []byte) (int, error) { return d.bb.Write(b) }
func (d *memDst) Close() error                { d.m[d.p] = append([]byte{}, d.bb.Bytes()...); return nil }

func restoreTo(in *Inst, from string) (map[string][]byte, []string, error) {
	out := map[string][]byte{}
	var dirs []string
	err := in.ReadOps.Restore(
		func(p string, mode fs.FileMode) (io.WriteCloser, error) { return &memDst{m: out, p: p}, nil },
		func(p string, mode fs.FileMode) error { dirs = append(dirs, p); return nil },
		from, "", false)
	return out, dirs, err
}

var errNotFetched = errors.New("nothing was written")

// fetchAt fetches one record by position, as "recovery fetch" does.
func fetchAt(cfg Cfg, ks *KeySet, drive string, record, block int64) (data []byte, dir bool, err error) {
	cfg = cfg.norm()
	f, reg, err := tape.OpenTapeReadOnly(drive)
	if err != nil {
		return nil, false, err
	}
	defer f.Close()
	return fetchFrom(config.DriveReaderConfig{Drive: f, DriveIsRegular: reg}, mtio.MagneticTapeIO{}, cfg, ks, record, block)
}

func fetchFrom(dr config.DriveReaderConfig, mt config.MagneticTapeIO, cfg Cfg, ks *KeySet, record, block int64) (data []byte, dir bool, err error) {
	got := map[string][]byte{}
	err = recovery.Fetch(dr, mt, cfg.pipes(), config.CryptoConfig{Recipient: ks.SigPub, Identity: ks.EncPriv},
		func(p string, mode fs.FileMode) (io.WriteCloser, error) { return &memDst{m: got, p: "x"}, nil },
		func(p string, mode fs.FileMode) error { dir = true; return nil },
		int(record), int(block), "x", false, nil)
	if err != nil {
		return got["x"], dir, err
	}
	b, found := got["x"]
	if !found && !dir {
		return nil, false, errNotFetched
	}
	return b, dir, nil
}

// indexTape indexes a tape into an instance's index, as "recovery index" does.
func indexTape(in *Inst, ks *KeySet, overwrite bool, record, block int) error {
	p := in.Cfg.pipes()
	if ks == nil {
		ks = keysFor(in.Cfg)
	}
	var rd config.DriveReaderConfig
	var mt config.MagneticTapeIO = mtio.MagneticTapeIO{}
	if in.VT != nil {
		r, err := in.Backend.GetReader()
		if err != nil {
			return err
		}
		defer in.Backend.CloseReader()
		rd, mt = r, in.VT
	} else {
		f, reg, err := tape.OpenTapeReadOnly(in.Drive)
		if err != nil {
			return err
		}
		defer f.Close()
		rd = config.DriveReaderConfig{Drive: f, DriveIsRegular: reg}
	}
	return recovery.Index(rd, mt,
		config.MetadataConfig{Metadata: in.Meta}, p, config.CryptoConfig{Recipient: ks.SigPub, Identity: ks.EncPriv},
		record, block, overwrite, false, 0,
		func(hdr *tar.Header, i int) error { return encryption.DecryptHeader(hdr, p.Encryption, ks.EncPriv) },
		func(hdr *tar.Header, isRegular bool) error {
			return signature.VerifyHeader(hdr, isRegular, p.Signature, ks.SigPub)
		},
		func(*config.Header) {})
}

// onTape opens an instance in a new directory over copies of a tape and (if db is not nil) an index. The
// filesystem is not initialised.
func onTape(cfg Cfg, t, db []byte, o Opt) (*Inst, error) {
	d := newDir()
	must(os.WriteFile(filepath.Join(d, "t.tar"), t, 0o600))
	if db != nil {
		must(os.WriteFile(filepath.Join(d, "i.db"), db, 0o600))
	}
	in, err := openInst(cfg, filepath.Join(d, "t.tar"), filepath.Join(d, "i.db"), o)
	if err != nil {
		os.RemoveAll(d)
		return nil, err
	}
	in.Dir = d
	return in, nil
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

// medium is what is on the drive, whichever it is.
func (in *Inst) medium() string {
	if in.VT != nil {
		return in.VT.String()
	}
	return string(in.Tape())
}

// onCopy opens a copy of an instance's tape with a given index (none: a new one).
func onCopy(in *Inst, db []byte, o Opt) (*Inst, error) {
	if in.VT == nil {
		return onTape(in.Cfg, in.Tape(), db, o)
	}
	o.Tape = in.VT.dup()
	return onTape(in.Cfg, nil, db, o)
}

// rebuilt is a filesystem initialised from a tape alone.
func rebuilt(cfg Cfg, t []byte, o Opt) (*Inst, error) {
	in, err := onTape(cfg, t, nil, o)
	if err != nil {
		return nil, err
	}
	if _, err := in.FS.Initialize("/", os.ModePerm); err != nil {
		in.Destroy()
		return nil, fmt.Errorf("initialize: %w", err)
	}
	return in, nil
}
