package main

import (
	"archive/tar"
	"bytes"
	"context"
	"database/sql"
	"encoding/base64"
	"encoding/json"
	"errors"
	"fmt"
	"io/fs"
	"os"
	"sort"
	"strings"
	"time"

	"io"

	"github.com/pojntfx/stfs/pkg/compression"
	"github.com/pojntfx/stfs/pkg/config"
	"github.com/pojntfx/stfs/pkg/encryption"
	"github.com/pojntfx/stfs/pkg/mtio"
	"github.com/pojntfx/stfs/pkg/recovery"
	"github.com/pojntfx/stfs/pkg/signature"
	"github.com/pojntfx/stfs/pkg/tape"
)

// ---- a drive in memory and a minimal index, for the sweeps

type memDrive struct{ *bytes.Reader }

func (memDrive) Fd() uintptr { return 41 }

// medium is something records can be read from.
type medium struct {
	t  []byte // a regular file
	vt *vtape // or an emulated tape
}

func (m medium) reader() (config.DriveReaderConfig, config.MagneticTapeIO, func()) {
	if m.vt != nil {
		b := m.vt.backend(tape.NewTapeManager(tapeDevice, m.vt, m.vt.bs/blk, false))
		r, _ := b.GetReader()
		return r, m.vt, func() { b.CloseReader() }
	}
	return config.DriveReaderConfig{Drive: memDrive{bytes.NewReader(m.t)}, DriveIsRegular: true}, mtio.MagneticTapeIO{}, func() {}
}

// memMeta is an index which is a map.
type memMeta struct{ m map[string]*config.Header }

func (x *memMeta) UpsertHeader(_ context.Context, h *config.Header, _ bool) error {
	c := *h
	x.m[h.Name] = &c
	return nil
}
func (x *memMeta) UpdateHeaderMetadata(_ context.Context, h *config.Header) error {
	if _, has := x.m[h.Name]; has {
		c := *h
		x.m[h.Name] = &c
	}
	return nil
}
func (x *memMeta) MoveHeader(_ context.Context, a, b string, r, bl int64) error {
	h, has := x.m[a]
	if !has {
		return nil
	}
	delete(x.m, a)
	c := *h
	c.Name, c.Lastknownrecord, c.Lastknownblock = b, r, bl
	x.m[b] = &c
	return nil
}
func (x *memMeta) GetHeaders(context.Context) (out []*config.Header, _ error) {
	for _, h := range x.m {
		if h.Deleted != 1 {
			out = append(out, h)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Name < out[j].Name })
	return
}
func (x *memMeta) GetHeader(_ context.Context, n string) (*config.Header, error) {
	if h, has := x.m[n]; has && h.Deleted != 1 {
		c := *h
		return &c, nil
	}
	return nil, sql.ErrNoRows
}
func (x *memMeta) GetHeaderByLinkname(context.Context, string) (*config.Header, error) {
	return nil, sql.ErrNoRows
}
func (x *memMeta) GetHeaderChildren(context.Context, string) ([]*config.Header, error) {
	return nil, errors.New("not needed")
}
func (x *memMeta) GetRootPath(context.Context) (string, error) { return "/", nil }
func (x *memMeta) GetHeaderDirectChildren(context.Context, string, int) ([]*config.Header, error) {
	return nil, errors.New("not needed")
}
func (x *memMeta) DeleteHeader(_ context.Context, n string, r, b int64) (*config.Header, error) {
	h, has := x.m[n]
	if !has || h.Deleted == 1 {
		return nil, sql.ErrNoRows
	}
	c := *h
	c.Deleted, c.Lastknownrecord, c.Lastknownblock = 1, r, b
	x.m[n] = &c
	return &c, nil
}
func (x *memMeta) GetLastIndexedRecordAndBlock(context.Context, int) (int64, int64, error) {
	return 0, 0, nil
}
func (x *memMeta) PurgeAllHeaders(context.Context) error {
	x.m = map[string]*config.Header{}
	return nil
}

// ---- what the writer signed

// piece is a run of the tape: a record or what is between records.
type piece struct {
	b   []byte
	rec int // index of the record, or -1
}

type signed struct {
	r       rec
	e, s    string // the embedded header and its signature
	hdr     tar.Header
	content []byte // as encoded on the tape
}

type signedTape struct {
	cfg    Cfg
	ks, fk *KeySet // the writer's keys, and another writer's
	t      []byte
	pieces []piece
	recs   []signed
	// What a reader may accept.
	index, query map[string]bool
	contents     map[string]string // signature of the content in the header, or the header's key -> content key
	vt           bool
	db           []byte // the index of t
}

// hdrKey is everything about an accepted header but where it is.
func hdrKey(h *config.Header) string {
	c := *h
	c.Record, c.Block, c.Lastknownrecord, c.Lastknownblock = 0, 0, 0, 0
	c.Modtime, c.Accesstime, c.Changetime = c.Modtime.UTC(), c.Accesstime.UTC(), c.Changetime.UTC()
	b, _ := json.Marshal(c)
	return string(b)
}

// sigOf is what identifies the content signed under a header: its signature, which records without content carry on.
func sigOf(k string) string {
	var h config.Header
	var pax map[string]string
	json.Unmarshal([]byte(k), &h)
	json.Unmarshal([]byte(h.Paxrecords), &pax)
	if s := pax["STFS.Signature"]; s != "" && h.Typeflag == int64(tar.TypeReg) {
		return s
	}
	return k
}

// accepted is what readers make of a medium.
type accepted struct {
	indexErr, queryErr error
	index, query       []string
	rows               []*config.Header
}

func (st *signedTape) read(m medium, query bool) (a accepted) {
	p := st.cfg.pipes()
	func() {
		dr, mt, done := m.reader()
		defer done()
		meta := &memMeta{m: map[string]*config.Header{}}
		a.indexErr = recovery.Index(dr, mt, config.MetadataConfig{Metadata: meta}, p, config.CryptoConfig{Recipient: st.ks.SigPub, Identity: st.ks.EncPriv}, 0, 0, true, false, 0,
			func(h *tar.Header, i int) error { return encryption.DecryptHeader(h, p.Encryption, st.ks.EncPriv) },
			func(h *tar.Header, reg bool) error {
				return signature.VerifyHeader(h, reg, p.Signature, st.ks.SigPub)
			},
			func(h *config.Header) { a.index = append(a.index, hdrKey(h)) })
		a.rows, _ = meta.GetHeaders(context.Background())
	}()
	if query {
		dr, mt, done := m.reader()
		defer done()
		_, a.queryErr = recovery.Query(dr, mt, p, config.CryptoConfig{Recipient: st.ks.SigPub, Identity: st.ks.EncPriv}, 0, 0, func(h *config.Header) { a.query = append(a.query, hdrKey(h)) })
	}
	return
}

// fetch restores what is at a position; key is the header it accepted.
func (st *signedTape) fetch(m medium, record, block int64) (key string, b []byte, dir bool, err error) {
	dr, mt, done := m.reader()
	defer done()
	got := map[string][]byte{}
	err = recovery.Fetch(dr, mt, st.cfg.pipes(), config.CryptoConfig{Recipient: st.ks.SigPub, Identity: st.ks.EncPriv},
		func(string, fs.FileMode) (io.WriteCloser, error) { return &memDst{m: got, p: "x"}, nil },
		func(string, fs.FileMode) error { dir = true; return nil },
		int(record), int(block), "x", false, func(h *config.Header) { key = hdrKey(h) })
	return key, got["x"], dir, err
}

// signedHist is what the writer did. The short one is for the sweeps.
func signedHist(short bool) []Op {
	if short {
		return []Op{opMkdir("/d"), opPut("/d/f", pat(700, 3)), opChmod("/d/f", 0o600), opRename("/d/f", "/g"), opRemove("/d")}
	}
	return []Op{
		opMkdir("/d"), opPut("/d/f", pat(1500, 3)), opCreate("/e"), opPut("/e", []byte("hello")), opChmod("/e", 0o600), opChtimes("/d"),
		opRename("/d", "/m"), opPut("/n", text(3000)), opPut("/n", []byte("other")), opRemove("/e"), opSymlink("/n", "/l"),
		opArchive(Member{Path: "/x", Data: pat(600, 1)}, Member{Path: "/y", Dir: true}, Member{Path: "/z", Data: nil}),
	}
}

func newSignedTape(cfg Cfg, short, vt bool) (*signedTape, error) {
	cfg = cfg.norm()
	st := &signedTape{cfg: cfg, ks: keysFor(cfg), fk: keysTagged(cfg, "foreign"), index: map[string]bool{}, query: map[string]bool{}, contents: map[string]string{}, vt: vt}
	opt := Opt{}
	if vt {
		opt.Tape = newVtape(cfg.RS)
	}
	in, err := freshInst(cfg, ":memory:", opt)
	if err != nil {
		return nil, err
	}
	defer in.Destroy()
	for _, o := range signedHist(short) {
		if out := o.Do(in); out.Class != "ok" {
			return nil, errors.New(o.Name + ": " + out.Class)
		}
	}
	if vt {
		for _, it := range opt.Tape.items {
			st.t = append(st.t, it.data...)
			if n := cfg.RS*blk - len(it.data); !it.mark && n > 0 {
				st.t = append(st.t, make([]byte, n)...) // padding is zero blocks, like trailers
			}
		}
	} else {
		st.t = in.Tape()
	}
	rs, err := scanTape(st.t)
	if err != nil {
		return nil, err
	}
	at := int64(0)
	for i, r := range rs {
		if b := r.block * blk; b > at {
			st.pieces = append(st.pieces, piece{st.t[at:b], -1})
		}
		st.pieces = append(st.pieces, piece{st.t[r.block*blk : r.end], i})
		at = r.end
		x := signed{r: r, content: st.t[r.data : r.data+r.size]}
		h := &tar.Header{PAXRecords: r.pax, Size: r.size}
		if err := encryption.DecryptHeader(h, cfg.Enc, st.ks.EncPriv); err != nil {
			return nil, err
		}
		x.e, x.s = h.PAXRecords["STFS.EmbeddedHeader"], h.PAXRecords["STFS.Signature"]
		if err := json.Unmarshal([]byte(x.e), &x.hdr); err != nil {
			return nil, err
		}
		st.recs = append(st.recs, x)
	}
	st.pieces = append(st.pieces, piece{st.t[at:], -1})
	a := st.read(st.medium(st.t), true)
	if a.indexErr != nil || a.queryErr != nil || len(a.index) != len(rs) || len(a.query) != len(rs) {
		return nil, fmt.Errorf("the unaltered tape of %d records: index accepts %d (%v), query %d (%v)", len(rs), len(a.index), a.indexErr, len(a.query), a.queryErr)
	}
	for i := range rs {
		// What is accepted is what the embedded header says.
		for which, k := range map[string]string{"index": a.index[i], "query": a.query[i]} {
			var h config.Header
			must(json.Unmarshal([]byte(k), &h))
			if d := st.recs[i].sameAs(&h, which == "index", cfg); d != "" {
				return nil, fmt.Errorf("record %d: %s accepts another header than the signed one: %s", i, which, d)
			}
		}
		st.index[a.index[i]], st.query[a.query[i]] = true, true
	}
	m := st.medium(st.t)
	for i := range rs {
		r, b := st.pos(i, m)
		k, data, dir, err := st.fetch(m, r, b)
		if err != nil && st.recs[i].hasContent() {
			return nil, fmt.Errorf("fetching record %d of the unaltered tape: %w", i, err)
		}
		if !st.query[k] {
			return nil, fmt.Errorf("fetching record %d of the unaltered tape reports another header", i)
		}
		if err == nil {
			st.contents[sigOf(k)] = fmt.Sprint(dir, contentKey(data))
		}
	}
	return st, nil
}

func (x signed) hasContent() bool {
	p := x.hdr.PAXRecords
	act := or(p["STFS.Action"], "CREATE")
	_, moved := p["STFS.ReplacesName"]
	return p["STFS.Signature"] != "" && !moved && (act == "CREATE" || act == "UPDATE" && p["STFS.ReplacesContent"] == "true")
}

// sameAs compares an accepted header with the signed one.
func (x signed) sameAs(h *config.Header, indexed bool, cfg Cfg) string {
	name, size := x.hdr.Name, x.hdr.Size
	if indexed {
		if u, has := x.hdr.PAXRecords["STFS.UncompressedSize"]; has {
			fmt.Sscan(u, &size)
			act := or(x.hdr.PAXRecords["STFS.Action"], "CREATE")
			if act == "CREATE" || act == "UPDATE" && x.hdr.PAXRecords["STFS.ReplacesContent"] == "true" {
				name = strings.TrimSuffix(name, cfg.suffix())
			}
		}
	}
	var pax map[string]string
	json.Unmarshal([]byte(h.Paxrecords), &pax)
	switch {
	case h.Name != name, h.Linkname != x.hdr.Linkname, h.Size != size, h.Mode != x.hdr.Mode, h.Typeflag != int64(x.hdr.Typeflag),
		h.UID != int64(x.hdr.Uid), h.Gid != int64(x.hdr.Gid), h.Uname != x.hdr.Uname, h.Gname != x.hdr.Gname,
		!h.Modtime.Equal(x.hdr.ModTime), !h.Accesstime.Equal(x.hdr.AccessTime), !h.Changetime.Equal(x.hdr.ChangeTime), h.Devmajor != x.hdr.Devmajor, h.Devminor != x.hdr.Devminor:
		return fmt.Sprintf("%+v, not %+v", h, x.hdr)
	}
	for k, v := range x.hdr.PAXRecords {
		if pax[k] != v {
			return "PAX record " + k
		}
	}
	return ""
}

// medium makes something readable of a tape's bytes. On the emulated drive every archive becomes a file.
func (st *signedTape) medium(t []byte) medium {
	if !st.vt {
		return medium{t: t}
	}
	v := newVtape(st.cfg.RS)
	n := st.cfg.RS * blk
	for len(t)%n != 0 {
		t = append(append([]byte{}, t...), 0)
	}
	v.items = append(v.items, vitem{mark: true})[:0]
	dirty := false
	for i := 0; i < len(t); i += n {
		b := t[i : i+n]
		v.items = append(v.items, vitem{data: b})
		dirty = true
		// An archive ends with the record in which its trailer is.
		if zeroBlock(b[n-2*blk:]) {
			v.items = append(v.items, vitem{mark: true})
			dirty = false
		}
	}
	if dirty {
		v.items = append(v.items, vitem{mark: true})
	}
	return medium{vt: v}
}

// pos is where record i of the unaltered tape is.
func (st *signedTape) pos(i int, m medium) (record, block int64) {
	rs := int64(st.cfg.RS)
	b := st.recs[i].r.block
	if !st.vt {
		return b / rs, b % rs
	}
	marks := int64(0)
	seen := int64(0)
	for _, it := range m.vt.items {
		if it.mark {
			marks++
			continue
		}
		if seen == b/rs {
			return seen + marks, b % rs
		}
		seen++
	}
	return 0, 0
}

// judge reads an altered tape in every way.
func (st *signedTape) judge(t []byte, deep bool) (what, d string) {
	m := st.medium(t)
	a := st.read(m, deep)
	for _, k := range a.index {
		if !st.index[k] {
			return "", "the indexer accepts a header which was not signed: " + k
		}
	}
	for _, k := range a.query {
		if !st.query[k] {
			return "", "query accepts a header which was not signed: " + k
		}
	}
	what = fmt.Sprint(len(a.index), a.indexErr != nil)
	check := func(record, block int64) string {
		k, b, dir, err := st.fetch(m, record, block)
		if k != "" && !st.query[k] {
			return fmt.Sprintf("fetching at %d/%d accepts a header which was not signed: %s", record, block, k)
		}
		if err == nil && st.contents[sigOf(k)] != fmt.Sprint(dir, contentKey(b)) {
			return fmt.Sprintf("fetching at %d/%d succeeds with %s, signed was %s", record, block, contentKey(b), st.contents[sigOf(k)])
		}
		what += fmt.Sprint(err == nil)
		return ""
	}
	done := map[[2]int64]bool{}
	for _, h := range a.rows {
		if deep || st.touches(t, h.Record, h.Block) {
			done[[2]int64{h.Record, h.Block}] = true
			if d := check(h.Record, h.Block); d != "" {
				return what, "of the accepted entry " + h.Name + ": " + d
			}
		}
	}
	if len(t) == len(st.t) {
		for i := range st.recs {
			r, b := st.pos(i, m)
			if !done[[2]int64{r, b}] && (deep || st.touches(t, r, b)) {
				if d := check(r, b); d != "" {
					return what, d
				}
			}
		}
	}
	return what, ""
}

// touches says whether the record at a position may differ from the one on the unaltered tape.
func (st *signedTape) touches(t []byte, record, block int64) bool {
	if st.vt || len(t) != len(st.t) {
		return true
	}
	at := (record*int64(st.cfg.RS) + block) * blk
	for _, x := range st.recs {
		if x.r.block*blk == at {
			return !bytes.Equal(t[at:x.r.end], st.t[at:x.r.end])
		}
	}
	return true
}

// judgeFS opens a filesystem over an altered tape without an index, with one of the unaltered tape, and with one of
// the records before the alteration, and reads everything.
func (st *signedTape) judgeFS(t []byte) (what, d string) {
	what, d = st.judgeFSWith(t, nil)
	if d == "" && len(t) > len(st.t) && bytes.HasPrefix(t, st.t) {
		if st.db == nil {
			st.db = indexOf(st.cfg, st.t)
		}
		var w string
		if w, d = st.judgeFSWith(t, st.db); d != "" {
			d = "with the index of the tape before: " + d
		}
		what += w
	}
	return
}

func (st *signedTape) judgeFSWith(t, db []byte) (what, d string) {
	legit := map[string]bool{}
	for k := range st.index {
		legit[k] = true
	}
	var bad string
	in, err := onTape(st.cfg, t, db, Opt{OnIndex: func(h *config.Header) {
		if k := hdrKey(h); !legit[k] && bad == "" {
			bad = "opening accepts a header which was not signed: " + k
		}
	}})
	if err != nil {
		return "", err.Error()
	}
	defer in.Destroy()
	_, err = in.FS.Initialize("/", os.ModePerm)
	what = fmt.Sprint("opened ", err == nil)
	if n := in.Tape(); !bytes.HasPrefix(n, t) {
		return what, "opening changed the tape"
	} else if err != nil && len(n) != len(t) {
		return what, "opening failed and appended to the tape"
	} else if len(n) != len(t) && bad != "" {
		bad = "" // a root has been added as there was none
	}
	if bad != "" {
		return what, bad
	}
	rows, rerr := in.MP.GetHeaders(context.Background())
	if rerr != nil {
		return what, rerr.Error()
	}
	for _, h := range rows {
		k, b, dir, err := st.fetch(medium{t: t}, h.Record, h.Block)
		if k != "" && !st.query[k] {
			return what, "fetching " + h.Name + " accepts a header which was not signed: " + k
		}
		if err == nil && st.contents[sigOf(k)] != fmt.Sprint(dir, contentKey(b)) {
			return what, fmt.Sprintf("fetching %s succeeds with %s, signed was %s", h.Name, contentKey(b), st.contents[sigOf(k)])
		}
		if h.Typeflag != int64(tar.TypeReg) {
			continue
		}
		want := st.contents[sigOf(k)]
		if b, err := readFile(in.FS, h.Name); err == nil && fmt.Sprint(false, contentKey(b)) != want && !(h.Size == 0 && len(b) == 0) {
			return what, fmt.Sprintf("reading %s succeeds with %s, signed was %s", h.Name, contentKey(b), want)
		}
		if got, _, err := restoreTo(in, h.Name); err == nil {
			for p, b := range got {
				if fmt.Sprint(false, contentKey(b)) != want {
					return what, fmt.Sprintf("restoring %s succeeds with %s, signed was %s", p, contentKey(b), want)
				}
			}
		}
	}
	return what, ""
}

// ---- alterations

// put writes a record with archive/tar, without a trailer.
func rawRecord(h *tar.Header, content []byte) []byte {
	var b bytes.Buffer
	w := tar.NewWriter(&b)
	hh := *h
	hh.Size = int64(len(content))
	if hh.PAXRecords != nil {
		p := map[string]string{}
		for k, v := range hh.PAXRecords {
			p[k] = v
		}
		hh.PAXRecords = p
	}
	if err := w.WriteHeader(&hh); err != nil {
		return nil
	}
	if _, err := w.Write(content); err != nil {
		return nil
	}
	w.Flush()
	return b.Bytes()
}

// forge makes a record of an embedded header and a signature, wrapped as someone who knows the public keys can.
func (st *signedTape) forge(pax map[string]string, content []byte, outer func(*tar.Header)) []byte {
	h := &tar.Header{Format: tar.FormatPAX, Size: int64(len(content)), PAXRecords: pax}
	if st.cfg.Enc != "" {
		must(encryption.EncryptHeader(h, st.cfg.Enc, st.ks.EncPub))
	}
	if outer != nil {
		outer(h)
	}
	return rawRecord(h, content)
}

func sp2(e, s string) map[string]string {
	return map[string]string{"STFS.EmbeddedHeader": e, "STFS.Signature": s}
}

// encode is a content as it gets onto the tape, with a signature by the given keys.
func (st *signedTape) encode(b []byte, ks *KeySet) (enc []byte, sig string) {
	var out bytes.Buffer
	e, err := encryption.Encrypt(&out, st.cfg.Enc, st.ks.EncPub)
	must(err)
	w, err := compression.Compress(e, st.cfg.Comp, st.cfg.Level, true, st.cfg.RS)
	must(err)
	r, sign, err := signature.Sign(bytes.NewReader(b), true, st.cfg.Sig, ks.SigPriv)
	must(err)
	_, err = io.Copy(w, r)
	must(err)
	must(w.Flush())
	must(w.Close())
	must(e.Close())
	sig, err = sign()
	must(err)
	return out.Bytes(), sig
}

type forgery struct {
	name string
	b    []byte
}

// forgeries are the records somebody without the signing key can make out of record i and the others.
func (st *signedTape) forgeries(i int) (out []forgery) {
	x := st.recs[i]
	add := func(name string, b []byte) {
		if b != nil {
			out = append(out, forgery{name, b})
		}
	}
	sign := func(e string, ks *KeySet) string {
		s, err := signature.SignString(e, true, st.cfg.Sig, ks.SigPriv)
		must(err)
		return s
	}
	js := func(h tar.Header) string { b, _ := json.Marshal(h); return string(b) }
	// Headers which are not signed, or not properly.
	plain := x.hdr
	plain.Format = tar.FormatPAX
	add("plain header", rawRecord(&plain, x.content))
	add("plain header of an unsigned writer", st.forge(x.hdr.PAXRecords, x.content, func(h *tar.Header) {
		if st.cfg.Enc == "" {
			p := h.PAXRecords
			*h = plain
			h.PAXRecords = p
		}
	}))
	if st.cfg.Enc != "" {
		h := plain
		must(encryption.EncryptHeader(&h, st.cfg.Enc, st.ks.EncPub))
		add("encrypted, unsigned header", rawRecord(&h, x.content))
	}
	add("no records at all", rawRecord(&tar.Header{Format: tar.FormatPAX, Name: "evil", Typeflag: tar.TypeReg}, x.content))
	for _, f := range []tar.Format{tar.FormatUSTAR, tar.FormatGNU, tar.FormatPAX} {
		for _, typ := range []byte{tar.TypeReg, tar.TypeDir, tar.TypeSymlink, tar.TypeLink, tar.TypeChar, tar.TypeBlock, tar.TypeFifo, tar.TypeCont, 0} {
			link := ""
			if typ == tar.TypeSymlink || typ == tar.TypeLink {
				link = "/d"
			}
			add(fmt.Sprintf("no records at all, %s, type %q", f, typ), rawRecord(&tar.Header{Format: f, Name: "evil", Typeflag: typ, Linkname: link, Mode: 0o644}, nil))
		}
	}
	add("no signature", st.forge(map[string]string{"STFS.EmbeddedHeader": x.e}, x.content, nil))
	add("no signature, a directory", st.forge(map[string]string{"STFS.EmbeddedHeader": x.e}, x.content, func(h *tar.Header) { h.Name, h.Typeflag = "/evil", tar.TypeDir }))
	add("no embedded header, a directory", st.forge(map[string]string{"STFS.Signature": x.s}, x.content, func(h *tar.Header) { h.Name, h.Typeflag = "/evil", tar.TypeDir }))
	add("other records only", st.forge(map[string]string{"STFS.Version": "1", "STFS.Action": "CREATE"}, x.content, func(h *tar.Header) { h.Name, h.Typeflag = "/evil", tar.TypeDir }))
	add("no embedded header", st.forge(map[string]string{"STFS.Signature": x.s}, x.content, nil))
	for n, s := range map[string]string{"garbage": "AAAA", "no base64": "!", "half a": x.s[:len(x.s)/2], "cut": x.s[:len(x.s)-4], "prefixed": "AAAA" + x.s, "repeated": x.s + x.s, "newline": "\n"} {
		add(n+" signature", st.forge(sp2(x.e, s), x.content, nil))
	}
	add("foreign signature", st.forge(sp2(x.e, sign(x.e, st.fk)), x.content, nil))
	for _, f := range []string{config.SignatureFormatMinisignKey, config.SignatureFormatPGPKey} {
		if f != st.cfg.Sig {
			_, priv := sigPair(f, "foreign")
			s, err := signature.SignString(x.e, true, f, priv)
			must(err)
			add("signature of another format", st.forge(sp2(x.e, s), x.content, nil))
		}
	}
	for j, y := range st.recs {
		if j != i {
			add(fmt.Sprintf("signature of record %d", j), st.forge(sp2(x.e, y.s), x.content, nil))
		}
		if y.hasContent() {
			add(fmt.Sprintf("signature of content %d", j), st.forge(sp2(x.e, y.hdr.PAXRecords["STFS.Signature"]), x.content, nil))
		}
	}
	// Altered headers with the original or a foreign signature.
	alt := func(name string, f func(h *tar.Header)) {
		h := x.hdr
		h.PAXRecords = map[string]string{}
		for k, v := range x.hdr.PAXRecords {
			h.PAXRecords[k] = v
		}
		f(&h)
		e := js(h)
		if e == x.e {
			return
		}
		add("altered "+name, st.forge(sp2(e, x.s), x.content, nil))
		add("altered "+name+", foreign signature", st.forge(sp2(e, sign(e, st.fk)), x.content, nil))
	}
	alt("name", func(h *tar.Header) { h.Name += "x" })
	alt("link", func(h *tar.Header) { h.Linkname = "/d" })
	alt("mode", func(h *tar.Header) { h.Mode ^= 0o111 })
	alt("owner", func(h *tar.Header) { h.Uid++ })
	alt("time", func(h *tar.Header) { h.ModTime = h.ModTime.Add(time.Hour) })
	alt("size", func(h *tar.Header) { h.Size++ })
	alt("no size", func(h *tar.Header) { h.Size = 0 })
	alt("type", func(h *tar.Header) {
		h.Typeflag = map[byte]byte{tar.TypeReg: tar.TypeSymlink, tar.TypeDir: tar.TypeReg, tar.TypeSymlink: tar.TypeReg}[h.Typeflag]
	})
	alt("action", func(h *tar.Header) { h.PAXRecords["STFS.Action"] = "DELETE" })
	alt("no action", func(h *tar.Header) { delete(h.PAXRecords, "STFS.Action") })
	alt("old name", func(h *tar.Header) { h.PAXRecords["STFS.ReplacesName"] = "/n" })
	alt("content's signature", func(h *tar.Header) { delete(h.PAXRecords, "STFS.Signature") })
	alt("uncompressed size", func(h *tar.Header) { h.PAXRecords["STFS.UncompressedSize"] = "1" })
	for n, e := range map[string]string{"space before": " " + x.e, "space after": x.e + " ", "second object": x.e + "{}", "duplicate key": strings.TrimSuffix(x.e, "}") + `,"Name":"/evil"}`} {
		add("altered, "+n, st.forge(sp2(e, x.s), x.content, nil))
	}
	// Outer headers which say something else than what is signed.
	out1 := func(name string, f func(h *tar.Header)) { add("outer "+name, st.forge(sp2(x.e, x.s), x.content, f)) }
	out1("name", func(h *tar.Header) { h.Name, h.Typeflag = "/evil", tar.TypeReg })
	out1("directory", func(h *tar.Header) { h.Name, h.Typeflag = "/evil/", tar.TypeDir })
	out1("symlink", func(h *tar.Header) { h.Name, h.Typeflag, h.Linkname = "/evil", tar.TypeSymlink, "/d" })
	out1("action", func(h *tar.Header) { h.PAXRecords["STFS.Action"] = "DELETE"; h.PAXRecords["STFS.Version"] = "2" })
	out1("uncompressed size", func(h *tar.Header) { h.PAXRecords["STFS.UncompressedSize"] = "7" })
	out1("content signature", func(h *tar.Header) { h.Mode, h.Uid = 0o4777, 77 })
	// The same with records beside the embedded header, in the clear and together with it.
	inner := func(name string, p map[string]string, f func(*tar.Header)) {
		pax := sp2(x.e, x.s)
		for k, v := range p {
			pax[k] = v
		}
		h := &tar.Header{Format: tar.FormatPAX, PAXRecords: pax}
		if f != nil {
			f(h)
		}
		if st.cfg.Enc != "" {
			must(encryption.EncryptHeader(h, st.cfg.Enc, st.ks.EncPub))
			add("beside the embedded header, encrypted: "+name, rawRecord(h, x.content))
			out1("record "+name, func(h *tar.Header) {
				for k, v := range p {
					h.PAXRecords[k] = v
				}
				if f != nil {
					f(h)
				}
			})
			return
		}
		add("beside the embedded header: "+name, rawRecord(h, x.content))
	}
	every := map[string]string{}
	for _, r := range [][]string{{"Action", "DELETE", "UPDATE", "CREATE"}, {"ReplacesName", "/n", "/evil", "/"}, {"ReplacesContent", "true", "false"}, {"UncompressedSize", "1", "0"}, {"Version", "1", "2"}} {
		for _, v := range r[1:] {
			inner("STFS."+r[0]+"="+v, map[string]string{"STFS." + r[0]: v}, nil)
		}
		every["STFS."+r[0]] = r[1]
	}
	inner("an update", map[string]string{"STFS.Action": "UPDATE", "STFS.ReplacesName": "/n", "STFS.ReplacesContent": "true", "STFS.Version": "1"}, nil)
	inner("everything", every, func(h *tar.Header) {
		h.Name, h.Typeflag, h.Mode, h.Uid, h.Gid, h.Uname, h.Gname, h.ModTime = "/evil", tar.TypeReg, 0o777, 7, 8, "u", "g", time.Unix(5, 0)
	})
	// Contents.
	keep := func(name string, b []byte) { add("content: "+name, st.forge(sp2(x.e, x.s), b, nil)) }
	keep("missing", nil)
	keep("zeros", make([]byte, len(x.content)))
	if len(x.content) > 1 {
		keep("cut", x.content[:len(x.content)-1])
		keep("half", x.content[:len(x.content)/2])
		keep("one byte only", x.content[:1])
	}
	keep("extended", append(append([]byte{}, x.content...), 'x'))
	keep("twice", append(append([]byte{}, x.content...), x.content...))
	for _, b := range [][]byte{{}, []byte("evil"), pat(1500, 99), pat(1500, 3)[:1499]} {
		enc, _ := st.encode(b, st.fk)
		keep("another of "+contentKey(b), enc)
	}
	for j, y := range st.recs {
		if j != i && len(y.content) > 0 {
			keep(fmt.Sprintf("that of record %d", j), y.content)
			keep(fmt.Sprintf("its own and that of record %d", j), append(append([]byte{}, x.content...), y.content...))
		}
	}
	// A complete record of another writer.
	enc, csig := st.encode([]byte("evil"), st.fk)
	h := x.hdr
	h.PAXRecords = map[string]string{"STFS.Version": "1", "STFS.Action": "CREATE", "STFS.UncompressedSize": "4", "STFS.Signature": csig}
	h.Name, h.Typeflag, h.Size = "/evil"+st.cfg.suffix(), tar.TypeReg, int64(len(enc))
	e := js(h)
	add("a foreign writer's record", st.forge(sp2(e, sign(e, st.fk)), enc, nil))
	// The foreign writer's content under a header of the legitimate one.
	keep("a foreign writer's", enc)
	sort.Slice(out, func(a, b int) bool { return out[a].name < out[b].name })
	return out
}

// build puts the pieces together; a nil replacement removes a record.
func (st *signedTape) build(f func(p piece) [][]byte) []byte {
	var out []byte
	for _, p := range st.pieces {
		for _, b := range f(p) {
			out = append(out, b...)
		}
	}
	for len(out)%blk != 0 {
		out = append(out, 0)
	}
	return out
}

// places are the tapes with a record in every place: instead of record i, after each piece, before everything.
func (st *signedTape) places(i int, b []byte, all bool) (out []lazy) {
	out = append(out, lazy{"instead of it", func() []byte {
		return st.build(func(p piece) [][]byte {
			if p.rec == i {
				return [][]byte{b}
			}
			return [][]byte{p.b}
		})
	}})
	for k := range st.pieces {
		if !all && k != len(st.pieces)-1 && st.pieces[k].rec != i {
			continue
		}
		k := k
		out = append(out, lazy{fmt.Sprintf("after piece %d", k), func() []byte {
			n := 0
			return st.build(func(p piece) [][]byte {
				n++
				if n-1 == k {
					return [][]byte{p.b, b}
				}
				return [][]byte{p.b}
			})
		}})
	}
	if all {
		out = append(out, lazy{"first", func() []byte { return append(append([]byte{}, b...), st.t...) }})
	}
	return out
}

type lazy struct {
	name string
	b    func() []byte
}

// splices are tapes out of the writer's own records in other orders.
func (st *signedTape) splices() (out []forgery) {
	n := len(st.recs)
	raw := func(i int) []byte { return st.t[st.recs[i].r.block*blk : st.recs[i].r.end] }
	for i := 0; i < n; i++ {
		i := i
		out = append(out, forgery{fmt.Sprintf("without record %d", i), st.build(func(p piece) [][]byte {
			if p.rec == i {
				return nil
			}
			return [][]byte{p.b}
		})})
		for j := 0; j < n; j++ {
			j := j
			if i == j {
				continue
			}
			out = append(out, forgery{fmt.Sprintf("record %d again after %d", i, j), st.build(func(p piece) [][]byte {
				if p.rec == j {
					return [][]byte{p.b, raw(i)}
				}
				return [][]byte{p.b}
			})})
			out = append(out, forgery{fmt.Sprintf("record %d instead of %d", i, j), st.build(func(p piece) [][]byte {
				if p.rec == j {
					return [][]byte{raw(i)}
				}
				return [][]byte{p.b}
			})})
			if i < j {
				out = append(out, forgery{fmt.Sprintf("records %d and %d swapped", i, j), st.build(func(p piece) [][]byte {
					if p.rec == i {
						return [][]byte{raw(j)}
					} else if p.rec == j {
						return [][]byte{raw(i)}
					}
					return [][]byte{p.b}
				})})
			}
		}
	}
	for k := range st.pieces {
		k := k
		m := 0
		out = append(out, forgery{fmt.Sprintf("cut after piece %d", k), st.build(func(p piece) [][]byte {
			m++
			if m-1 > k {
				return nil
			}
			return [][]byte{p.b}
		})})
	}
	return out
}

// sealed fixes the checksum of the header block at off.
func sealed(t []byte, off int64) []byte {
	h := t[off : off+blk]
	copy(h[148:156], "        ")
	s := 0
	for _, c := range h {
		s += int(c)
	}
	copy(h[148:156], fmt.Sprintf("%06o\x00 ", s))
	return t
}

// evilHeader is a header as a file's content.
var evilHeader = func() []byte {
	b, _ := json.Marshal(tar.Header{Typeflag: tar.TypeReg, Name: "/evil", Mode: 0o777, Format: tar.FormatPAX})
	return b
}()

// contentAsHeader signs a file whose content is a header and passes the content's signature off as the header's.
func (c *Check) contentAsHeader() {
	var cfgs []Cfg
	for _, sig := range []string{config.SignatureFormatMinisignKey, config.SignatureFormatPGPKey} {
		for _, enc := range []string{"", "age"} {
			cfgs = append(cfgs, Cfg{Sig: sig, Enc: enc}, Cfg{Sig: sig, Enc: enc, Comp: "gzip"})
		}
	}
	c.each("a content's signature for a header", fmt.Sprintf("%d configurations", len(cfgs)), int64(len(cfgs)), func(i int64) {
		st, err := newSignedTape(cfgs[i], true, false)
		must(err)
		_, sig := st.encode(evilHeader, st.ks) // as when the writer stores a file with that content
		t := append(append([]byte{}, st.t...), st.forge(sp2(string(evilHeader), sig), nil, nil)...)
		t = append(t, make([]byte, 1024)...)
		_, d := st.judge(t, true)
		c.add("transitions", 1)
		c.add("histories", 1)
		c.saw("states", st.cfg.String()+d)
		if d != "" {
			c.report(Violation{Key: "a content's signature for a header, " + st.cfg.Sig, Sub: "a content's signature for a header", Cfg: st.cfg.String(), Detail: d})
		}
	})
}

func init() {
	checks["C08"] = checkDef{level: "model_checking", quickS: 240, thorS: 800, run: runC08,
		rule: "tapes of a writer with signatures are altered: every bit or byte, every header-block byte with the checksum made right again, every forged record of a list x every record x every place, every removal, repetition, swap and cut of the writer's own records; whatever index, query, fetch, restore and reading accept has to be what was signed"}
}

func (c *Check) forged(name, what string, st *signedTape, n int64, f func(i int64) (string, []byte, bool)) {
	c.each(name+" "+st.cfg.keyPart()+fmt.Sprint(st.vt), what+fmt.Sprintf(" on a tape of %d records, %d bytes under %s, emulated tape=%v", len(st.recs), len(st.t), st.cfg, st.vt), n, func(i int64) {
		alt, t, deep := f(i)
		if t == nil {
			return
		}
		journal(name + " " + st.cfg.String() + " " + alt)
		var w, d string
		judge := func() string {
			return guardS(func() string { w, d = st.judge(t, deep); return d })
		}
		d1 := judge()
		if d1 == "" && deep && !st.vt {
			judge = func() string { return guardS(func() string { w, d = st.judgeFS(t); return d }) }
			d1 = judge()
			c.add("transitions", 1)
		}
		c.add("transitions", 1)
		c.add("histories", 1)
		c.saw("states", st.cfg.String()+w+alt)
		if d1 != "" && judge() != "" {
			c.report(Violation{Key: name + " " + st.cfg.keyPart() + alt, Sub: name, Cfg: st.cfg.String(), Ops: []string{alt}, Detail: d1})
		}
	})
}

func runC08(c *Check) {
	type base struct {
		cfg       Cfg
		short, vt bool
		sweep     string
	}
	mini, pgp := config.SignatureFormatMinisignKey, config.SignatureFormatPGPKey
	bases := []base{
		{Cfg{Sig: mini}, true, false, "bytes"},
		{Cfg{Sig: pgp}, true, false, "bytes"},
		{Cfg{Sig: pgp, Enc: "age", Comp: "gzip"}, true, false, "bytes"},
		{Cfg{Sig: mini, Enc: "pgp", Comp: "zstandard"}, true, false, ""},
		{Cfg{Sig: pgp, RS: 4}, true, true, "bytes"},
		{Cfg{Sig: mini, Comp: "gzip"}, false, false, ""},
		{Cfg{Sig: pgp, Comp: "lz4", RS: 3}, false, false, ""},
		{Cfg{Sig: mini, Enc: "age", Comp: "bzip2"}, false, false, ""},
	}
	if !c.quick() {
		for i := range bases {
			bases[i].sweep = "bits"
		}
		for _, comp := range config.KnownCompressionFormats {
			for _, enc := range []string{"", "age", "pgp"} {
				for _, sig := range []string{mini, pgp} {
					bases = append(bases, base{Cfg{Sig: sig, Enc: enc, Comp: comp}, false, false, ""})
				}
			}
		}
	}
	for _, b := range bases {
		st, err := newSignedTape(b.cfg, b.short, b.vt)
		if err != nil {
			c.report(Violation{Key: "unaltered tape " + b.cfg.keyPart(), Sub: "unaltered tape", Cfg: b.cfg.norm().String(), Detail: err.Error()})
			continue
		}
		n := int64(len(st.t))
		switch b.sweep {
		case "bits":
			c.forged("every bit flipped", "every bit", st, n*8, func(i int64) (string, []byte, bool) {
				t := append([]byte{}, st.t...)
				t[i/8] ^= 1 << (i % 8)
				return fmt.Sprintf("bit %d of byte %d", i%8, i/8), t, i%(8*64) == 0
			})
		case "bytes":
			c.forged("every byte inverted", "every byte", st, n, func(i int64) (string, []byte, bool) {
				t := append([]byte{}, st.t...)
				t[i] ^= 0xff
				return fmt.Sprintf("byte %d", i), t, i%blk == 0
			})
		}
		// Header blocks with a valid checksum.
		var hs []int64
		for _, x := range st.recs {
			hs = append(hs, x.r.block*blk)
			if x.r.data-blk != x.r.block*blk {
				hs = append(hs, x.r.data-blk)
			}
		}
		vals := []byte{'0', '1', '2', '5', 'x', 'g', 'L', 'K', 'S', 'V', 0x80}
		var pos []int64
		for p := int64(0); p < blk; p++ {
			if p < 148 || p >= 156 {
				pos = append(pos, p)
			}
		}
		if b.sweep != "" {
			var todo []int64
			for i := int64(0); i < int64(len(hs)*len(pos)*len(vals)); i++ {
				p, v := pos[i/int64(len(vals))%int64(len(pos))], vals[i%int64(len(vals))]
				if st.t[hs[i/int64(len(pos)*len(vals))]+p] != v && (!c.quick() || p == 156 || i%9 == 0) {
					todo = append(todo, i)
				}
			}
			c.forged("header bytes, checksum valid", fmt.Sprintf("%d of %d header blocks x %d bytes x %d values", len(todo), len(hs), len(pos), len(vals)), st, int64(len(todo)), func(k int64) (string, []byte, bool) {
				i := todo[k]
				h, p, v := hs[i/int64(len(pos)*len(vals))], pos[i/int64(len(vals))%int64(len(pos))], vals[i%int64(len(vals))]
				t := append([]byte{}, st.t...)
				t[h+p] = v
				return fmt.Sprintf("byte %d of the header at block %d is %q", p, h/blk, v), sealed(t, h), p == 156
			})
		}
		sp := st.splices()
		c.forged("own records elsewhere", fmt.Sprintf("%d removals, repetitions, replacements, swaps and cuts", len(sp)), st, int64(len(sp)), func(i int64) (string, []byte, bool) {
			return sp[i].name, sp[i].b, !c.quick() || i%4 == 0
		})
		var fg []lazy
		for i := range st.recs {
			for _, f := range st.forgeries(i) {
				for _, p := range st.places(i, f.b, !b.short || !c.quick()) {
					if c.quick() && !b.short && p.name != "instead of it" && h64(f.name+p.name)%17 != 0 {
						continue
					}
					fg = append(fg, lazy{fmt.Sprintf("record %d: %s, %s", i, f.name, p.name), p.b})
				}
			}
		}
		c.forged("forged records", fmt.Sprintf("%d forged records and places (quick: a fixed selection of the places)", len(fg)), st, int64(len(fg)), func(i int64) (string, []byte, bool) {
			return fg[i].name, fg[i].b(), !c.quick() || strings.HasSuffix(fg[i].name, "instead of it") && (b.short || i%3 == 0) || strings.HasSuffix(fg[i].name, fmt.Sprint(" ", len(st.pieces)-1)) && i%4 == 0
		})
	}
	c.foreignTapes()
	c.contentAsHeader()
	for _, format := range []string{mini, pgp} {
		c.signaturesAlone(format)
	}
}

// sigWays are the ways a signature can be made and verified without a tape.
var sigWays = []struct {
	name         string
	sign, verify func(format string, b []byte, ks *KeySet, sig string) (string, error)
}{
	{"string", func(format string, b []byte, ks *KeySet, _ string) (string, error) {
		return signature.SignString(string(b), true, format, ks.SigPriv)
	}, func(format string, b []byte, ks *KeySet, sig string) (string, error) {
		return "", signature.VerifyString(string(b), true, format, ks.SigPub, sig)
	}},
	{"stream", func(format string, b []byte, ks *KeySet, _ string) (string, error) {
		r, sign, err := signature.Sign(bytes.NewReader(b), true, format, ks.SigPriv)
		if err != nil {
			return "", err
		}
		if _, err := io.Copy(io.Discard, r); err != nil {
			return "", err
		}
		return sign()
	}, func(format string, b []byte, ks *KeySet, sig string) (string, error) {
		_, err := verifyAll(format, bytes.NewReader(b), 0, ks.SigPub, sig)
		return "", err
	}},
	{"header", func(format string, b []byte, ks *KeySet, _ string) (string, error) {
		return signature.SignString(string(b), true, format, ks.SigPriv)
	}, func(format string, b []byte, ks *KeySet, sig string) (string, error) {
		h := &tar.Header{Name: "outer", Format: tar.FormatPAX, PAXRecords: map[string]string{"STFS.EmbeddedHeader": string(b), "STFS.Signature": sig}}
		if err := signature.VerifyHeader(h, true, format, ks.SigPub); err != nil {
			return "", err
		}
		return h.Name, nil
	}},
}

// signaturesAlone alters signatures and what they are of, and verifies them without a tape: what isn't a signature
// is rejected, and no alteration makes a signature one of other data. An alteration which leaves a signature one of
// the same data (comments, line breaks, bits nothing reads) is allowed.
func (c *Check) signaturesAlone(format string) {
	cfg := Cfg{Sig: format}.norm()
	// The keys with the longest signatures, as every process makes its own, and has to find as many cases.
	var ks *KeySet
	longest := 0
	for i := 0; i < 20; i++ {
		k := keysTagged(cfg, fmt.Sprint("alone", i))
		s, err := signature.SignString("content", true, format, k.SigPriv)
		if err == nil && len(s) > longest {
			ks, longest = k, len(s)
		}
	}
	if ks == nil {
		c.report(Violation{Key: "signing " + format, Sub: "signatures alone", Detail: "signing fails with every key"})
		return
	}
	foreign := keysTagged(cfg, "foreign")
	other := config.SignatureFormatMinisignKey
	if format == other {
		other = config.SignatureFormatPGPKey
	}
	oks := keysFor(Cfg{Sig: other})
	hdr, err := json.Marshal(tar.Header{Name: "/f", Size: 5, Mode: 0o644, Typeflag: tar.TypeReg, Format: tar.FormatPAX})
	if err != nil {
		panic(err)
	}
	b64 := base64.StdEncoding
	type sigCase struct {
		way   int
		data  []byte
		alt   string
		sig   string
		wrong bool // not a signature of the data by the key
	}
	var cases []sigCase
	for w, way := range sigWays {
		for _, data := range [][]byte{hdr, {}, []byte("content\n"), pat(5000, 1)} {
			if way.name == "header" && !bytes.Equal(data, hdr) {
				continue
			}
			// The longest of some, see above.
			sig := ""
			for i := 0; i < 20; i++ {
				s, err := way.sign(format, data, ks, "")
				if err != nil {
					c.report(Violation{Key: "signing " + format, Sub: "signatures alone", Detail: err.Error()})
					return
				}
				if len(s) > len(sig) {
					sig = s
				}
			}
			add := func(alt, s string, wrong bool) {
				// The last line's end isn't part of a signature.
				if d, err := b64.DecodeString(s); err == nil {
					if o, err := b64.DecodeString(sig); err == nil && bytes.Equal(bytes.TrimSpace(d), bytes.TrimSpace(o)) {
						wrong = false
					}
				}
				cases = append(cases, sigCase{w, data, alt, s, wrong})
			}
			add("unaltered", sig, false)
			raw, err := b64.DecodeString(sig)
			if err != nil {
				// Then at least as text.
				raw = nil
			}
			for _, s := range []string{"", " ", "\n", "=", "====", "!", "AAAA", "null", "true", "none", format, "\x00", b64.EncodeToString([]byte("null")), b64.EncodeToString(data), string(data), sig + sig, "!" + sig, sig + "!", "\x00" + sig, string(raw), b64.EncodeToString([]byte(sig)),
				b64.EncodeToString(make([]byte, len(raw))), b64.EncodeToString(bytes.Repeat([]byte{0xff}, len(raw)))} {
				if s != sig && (s != sig+sig || format == config.SignatureFormatMinisignKey) {
					add(fmt.Sprintf("replaced by %q", crop(s, 40)), s, true)
				}
			}
			if s, err := way.sign(format, data, foreign, ""); err == nil {
				add("of another key", s, true)
			}
			if s, err := way.sign(other, data, oks, ""); err == nil {
				add("of the other format", s, true)
			}
			for _, o := range othersOf(data) {
				if s, err := way.sign(format, o, ks, ""); err == nil {
					add("of "+contentKey(o), s, true)
				}
			}
			for k := range sig {
				add(fmt.Sprintf("cut at %d", k), sig[:k], true)
				add(fmt.Sprintf("character %d removed", k), sig[:k]+sig[k+1:], false)
				for _, x := range "A/=!\n" {
					add(fmt.Sprintf("character %d is %q", k, x), sig[:k]+string(x)+sig[k+1:], x == '!')
				}
			}
			for k := range raw {
				if k > 0 {
					add(fmt.Sprintf("decoded, cut at %d", k), b64.EncodeToString(raw[:k]), k < len(raw)-1)
				}
				vals := []byte{raw[k] ^ 0xff}
				for b := 0; b < 8; b++ {
					vals = append(vals, raw[k]^1<<b)
				}
				for v := 0; v < 256; v++ {
					if !c.quick() || v < 13 {
						vals = append(vals, byte(v))
					}
				}
				for _, v := range vals {
					x := append([]byte{}, raw...)
					x[k] = v
					add(fmt.Sprintf("decoded, byte %d is %d", k, v), b64.EncodeToString(x), false)
				}
			}
		}
	}
	c.each("signatures alone: "+format, fmt.Sprintf("%d altered signatures of strings, streams and headers, verified with the signed data and with altered data", len(cases)), int64(len(cases)), func(i int64) {
		x := cases[i]
		way := sigWays[x.way]
		run := func() string {
			c.add("transitions", 1)
			_, err := way.verify(format, x.data, ks, x.sig)
			if x.alt == "unaltered" && err != nil {
				return "the unaltered signature isn't accepted: " + err.Error()
			}
			if err == nil && x.wrong {
				return fmt.Sprintf("accepted with the signed data (%s)", contentKey(x.data))
			}
			for _, o := range othersOf(x.data) {
				c.add("transitions", 1)
				if _, err := way.verify(format, o, ks, x.sig); err == nil && (!strings.HasPrefix(x.alt, "of ") || x.alt == "of another key" || x.alt == "of the other format") {
					return fmt.Sprintf("accepted with other data (%s instead of %s)", contentKey(o), contentKey(x.data))
				}
			}
			if _, err := way.verify(format, x.data, foreign, x.sig); err == nil && x.alt != "of another key" {
				return "accepted as a signature by another key"
			}
			return ""
		}
		c.add("histories", 1)
		c.saw("states", format+way.name+x.alt)
		if d := guardS(run); d != "" {
			c.report(Violation{Key: fmt.Sprintf("signature alone %s %s %s", format, way.name, x.alt), Sub: "signatures alone", Cfg: cfg.String(), Ops: []string{fmt.Sprintf("sign %s (%s)", contentKey(x.data), way.name), "signature " + x.alt, "verify"}, Detail: d})
		}
	})
	// Headers without the records, and with others.
	none := []*tar.Header{{Name: "a"}, {Name: "a", PAXRecords: map[string]string{}}, {Name: "a", PAXRecords: map[string]string{"STFS.Version": "1"}},
		{Name: "a", PAXRecords: map[string]string{"STFS.EmbeddedHeader": string(hdr)}}, {Name: "a", PAXRecords: map[string]string{"STFS.Signature": ""}},
		{Name: "a", PAXRecords: map[string]string{"STFS.EmbeddedHeader": "", "STFS.Signature": ""}}}
	for typ := 0; typ < 128; typ++ {
		none = append(none, &tar.Header{Name: "a", Typeflag: byte(typ)}, &tar.Header{Name: "a", Typeflag: byte(typ), Size: 5, Format: tar.FormatPAX, PAXRecords: map[string]string{"STFS.EmbeddedHeader": string(hdr), "STFS.Signature": ""}})
	}
	for i, h := range none {
		d := guardS(func() string {
			if err := signature.VerifyHeader(h, true, format, ks.SigPub); err == nil {
				return "accepted"
			}
			return ""
		})
		c.add("transitions", 1)
		if d != "" {
			c.report(Violation{Key: fmt.Sprintf("header without signature %d %s", i, format), Sub: "signatures alone", Cfg: cfg.String(), Detail: d})
		}
	}
}

func crop(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

// foreignTapes are whole tapes of somebody else: another key, no signatures, another format.
func (c *Check) foreignTapes() {
	mini, pgp := config.SignatureFormatMinisignKey, config.SignatureFormatPGPKey
	type pair struct {
		read, write Cfg
		keys        string
	}
	var ps []pair
	for _, enc := range []string{"", "age", "pgp"} {
		for _, comp := range []string{"", "gzip"} {
			for _, sig := range []string{mini, pgp} {
				r := Cfg{Sig: sig, Enc: enc, Comp: comp}
				for _, w := range []string{"", mini, pgp} {
					tag := "a"
					if w == sig {
						tag = "foreign"
					}
					ps = append(ps, pair{r, Cfg{Sig: w, Enc: enc, Comp: comp}, tag})
				}
			}
		}
	}
	c.each("tapes of others", fmt.Sprintf("%d pairs of reader and writer", len(ps)), int64(len(ps)), func(i int64) {
		p := ps[i]
		run := func() string {
			ks := keysFor(p.read)
			w := keysTagged(p.write, p.keys)
			w.EncPub, w.EncPriv = ks.EncPub, ks.EncPriv
			in, err := freshInst(p.write, ":memory:", Opt{Keys: w})
			if err != nil {
				return err.Error()
			}
			defer in.Destroy()
			for _, o := range signedHist(false) {
				if out := o.Do(in); out.Class != "ok" {
					return o.Name + ": " + out.Class
				}
			}
			t := in.Tape()
			st := &signedTape{cfg: p.read.norm(), ks: ks, t: nil}
			if _, d := st.judge(t, true); d != "" {
				return d
			}
			rs, err := scanTape(t)
			if err != nil {
				return err.Error()
			}
			for _, r := range rs {
				if k, b, dir, err := st.fetch(medium{t: t}, r.block/int64(st.cfg.RS), r.block%int64(st.cfg.RS)); err == nil || k != "" || dir || len(b) > 0 {
					return fmt.Sprintf("fetching the foreign record at block %d: %v, header %q, %d bytes", r.block, err, k, len(b))
				}
			}
			_, d := st.judgeFS(t)
			if d != "" {
				return d
			}
			// With the writer's index, reading has to fail.
			bad, err := openInst(p.read, in.Drive, ":memory:", Opt{Keys: ks, WrapMeta: func(config.MetadataPersister) config.MetadataPersister { return in.Meta }})
			if err != nil {
				return err.Error()
			}
			defer bad.Close()
			for _, f := range []string{"/m/f", "/n", "/x"} {
				if b, err := readFile(bad.FS, f); err == nil {
					return fmt.Sprintf("reading the foreign %s succeeds with %s", f, contentKey(b))
				}
				if got, _, err := restoreTo(bad, f); err == nil {
					return fmt.Sprintf("restoring the foreign %s succeeds with %d files", f, len(got))
				}
			}
			return ""
		}
		c.add("transitions", 1)
		c.add("histories", 1)
		c.saw("states", fmt.Sprint(p))
		if d := guardS(run); d != "" {
			c.report(Violation{Key: fmt.Sprint("tapes of others ", p), Sub: "tapes of others", Cfg: p.read.norm().String(), Ops: []string{"written with " + p.write.norm().String()}, Detail: d})
		}
	})
}
