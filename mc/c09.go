package main

import (
	"bytes"
	"context"
	"encoding/base64"
	"encoding/hex"
	"errors"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"strings"
	"time"

	"filippo.io/age"
	"github.com/ProtonMail/go-crypto/openpgp"

	"github.com/pojntfx/stfs/pkg/config"
	"github.com/pojntfx/stfs/pkg/recovery"
)

// ---- what must not be visible

var (
	secDir, secFile, secName, secSub = "/dirSecretQ7x", "/fileSecretW8y", "/renamedSecretE9z", "/dirSecretQ7x/subSecretR1k"
	secContent                       = []byte("contentSecretT2m contentSecretT2m contentSecretT2m")
	secTime                          = time.Unix(1387654321, 123456789)
	secUID, secGID                   = 7654321, 6543217
	secUname, secGname               = "userSecretY3n", "groupSecretU4p"
)

var secrets = func() (out [][]byte) {
	for _, s := range []string{
		"dirSecretQ7x", "fileSecretW8y", "renamedSecretE9z", "subSecretR1k", "contentSecretT2m", "userSecretY3n", "groupSecretU4p", "otherSecretI5q", "linkSecretO6r",
		"1387654321", fmt.Sprintf("%o", 1387654321), "2013-12-21T19:32:01", "7654321", fmt.Sprintf("%o", secUID), "6543217", fmt.Sprintf("%o", secGID),
		"STFS.Action", "STFS.Version", "STFS.Replaces", "STFS.Uncompressed", "STFS.Signature", "\"CREATE\"", "\"DELETE\"", "\"UPDATE\"", "=CREATE\n", "=DELETE\n", "=UPDATE\n", "trusted comment", "\"Typeflag\"", "PAXRecords",
	} {
		out = append(out, []byte(s))
	}
	return
}()

// visible looks for a secret in the bytes as they are, in hexadecimal and in base64, and so on inside.
func visible(b []byte, depth int) string {
	low := bytes.ToLower(b)
	for _, s := range secrets {
		if bytes.Contains(b, s) {
			return fmt.Sprintf("%q is visible", s)
		}
		if bytes.Contains(low, []byte(hex.EncodeToString(s))) {
			return fmt.Sprintf("%q is visible in hexadecimal", s)
		}
	}
	if depth == 0 {
		return ""
	}
	isB64 := func(c byte) bool {
		return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '+' || c == '/' || c == '-' || c == '_'
	}
	for i := 0; i < len(b); {
		if !isB64(b[i]) {
			i++
			continue
		}
		j := i
		for j < len(b) && isB64(b[j]) {
			j++
		}
		if j-i >= 16 {
			run := strings.NewReplacer("-", "+", "_", "/").Replace(string(b[i:j]))
			for k := 0; k < 4; k++ {
				r := run[k:]
				if len(r)%4 == 1 {
					r = r[:len(r)-1]
				}
				if d, err := base64.RawStdEncoding.DecodeString(r); err == nil {
					if v := visible(d, depth-1); v != "" {
						return v + " in base64"
					}
				}
			}
		}
		i = j
	}
	return ""
}

// ---- complete accounting of a tape's bytes

// sealedBy says what is wrong with a ciphertext: every byte of it has to belong to a message to the one recipient.
func sealedBy(b []byte, enc string, ks *KeySet) string {
	switch enc {
	case config.EncryptionFormatAgeKey:
		i := bytes.Index(b, []byte("\n--- "))
		if !bytes.HasPrefix(b, []byte("age-encryption.org/v1\n-> X25519 ")) || i < 0 || bytes.Count(b[:i], []byte("\n-> ")) != 1 {
			return "no age message to one recipient"
		}
		j := bytes.IndexByte(b[i+1:], '\n')
		if j < 0 {
			return "no age message"
		}
		r, err := age.Decrypt(bytes.NewReader(b), ks.EncPriv.(*age.X25519Identity))
		if err != nil {
			return err.Error()
		}
		p, err := io.ReadAll(r)
		if err != nil {
			return err.Error()
		}
		chunks := (len(p) + 64*1024 - 1) / (64 * 1024)
		if chunks == 0 {
			chunks = 1
		}
		if want := i + 1 + j + 1 + 16 + len(p) + 16*chunks; len(b) != want {
			return fmt.Sprintf("%d bytes in place of an age message of %d", len(b), want)
		}
	case config.EncryptionFormatPGPKey:
		// One session key for the recipient, one encrypted packet.
		tags := ""
		for at := 0; at < len(b); {
			h := b[at]
			if h&0xc0 != 0xc0 {
				return fmt.Sprintf("no packet at byte %d of a PGP message", at)
			}
			tags += fmt.Sprint(h&0x3f, " ")
			at++
			for part := true; part; {
				if at >= len(b) {
					return "a PGP packet ends early"
				}
				l := b[at]
				n := 0
				part = false
				switch {
				case l < 192:
					n = int(l)
					at++
				case l < 224:
					if at+1 >= len(b) {
						return "a PGP packet ends early"
					}
					n = (int(l)-192)<<8 + int(b[at+1]) + 192
					at += 2
				case l == 255:
					if at+4 >= len(b) {
						return "a PGP packet ends early"
					}
					n = int(b[at+1])<<24 | int(b[at+2])<<16 | int(b[at+3])<<8 | int(b[at+4])
					at += 5
				default:
					n = 1 << (l & 0x1f)
					at++
					part = true
				}
				at += n
			}
			if at > len(b) {
				return "a PGP packet ends early"
			}
		}
		if tags != "1 18 " && tags != "1 20 " {
			return "a PGP message of packets " + tags
		}
		m, err := openpgp.ReadMessage(bytes.NewReader(b), ks.EncPriv.(openpgp.EntityList), nil, nil)
		if err != nil {
			return err.Error()
		}
		if _, err := io.Copy(io.Discard, m.UnverifiedBody); err != nil {
			return err.Error()
		}
	}
	return ""
}

// wrapper is the tape's bytes without what varies with sizes and without ciphertexts, or what is wrong.
func wrapper(t []byte, cfg Cfg, ks *KeySet, from int64) (map[string]bool, string) {
	rs, err := scanTape(t)
	if err != nil {
		return nil, err.Error()
	}
	out := map[string]bool{}
	at := int64(0)
	strip := func(h []byte) string {
		b := append([]byte{}, h...)
		for i := 124; i < 136; i++ { // size
			b[i] = 0
		}
		for i := 148; i < 156; i++ { // checksum
			b[i] = 0
		}
		return string(b)
	}
	for _, r := range rs {
		start := r.block * blk
		if !zeroBlock(t[at:start]) {
			return nil, fmt.Sprintf("something before block %d", r.block)
		}
		at = r.end
		if start < from {
			continue
		}
		if !zeroBlock(t[r.data+r.size : r.end]) {
			return nil, fmt.Sprintf("padding of the record at block %d", r.block)
		}
		w := ""
		hs := t[start : r.data-blk]
		if len(hs) > 0 { // the extended header and its content
			w = strip(hs[:blk])
			n, err := tarNum(hs[124:136])
			if err != nil || int64(len(hs)) != blk+(n+blk-1)/blk*blk || !zeroBlock(hs[blk+n:]) {
				return nil, fmt.Sprintf("extended header at block %d", r.block)
			}
		}
		w += strip(t[r.data-blk : r.data])
		for k, v := range r.pax {
			if k == "size" {
				continue
			}
			w += " " + k
			b, err := base64.StdEncoding.DecodeString(v)
			if err != nil {
				return nil, fmt.Sprintf("extended header %s at block %d is no ciphertext: %v", k, r.block, err)
			}
			if d := sealedBy(b, cfg.Enc, ks); d != "" {
				return nil, fmt.Sprintf("extended header %s at block %d: %s", k, r.block, d)
			}
		}
		out[w] = true
		if r.size > 0 {
			if d := sealedBy(t[r.data:r.data+r.size], cfg.Enc, ks); d != "" {
				return nil, fmt.Sprintf("content at block %d: %s", r.block, d)
			}
		}
	}
	if !zeroBlock(t[at:]) {
		return nil, "something after the last record"
	}
	return out, ""
}

// sealedOracle accounts for every byte which a call appended.
type sealedOracle struct {
	c        *Check
	wrap     map[string]bool
	from     int64
	last     string
	lastSeen int
}

func newSealedOracle(c *Check) func(*Inst) Oracle {
	return func(in *Inst) Oracle {
		w, d := wrapper(in.anyTape(), in.Cfg, keysFor(in.Cfg), 0)
		if d != "" || len(w) != 1 {
			w = nil
		}
		return &sealedOracle{c: c, wrap: w}
	}
}

func (o *sealedOracle) State() string { return o.last }

// anyTape is what is on the drive, without file marks.
func (in *Inst) anyTape() []byte {
	if in.VT == nil {
		return in.Tape()
	}
	var t []byte
	for _, it := range in.VT.items {
		t = append(t, it.data...)
	}
	return t
}

func (o *sealedOracle) Step(in *Inst, op Op, out Out, check bool) string {
	t := in.anyTape()
	if !check {
		o.from = int64(len(t))
		return ""
	}
	o.c.add("bytes accounted for", int64(len(t))-o.from)
	if d := visible(t[o.from:], 3); d != "" {
		return "after " + op.Name + ": " + d
	}
	if o.wrap == nil {
		_, d := wrapper(t, in.Cfg, keysFor(in.Cfg), 0)
		return "the root's record: " + or(d, "it has no fixed wrapper")
	}
	w, d := wrapper(t, in.Cfg, keysFor(in.Cfg), o.from)
	if d != "" {
		return "after " + op.Name + ": " + d
	}
	for x := range w {
		if !o.wrap[x] {
			return fmt.Sprintf("after %s: a record's wrapper differs from the root's: %q", op.Name, strings.ReplaceAll(x, "\x00", ""))
		}
	}
	o.last = fmt.Sprint(op.Name, out.Class, len(t), o.last)
	o.from = int64(len(t))
	return ""
}

func secretOps() []Op {
	m := func(p string, b []byte) Member {
		return Member{Path: p, Data: b, Time: secTime, Uname: secUname, Gname: secGname, UID: secUID, GID: secGID}
	}
	times := func(p string) Op {
		return Op{"chtimes " + p, func(in *Inst) Out { return res("chtimes", in.FS.Chtimes(p, secTime, secTime)) }, modAny, []string{p}, false}
	}
	return []Op{
		opMkdir(secDir), opMkdirAll("/otherSecretI5q/subSecretR1k"), opPut(secFile, secContent), opPut(secSub, bytes.Repeat(secContent, 50)), opPut(secFile, bytes.Repeat(secContent, 3000)), opCreate(secFile), opOpen(secFile, os.O_WRONLY|os.O_APPEND, secContent), opOpen(secFile, os.O_RDWR|os.O_TRUNC, nil),
		opRename(secFile, secName), opRename(secDir, secName), opRemove(secFile), opRemoveAll(secDir), opRemove("/otherSecretI5q"),
		opChmod(secFile, 0o601), opChown(secFile, secUID, secGID), times(secDir), times(secFile), opSymlink(secFile, "/linkSecretO6r"), opSymlink("/otherSecretI5q", "/linkSecretO6r"),
		opArchive(m(secFile, secContent), Member{Path: "/otherSecretI5q", Dir: true, Time: secTime, Uname: secUname}, m("/otherSecretI5q/subSecretR1k", nil)),
		opUpdate(true, m(secFile, secContent)), opUpdate(false, m(secFile, secContent)), opDelete(secDir), opMove(secFile, secName),
	}
}

var secretSetup = []Op{opMkdir(secDir), opPut(secFile, secContent)}

func encCfgs(quick bool) (out []Cfg) {
	for _, enc := range []string{config.EncryptionFormatAgeKey, config.EncryptionFormatPGPKey} {
		for _, comp := range config.KnownCompressionFormats {
			for _, sig := range config.KnownSignatureFormats {
				if quick && comp != "" && comp != "gzip" && sig == "minisign" {
					continue
				}
				out = append(out, Cfg{Enc: enc, Comp: comp, Sig: sig})
			}
		}
	}
	return
}

// ---- other keys

// otherKeys reads a tape with every private key but the right one.
func (c *Check) otherKeys(cfgs []Cfg) {
	cfg0 := func(i int64) Cfg { return cfgs[i].norm() }
	c.each("other private keys", fmt.Sprintf("%d configurations x another key, a key of the other format, the right public key, no key", len(cfgs)), int64(len(cfgs)), func(i int64) {
		cfg := cfg0(i)
		run := func() string {
			ks := keysFor(cfg)
			in, err := freshInst(cfg, ":memory:", Opt{})
			if err != nil {
				return err.Error()
			}
			defer in.Destroy()
			for _, o := range append(append([]Op{}, secretSetup...), opPut(secSub, bytes.Repeat(secContent, 50)), opCreate("/empty"), opPut("/emptied", nil), opMkdir("/emptydir"), opSymlink(secFile, "/linkSecretO6r"), opChmod(secFile, 0o611), opRename(secSub, secName)) {
				if out := o.Do(in); out.Class != "ok" {
					return o.Name + ": " + out.Class
				}
			}
			t := in.Tape()
			rs, err := scanTape(t)
			if err != nil {
				return err.Error()
			}
			rows, err := in.MP.GetHeaders(context.Background())
			if err != nil {
				return err.Error()
			}
			_, foreign := encPair(cfg.Enc, "foreign")
			other := map[string]string{"age": "pgp", "pgp": "age"}[cfg.Enc]
			_, priv := encPair(other, "a")
			for what, id := range map[string]interface{}{"another key": foreign, "a key of the other format": priv, "the public key": pubOnly(ks.EncPub), "no key": nil} {
				bad := *ks
				bad.EncPriv = id
				c.add("transitions", 1)
				// Indexing.
				ix, err := onTape(cfg, t, nil, Opt{Keys: &bad})
				if err != nil {
					return err.Error()
				}
				err = indexTape(ix, &bad, true, 0, 0)
				hs, _ := ix.MP.GetHeaders(context.Background())
				ix.Destroy()
				if err == nil || len(hs) > 0 {
					return fmt.Sprintf("indexing with %s: %v, %d entries", what, err, len(hs))
				}
				n := 0
				_, err = recovery.Query(config.DriveReaderConfig{Drive: memDrive{bytes.NewReader(t)}, DriveIsRegular: true}, nil, cfg.pipes(), config.CryptoConfig{Recipient: ks.SigPub, Identity: id}, 0, 0, func(*config.Header) { n++ })
				if err == nil || n > 0 {
					return fmt.Sprintf("querying with %s: %v, %d entries", what, err, n)
				}
				// Opening.
				op, err := onTape(cfg, t, nil, Opt{Keys: &bad})
				if err != nil {
					return err.Error()
				}
				_, err = op.FS.Initialize("/", os.ModePerm)
				hs, _ = op.MP.GetHeaders(context.Background())
				changed := !bytes.Equal(op.Tape(), t)
				op.Destroy()
				if err == nil || len(hs) > 0 || changed {
					return fmt.Sprintf("opening with %s: %v, %d entries, changes the tape=%v", what, err, len(hs), changed)
				}
				// Fetching.
				for _, r := range rs {
					if b, dir, err := fetchAt(cfg, &bad, in.Drive, r.block/int64(cfg.RS), r.block%int64(cfg.RS)); (err == nil && (dir || b != nil)) || len(b) > 0 || err == nil {
						return fmt.Sprintf("fetching the record at block %d with %s: %v, %d bytes, directory=%v", r.block, what, err, len(b), dir)
					}
				}
				// Reading and restoring with the right index.
				wr, err := openInst(cfg, in.Drive, ":memory:", Opt{Keys: &bad, WrapMeta: func(config.MetadataPersister) config.MetadataPersister { return in.Meta }})
				if err != nil {
					return err.Error()
				}
				for _, h := range rows {
					got, dirs, err := restoreTo(wr, h.Name)
					if err == nil || len(dirs) > 0 {
						return fmt.Sprintf("restoring %s with %s: %v, %d files, %d directories", h.Name, what, err, len(got), len(dirs))
					}
					for _, b := range got {
						if len(b) > 0 {
							return fmt.Sprintf("restoring %s with %s returns %d bytes", h.Name, what, len(b))
						}
					}
					if h.Typeflag == '0' {
						if b, err := readFile(wr.FS, h.Name); err == nil || len(b) > 0 {
							return fmt.Sprintf("reading %s with %s: %v, %d bytes", h.Name, what, err, len(b))
						}
					}
				}
				wr.Close()
			}
			return ""
		}
		c.add("histories", 1)
		c.saw("states", cfg.String())
		if d := guardS(run); d != "" && guardS(run) != "" {
			c.report(Violation{Key: "other private keys " + cfg.String(), Sub: "other private keys", Cfg: cfg.String(), Detail: d})
		}
	})
}

// pubOnly is what one gets who takes the public key for the private one.
func pubOnly(pub interface{}) interface{} {
	if el, isPGP := pub.(openpgp.EntityList); isPGP {
		var b bytes.Buffer
		must(el[0].Serialize(&b))
		out, err := openpgp.ReadKeyRing(&b)
		must(err)
		return out
	}
	return pub
}

// ---- calls which fail

// sealedFaults lets every event of every call fail and searches what is on the tape then.
func (c *Check) sealedFaults(cfgs []Cfg, ops []Op) {
	c.each("calls which fail", fmt.Sprintf("%d calls under %d configurations, every event failing", len(ops), len(cfgs)), int64(len(cfgs)*len(ops)), func(i int64) {
		cfg, op := cfgs[i/int64(len(ops))].norm(), ops[i%int64(len(ops))]
		for k, n := 0, 0; k <= n; k++ {
			for _, how := range []string{"before", "after"} {
				f := &faults{}
				if k > 0 {
					f.at = map[int]string{k: how}
				} else if how == "after" {
					continue
				}
				in, err := freshInst(cfg, ":memory:", f.opt())
				if err != nil {
					c.report(Violation{Key: "initialize", Sub: "calls which fail", Cfg: cfg.String(), Detail: err.Error()})
					return
				}
				for _, o := range secretSetup {
					o.Do(in)
				}
				f.set(true)
				out := guarded(func() Out { return op.Do(in) })
				f.set(false)
				if n < f.n && k == 0 {
					n = f.n
				}
				c.add("transitions", 1)
				c.add("histories", 1)
				c.saw("states", cfg.String()+op.Name+f.String()+out.Class)
				if out.Step != "hang" {
					if d := visible(in.Tape(), 3); d != "" {
						c.report(Violation{Key: "calls which fail " + cfg.keyPart() + op.Name + f.keys(), Sub: "calls which fail", Cfg: cfg.String(), Ops: []string{op.Name}, Detail: "with" + f.String() + ": " + d})
					}
					in.Destroy()
				}
			}
		}
	})
}

// selfTest makes sure that the search finds secrets and the accounting finds clear text.
func (c *Check) selfTest() error {
	for _, e := range []string{"dirSecretQ7x", "x" + hex.EncodeToString([]byte("contentSecretT2m")), base64.StdEncoding.EncodeToString([]byte("ab" + "userSecretY3n")), base64.StdEncoding.EncodeToString([]byte(base64.URLEncoding.EncodeToString([]byte("abc1387654321"))))} {
		if visible([]byte("\x00\x01"+e+"\x00"), 3) == "" {
			return errors.New("the search misses " + e)
		}
	}
	in, err := freshInst(Cfg{}, ":memory:", Opt{})
	if err != nil {
		return err
	}
	defer in.Destroy()
	if _, d := wrapper(in.Tape(), Cfg{Enc: "age"}, keysFor(Cfg{Enc: "age"}), 0); d == "" {
		return errors.New("the accounting misses clear headers")
	}
	return nil
}

func init() {
	checks["C09"] = checkDef{level: "model_checking", quickS: 240, thorS: 800, run: runC09,
		rule: "every history of calls with secret names, links, owners, times and contents under every encryption: every byte appended has to belong to the fixed wrapper (the same for all records), to zero padding or to a complete ciphertext for the one recipient, and no secret may be found in it in clear, hexadecimal or base64; every way of reading with every other key has to fail"}
}

func runC09(c *Check) {
	if err := c.selfTest(); err != nil {
		c.report(Violation{Key: "self-test", Sub: "self-test", Detail: err.Error()})
		return
	}
	ops := secretOps()
	cfgs := encCfgs(c.quick())
	for i, cfg := range cfgs {
		d := 1
		if i%4 == 0 || !c.quick() {
			d = 2
		}
		c.exploreSeqs(&SeqSpec{Name: "secrets", Cfg: cfg, Ops: ops, Depth: d, Setup: secretSetup, DB: ":memory:", Oracle: newSealedOracle(c)})
	}
	for _, enc := range []string{"age", "pgp"} {
		cfg := Cfg{Enc: enc, Comp: "zstandard", Sig: "pgp", RS: 20}
		c.exploreSeqs(&SeqSpec{Name: "secrets, emulated tape", Cfg: cfg, Ops: ops, Depth: 2, Setup: secretSetup, DB: ":memory:", Oracle: newSealedOracle(c), FreshOpt: func() Opt { return Opt{Tape: newVtape(20)} }})
		c.exploreSeqs(&SeqSpec{Name: "secrets, file cache", Cfg: Cfg{Enc: enc, Cache: "file", RS: 1}, Ops: ops, Depth: 2, Setup: secretSetup, DB: ":memory:", Oracle: newSealedOracle(c), Opt: Opt{CacheDir: filepath.Join(scratch, "wc9")}})
		if !c.quick() {
			c.exploreSeqs(&SeqSpec{Name: "longer", Cfg: Cfg{Enc: enc, Sig: "minisign"}, Ops: ops, Depth: 3, Setup: secretSetup, DB: ":memory:", Oracle: newSealedOracle(c)})
		}
	}
	c.otherKeys(cfgs)
	c.sealedFaults([]Cfg{{Enc: "age"}, {Enc: "pgp", Sig: "minisign"}}, ops)
}
