package main

import (
	"archive/tar"
	"bytes"
	"crypto/sha256"
	"errors"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"reflect"
	"runtime/debug"
	"strings"
	"testing/iotest"
	"time"

	"github.com/ProtonMail/go-crypto/openpgp"
	"github.com/pojntfx/stfs/pkg/config"
	"github.com/pojntfx/stfs/pkg/encryption"
	"github.com/pojntfx/stfs/pkg/keys"
	"github.com/pojntfx/stfs/pkg/signature"
	"github.com/pojntfx/stfs/pkg/utility"
)

// cheapScrypt writes a version of the scrypt package whose cost can be turned down, and an overlay for the compiler.
func cheapScrypt(pkg, dir string) error {
	p := filepath.Join(pkg, "scrypt", "scrypt.go")
	src, err := os.ReadFile(p)
	if err != nil {
		return err
	}
	s := string(src)
	const check = "\tif N <= 1 || N&(N-1) != 0 {\n"
	if strings.Count(s, check) != 1 {
		return errors.New("the scrypt package is not as expected")
	}
	s = strings.Replace(s, check, "\tif MaxN > 1 && N > MaxN {\n\t\tN = MaxN\n\t}\n"+check, 1)
	s += "\n// MaxN limits the cost.\nvar MaxN int\n"
	q := filepath.Join(dir, "scrypt.go")
	if err := os.WriteFile(q, []byte(s), 0o644); err != nil {
		return err
	}
	return os.WriteFile(filepath.Join(dir, "overlay.json"), []byte(fmt.Sprintf("{\"Replace\": {%q: %q}}", p, q)), 0o644)
}

// limitScrypt sets the limit of the cost, if it can be set.
var limitScrypt func(n int)

var cheaply bool

func cheap(on bool) {
	cheaply = on
	limitScrypt(map[bool]int{false: 0, true: 16}[on])
}

// kFormat is one of the formats keys are generated in.
type kFormat struct {
	name string
	p    config.PipeConfig
	sign bool
}

var kFormats = []kFormat{
	{"age", config.PipeConfig{Encryption: config.EncryptionFormatAgeKey}, false},
	{"pgp encryption", config.PipeConfig{Encryption: config.EncryptionFormatPGPKey}, false},
	{"minisign", config.PipeConfig{Signature: config.SignatureFormatMinisignKey}, true},
	{"pgp signature", config.PipeConfig{Signature: config.SignatureFormatPGPKey}, true},
}

func (f kFormat) scrypt() bool { return f.name == "age" || f.name == "minisign" }

// kPair is a generated pair.
type kPair struct {
	f         kFormat
	pw        string
	priv, pub []byte
}

func keygen(f kFormat, pw string) (*kPair, error) {
	priv, pub, err := utility.Keygen(f.p, config.PasswordConfig{Password: pw})
	if err != nil {
		return nil, err
	}
	if len(priv) == 0 || len(pub) == 0 {
		return nil, errors.New("a half of the generated pair is empty")
	}
	return &kPair{f, pw, priv, pub}, nil
}

func (k *kPair) private(pw string) (interface{}, error) {
	priv := append([]byte{}, k.priv...)
	if k.f.sign {
		return keys.ParseSignerIdentity(k.f.p.Signature, priv, pw)
	}
	return keys.ParseIdentity(k.f.p.Encryption, priv, pw)
}

func (k *kPair) public() (interface{}, error) {
	if k.f.sign {
		return keys.ParseSignerRecipient(k.f.p.Signature, append([]byte{}, k.pub...))
	}
	return keys.ParseRecipient(k.f.p.Encryption, append([]byte{}, k.pub...))
}

// works says whether the halves belong together.
func (k *kPair) works(priv, pub interface{}) string {
	const msg = "what the halves are tried with"
	if k.f.sign {
		s, err := signature.SignString(msg, true, k.f.p.Signature, priv)
		if err != nil {
			return "signing: " + err.Error()
		}
		if err := signature.VerifyString(msg, true, k.f.p.Signature, pub, s); err != nil {
			return "verifying: " + err.Error()
		}
		return ""
	}
	s, err := encryption.EncryptString(msg, k.f.p.Encryption, pub)
	if err != nil {
		return "encrypting: " + err.Error()
	}
	d, err := encryption.DecryptString(s, k.f.p.Encryption, priv)
	if err != nil {
		return "decrypting: " + err.Error()
	}
	if d != msg {
		return fmt.Sprintf("decrypted %q, encrypted was %q", d, msg)
	}
	return ""
}

// tryPasswords generates a pair with a password and parses its private half with it and with all others.
func (c *Check) tryPasswords(f kFormat, pw string, others []string) (who, d string) {
	c.add("histories", 1)
	k, err := keygen(f, pw)
	if err != nil {
		return "", "generating the pair: " + err.Error()
	}
	pub, err := k.public()
	if err != nil {
		return "", "parsing the public half: " + err.Error()
	}
	for i := 0; i < 2; i++ { // parsing changes nothing
		c.add("transitions", 1)
		priv, err := k.private(pw)
		if err != nil {
			return "", "parsing the private half with its password: " + err.Error()
		}
		if d := k.works(priv, pub); d != "" {
			return "", d
		}
		if c.quick() && f.scrypt() && !cheaply {
			break
		}
	}
	for _, q := range others {
		if q == pw {
			continue
		}
		c.add("transitions", 1)
		priv, err := k.private(q)
		if err == nil {
			key := fmt.Sprintf("parse %s %s with %s", f.name, quoted(pw), quoted(q))
			if c.isKnown(key) {
				c.report(Violation{Key: key})
				continue
			}
			d := "parsing the private half with another password succeeded"
			if k.works(priv, pub) == "" {
				d += ", and what it gives works with the public half"
			}
			return q, d
		}
		if priv != nil && !reflect.ValueOf(priv).IsZero() && k.works(priv, pub) == "" {
			return q, "parsing the private half with another password failed, but gave a working identity"
		}
	}
	// The private half alone, without any password.
	if pw != "" && f.name[:3] == "pgp" {
		if el, err := openpgp.ReadKeyRing(bytes.NewReader(k.priv)); err == nil {
			if k.works(el, pub) == "" {
				return "", "the private half works without its password"
			}
		}
	}
	// The public half is not the private one.
	var half interface{}
	if f.sign {
		half, err = keys.ParseSignerIdentity(f.p.Signature, k.pub, "")
	} else {
		half, err = keys.ParseIdentity(f.p.Encryption, k.pub, "")
	}
	if err == nil && k.works(half, pub) == "" {
		return "", "the public half works as the private one"
	}
	c.saw("states", f.name+pw)
	return "", ""
}

func (c *Check) passwords(name, what string, f kFormat, low bool, ps []string, others func(p string) []string) {
	c.each(name+": "+f.name, what, int64(len(ps)), func(i int64) {
		cheap(low)
		defer cheap(false)
		pw := ps[i]
		journal(fmt.Sprintf("%s: %s %q", name, f.name, pw))
		q, d := "", ""
		g := guardS(func() string { q, d = c.tryPasswords(f, pw, others(pw)); return "" })
		if g != "" {
			d = g
		}
		c.saw("distinct_nontrivial", f.name+pw)
		if d != "" {
			ops := []string{fmt.Sprintf("Keygen %s with password %q", f.name, pw)}
			if q != "" || strings.Contains(d, "another password") {
				ops = append(ops, fmt.Sprintf("parse with password %q", q))
			}
			c.report(Violation{Key: fmt.Sprintf("parse %s %s with %s", f.name, quoted(pw), quoted(q)), Sub: name, Ops: ops, Detail: d})
		}
		if !low && f.scrypt() {
			debug.FreeOSMemory()
		}
	})
}

// wordsOver is every string of up to n of the given letters.
func wordsOver(letters []string, n int) []string {
	out, last := []string{""}, []string{""}
	for i := 0; i < n; i++ {
		var next []string
		for _, w := range last {
			for _, l := range letters {
				next = append(next, w+l)
			}
		}
		out = append(out, next...)
		last = next
	}
	return out
}

var listedPasswords = []string{
	"", "a", "password", "pa ss\tword\n", "pässwörd", "密码と🔑", "\xff\xfe\x80", strings.Repeat("x", 64), strings.Repeat("long password ", 80),
	"A", "Password", "PASSWORD", "password1", "passwor", "asswor", " password", "password ", "password\n", "password\r\n", "\tpassword", " ", "  ", "\n", "0", "00", "1", "-", "null", "nil", "none",
	"passwörd", "pa\u0308sswo\u0308rd", "PÄSSWÖRD", "ß", "ss", "SS", "\ufeffpassword", "password\u200b", "密码", "\u00e9", "e\u0301", "\u212b", "\u00c5", "\xff", "\ufffd",
	strings.Repeat("x", 8), strings.Repeat("x", 16), strings.Repeat("x", 32), strings.Repeat("x", 63), strings.Repeat("x", 65), strings.Repeat("x", 71), strings.Repeat("x", 72), strings.Repeat("x", 73), strings.Repeat("x", 127), strings.Repeat("x", 128), strings.Repeat("x", 129), strings.Repeat("x", 255), strings.Repeat("x", 256), strings.Repeat("x", 257), strings.Repeat("x", 1000), strings.Repeat("x", 1000) + "y", strings.Repeat("x", 1023), strings.Repeat("x", 4096), strings.Repeat("x", 70000), strings.Repeat("x", 70000) + "y",
	"pass\x00word", "pass\x00WORD", "pass", "'\"`$(id)\\", "%s%d", "AGE-SECRET-KEY-1", "password;password", "password,password", "a:b", "c:b",
	"a\x00", "\x00", string(digest(strings.Repeat("long password ", 80))),
}

// quoted names a password.
func quoted(p string) string {
	if len(p) > 40 {
		return fmt.Sprintf("%+.20q (%d bytes, %x)", p, len(p), digest(p)[:4])
	}
	return fmt.Sprintf("%+q", p)
}

func digest(s string) []byte { d := sha256.Sum256([]byte(s)); return d[:] }

// near is passwords which are easily taken for p.
func near(p string) []string {
	out := []string{"", p + " ", p + "x", p + p, " " + p, strings.ToUpper(p), strings.ToLower(p), strings.TrimSpace(p), strings.ToValidUTF8(p, "\ufffd"), "x"}
	for _, n := range []int{8, 16, 32, 55, 56, 63, 64, 71, 72, 100, 128, 255, 1000, 1024} {
		if len(p) > n {
			out = append(out, p[:n])
		}
	}
	if len(p) > 0 {
		out = append(out, p[:len(p)-1], p[1:], string(append([]byte{p[0] ^ 1}, p[1:]...)), p[:len(p)-1]+string([]byte{p[len(p)-1] ^ 1}), p[:len(p)-1]+string([]byte{p[len(p)-1] ^ 0x80}))
	}
	seen := map[string]bool{p: true}
	var uniq []string
	for _, q := range out {
		if !seen[q] {
			uniq = append(uniq, q)
		}
		seen[q] = true
	}
	return uniq
}

// ---- pairs

// kHalves is a parsed pair.
type kHalves struct {
	*kPair
	privK, pubK interface{}
}

func parsedPairs(f kFormat, pws []string) ([]kHalves, error) {
	var out []kHalves
	for _, pw := range pws {
		k, err := keygen(f, pw)
		if err != nil {
			return nil, err
		}
		h := kHalves{kPair: k}
		if h.privK, err = k.private(pw); err != nil {
			return nil, err
		}
		if h.pubK, err = k.public(); err != nil {
			return nil, err
		}
		out = append(out, h)
	}
	return out, nil
}

var pairPasswords = []string{"", "", "secret", "secret", "pässwörd"}

func keyContents(thorough bool) []content {
	out := []content{{"empty", nil}, {"one byte", []byte{7}}, {"NUL", []byte{0}}, {"line ends", []byte("a\r\nb\nc\rd \t\n- e\n\n\x1a")}, {"one newline", []byte("\n")},
		{"not UTF-8", []byte("\xff\xfe\x00caf\xe9")}, {"multi-byte text", []byte("パスワード 🔑 ä")}, {"header", []byte(`{"Typeflag":48,"Name":"/a","Linkname":"","Size":3}`)}}
	for _, n := range []int{15, 16, 17, 63, 64, 65, 511, 512, 513, 4096, 65535, 65536, 65537, 131072, 131073} {
		out = append(out, content{fmt.Sprintf("%d random", n), pat(n, byte(n))})
	}
	out = append(out, content{"20000 text", text(20000)}, content{"100000 zero", make([]byte, 100000)})
	if thorough {
		for n := 2; n < 300; n++ {
			out = append(out, content{fmt.Sprintf("%d bytes", n), pat(n, byte(n+1))})
		}
		for _, n := range []int{32767, 32768, 32769, 196607, 196608, 196609, 1 << 20, 1<<20 + 1, 3000001} {
			out = append(out, content{fmt.Sprintf("%d random", n), pat(n, byte(n))})
		}
	}
	return out
}

// cuts are the ways of writing: sizes of the pieces, 0 is all at once.
func cutsFor(n int) []int {
	out := []int{0, 512, 65536}
	if n <= 5000 {
		out = append(out, 1, 7)
	} else {
		out = append(out, 4093)
	}
	return out
}

func writePieces(w io.Writer, b []byte, step int) error {
	if step == 0 {
		n, err := w.Write(b)
		if err == nil && n != len(b) {
			return fmt.Errorf("wrote %d of %d bytes", n, len(b))
		}
		return err
	}
	for len(b) > 0 {
		n := step
		if n > len(b) {
			n = len(b)
		}
		k, err := w.Write(b[:n])
		if err != nil {
			return err
		}
		if k != n {
			return fmt.Errorf("wrote %d of %d bytes", k, n)
		}
		b = b[n:]
	}
	return nil
}

// sources are ways a reader gives its bytes.
var readWays = []struct {
	name string
	wrap func(io.Reader) io.Reader
}{
	{"whole", func(r io.Reader) io.Reader { return r }},
	{"halves", iotest.HalfReader},
	{"data with the end", iotest.DataErrReader},
	{"one byte", iotest.OneByteReader},
}

func readPieces(r io.Reader, step int) ([]byte, error) {
	if step == 0 {
		return io.ReadAll(r)
	}
	var out []byte
	buf := make([]byte, step)
	for {
		n, err := r.Read(buf)
		out = append(out, buf[:n]...)
		if err == io.EOF {
			return out, nil
		}
		if err != nil {
			return out, err
		}
	}
}

func encryptAll(f string, b []byte, step int, pub interface{}) ([]byte, error) {
	var out bytes.Buffer
	w, err := encryption.Encrypt(&out, f, pub)
	if err != nil {
		return nil, err
	}
	if err := writePieces(w, b, step); err != nil {
		return nil, err
	}
	if err := w.Close(); err != nil {
		return nil, err
	}
	return out.Bytes(), nil
}

func headerOf(b []byte) *tar.Header {
	return &tar.Header{Typeflag: tar.TypeReg, Name: "/dir/" + strings.ToValidUTF8(string(b[:min(len(b), 200)]), "?"), Size: int64(len(b)), Mode: 0o640, Uid: 1, Gid: 2, Uname: "u", Gname: "g",
		ModTime: time.Unix(1700000000, 5), Format: tar.FormatPAX, PAXRecords: map[string]string{"STFS.Version": "1", "A.b": "パ"}}
}

func sameHeader(a, b *tar.Header) bool {
	return a.Typeflag == b.Typeflag && a.Name == b.Name && a.Size == b.Size && a.Mode == b.Mode && a.Uid == b.Uid && a.Gid == b.Gid && a.Uname == b.Uname && a.Gname == b.Gname && a.ModTime.Equal(b.ModTime) && reflect.DeepEqual(a.PAXRecords, b.PAXRecords)
}

// encPairs encrypts a content for every pair and decrypts it with every pair, in all ways.
func (c *Check) encPairs(f kFormat, ks []kHalves, x content) string {
	format := f.p.Encryption
	for i, a := range ks {
		c.add("histories", 1)
		s, err := encryption.EncryptString(string(x.b), format, a.pubK)
		if err != nil {
			return fmt.Sprintf("pair %d: encrypting the string: %v", i, err)
		}
		hdr := headerOf(x.b)
		if err := encryption.EncryptHeader(hdr, format, a.pubK); err != nil {
			return fmt.Sprintf("pair %d: encrypting the header: %v", i, err)
		}
		var streams [][]byte
		for _, step := range cutsFor(len(x.b)) {
			e, err := encryptAll(format, x.b, step, a.pubK)
			if err != nil {
				return fmt.Sprintf("pair %d: encrypting in pieces of %d: %v", i, step, err)
			}
			streams = append(streams, e)
		}
		for j, b := range ks {
			c.add("transitions", int64(2+len(streams)))
			c.saw("states", fmt.Sprint(f.name, i, j, x.name))
			c.saw("distinct_nontrivial", fmt.Sprint(f.name, i, j, x.name))
			h := *hdr
			if i != j {
				if d, err := encryption.DecryptString(s, format, b.privK); err == nil || d != "" {
					return fmt.Sprintf("pair %d decrypts the string encrypted for pair %d: %.60q, %v", j, i, d, err)
				}
				if err := encryption.DecryptHeader(&h, format, b.privK); err == nil || h.Name != "" {
					return fmt.Sprintf("pair %d decrypts the header encrypted for pair %d", j, i)
				}
				for _, e := range streams {
					r, err := encryption.Decrypt(bytes.NewReader(e), format, b.privK)
					if err == nil {
						d, err := io.ReadAll(r)
						if err == nil || len(d) > 0 {
							return fmt.Sprintf("pair %d decrypts the stream encrypted for pair %d: %d bytes, %v", j, i, len(d), err)
						}
					}
				}
				continue
			}
			for again := 0; again < 2; again++ {
				d, err := encryption.DecryptString(s, format, b.privK)
				if err != nil {
					return fmt.Sprintf("pair %d: decrypting the string: %v", i, err)
				}
				if d != string(x.b) {
					return fmt.Sprintf("pair %d: the decrypted string is %s, encrypted was %s", i, contentKey([]byte(d)), contentKey(x.b))
				}
			}
			if err := encryption.DecryptHeader(&h, format, b.privK); err != nil {
				return fmt.Sprintf("pair %d: decrypting the header: %v", i, err)
			}
			if !sameHeader(&h, headerOf(x.b)) {
				return fmt.Sprintf("pair %d: the decrypted header is %+v", i, h)
			}
			for _, e := range streams {
				for _, way := range readWays {
					if way.name == "one byte" && len(e) > 70000 {
						continue
					}
					for _, step := range []int{0, 333, 65536} {
						c.add("transitions", 1)
						r, err := encryption.Decrypt(way.wrap(bytes.NewReader(e)), format, b.privK)
						if err != nil {
							return fmt.Sprintf("pair %d: decrypting the stream (%s): %v", i, way.name, err)
						}
						d, err := readPieces(r, step)
						if err != nil {
							return fmt.Sprintf("pair %d: decrypting the stream (%s, pieces of %d): %v", i, way.name, step, err)
						}
						if !bytes.Equal(d, x.b) {
							return fmt.Sprintf("pair %d: the decrypted stream (%s, pieces of %d) is %s, encrypted was %s", i, way.name, step, contentKey(d), contentKey(x.b))
						}
						if err := r.Close(); err != nil {
							return fmt.Sprintf("pair %d: closing: %v", i, err)
						}
					}
				}
			}
		}
	}
	return ""
}

// others are contents which x is easily taken for.
func othersOf(b []byte) [][]byte {
	out := [][]byte{append(append([]byte{}, b...), 0), append(append([]byte{}, b...), '\n'), bytes.ReplaceAll(b, []byte("\r\n"), []byte("\n")), bytes.ReplaceAll(b, []byte("\n"), []byte("\r\n"))}
	if len(b) > 0 {
		y := append([]byte{}, b...)
		y[len(y)/2] ^= 1
		out = append(out, b[:len(b)-1], b[1:], y, nil)
		z := append([]byte{}, b...)
		z[len(z)-1] ^= 0x80
		out = append(out, z, bytes.TrimSpace(b))
	}
	var diff [][]byte
	for _, o := range out {
		if !bytes.Equal(o, b) {
			diff = append(diff, o)
		}
	}
	return diff
}

func verifyAll(format string, r io.Reader, step int, pub interface{}, sig string) ([]byte, error) {
	v, verify, err := signature.Verify(r, true, format, pub, sig)
	if err != nil {
		return nil, err
	}
	b, err := readPieces(v, step)
	if err != nil {
		return nil, fmt.Errorf("reading: %w", err)
	}
	return b, verify()
}

// sigPairs signs a content with every pair and verifies it with every pair, in all ways.
func (c *Check) sigPairs(f kFormat, ks []kHalves, x content) string {
	format := f.p.Signature
	for i, a := range ks {
		c.add("histories", 1)
		s, err := signature.SignString(string(x.b), true, format, a.privK)
		if err != nil {
			return fmt.Sprintf("pair %d: signing the string: %v", i, err)
		}
		hdr := headerOf(x.b)
		if err := signature.SignHeader(hdr, true, format, a.privK); err != nil {
			return fmt.Sprintf("pair %d: signing the header: %v", i, err)
		}
		var sigs []string
		for _, way := range readWays {
			for _, step := range []int{0, 333} {
				r, sign, err := signature.Sign(way.wrap(bytes.NewReader(x.b)), true, format, a.privK)
				if err != nil {
					return fmt.Sprintf("pair %d: signing the stream: %v", i, err)
				}
				d, err := readPieces(r, step)
				if err != nil || !bytes.Equal(d, x.b) {
					return fmt.Sprintf("pair %d: reading what is signed (%s, pieces of %d) gives %s, %v", i, way.name, step, contentKey(d), err)
				}
				g, err := sign()
				if err != nil {
					return fmt.Sprintf("pair %d: signing the stream: %v", i, err)
				}
				sigs = append(sigs, g)
			}
		}
		for j, b := range ks {
			c.add("transitions", int64(2+len(sigs)))
			c.saw("states", fmt.Sprint(f.name, i, j, x.name))
			c.saw("distinct_nontrivial", fmt.Sprint(f.name, i, j, x.name))
			h := *hdr
			if i != j {
				if signature.VerifyString(string(x.b), true, format, b.pubK, s) == nil {
					return fmt.Sprintf("pair %d verifies the string signed by pair %d", j, i)
				}
				if signature.VerifyHeader(&h, true, format, b.pubK) == nil || h.Name != "" {
					return fmt.Sprintf("pair %d verifies the header signed by pair %d", j, i)
				}
				for _, g := range sigs {
					if _, err := verifyAll(format, bytes.NewReader(x.b), 0, b.pubK, g); err == nil {
						return fmt.Sprintf("pair %d verifies the stream signed by pair %d", j, i)
					}
				}
				continue
			}
			for again := 0; again < 2; again++ {
				if err := signature.VerifyString(string(x.b), true, format, b.pubK, s); err != nil {
					return fmt.Sprintf("pair %d: verifying the string: %v", i, err)
				}
			}
			if err := signature.VerifyHeader(&h, true, format, b.pubK); err != nil {
				return fmt.Sprintf("pair %d: verifying the header: %v", i, err)
			}
			if !sameHeader(&h, headerOf(x.b)) {
				return fmt.Sprintf("pair %d: the verified header is %+v", i, h)
			}
			for gi, g := range sigs {
				for wi, way := range readWays {
					if gi > 0 && wi > 0 {
						break
					}
					for _, step := range []int{0, 333} {
						c.add("transitions", 1)
						d, err := verifyAll(format, way.wrap(bytes.NewReader(x.b)), step, b.pubK, g)
						if err != nil {
							return fmt.Sprintf("pair %d: verifying the stream (%s, pieces of %d): %v", i, way.name, step, err)
						}
						if !bytes.Equal(d, x.b) {
							return fmt.Sprintf("pair %d: reading what is verified (%s, pieces of %d) gives %s", i, way.name, step, contentKey(d))
						}
					}
				}
			}
			for _, o := range othersOf(x.b) {
				c.add("transitions", 2)
				if signature.VerifyString(string(o), true, format, b.pubK, s) == nil {
					return fmt.Sprintf("pair %d verifies a string which it didn't sign: %s, signed was %s", i, contentKey(o), contentKey(x.b))
				}
				if _, err := verifyAll(format, bytes.NewReader(o), 0, b.pubK, sigs[0]); err == nil {
					return fmt.Sprintf("pair %d verifies a stream which it didn't sign: %s, signed was %s", i, contentKey(o), contentKey(x.b))
				}
			}
		}
	}
	return ""
}

// wrongKind uses halves where others belong.
func (c *Check) wrongKind(all map[string][]kHalves) string {
	for _, f := range kFormats {
		for _, g := range kFormats {
			for ki, k := range []interface{}{all[g.name][0].privK, all[g.name][0].pubK, nil, []byte("key"), "key"} {
				own := all[f.name][0]
				if f == g && ki == 0 {
					continue
				}
				c.add("transitions", 1)
				if f.sign {
					if d := own.works(k, own.pubK); d == "" {
						return fmt.Sprintf("%T of %s signs as %s", k, g.name, f.name)
					}
					if r, sign, err := signature.Sign(strings.NewReader("content"), true, f.p.Signature, k); err == nil {
						io.ReadAll(r)
						if g, err := sign(); err == nil {
							if _, err := verifyAll(f.p.Signature, strings.NewReader("content"), 0, own.pubK, g); err == nil {
								return fmt.Sprintf("%T signs as %s", k, f.name)
							}
						}
					}
				} else {
					if d := own.works(k, own.pubK); d == "" {
						return fmt.Sprintf("%T of %s decrypts as %s", k, g.name, f.name)
					}
				}
			}
		}
	}
	return ""
}

// throughFS writes with generated keys and reads with the same and with others.
func (c *Check) throughFS(cfg Cfg, pw string) string {
	two := [2]*KeySet{{}, {}}
	for i := range two {
		for _, f := range kFormats {
			if f.sign && f.p.Signature != cfg.Sig || !f.sign && f.p.Encryption != cfg.Enc {
				continue
			}
			k, err := keygen(f, pw)
			if err != nil {
				return err.Error()
			}
			priv, err := k.private(pw)
			if err != nil {
				return err.Error()
			}
			pub, err := k.public()
			if err != nil {
				return err.Error()
			}
			if f.sign {
				two[i].SigPriv, two[i].SigPub = priv, pub
			} else {
				two[i].EncPriv, two[i].EncPub = priv, pub
			}
		}
	}
	in, err := freshInst(cfg, ":memory:", Opt{Keys: two[0]})
	if err != nil {
		return err.Error()
	}
	defer in.Destroy()
	want := map[string][]byte{"/a": []byte("content"), "/b": pat(70000, 3), "/c": {}}
	for p, b := range want {
		if err := writeAs(in, "file", "", p, b); err != nil {
			return "writing: " + err.Error()
		}
	}
	for p, b := range want {
		c.add("transitions", 1)
		if d := sameBytes(in, p, b); d != "" {
			return p + ": " + d
		}
	}
	rb, err := rebuilt(cfg, in.Tape(), Opt{Keys: two[0]})
	if err != nil {
		return "rebuilding: " + err.Error()
	}
	defer rb.Destroy()
	for p, b := range want {
		if d := sameBytes(rb, p, b); d != "" {
			return "rebuilt: " + p + ": " + d
		}
	}
	for _, other := range []string{"encryption", "signature"} {
		mixed := *two[0]
		if other == "encryption" {
			mixed.EncPub, mixed.EncPriv = two[1].EncPub, two[1].EncPriv
		} else {
			mixed.SigPub, mixed.SigPriv = two[1].SigPub, two[1].SigPriv
		}
		if other == "encryption" && cfg.Enc == "" || other == "signature" && cfg.Sig == "" {
			continue
		}
		x, err := rebuilt(cfg, in.Tape(), Opt{Keys: &mixed})
		if err == nil {
			rows, _ := readAllNames(x)
			x.Destroy()
			return fmt.Sprintf("a tape could be indexed with another %s pair: %v", other, rows)
		}
		c.add("transitions", 1)
	}
	return ""
}

func readAllNames(in *Inst) ([]string, error) {
	infos, err := list(in, "/", -1)
	var out []string
	for _, fi := range infos {
		out = append(out, fi.Name())
	}
	return out, err
}

func init() {
	checks["C18"] = checkDef{level: "model_checking", quickS: 300, thorS: 800, run: runC18,
		rule:   "for every format and every password of the stated sets a pair is generated and its private half parsed with its password and every other one of the set (or every one near it); for every format, several pairs (with equal and different passwords), every content and every listed way of writing and reading, what one pair encrypted or signed is decrypted or verified with every pair; strings, streams and headers",
		assume: []string{"in the spaces marked as cheap, the scrypt package runs with N=16 instead of the cost its callers ask for"}}
}

func runC18(c *Check) {
	if limitScrypt == nil {
		panic("C18 has to be run through run.sh")
	}
	// Passwords.
	letters := []string{"a", "A", " ", "é", "\n", "1"}
	short := wordsOver(letters, c.pick(2, 3))
	all := func(ps []string) func(string) []string { return func(string) []string { return ps } }
	for _, f := range kFormats {
		what := fmt.Sprintf("all ordered pairs of the %d words over %q", len(short), letters)
		if f.scrypt() {
			what += " (cheap)"
		}
		c.passwords("short words", what, f, true, short, all(short))
		what = fmt.Sprintf("all ordered pairs of %d listed passwords and those near them", len(listedPasswords))
		if f.scrypt() {
			what += " (cheap)"
		}
		c.passwords("listed", what, f, true, listedPasswords, func(p string) []string { return append(near(p), listedPasswords...) })
	}
	for _, n := range []int{0, 1, 8} {
		p := strings.Repeat("p", n)
		f := kFormats[1]
		c.each(fmt.Sprintf("passwords made of parts of the key %d", n), "the password with any 8 bytes of the private half between two of it", 1, func(int64) {
			journal("passwords made of parts of the key")
			k, err := keygen(f, p)
			if err != nil {
				c.report(Violation{Key: "keygen " + f.name, Sub: "parts of the key", Detail: err.Error()})
				return
			}
			for i := 0; i+8 <= len(k.priv); i++ {
				q := p + string(k.priv[i:i+8]) + p
				if q == p {
					continue
				}
				c.add("transitions", 1)
				if _, err := k.private(q); err == nil {
					c.report(Violation{Key: fmt.Sprintf("parse %s %q with it, 8 bytes of the private half, and it", f.name, p), Sub: "parts of the key", Ops: []string{fmt.Sprintf("Keygen %s with password %q", f.name, p), fmt.Sprintf("parse with password %q", q)}, Detail: "parsing the private half with another password succeeded"})
					return
				}
			}
		})
	}
	// The same at the real cost.
	for _, f := range kFormats {
		if !f.scrypt() {
			continue
		}
		ps := listedPasswords[:c.pick(8, len(listedPasswords)-3)]
		c.passwords("listed, real cost", fmt.Sprintf("%d listed passwords, each with passwords near it", len(ps)), f, false, ps, func(p string) []string {
			n := near(p)
			if k := c.pick(3, 6); len(n) > k { // a different few of them for each password
				h := int(h64(p) % uint64(len(n)))
				n = append(n[h:], n[:h]...)[:k]
			}
			return n
		})
	}
	// Pairs.
	cheap(true)
	defer cheap(false)
	pairs := map[string][]kHalves{}
	for _, f := range kFormats {
		ks, err := parsedPairs(f, pairPasswords)
		if err != nil {
			c.report(Violation{Key: "pairs " + f.name, Sub: "pairs", Ops: []string{"Keygen " + f.name}, Detail: err.Error()})
			return
		}
		pairs[f.name] = ks
	}
	cs := keyContents(!c.quick())
	for _, f := range kFormats {
		f, ks := f, pairs[f.name]
		run := c.encPairs
		if f.sign {
			run = c.sigPairs
		}
		c.each("pairs: "+f.name, fmt.Sprintf("%d contents under all ordered pairs of %d pairs in all ways", len(cs), len(ks)), int64(len(cs)), func(i int64) {
			journal("pairs: " + f.name + " " + cs[i].name)
			if d := guardS(func() string { return run(f, ks, cs[i]) }); d != "" {
				c.report(Violation{Key: "pairs " + f.name + ": " + cs[i].name, Sub: "pairs", Ops: []string{"Keygen " + f.name + " several times", cs[i].name}, Detail: d})
			}
		})
	}
	c.each("halves of other formats", "every half of every format in the place of every other one", 1, func(int64) {
		journal("halves of other formats")
		if d := guardS(func() string { return c.wrongKind(pairs) }); d != "" {
			c.report(Violation{Key: "halves of other formats", Sub: "pairs", Ops: []string{"wrong half"}, Detail: d})
		}
	})
	var cfgs []Cfg
	for _, e := range config.KnownEncryptionFormats {
		for _, s := range config.KnownSignatureFormats {
			if e != "" || s != "" {
				cfgs = append(cfgs, Cfg{Enc: e, Sig: s})
			}
		}
	}
	pws := []string{"", "pässwörd"}
	c.each("through the filesystem", fmt.Sprintf("%d combinations of formats x %d passwords: written, read, rebuilt, and indexed with another pair", len(cfgs), len(pws)), int64(len(cfgs)*len(pws)), func(i int64) {
		cfg, pw := cfgs[int(i)/len(pws)].norm(), pws[int(i)%len(pws)]
		journal("through the filesystem " + cfg.String())
		if d := guardS(func() string { return c.throughFS(cfg, pw) }); d != "" {
			c.report(Violation{Key: "through the filesystem " + cfg.keyPart() + fmt.Sprintf("%q", pw), Sub: "through the filesystem", Cfg: cfg.String(), Ops: []string{fmt.Sprintf("Keygen with password %q", pw)}, Detail: d})
		}
	})
	c.sample("Keygen %s with password %q; parse with %q", kFormats[0].name, short[3], short[5])
}
