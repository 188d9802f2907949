package main

import (
	"archive/tar"
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"path"
	"strconv"
	"strings"

	"github.com/pojntfx/stfs/pkg/encryption"
)

// An independent reader of the tape: ustar, PAX and GNU long names, written against the format and not against
// the code under test.

type rec struct {
	block   int64 // where the record starts, extended headers included
	data    int64 // byte offset of the content
	size    int64
	end     int64 // byte offset after the content's padding
	name    string
	link    string
	typ     byte
	mode    int64
	pax     map[string]string
	archive int // which archive (how many trailers were met before)
}

const blk = 512

func zeroBlock(b []byte) bool {
	for _, x := range b {
		if x != 0 {
			return false
		}
	}
	return true
}

func tarNum(f []byte) (int64, error) {
	if len(f) > 0 && f[0]&0x80 != 0 {
		var n int64
		for i, c := range f {
			if i == 0 {
				c &= 0x7f
			}
			n = n<<8 | int64(c)
		}
		return n, nil
	}
	s := strings.Trim(string(f), " \x00")
	if s == "" {
		return 0, nil
	}
	return strconv.ParseInt(s, 8, 64)
}

func cstr(f []byte) string {
	if i := bytes.IndexByte(f, 0); i >= 0 {
		f = f[:i]
	}
	return string(f)
}

func parsePax(b []byte) (map[string]string, error) {
	out := map[string]string{}
	for len(b) > 0 {
		i := bytes.IndexByte(b, ' ')
		if i < 0 {
			return nil, errors.New("extended header: no length")
		}
		n, err := strconv.Atoi(string(b[:i]))
		if err != nil || n <= i+1 || n > len(b) || b[n-1] != '\n' {
			return nil, errors.New("extended header: bad length")
		}
		kv := string(b[i+1 : n-1])
		j := strings.IndexByte(kv, '=')
		if j <= 0 {
			return nil, errors.New("extended header: no key")
		}
		out[kv[:j]] = kv[j+1:]
		b = b[n:]
	}
	return out, nil
}

func sumOK(h []byte) bool {
	want, err := tarNum(h[148:156])
	if err != nil {
		return false
	}
	var s int64
	for i, c := range h {
		if i >= 148 && i < 156 {
			c = ' '
		}
		s += int64(c)
	}
	return s == want
}

// scanTape reads every record. It is strict: anything that is neither a well-formed record nor a zero block, and
// an archive without a trailer, is an error.
func scanTape(t []byte) ([]rec, error) {
	var out []rec
	if len(t)%blk != 0 {
		return out, fmt.Errorf("the tape is %d bytes, not a whole number of blocks", len(t))
	}
	off := int64(0)
	n := int64(len(t))
	zeros, archive := 2, 0
	start := int64(-1)
	var pax map[string]string
	long, longLink := "", ""
	for off < n {
		h := t[off : off+blk]
		if zeroBlock(h) {
			if start >= 0 {
				return out, fmt.Errorf("block %d: extended header without a record", off/blk)
			}
			zeros++
			off += blk
			continue
		}
		if zeros > 0 && len(out) > 0 {
			if zeros < 2 {
				return out, fmt.Errorf("block %d: one zero block between records", off/blk)
			}
			archive++
		}
		zeros = 0
		if !sumOK(h) {
			return out, fmt.Errorf("block %d is neither a header nor zero", off/blk)
		}
		size, err := tarNum(h[124:136])
		if err != nil {
			return out, fmt.Errorf("block %d: size: %w", off/blk, err)
		}
		typ := h[156]
		if start < 0 {
			start = off
		}
		if v, has := pax["size"]; has && typ != 'x' && typ != 'L' && typ != 'K' {
			if size, err = strconv.ParseInt(v, 10, 64); err != nil {
				return out, fmt.Errorf("block %d: size: %w", off/blk, err)
			}
		}
		hasData := typ != '1' && typ != '2' && typ != '3' && typ != '4' && typ != '5' && typ != '6'
		pad := int64(0)
		if hasData {
			pad = (size + blk - 1) / blk * blk
		}
		if off+blk+pad > n {
			return out, fmt.Errorf("block %d: the tape ends inside the record", off/blk)
		}
		body := t[off+blk : off+blk+pad]
		switch typ {
		case 'x':
			if pax, err = parsePax(body[:size]); err != nil {
				return out, fmt.Errorf("block %d: %w", off/blk, err)
			}
		case 'L':
			long = cstr(body[:size])
		case 'K':
			longLink = cstr(body[:size])
		case 'g':
			return out, fmt.Errorf("block %d: global header", off/blk)
		default:
			r := rec{block: start / blk, data: off + blk, size: size, end: off + blk + pad, typ: typ, pax: pax, archive: archive}
			if !hasData {
				r.size = 0
			}
			r.name, r.link = cstr(h[0:100]), cstr(h[157:257])
			if string(h[257:262]) == "ustar" && h[262] == 0 {
				if p := cstr(h[345:500]); p != "" {
					r.name = p + "/" + r.name
				}
			}
			if long != "" {
				r.name = long
			}
			if longLink != "" {
				r.link = longLink
			}
			if v, has := pax["path"]; has {
				r.name = v
			}
			if v, has := pax["linkpath"]; has {
				r.link = v
			}
			r.mode, _ = tarNum(h[100:108])
			out = append(out, r)
			start, pax, long, longLink = -1, nil, "", ""
		}
		off += blk + pad
	}
	if start >= 0 {
		return out, errors.New("the tape ends after an extended header")
	}
	if len(out) > 0 && zeros < 2 {
		return out, errors.New("the last archive has no trailer")
	}
	return out, nil
}

// stdScan iterates with archive/tar, restarted after each trailer, as tar --ignore-zeros does.
func stdScan(t []byte) (names []string, contents [][]byte, err error) {
	rd := bytes.NewReader(t)
	for rd.Len() > 0 {
		tr := tar.NewReader(rd)
		for {
			h, err := tr.Next()
			if err == io.EOF {
				break
			}
			if err != nil {
				return names, contents, err
			}
			b, err := io.ReadAll(tr)
			if err != nil {
				return names, contents, err
			}
			names = append(names, h.Name)
			contents = append(contents, b)
		}
	}
	return
}

// decrypted is the record's header as the key's owner sees it: name, link, type and PAX map of the embedded header.
func (r rec) decrypted(cfg Cfg, ks *KeySet) (rec, error) {
	if cfg.Enc == "" && cfg.Sig == "" {
		return r, nil
	}
	h := &tar.Header{Name: r.name, PAXRecords: r.pax, Size: r.size}
	if cfg.Enc != "" {
		if err := encryption.DecryptHeader(h, cfg.Enc, ks.EncPriv); err != nil {
			return r, err
		}
	}
	if e, has := h.PAXRecords["STFS.EmbeddedHeader"]; has && cfg.Sig != "" {
		var inner tar.Header
		if err := json.Unmarshal([]byte(e), &inner); err != nil {
			return r, err
		}
		h = &inner
	}
	r.name, r.link, r.typ, r.pax = h.Name, h.Linkname, h.Typeflag, h.PAXRecords
	return r, nil
}

func (c Cfg) suffix() string {
	return map[string]string{"gzip": ".gz", "parallelgzip": ".gz", "lz4": ".lz4", "zstandard": ".zst", "brotli": ".br", "bzip2": ".bz2", "parallelbzip2": ".bz2"}[c.Comp] +
		map[string]string{"age": ".age", "pgp": ".pgp"}[c.Enc]
}

// placed is where a replay of the tape says a live entry's content and last record are.
type placed struct {
	content, last int // indexes into the records
	typ           byte
	size          int64
}

// replay follows the documented meaning of the records. Keys are clean names relative to the root.
func replay(rs []rec, cfg Cfg) map[string]placed {
	out := map[string]placed{}
	gone := map[string]placed{} // an update of content brings a deleted entry back
	for i, r := range rs {
		act := or(r.pax["STFS.Action"], "CREATE")
		from, ren := r.pax["STFS.ReplacesName"]
		usize, sized := r.pax["STFS.UncompressedSize"]
		content := act == "CREATE" || act == "UPDATE" && r.pax["STFS.ReplacesContent"] == "true" && !ren
		name := r.name
		if sized && content && (r.typ == '0' || r.typ == 0) {
			name = strings.TrimSuffix(name, cfg.suffix())
		}
		size, _ := strconv.ParseInt(usize, 10, 64)
		if !sized {
			size = r.size
		}
		name = path.Clean("/" + name)
		switch act {
		case "CREATE":
			out[name] = placed{i, i, r.typ, size}
			delete(gone, name)
		case "DELETE":
			if p, has := out[name]; has {
				gone[name] = p
			}
			delete(out, name)
		case "UPDATE":
			if ren {
				if p, has := out[path.Clean("/"+from)]; has {
					delete(out, path.Clean("/"+from))
					p.last = i
					out[name] = p
					delete(gone, name)
				}
				continue
			}
			p, has := out[name]
			if !has && content {
				p, has = gone[name]
				delete(gone, name)
			}
			if !has {
				continue
			}
			p.last = i
			if content {
				p.content, p.size, p.typ = i, size, r.typ
			}
			out[name] = p
		}
	}
	return out
}
