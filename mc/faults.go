package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"os"
	"sync"

	"github.com/pojntfx/stfs/pkg/cache"
	"github.com/pojntfx/stfs/pkg/config"
)

var errInjected = errors.New("injected fault")

// faults counts the events on the seams of the code (drive, index, data source, destination, write cache) and lets
// the chosen ones fail.
type faults struct {
	mu    sync.Mutex
	on    bool
	n     int            // events so far
	at    map[int]string // event number -> how: "before", "after"
	from  int            // all events from here on fail (0: none)
	kinds []string       // what the events were
}

const (
	noFault = iota
	before  // nothing is done
	after   // it is done (half done for reads and writes), and reported as failed
)

func (f *faults) hit(kind string) int {
	f.mu.Lock()
	defer f.mu.Unlock()
	if !f.on {
		return noFault
	}
	f.n++
	f.kinds = append(f.kinds, kind)
	if f.from > 0 && f.n >= f.from {
		return before
	}
	switch f.at[f.n] {
	case "before":
		return before
	case "after":
		return after
	}
	return noFault
}

func (f *faults) set(on bool) { f.mu.Lock(); f.on = on; f.mu.Unlock() }

// do runs one event without a result.
func (f *faults) do(kind string, g func() error) error {
	switch f.hit(kind) {
	case before:
		return errInjected
	case after:
		g()
		return errInjected
	}
	return g()
}

// ---- the drive

func (f *faults) backend(b config.BackendConfig) config.BackendConfig {
	out := b
	if b.GetWriter != nil {
		out.GetWriter = func() (config.DriveWriterConfig, error) {
			if f.hit("open the drive for writing") != noFault {
				return config.DriveWriterConfig{}, errInjected
			}
			w, err := b.GetWriter()
			if err == nil {
				fw := fwriter{w.Drive, f, "write to the drive"}
				if sf, can := w.Drive.(statTruncater); can {
					w.Drive = ffile{fw, sf}
				} else {
					w.Drive = fw
				}
			}
			return w, err
		}
		out.CloseWriter = func() error { return f.closing("close the drive after writing", b.CloseWriter) }
	}
	out.GetReader = func() (config.DriveReaderConfig, error) {
		if f.hit("open the drive for reading") != noFault {
			return config.DriveReaderConfig{}, errInjected
		}
		r, err := b.GetReader()
		if err == nil {
			r.Drive = freader{r.Drive, f}
		}
		return r, err
	}
	out.CloseReader = func() error { return f.closing("close the drive after reading", b.CloseReader) }
	out.MagneticTapeIO = fmt_{b.MagneticTapeIO, f}
	return out
}

// closing always closes: a descriptor is gone even if close reports an error.
func (f *faults) closing(kind string, g func() error) error {
	h := f.hit(kind)
	err := g()
	if h != noFault {
		return errInjected
	}
	return err
}

type fwriter struct {
	w    io.Writer
	f    *faults
	kind string
}

func (w fwriter) Write(p []byte) (int, error) {
	switch w.f.hit(w.kind) {
	case before:
		return 0, errInjected
	case after:
		n, _ := w.w.Write(p[:len(p)/2])
		return n, errInjected
	}
	return w.w.Write(p)
}

// statTruncater is what drives which are files offer besides writing.
type statTruncater interface {
	Stat() (os.FileInfo, error)
	Truncate(int64) error
}

type ffile struct {
	fwriter
	s statTruncater
}

func (w ffile) Stat() (fi os.FileInfo, err error) {
	err = w.f.do("size of the drive", func() (e error) { fi, e = w.s.Stat(); return })
	if err != nil {
		fi = nil
	}
	return
}
func (w ffile) Truncate(n int64) error {
	return w.f.do("truncate the drive", func() error { return w.s.Truncate(n) })
}

type freader struct {
	r config.ReadSeekFder
	f *faults
}

func (r freader) Fd() uintptr { return r.r.Fd() }
func (r freader) Read(p []byte) (int, error) {
	switch r.f.hit("read from the drive") {
	case before:
		return 0, errInjected
	case after:
		n, _ := r.r.Read(p[:(len(p)+1)/2])
		return n, errInjected
	}
	return r.r.Read(p)
}
func (r freader) Seek(o int64, w int) (n int64, err error) {
	err = r.f.do("seek the drive", func() (e error) { n, e = r.r.Seek(o, w); return })
	return
}

type fmt_ struct {
	m config.MagneticTapeIO
	f *faults
}

func (m fmt_) GetCurrentRecordFromTape(fd uintptr) (n int64, err error) {
	err = m.f.do("ask the tape's position", func() (e error) { n, e = m.m.GetCurrentRecordFromTape(fd); return })
	return
}
func (m fmt_) GoToEndOfTape(fd uintptr) error {
	return m.f.do("go to the end of the tape", func() error { return m.m.GoToEndOfTape(fd) })
}
func (m fmt_) GoToNextFileOnTape(fd uintptr) error {
	return m.f.do("go to the next file on the tape", func() error { return m.m.GoToNextFileOnTape(fd) })
}
func (m fmt_) EjectTape(fd uintptr) error {
	return m.f.do("eject the tape", func() error { return m.m.EjectTape(fd) })
}
func (m fmt_) SeekToRecordOnTape(fd uintptr, r int32) error {
	return m.f.do("seek the tape", func() error { return m.m.SeekToRecordOnTape(fd, r) })
}

// ---- the index

type fmeta struct {
	m config.MetadataPersister
	f *faults
}

func (f *faults) meta(m config.MetadataPersister) config.MetadataPersister { return fmeta{m, f} }

func (m fmeta) UpsertHeader(ctx context.Context, h *config.Header, i bool) error {
	return m.f.do("index: upsert", func() error { return m.m.UpsertHeader(ctx, h, i) })
}
func (m fmeta) UpdateHeaderMetadata(ctx context.Context, h *config.Header) error {
	return m.f.do("index: update", func() error { return m.m.UpdateHeaderMetadata(ctx, h) })
}
func (m fmeta) MoveHeader(ctx context.Context, a, b string, r, bl int64) error {
	return m.f.do("index: move", func() error { return m.m.MoveHeader(ctx, a, b, r, bl) })
}
func (m fmeta) GetHeaders(ctx context.Context) (h []*config.Header, err error) {
	err = m.f.do("index: all", func() (e error) { h, e = m.m.GetHeaders(ctx); return })
	return nilIf(h, err), err
}
func (m fmeta) GetHeader(ctx context.Context, n string) (h *config.Header, err error) {
	err = m.f.do("index: get", func() (e error) { h, e = m.m.GetHeader(ctx, n); return })
	return hdrIf(h, err), err
}
func (m fmeta) GetHeaderByLinkname(ctx context.Context, n string) (h *config.Header, err error) {
	err = m.f.do("index: get by link", func() (e error) { h, e = m.m.GetHeaderByLinkname(ctx, n); return })
	return hdrIf(h, err), err
}
func (m fmeta) GetHeaderChildren(ctx context.Context, n string) (h []*config.Header, err error) {
	err = m.f.do("index: children", func() (e error) { h, e = m.m.GetHeaderChildren(ctx, n); return })
	return nilIf(h, err), err
}
func (m fmeta) GetRootPath(ctx context.Context) (r string, err error) {
	err = m.f.do("index: root", func() (e error) { r, e = m.m.GetRootPath(ctx); return })
	if err != nil {
		r = ""
	}
	return
}
func (m fmeta) GetHeaderDirectChildren(ctx context.Context, n string, l int) (h []*config.Header, err error) {
	err = m.f.do("index: direct children", func() (e error) { h, e = m.m.GetHeaderDirectChildren(ctx, n, l); return })
	return nilIf(h, err), err
}
func (m fmeta) DeleteHeader(ctx context.Context, n string, r, b int64) (h *config.Header, err error) {
	err = m.f.do("index: delete", func() (e error) { h, e = m.m.DeleteHeader(ctx, n, r, b); return })
	return hdrIf(h, err), err
}
func (m fmeta) GetLastIndexedRecordAndBlock(ctx context.Context, rs int) (r, b int64, err error) {
	err = m.f.do("index: last position", func() (e error) { r, b, e = m.m.GetLastIndexedRecordAndBlock(ctx, rs); return })
	if err != nil {
		r, b = 0, 0
	}
	return
}
func (m fmeta) PurgeAllHeaders(ctx context.Context) error {
	return m.f.do("index: purge", func() error { return m.m.PurgeAllHeaders(ctx) })
}

func nilIf(h []*config.Header, err error) []*config.Header {
	if err != nil {
		return nil
	}
	return h
}
func hdrIf(h *config.Header, err error) *config.Header {
	if err != nil {
		return nil
	}
	return h
}

// ---- the write cache

type fcache struct {
	cache.WriteCache
	f *faults
}

func (f *faults) cache(g func() (cache.WriteCache, func() error, error)) func() (cache.WriteCache, func() error, error) {
	return func() (cache.WriteCache, func() error, error) {
		if f.hit("open the write cache") != noFault {
			return nil, nil, errInjected
		}
		c, clean, err := g()
		if err != nil {
			return c, clean, err
		}
		return fcache{c, f}, func() error { return f.closing("clean up the write cache", clean) }, nil
	}
}

func (c fcache) Read(p []byte) (int, error) {
	switch c.f.hit("read from the write cache") {
	case before:
		return 0, errInjected
	case after:
		n, _ := c.WriteCache.Read(p[:(len(p)+1)/2])
		return n, errInjected
	}
	return c.WriteCache.Read(p)
}
func (c fcache) Write(p []byte) (int, error) {
	return fwriter{c.WriteCache, c.f, "write to the write cache"}.Write(p)
}
func (c fcache) Seek(o int64, w int) (n int64, err error) {
	err = c.f.do("seek the write cache", func() (e error) { n, e = c.WriteCache.Seek(o, w); return })
	return
}
func (c fcache) Truncate(s int64) error {
	return c.f.do("truncate the write cache", func() error { return c.WriteCache.Truncate(s) })
}
func (c fcache) Size() (n int64, err error) {
	err = c.f.do("size of the write cache", func() (e error) { n, e = c.WriteCache.Size(); return })
	return
}
func (c fcache) Sync() error { return c.f.do("sync the write cache", c.WriteCache.Sync) }
func (c fcache) Close() error {
	return c.f.closing("close the write cache", c.WriteCache.Close)
}

// ---- data sources and destinations

type fsource struct {
	r io.ReadSeekCloser
	f *faults
}

func (s fsource) Read(p []byte) (int, error) {
	switch s.f.hit("read from the source") {
	case before:
		return 0, errInjected
	case after:
		n, _ := s.r.Read(p[:(len(p)+1)/2])
		return n, errInjected
	}
	return s.r.Read(p)
}
func (s fsource) Seek(o int64, w int) (n int64, err error) {
	err = s.f.do("seek the source", func() (e error) { n, e = s.r.Seek(o, w); return })
	return
}
func (s fsource) Close() error { return s.f.closing("close the source", s.r.Close) }

func (f *faults) source(g func() (config.FileConfig, error)) func() (config.FileConfig, error) {
	return func() (config.FileConfig, error) {
		fc, err := g()
		if err != nil {
			return fc, err
		}
		if f.hit("next from the source") != noFault {
			return config.FileConfig{}, errInjected
		}
		get := fc.GetFile
		fc.GetFile = func() (io.ReadSeekCloser, error) {
			if f.hit("open the source") != noFault {
				return nil, errInjected
			}
			r, err := get()
			if err != nil {
				return r, err
			}
			return fsource{r, f}, nil
		}
		return fc, nil
	}
}

type fdst struct {
	io.WriteCloser
	f *faults
}

func (d fdst) Write(p []byte) (int, error) {
	return fwriter{d.WriteCloser, d.f, "write to the destination"}.Write(p)
}
func (d fdst) Close() error { return d.f.closing("close the destination", d.WriteCloser.Close) }

func (f *faults) dst(g func(string, fs.FileMode) (io.WriteCloser, error)) func(string, fs.FileMode) (io.WriteCloser, error) {
	return func(p string, m fs.FileMode) (io.WriteCloser, error) {
		if f.hit("open the destination") != noFault {
			return nil, errInjected
		}
		w, err := g(p, m)
		if err != nil {
			return w, err
		}
		return fdst{w, f}, nil
	}
}

func (f *faults) opt() Opt {
	return Opt{WrapMeta: f.meta, WrapBackend: f.backend, WrapCache: f.cache}
}

func (f *faults) String() string {
	s := ""
	for k, how := range f.at {
		if k <= len(f.kinds) {
			s += fmt.Sprintf(" event %d (%s) fails %s", k, f.kinds[k-1], how)
		} else {
			s += fmt.Sprintf(" event %d fails %s", k, how)
		}
	}
	if f.from > 0 {
		s += fmt.Sprintf(" all events from %d fail", f.from)
	}
	return s
}
