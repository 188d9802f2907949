package main

import (
	"errors"
	"fmt"
	"io"
	"os"
	"strings"
	"sync"

	"github.com/pojntfx/stfs/pkg/config"
	"github.com/pojntfx/stfs/pkg/tape"
)

// vtape is an emulated tape drive (the parts of st(4) the code relies on): what is written between opening and
// closing becomes one file, cut into records of the drive's block size and ended by a file mark; writing drops what
// followed; reading returns end of file at a mark; positions count records and marks and stay as they are when the
// device is opened or closed; MTFSF goes past the next mark and fails at the end of data; MTEOM goes to the end of
// data; MTSEEK goes to a record. The code's own TapeManager opens and positions it: its device file is /dev/null.
type vtape struct {
	mu    sync.Mutex // protects the fields
	bs    int
	items []vitem // records and marks
	pos   int
	off   int // read offset within the current record
	pend  []byte
	wr    bool
}

type vitem struct {
	mark bool
	data []byte
}

func newVtape(rs int) *vtape { return &vtape{bs: rs * blk} }

var errEOD = errors.New("input/output error") // EIO, as the driver reports it

// dup is another tape with the same data, at the same position.
func (v *vtape) dup() *vtape {
	v.mu.Lock()
	defer v.mu.Unlock()
	return &vtape{bs: v.bs, items: append([]vitem{}, v.items...), pos: v.pos, off: v.off}
}

// String is the data of the tape with its marks.
func (v *vtape) String() string {
	v.mu.Lock()
	defer v.mu.Unlock()
	b := &strings.Builder{}
	for _, it := range v.items {
		if it.mark {
			b.WriteString("mark;")
			continue
		}
		fmt.Fprintf(b, "%d:", len(it.data))
		b.Write(it.data)
	}
	return b.String()
}

const tapeDevice = "/dev/null"

func (v *vtape) backend(tm *tape.TapeManager) config.BackendConfig {
	cl := func() error {
		v.finish()
		return tm.Close()
	}
	return config.BackendConfig{
		GetWriter: func() (config.DriveWriterConfig, error) {
			w, err := tm.GetWriter()
			if err != nil {
				return w, err
			}
			v.mu.Lock()
			defer v.mu.Unlock()
			v.wr, v.pend, v.off = true, nil, 0
			return config.DriveWriterConfig{Drive: vwriter{v}, DriveIsRegular: w.DriveIsRegular}, nil
		},
		CloseWriter: cl,
		GetReader: func() (config.DriveReaderConfig, error) {
			r, err := tm.GetReader()
			if err != nil {
				return r, err
			}
			return config.DriveReaderConfig{Drive: vreader{v, r.Drive}, DriveIsRegular: r.DriveIsRegular}, nil
		},
		CloseReader:    cl,
		MagneticTapeIO: v,
	}
}

// finish writes what is pending and the file mark, as closing the device after writing does.
func (v *vtape) finish() {
	v.mu.Lock()
	defer v.mu.Unlock()
	if v.wr && len(v.pend) > 0 {
		v.flush(true)
		v.put(vitem{mark: true})
	}
	v.wr = false
}

// put writes at the position; what followed is gone.
func (v *vtape) put(it vitem) {
	v.items = append(v.items[:v.pos:v.pos], it)
	v.pos, v.off = len(v.items), 0
}

func (v *vtape) flush(all bool) {
	for len(v.pend) >= v.bs || all && len(v.pend) > 0 {
		n := v.bs
		if n > len(v.pend) {
			n = len(v.pend)
		}
		v.put(vitem{data: append([]byte{}, v.pend[:n]...)})
		v.pend = v.pend[n:]
	}
	if len(v.pend) == 0 && all {
		v.pend = nil
	}
}

type vwriter struct{ v *vtape }

func (w vwriter) Write(p []byte) (int, error) {
	w.v.mu.Lock()
	defer w.v.mu.Unlock()
	if !w.v.wr {
		return 0, os.ErrClosed
	}
	w.v.pend = append(w.v.pend, p...)
	for len(w.v.pend) > 2*w.v.bs { // keep something pending so that closing knows that there was a write
		n := w.v.bs
		w.v.put(vitem{data: append([]byte{}, w.v.pend[:n]...)})
		w.v.pend = w.v.pend[n:]
	}
	return len(p), nil
}

type vreader struct {
	v *vtape
	f interface { // the device file
		io.Seeker
		Fd() uintptr
	}
}

func (r vreader) Fd() uintptr { return r.f.Fd() }

// Seek is what lseek on a character device for tapes is: nothing.
func (r vreader) Seek(off int64, whence int) (int64, error) {
	if _, err := r.f.Seek(0, io.SeekCurrent); err != nil {
		return 0, err // closed
	}
	return 0, nil
}

func (r vreader) Read(p []byte) (int, error) {
	v := r.v
	if _, err := r.f.Seek(0, io.SeekCurrent); err != nil {
		return 0, err // closed
	}
	v.mu.Lock()
	defer v.mu.Unlock()
	if len(p) == 0 {
		return 0, nil
	}
	if v.pos >= len(v.items) {
		return 0, io.EOF
	}
	it := v.items[v.pos]
	if it.mark {
		return 0, io.EOF // stays before the mark until the drive is spaced forward
	}
	n := copy(p, it.data[v.off:])
	v.off += n
	if v.off >= len(it.data) {
		v.pos, v.off = v.pos+1, 0
	}
	return n, nil
}

func (v *vtape) GetCurrentRecordFromTape(fd uintptr) (int64, error) { return int64(v.pos), nil }
func (v *vtape) GoToEndOfTape(fd uintptr) error                     { v.pos, v.off = len(v.items), 0; return nil }
func (v *vtape) GoToNextFileOnTape(fd uintptr) error {
	for i := v.pos; i < len(v.items); i++ {
		if v.items[i].mark {
			v.pos, v.off = i+1, 0
			return nil // even if nothing follows; spacing on from there fails
		}
	}
	v.pos, v.off = len(v.items), 0
	return errEOD
}
func (v *vtape) EjectTape(fd uintptr) error { return nil }
func (v *vtape) SeekToRecordOnTape(fd uintptr, record int32) error {
	if record < 0 || int(record) > len(v.items) {
		return errEOD
	}
	v.pos, v.off = int(record), 0
	return nil
}

// at is the byte stream from a position to the end of its file, and what the position holds.
func (v *vtape) at(record, block int64) ([]byte, error) {
	var b []byte
	if record < 0 || int(record) >= len(v.items) || v.items[record].mark {
		return nil, errors.New("no record at this position")
	}
	for i := int(record); i < len(v.items) && !v.items[i].mark; i++ {
		b = append(b, v.items[i].data...)
	}
	if int64(len(b)) < block*blk {
		return nil, errors.New("no block at this position")
	}
	return b[block*blk:], nil
}

// recs scans every file of the tape independently; block counts as position*blocks-per-record+block.
func (v *vtape) recs() ([]rec, error) {
	var out []rec
	rs := int64(v.bs / blk)
	for i := 0; i < len(v.items); {
		start := i
		var b []byte
		for ; i < len(v.items) && !v.items[i].mark; i++ {
			b = append(b, v.items[i].data...)
		}
		i++
		r, err := scanTape(b)
		if err != nil {
			return out, err
		}
		for _, x := range r {
			x.block += int64(start) * rs
			out = append(out, x)
		}
	}
	return out, nil
}
