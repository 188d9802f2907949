package main

import (
	"database/sql"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"reflect"
	"strings"
	"sync/atomic"
	"unsafe"

	golog "github.com/fclairamb/go-log"
	"github.com/spf13/afero"

	"github.com/pojntfx/stfs/pkg/cache"
	"github.com/pojntfx/stfs/pkg/config"
	sfs "github.com/pojntfx/stfs/pkg/fs"
	"github.com/pojntfx/stfs/pkg/mtio"
	"github.com/pojntfx/stfs/pkg/operations"
	"github.com/pojntfx/stfs/pkg/persisters"
	"github.com/pojntfx/stfs/pkg/tape"
)

// scratch is the only directory this process writes to (besides evidence and replays).
var scratch string

func initScratch() func() {
	base := os.TempDir()
	if st, err := os.Stat("/dev/shm"); err == nil && st.IsDir() {
		if d, err := os.MkdirTemp("/dev/shm", "stfs-mc-"); err == nil {
			scratch = d
		}
	}
	if scratch == "" {
		d, err := os.MkdirTemp(base, "stfs-mc-")
		if err != nil {
			panic(err)
		}
		scratch = d
	}
	return func() { os.RemoveAll(scratch) }
}

var dirSeq int64

func newDir() string {
	d := filepath.Join(scratch, fmt.Sprintf("d%d", atomic.AddInt64(&dirSeq, 1)))
	if err := os.MkdirAll(d, 0o755); err != nil {
		panic(err)
	}
	return d
}

type nopLogger struct{}

func (nopLogger) Trace(string, ...interface{})     {}
func (nopLogger) Debug(string, ...interface{})     {}
func (nopLogger) Info(string, ...interface{})      {}
func (nopLogger) Error(string, ...interface{})     {}
func (nopLogger) Warn(string, ...interface{})      {}
func (nopLogger) Panic(string, ...interface{})     {}
func (nopLogger) With(...interface{}) golog.Logger { return nopLogger{} }

// Cfg is one pipeline configuration.
type Cfg struct {
	Comp, Level, Enc, Sig string
	RS                    int
	Cache                 string
}

func (c Cfg) norm() Cfg {
	if c.Level == "" {
		c.Level = config.CompressionLevelFastestKey
	}
	if c.RS == 0 {
		c.RS = 20
	}
	if c.Cache == "" {
		c.Cache = config.WriteCacheTypeMemory
	}
	return c
}

func or(s, d string) string {
	if s == "" {
		return d
	}
	return s
}

func (c Cfg) String() string {
	c = c.norm()
	return fmt.Sprintf("comp=%s/%s,enc=%s,sig=%s,rs=%d,cache=%s", or(c.Comp, "none"), c.Level, or(c.Enc, "none"), or(c.Sig, "none"), c.RS, c.Cache)
}

func (c Cfg) pipes() config.PipeConfig {
	return config.PipeConfig{Compression: c.Comp, Encryption: c.Enc, Signature: c.Sig, RecordSize: c.RS}
}

// Inst is one running filesystem over a drive and an index.
type Inst struct {
	Keys  *KeySet
	Cfg   Cfg
	Dir   string
	Drive string
	DB    string // path, or ":memory:"

	TM       *tape.TapeManager
	MP       *persisters.MetadataPersister
	Meta     config.MetadataPersister
	Backend  config.BackendConfig
	ReadOps  *operations.Operations
	WriteOps *operations.Operations
	FS       *sfs.STFS
	VT       *vtape

	Held [2]afero.File // files open across calls
}

// Opt changes how an instance is wired.
type Opt struct {
	ReadOnly    bool
	NoWrite     bool // no write backend (as serve http)
	WrapMeta    func(config.MetadataPersister) config.MetadataPersister
	WrapBackend func(config.BackendConfig) config.BackendConfig
	WrapCache   func(func() (cache.WriteCache, func() error, error)) func() (cache.WriteCache, func() error, error)
	Keys        *KeySet
	CacheDir    string
	ImplRead    bool
	OnHeader    func(ev *config.HeaderEvent)
	OnIndex     func(*config.Header) // headers accepted by the filesystem when it indexes
	Tape        *vtape               // emulated tape drive instead of a file
	Overwrite   bool                 // the drive is opened to be overwritten
}

func openInst(cfg Cfg, drive, db string, o Opt) (*Inst, error) {
	cfg = cfg.norm()
	in := &Inst{Cfg: cfg, Drive: drive, DB: db}
	var mt config.MagneticTapeIO = mtio.MagneticTapeIO{}
	if o.Tape != nil {
		mt, drive = o.Tape, tapeDevice
	}
	in.TM = tape.NewTapeManager(drive, mt, cfg.RS, o.Overwrite)
	in.MP = persisters.NewMetadataPersister(db)
	if err := in.MP.Open(); err != nil {
		return nil, err
	}
	in.Meta = in.MP
	if o.WrapMeta != nil {
		in.Meta = o.WrapMeta(in.MP)
	}
	ks := o.Keys
	if ks == nil {
		ks = keysFor(cfg)
	}
	in.Keys = ks
	in.Backend = config.BackendConfig{
		GetWriter: in.TM.GetWriter, CloseWriter: in.TM.Close,
		GetReader: in.TM.GetReader, CloseReader: in.TM.Close,
		MagneticTapeIO: mt,
	}
	if o.Tape != nil {
		in.VT = o.Tape
		in.Backend = o.Tape.backend(in.TM)
	}
	if o.WrapBackend != nil {
		in.Backend = o.WrapBackend(in.Backend)
	}
	mc := config.MetadataConfig{Metadata: in.Meta}
	onh := o.OnHeader
	if onh == nil {
		onh = func(*config.HeaderEvent) {}
	}
	rb := in.Backend
	if o.NoWrite {
		rb.GetWriter, rb.CloseWriter = nil, nil
	}
	in.ReadOps = operations.NewOperations(rb, mc, cfg.pipes(), config.CryptoConfig{Recipient: ks.SigPub, Identity: ks.EncPriv}, onh)
	if !o.NoWrite {
		in.WriteOps = operations.NewOperations(in.Backend, mc, cfg.pipes(), config.CryptoConfig{Recipient: ks.EncPub, Identity: ks.SigPriv}, onh)
	}
	cdir := o.CacheDir
	if cdir == "" {
		cdir = filepath.Join(scratch, "wc")
	}
	getBuf := func() (cache.WriteCache, func() error, error) { return cache.NewCacheWrite(cdir, cfg.Cache) }
	if o.WrapCache != nil {
		getBuf = o.WrapCache(getBuf)
	}
	if o.NoWrite {
		getBuf = nil
	}
	onIndex := o.OnIndex
	if onIndex == nil {
		onIndex = func(*config.Header) {}
	}
	in.FS = sfs.NewSTFS(in.ReadOps, in.WriteOps, mc, cfg.Level, getBuf, o.ReadOnly, o.ImplRead, onIndex, nopLogger{})
	return in, nil
}

// rawDB digs the *sql.DB out of a persister, by type, wherever it is.
func rawDB(mp *persisters.MetadataPersister) *sql.DB {
	return findDB(reflect.ValueOf(mp), 0)
}

func findDB(v reflect.Value, depth int) *sql.DB {
	if depth > 5 {
		return nil
	}
	t := reflect.TypeOf((*sql.DB)(nil))
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			return nil
		}
		if v.Type() == t {
			return (*sql.DB)(unsafe.Pointer(v.Pointer()))
		}
		return findDB(v.Elem(), depth+1)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if d := findDB(v.Field(i), depth+1); d != nil {
				return d
			}
		}
	case reflect.Interface:
		if !v.IsNil() {
			return findDB(v.Elem(), depth+1)
		}
	}
	return nil
}

// Close drops the index connection (the drive is closed by the code under test).
func (in *Inst) Close() {
	if d := rawDB(in.MP); d != nil {
		d.Close()
	}
}

func (in *Inst) Tape() []byte {
	b, err := os.ReadFile(in.Drive)
	if err != nil && !os.IsNotExist(err) {
		panic(err)
	}
	return b
}

// freshInst makes a directory with an initialised filesystem.
func freshInst(cfg Cfg, db string, o Opt) (*Inst, error) {
	d := newDir()
	if db == "" {
		db = filepath.Join(d, "i.db")
	}
	in, err := openInst(cfg, filepath.Join(d, "t.tar"), db, o)
	if err != nil {
		return nil, err
	}
	in.Dir = d
	if _, err := in.FS.Initialize("/", os.ModePerm); err != nil {
		return nil, err
	}
	return in, nil
}

func (in *Inst) Destroy() {
	in.Close()
	if in.Dir != "" && strings.HasPrefix(in.Dir, scratch+"/") {
		os.RemoveAll(in.Dir)
	}
}

var _ = io.EOF
