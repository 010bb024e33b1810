// Package main drives the real STFS code. It is overlaid into the module as internal/zz_verif, so that it may
// import the internal packages, and is never part of /repo.
package main

import (
	"archive/tar"
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"sync"
	"time"

	golog "github.com/fclairamb/go-log"
	"github.com/pojntfx/stfs/pkg/cache"
	"github.com/pojntfx/stfs/pkg/config"
	"github.com/pojntfx/stfs/pkg/encryption"
	"github.com/pojntfx/stfs/pkg/fs"
	"github.com/pojntfx/stfs/pkg/keys"
	"github.com/pojntfx/stfs/pkg/mtio"
	"github.com/pojntfx/stfs/pkg/operations"
	"github.com/pojntfx/stfs/pkg/persisters"
	"github.com/pojntfx/stfs/pkg/recovery"
	"github.com/pojntfx/stfs/pkg/signature"
	"github.com/pojntfx/stfs/pkg/tape"
	"github.com/pojntfx/stfs/pkg/utility"
)

type Cfg struct {
	RecordSize int    `json:"rs"`
	Comp       string `json:"comp,omitempty"`
	Level      string `json:"level,omitempty"`
	Enc        string `json:"enc,omitempty"`
	Sig        string `json:"sig,omitempty"`
	Cache      string `json:"cache,omitempty"`
	Tape       bool   `json:"tape,omitempty"`
	Root       string `json:"root,omitempty"`
	WOnlyRead  bool   `json:"wonlyread,omitempty"`
}

func (c Cfg) norm() Cfg {
	if c.RecordSize == 0 {
		c.RecordSize = 20
	}
	if c.Level == "" {
		c.Level = config.CompressionLevelFastestKey
	}
	if c.Cache == "" {
		c.Cache = config.WriteCacheTypeMemory
	}
	if c.Root == "" {
		c.Root = "/"
	}
	return c
}

type nolog struct{}

func (nolog) Debug(string, ...interface{})        {}
func (nolog) Info(string, ...interface{})         {}
func (nolog) Warn(string, ...interface{})         {}
func (nolog) Error(string, ...interface{})        {}
func (nolog) Trace(string, ...interface{})        {}
func (nolog) Panic(string, ...interface{})        {}
func (nolog) With(kv ...interface{}) golog.Logger { return nolog{} }

// Keys

type keyset struct {
	encRecipient, encIdentity interface{}
	sigRecipient, sigIdentity interface{}
}

var (
	keyMu    sync.Mutex
	keyCache = map[string]*keyset{}
)

func mustKeys(enc, sig string, n int) *keyset {
	keyMu.Lock()
	defer keyMu.Unlock()
	id := fmt.Sprintf("%v/%v/%v", enc, sig, n)
	if k, ok := keyCache[id]; ok {
		return k
	}
	k := &keyset{}
	if enc != config.NoneKey {
		priv, pub, err := utility.Keygen(config.PipeConfig{Encryption: enc}, config.PasswordConfig{Password: ""})
		if err != nil {
			fatalSetup("keygen enc %v: %v", enc, err)
		}
		if k.encRecipient, err = keys.ParseRecipient(enc, pub); err != nil {
			fatalSetup("parse recipient: %v", err)
		}
		if k.encIdentity, err = keys.ParseIdentity(enc, priv, ""); err != nil {
			fatalSetup("parse identity: %v", err)
		}
	}
	if sig != config.NoneKey {
		priv, pub, err := utility.Keygen(config.PipeConfig{Signature: sig}, config.PasswordConfig{Password: ""})
		if err != nil {
			fatalSetup("keygen sig %v: %v", sig, err)
		}
		if k.sigRecipient, err = keys.ParseSignerRecipient(sig, pub); err != nil {
			fatalSetup("parse signer recipient: %v", err)
		}
		if k.sigIdentity, err = keys.ParseSignerIdentity(sig, priv, ""); err != nil {
			fatalSetup("parse signer identity: %v", err)
		}
	}
	keyCache[id] = k
	return k
}

type setupError struct{ s string }

func fatalSetup(f string, a ...interface{}) { panic(setupError{fmt.Sprintf(f, a...)}) }

// Fake magnetic tape: every archive is a sequence of variable-size records followed by a file mark; file marks
// count as records for the purpose of positions, as they do for SCSI drives.

type tapeObj struct {
	mark bool
	data []byte
}

type fakeTape struct {
	mu   sync.Mutex
	objs []tapeObj
	pos  int // next object to read or write
}

var errEOD = errors.New("end of data")

func (t *fakeTape) raw() []byte {
	t.mu.Lock()
	defer t.mu.Unlock()
	b := []byte{}
	for _, o := range t.objs {
		if o.mark {
			b = append(b, []byte("<MARK>")...)
		} else {
			b = append(b, o.data...)
		}
	}
	return b
}

func (t *fakeTape) clone() *fakeTape {
	t.mu.Lock()
	defer t.mu.Unlock()
	return &fakeTape{objs: append([]tapeObj{}, t.objs...)}
}

func (t *fakeTape) GetCurrentRecordFromTape(fd uintptr) (int64, error) { return int64(t.pos), nil }
func (t *fakeTape) GoToEndOfTape(fd uintptr) error                     { t.pos = len(t.objs); return nil }
func (t *fakeTape) GoToNextFileOnTape(fd uintptr) error {
	for i := t.pos; i < len(t.objs); i++ {
		if t.objs[i].mark {
			t.pos = i + 1
			if t.pos >= len(t.objs) {
				return errEOD // nothing but the end of data behind the last file mark
			}
			return nil
		}
	}
	return errEOD
}
func (t *fakeTape) EjectTape(fd uintptr) error { return nil }
func (t *fakeTape) SeekToRecordOnTape(fd uintptr, record int32) error {
	if record < 0 || int(record) > len(t.objs) {
		return errors.New("position beyond the end of the tape")
	}
	t.pos = int(record)
	return nil
}

// Read returns one record or up to len(p) bytes of it; a short read loses the rest of the record, like a drive in
// variable block mode does.
func (t *fakeTape) Read(p []byte) (int, error) {
	if t.pos >= len(t.objs) {
		return 0, io.EOF
	}
	if t.objs[t.pos].mark {
		return 0, io.EOF
	}
	n := copy(p, t.objs[t.pos].data)
	if n < len(t.objs[t.pos].data) {
		return 0, errors.New("cannot allocate memory: buffer too small for tape record")
	}
	t.pos++
	return n, nil
}
func (t *fakeTape) Seek(offset int64, whence int) (int64, error) {
	return 0, errors.New("illegal seek")
}
func (t *fakeTape) Fd() uintptr { return 3 }
func (t *fakeTape) Write(p []byte) (int, error) {
	t.objs = append(t.objs[:t.pos], tapeObj{data: append([]byte{}, p...)})
	t.pos++
	return len(p), nil
}

// Faults

type Fault struct {
	Kind string `json:"kind"` // open-w, open-r, close-w, close-r, write, short-write, read, seek, db, buf
	At   int    `json:"at"`
	Sub  string `json:"sub,omitempty"`
}

var errInjected = errors.New("injected failure")

type faultState struct {
	mu    sync.Mutex
	f     *Fault
	count map[string]int
	hit   bool
	delay func()
}

func (s *faultState) setDelay(f func()) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.delay = f
}

func (s *faultState) fire(kind string) bool {
	s.mu.Lock()
	if d := s.delay; d != nil {
		s.mu.Unlock()
		d()
		s.mu.Lock()
	}
	defer s.mu.Unlock()
	if s.count == nil {
		s.count = map[string]int{}
	}
	n := s.count[kind]
	s.count[kind] = n + 1
	if s.f != nil && s.f.Kind == kind && n == s.f.At {
		s.hit = true
		return true
	}
	return false
}

func (s *faultState) arm(f *Fault) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.f = f
	s.count = map[string]int{}
	s.hit = false
}

type faultWriter struct {
	w io.Writer
	s *faultState
}

func (w faultWriter) Write(p []byte) (int, error) {
	if w.s.fire("short-write") {
		n, _ := w.w.Write(p[:len(p)/2])
		return n, errInjected
	}
	if w.s.fire("write") {
		return 0, errInjected
	}
	return w.w.Write(p)
}

type faultReader struct {
	r config.ReadSeekFder
	s *faultState
}

func (r faultReader) Read(p []byte) (int, error) {
	if r.s.fire("read") {
		return 0, errInjected
	}
	return r.r.Read(p)
}
func (r faultReader) Seek(o int64, w int) (int64, error) {
	if r.s.fire("seek") {
		return 0, errInjected
	}
	return r.r.Seek(o, w)
}
func (r faultReader) Fd() uintptr { return r.r.Fd() }

type faultMeta struct {
	m config.MetadataPersister
	s *faultState
}

func (m faultMeta) UpsertHeader(ctx context.Context, h *config.Header, i bool) error {
	if m.s.fire("db") {
		return errInjected
	}
	return m.m.UpsertHeader(ctx, h, i)
}
func (m faultMeta) UpdateHeaderMetadata(ctx context.Context, h *config.Header) error {
	if m.s.fire("db") {
		return errInjected
	}
	return m.m.UpdateHeaderMetadata(ctx, h)
}
func (m faultMeta) MoveHeader(ctx context.Context, a, b string, r, bl int64) error {
	if m.s.fire("db") {
		return errInjected
	}
	return m.m.MoveHeader(ctx, a, b, r, bl)
}
func (m faultMeta) GetHeaders(ctx context.Context) ([]*config.Header, error) {
	if m.s.fire("db") {
		return nil, errInjected
	}
	return m.m.GetHeaders(ctx)
}
func (m faultMeta) GetHeader(ctx context.Context, n string) (*config.Header, error) {
	if m.s.fire("db") {
		return nil, errInjected
	}
	return m.m.GetHeader(ctx, n)
}
func (m faultMeta) GetHeaderByLinkname(ctx context.Context, n string) (*config.Header, error) {
	if m.s.fire("db") {
		return nil, errInjected
	}
	return m.m.GetHeaderByLinkname(ctx, n)
}
func (m faultMeta) GetHeaderChildren(ctx context.Context, n string) ([]*config.Header, error) {
	if m.s.fire("db") {
		return nil, errInjected
	}
	return m.m.GetHeaderChildren(ctx, n)
}
func (m faultMeta) GetRootPath(ctx context.Context) (string, error) {
	if m.s.fire("db") {
		return "", errInjected
	}
	return m.m.GetRootPath(ctx)
}
func (m faultMeta) GetHeaderDirectChildren(ctx context.Context, n string, l int) ([]*config.Header, error) {
	if m.s.fire("db") {
		return nil, errInjected
	}
	return m.m.GetHeaderDirectChildren(ctx, n, l)
}
func (m faultMeta) DeleteHeader(ctx context.Context, n string, a, b int64) (*config.Header, error) {
	if m.s.fire("db") {
		return nil, errInjected
	}
	return m.m.DeleteHeader(ctx, n, a, b)
}
func (m faultMeta) GetLastIndexedRecordAndBlock(ctx context.Context, rs int) (int64, int64, error) {
	if m.s.fire("db") {
		return 0, 0, errInjected
	}
	return m.m.GetLastIndexedRecordAndBlock(ctx, rs)
}
func (m faultMeta) PurgeAllHeaders(ctx context.Context) error {
	if m.s.fire("db") {
		return errInjected
	}
	return m.m.PurgeAllHeaders(ctx)
}

// World

type World struct {
	C     Cfg
	Dir   string
	Drive string
	DB    string
	tape  *fakeTape

	tm   *tape.TapeManager
	meta *persisters.MetadataPersister
	mw   config.MetadataPersister
	rops *operations.Operations
	wops *operations.Operations
	fs   *fs.STFS
	k    *keyset
	fl   *faultState

	mu     sync.Mutex
	opened int // drive handles which have been given out and not been returned
	busy   chan struct{}
	nscr   int
}

type WOpt struct {
	readOnly  bool
	nilWrite  bool
	keyN      int
	overwrite bool
}

func newWorld(dir string, c Cfg) *World {
	c = c.norm()
	w := &World{C: c, Dir: dir, Drive: filepath.Join(dir, "drive.tar"), fl: &faultState{}}
	if c.Tape {
		w.tape = &fakeTape{}
	}
	if err := os.MkdirAll(dir, 0700); err != nil {
		fatalSetup("mkdir: %v", err)
	}
	return w
}

func (w *World) backend() config.BackendConfig {
	if w.C.Tape {
		w.busy = make(chan struct{}, 1)
		reading := false
		release := func() {
			w.mu.Lock()
			defer w.mu.Unlock()
			if w.opened > 0 {
				w.opened--
				<-w.busy
			}
			reading = false
		}
		writing := false
		return config.BackendConfig{
			GetWriter: func() (config.DriveWriterConfig, error) {
				if w.fl.fire("open-w") {
					return config.DriveWriterConfig{}, errInjected
				}
				w.busy <- struct{}{}
				w.mu.Lock()
				w.opened++
				w.mu.Unlock()
				writing = true
				w.tape.GoToEndOfTape(0)
				return config.DriveWriterConfig{Drive: faultWriter{w.tape, w.fl}, DriveIsRegular: false}, nil
			},
			CloseWriter: func() error {
				if writing {
					writing = false
					// st(4) writes a file mark if the last operation was a write
					if n := len(w.tape.objs); n > 0 && !w.tape.objs[n-1].mark && w.tape.pos == n {
						w.tape.objs = append(w.tape.objs, tapeObj{mark: true})
						w.tape.pos++
					}
				}
				release()
				if w.fl.fire("close-w") {
					return errInjected
				}
				return nil
			},
			GetReader: func() (config.DriveReaderConfig, error) {
				if w.fl.fire("open-r") {
					return config.DriveReaderConfig{}, errInjected
				}
				if !reading {
					w.busy <- struct{}{}
					w.mu.Lock()
					w.opened++
					w.mu.Unlock()
					reading = true
					w.tape.pos = 0
				}
				return config.DriveReaderConfig{Drive: faultReader{w.tape, w.fl}, DriveIsRegular: false}, nil
			},
			CloseReader: func() error {
				release()
				if w.fl.fire("close-r") {
					return errInjected
				}
				return nil
			},
			MagneticTapeIO: w.tape,
		}
	}
	tm := w.tm
	return config.BackendConfig{
		GetWriter: func() (config.DriveWriterConfig, error) {
			if w.fl.fire("open-w") {
				return config.DriveWriterConfig{}, errInjected
			}
			d, err := tm.GetWriter()
			if err != nil {
				return d, err
			}
			d.Drive = faultWriter{d.Drive, w.fl}
			return d, nil
		},
		CloseWriter: func() error {
			err := tm.Close()
			if w.fl.fire("close-w") {
				return errInjected
			}
			return err
		},
		GetReader: func() (config.DriveReaderConfig, error) {
			if w.fl.fire("open-r") {
				return config.DriveReaderConfig{}, errInjected
			}
			d, err := tm.GetReader()
			if err != nil {
				return d, err
			}
			d.Drive = faultReader{d.Drive, w.fl}
			return d, nil
		},
		CloseReader: func() error {
			err := tm.Close()
			if w.fl.fire("close-r") {
				return errInjected
			}
			return err
		},
		MagneticTapeIO: mtio.MagneticTapeIO{},
	}
}

func (w *World) pipes() config.PipeConfig {
	return config.PipeConfig{Compression: w.C.Comp, Encryption: w.C.Enc, Signature: w.C.Sig, RecordSize: w.C.RecordSize}
}

func (w *World) readCrypto() config.CryptoConfig {
	return config.CryptoConfig{Recipient: w.k.sigRecipient, Identity: w.k.encIdentity}
}

// build composes the filesystem over the drive and the index at db.
func (w *World) build(db string, o WOpt) error {
	w.k = mustKeys(w.C.Enc, w.C.Sig, o.keyN)
	w.DB = db
	if !w.C.Tape {
		w.tm = tape.NewTapeManager(w.Drive, mtio.MagneticTapeIO{}, w.C.RecordSize, o.overwrite)
	}
	w.meta = persisters.NewMetadataPersister(db)
	if err := w.meta.Open(); err != nil {
		return err
	}
	w.mw = faultMeta{w.meta, w.fl}
	be := w.backend()
	mc := config.MetadataConfig{Metadata: w.mw}
	w.rops = operations.NewOperations(be, mc, w.pipes(), w.readCrypto(), func(*config.HeaderEvent) {})
	w.wops = operations.NewOperations(be, mc, w.pipes(), config.CryptoConfig{Recipient: w.k.encRecipient, Identity: w.k.sigIdentity}, func(*config.HeaderEvent) {})
	gb := func() (cache.WriteCache, func() error, error) {
		if w.fl.fire("buf") {
			return nil, nil, errInjected
		}
		return cache.NewCacheWrite(w.Dir, w.C.Cache)
	}
	wops := w.wops
	if o.nilWrite {
		wops = nil
		gb = nil
	}
	w.fs = fs.NewSTFS(w.rops, wops, mc, w.C.Level, gb, o.readOnly, w.C.WOnlyRead, func(*config.Header) {}, nolog{})
	return nil
}

func (w *World) freshDB() string {
	w.nscr++
	return filepath.Join(w.Dir, fmt.Sprintf("m%03d.sqlite", w.nscr))
}

// open builds the world and initializes it.
func (w *World) open() error {
	if err := w.build(w.freshDB(), WOpt{}); err != nil {
		return err
	}
	_, err := w.fs.Initialize(w.C.Root, os.ModePerm)
	return err
}

func (w *World) tapeBytes() []byte {
	if w.C.Tape {
		return w.tape.raw()
	}
	b, err := os.ReadFile(w.Drive)
	if err != nil {
		return nil
	}
	return b
}

// twin returns a world over a copy of the drive with its own index (a copy of this one's if keepIndex is set).
func (w *World) twin(keepIndex bool, o WOpt) (*World, error) {
	w.nscr++
	t := newWorld(filepath.Join(w.Dir, fmt.Sprintf("twin%03d", w.nscr)), w.C)
	if w.C.Tape {
		t.tape = w.tape.clone()
	} else if b, err := os.ReadFile(w.Drive); err == nil {
		if err := os.WriteFile(t.Drive, b, 0600); err != nil {
			return nil, err
		}
	}
	db := t.freshDB()
	if keepIndex {
		b, err := os.ReadFile(w.DB)
		if err != nil {
			return nil, err
		}
		if err := os.WriteFile(db, b, 0600); err != nil {
			return nil, err
		}
	}
	return t, t.build(db, o)
}

func (w *World) drop() {
	closeDB(w.meta)
	os.RemoveAll(w.Dir)
}

// index runs recovery.Index with the real callbacks.
func (w *World) index(record, block int, overwrite bool, seen func(hdr *tar.Header)) error {
	reader, err := w.rops.GetBackend().GetReader()
	if err != nil {
		return err
	}
	defer w.rops.GetBackend().CloseReader()
	return recovery.Index(reader, w.rops.GetBackend().MagneticTapeIO, w.rops.GetMetadata(), w.rops.GetPipes(), w.rops.GetCrypto(),
		record, block, overwrite, false, 0,
		func(hdr *tar.Header, i int) error {
			return encryption.DecryptHeader(hdr, w.C.Enc, w.k.encIdentity)
		},
		func(hdr *tar.Header, isRegular bool) error {
			if err := signature.VerifyHeader(hdr, isRegular, w.C.Sig, w.k.sigRecipient); err != nil {
				return err
			}
			if seen != nil {
				seen(hdr)
			}
			return nil
		},
		func(*config.Header) {})
}

// fetch returns the content at a position and the header which was announced for it.
func (w *World) fetch(record, block int) ([]byte, *config.Header, error) {
	reader, err := w.rops.GetBackend().GetReader()
	if err != nil {
		return nil, nil, err
	}
	defer w.rops.GetBackend().CloseReader()
	buf := &bytes.Buffer{}
	var h *config.Header
	err = recovery.Fetch(reader, w.rops.GetBackend().MagneticTapeIO, w.rops.GetPipes(), w.rops.GetCrypto(),
		func(string, os.FileMode) (io.WriteCloser, error) { return nopWC{buf}, nil },
		func(string, os.FileMode) error { return nil },
		record, block, "out", false, func(hdr *config.Header) { h = hdr })
	return buf.Bytes(), h, err
}

func (w *World) restore(name string) ([]byte, error) {
	buf := &bytes.Buffer{}
	err := w.rops.Restore(
		func(string, os.FileMode) (io.WriteCloser, error) { return nopWC{buf}, nil },
		func(string, os.FileMode) error { return nil },
		name, "out", true)
	return buf.Bytes(), err
}

type nopWC struct{ io.Writer }

func (nopWC) Close() error { return nil }

// rows returns every live row of the index.
func (w *World) rows() ([]*config.Header, error) { return w.meta.GetHeaders(context.Background()) }

// free reports whether the drive can be opened for reading and writing.
func (w *World) free(d time.Duration) bool {
	done := make(chan struct{})
	go func() {
		defer close(done)
		be := w.rops.GetBackend()
		if _, err := os.Stat(w.Drive); err == nil || w.C.Tape {
			if _, err := be.GetWriter(); err == nil {
				be.CloseWriter()
			}
		}
		// Only then the reader: getting it again would reuse, and then close, one which has been left open
		if _, err := be.GetReader(); err == nil {
			be.CloseReader()
		}
	}()
	select {
	case <-done:
		return true
	case <-time.After(d):
		return false
	}
}

func fetchWith(reader config.DriveReaderConfig, w *World, crypto config.CryptoConfig, record, block int, dst io.Writer) error {
	return recovery.Fetch(reader, w.rops.GetBackend().MagneticTapeIO, w.rops.GetPipes(), crypto,
		func(string, os.FileMode) (io.WriteCloser, error) { return nopWC{dst}, nil },
		func(string, os.FileMode) error { return nil },
		record, block, "out", false, func(*config.Header) {})
}
