package main

import (
	"archive/tar"
	"bytes"
	"context"
	"fmt"
	"io"
	"math/rand"
	"os"
	"path"
	"sort"
	"strings"
	"time"

	"github.com/pojntfx/stfs/pkg/config"
)

type Op struct {
	K   string `json:"k"`
	P   string `json:"p,omitempty"`
	Q   string `json:"q,omitempty"`
	D   string `json:"d,omitempty"` // content: "len:seed" or a literal behind "="
	F   int    `json:"f,omitempty"` // open flags
	M   uint32 `json:"m,omitempty"` // permission bits
	A   int64  `json:"a,omitempty"`
	B   int64  `json:"b,omitempty"`
	S   []Op   `json:"s,omitempty"`
	Flt *Fault `json:"flt,omitempty"`
}

func (o Op) String() string {
	s := o.K
	if o.P != "" {
		s += fmt.Sprintf(" %q", o.P)
	}
	if o.Q != "" {
		s += fmt.Sprintf(" %q", o.Q)
	}
	if o.D != "" {
		s += " data=" + o.D
	}
	if o.F != 0 {
		s += fmt.Sprintf(" flags=%#x", o.F)
	}
	if o.M != 0 {
		s += fmt.Sprintf(" perm=%o", o.M)
	}
	if o.A != 0 || o.B != 0 {
		s += fmt.Sprintf(" a=%d b=%d", o.A, o.B)
	}
	for _, x := range o.S {
		s += " [" + x.String() + "]"
	}
	return s
}

// content expands a content specification.
func content(d string) []byte {
	if strings.HasPrefix(d, "=") {
		return []byte(d[1:])
	}
	var n, seed int64
	if _, err := fmt.Sscanf(d, "%d:%d", &n, &seed); err != nil {
		return nil
	}
	b := make([]byte, n)
	r := rand.New(rand.NewSource(seed))
	if seed%2 == 0 {
		r.Read(b)
	} else {
		for i := range b {
			b[i] = byte('a' + (i/7+int(seed))%26)
		}
	}
	return b
}

type fakeInfo struct {
	name string
	size int64
	mode os.FileMode
	mt   time.Time
}

func (f fakeInfo) Name() string       { return f.name }
func (f fakeInfo) Size() int64        { return f.size }
func (f fakeInfo) Mode() os.FileMode  { return f.mode }
func (f fakeInfo) ModTime() time.Time { return f.mt }
func (f fakeInfo) IsDir() bool        { return f.mode.IsDir() }
func (f fakeInfo) Sys() interface{}   { return nil }

type memSrc struct {
	*bytes.Reader
	fl *faultState
}

func (s memSrc) Close() error { return nil }
func (s memSrc) Read(p []byte) (int, error) {
	if s.fl != nil && s.fl.fire("src-read") {
		return 0, errInjected
	}
	return s.Reader.Read(p)
}
func (s memSrc) Seek(o int64, w int) (int64, error) {
	if s.fl != nil && s.fl.fire("src-seek") {
		return 0, errInjected
	}
	return s.Reader.Seek(o, w)
}

var baseTime = time.Date(2021, 3, 4, 5, 6, 7, 0, time.UTC)

// sources returns the data source of an archive-level call.
func (w *World) sources(s []Op) func() (config.FileConfig, error) {
	i := 0
	return func() (config.FileConfig, error) {
		if i >= len(s) {
			return config.FileConfig{}, io.EOF
		}
		if w.fl.fire("src-next") {
			return config.FileConfig{}, errInjected
		}
		o := s[i]
		i++
		d := content(o.D)
		mode := os.FileMode(o.M)
		if o.K == "dir" {
			mode |= os.ModeDir
			d = nil
		}
		return config.FileConfig{
			GetFile: func() (io.ReadSeekCloser, error) {
				if w.fl.fire("src-open") {
					return nil, errInjected
				}
				return memSrc{bytes.NewReader(d), w.fl}, nil
			},
			Info: fakeInfo{path.Base(o.P), int64(len(d)), mode, baseTime},
			Path: o.P,
		}, nil
	}
}

// exec runs one operation against the real code.
func (w *World) exec(o Op) (res string, err error) {
	f := w.fs
	switch o.K {
	case "create":
		h, err := f.Create(o.P)
		if err != nil {
			return "", err
		}
		if d := content(o.D); len(d) > 0 {
			if n, err := h.Write(d); err != nil || n != len(d) {
				h.Close()
				return "", fmt.Errorf("write: %d %w", n, err)
			}
		}
		return "", h.Close()
	case "write":
		h, err := f.OpenFile(o.P, o.F, os.FileMode(o.M))
		if err != nil {
			return "", err
		}
		if o.B > 0 {
			if err := h.Truncate(o.B - 1); err != nil {
				h.Close()
				return "", fmt.Errorf("truncate: %w", err)
			}
		}
		if o.A > 0 {
			if n, err := h.Seek(o.A, io.SeekStart); err != nil || n != o.A {
				h.Close()
				return "", fmt.Errorf("seek: %d %w", n, err)
			}
		}
		if d := content(o.D); len(d) > 0 {
			if n, err := h.Write(d); err != nil || n != len(d) {
				h.Close()
				return "", fmt.Errorf("write: %d %w", n, err)
			}
		}
		return "", h.Close()
	case "openro":
		h, err := f.OpenFile(o.P, o.F, os.FileMode(o.M))
		if err != nil {
			return "", err
		}
		return "", h.Close()
	case "mkdir":
		return "", f.Mkdir(o.P, os.FileMode(o.M))
	case "mkdirall":
		return "", f.MkdirAll(o.P, os.FileMode(o.M))
	case "remove":
		return "", f.Remove(o.P)
	case "removeall":
		return "", f.RemoveAll(o.P)
	case "rename":
		return "", f.Rename(o.P, o.Q)
	case "chmod":
		return "", f.Chmod(o.P, os.FileMode(o.M))
	case "chown":
		return "", f.Chown(o.P, int(o.A), int(o.B))
	case "chtimes":
		return "", f.Chtimes(o.P, time.Unix(0, o.A), time.Unix(0, o.B))
	case "symlink":
		return "", f.SymlinkIfPossible(o.P, o.Q)
	case "stat":
		fi, err := f.Stat(o.P)
		if err != nil {
			return "", err
		}
		e := entOf(fi)
		return fmt.Sprintf("dir=%v mode=%o size=%d", e.Dir, bits(e.Mode), e.Size), nil
	case "read":
		b, err := readFile(f, o.P)
		return short(b), err
	case "list":
		h, err := f.Open(o.P)
		if err != nil {
			return "", err
		}
		infos, err := h.Readdir(int(o.A))
		if err != nil {
			h.Close()
			return "", err
		}
		names := []string{}
		for _, fi := range infos {
			names = append(names, fi.Name())
		}
		sort.Strings(names)
		return strings.Join(names, "\x00"), h.Close()
	case "held":
		// A file is renamed while it is open
		h, err := f.OpenFile(o.P, os.O_RDWR|os.O_TRUNC, 0)
		if err != nil {
			return "", err
		}
		if _, err := h.Write(content(o.D)); err != nil {
			h.Close()
			return "", err
		}
		if err := f.Rename(o.P, o.Q); err != nil {
			h.Close()
			return "", err
		}
		return "", h.Close()
	case "paged":
		// A directory is listed one entry after another
		h, err := f.Open(o.P)
		if err != nil {
			return "", err
		}
		defer h.Close()
		names := []string{}
		for i := 0; i < int(o.A); i++ {
			l, err := h.Readdirnames(1)
			if err != nil {
				return "", err
			}
			names = append(names, l...)
		}
		sort.Strings(names)
		return strings.Join(names, "\x00"), nil
	case "links":
		hdrs, err := w.meta.GetHeaders(context.Background())
		if err != nil {
			return "", err
		}
		names := []string{}
		for _, h := range hdrs {
			if h.Linkname != "" {
				names = append(names, h.Linkname)
			}
		}
		sort.Strings(names)
		return strings.Join(names, " "), nil
	case "opsarchive":
		_, err := w.wops.Archive(w.sources(o.S), w.C.Level, false, false)
		return "", err
	case "opsupdate":
		_, err := w.wops.Update(w.sources(o.S), w.C.Level, o.A == 1, false)
		return "", err
	case "opsdelete":
		return "", w.wops.Delete(o.P)
	case "opsmove":
		return "", w.wops.Move(o.P, o.Q)
	case "restore":
		b, err := w.restore(o.P)
		return short(b), err
	case "reopen":
		closeDB(w.meta)
		if err := w.build(w.DB, WOpt{}); err != nil {
			return "", err
		}
		_, err := w.fs.Initialize(w.C.Root, os.ModePerm)
		return "", err
	case "reindex":
		closeDB(w.meta)
		if err := w.build(w.freshDB(), WOpt{}); err != nil {
			return "", err
		}
		_, err := w.fs.Initialize(w.C.Root, os.ModePerm)
		return "", err
	case "pad":
		// What other implementations put behind an archive: zeros
		if w.C.Tape {
			return "", nil
		}
		h, err := os.OpenFile(w.Drive, os.O_APPEND|os.O_WRONLY, 0)
		if err != nil {
			return "", nil
		}
		defer h.Close()
		_, err = h.Write(make([]byte, 512*o.A))
		return "", err
	}
	panic(setupError{"unknown operation " + o.K})
}

// apply runs one operation against the reference.
func (m *Model) apply(o Op) (w want, res string) {
	p := norm(o.P)
	switch o.K {
	case "create":
		if o.P == "" {
			return no(eInvalid, eNotExist), ""
		}
		w, _ := m.open(o.P, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0666)
		if w.okay() {
			n := m.N[p]
			if d := content(o.D); len(d) > 0 {
				n.Data = d
				n.Mtime = nil
			}
		}
		return w, ""
	case "write", "openro":
		if o.P == "" {
			return no(eInvalid, eNotExist), ""
		}
		w, _ := m.open(o.P, o.F, os.FileMode(o.M))
		if w.okay() && o.K == "write" {
			n := m.N[p]
			if o.B > 0 {
				n.Data = resize(n.Data, o.B-1)
				n.Mtime = nil
			}
			if d := content(o.D); len(d) > 0 {
				off := o.A
				if o.F&os.O_APPEND != 0 {
					off = int64(len(n.Data))
				}
				n.Data = writeAt(n.Data, d, off)
				n.Mtime = nil
			}
		}
		return w, ""
	case "mkdir":
		return m.mkdir(o.P, os.FileMode(o.M)), ""
	case "mkdirall":
		return m.mkdirAll(o.P, os.FileMode(o.M)), ""
	case "remove":
		return m.remove(o.P), ""
	case "removeall":
		return m.removeAll(o.P), ""
	case "rename":
		if o.P == "" || o.Q == "" {
			return no(eInvalid, eNotExist), ""
		}
		return m.rename(o.P, o.Q), ""
	case "chmod":
		return m.attr(o.P, func(n *MNode) { n.Mode = os.FileMode(o.M) }), ""
	case "chown":
		return m.attr(o.P, func(n *MNode) { n.UID, n.GID = int(o.A), int(o.B) }), ""
	case "chtimes":
		return m.attr(o.P, func(n *MNode) {
			a, b := time.Unix(0, o.A), time.Unix(0, o.B)
			n.Atime, n.Mtime = &a, &b
		}), ""
	case "stat":
		n, exists := m.N[p]
		if !exists {
			return m.missing(p), ""
		}
		return ok(), fmt.Sprintf("dir=%v mode=%o size=%d", n.Dir, bits(n.Mode), len(n.Data))
	case "read", "restore":
		n, exists := m.N[p]
		if !exists {
			return m.missing(p), ""
		}
		if n.Dir {
			return no(eIsDir), ""
		}
		return ok(), short(n.Data)
	case "list":
		n, exists := m.N[p]
		if !exists {
			return m.missing(p), ""
		}
		if !n.Dir {
			return no(eNotDir, eIsDir, eOther), ""
		}
		names := []string{}
		for _, k := range m.kids(p) {
			names = append(names, path.Base(k))
		}
		sort.Strings(names)
		return ok(), strings.Join(names, "\x00")
	case "opsarchive":
		for _, s := range o.S {
			mt := baseTime
			n := &MNode{Dir: s.K == "dir", Mode: os.FileMode(s.M), Mtime: &mt}
			if !n.Dir {
				n.Data = content(s.D)
			}
			m.N[norm(s.P)] = n
		}
		return ok(), ""
	case "opsupdate":
		for _, s := range o.S {
			n := m.N[norm(s.P)]
			if n == nil {
				return no(eNotExist), ""
			}
			mt := baseTime
			n.Mode, n.UID, n.GID, n.Mtime, n.Atime = os.FileMode(s.M), 0, 0, &mt, nil
			if o.A == 1 && !n.Dir {
				n.Data = content(s.D)
			}
		}
		return ok(), ""
	case "opsdelete":
		if _, exists := m.N[p]; !exists {
			return m.missing(p), ""
		}
		return m.removeAll(o.P), ""
	case "opsmove":
		return m.rename(o.P, o.Q), ""
	case "reopen", "reindex", "symlink", "pad":
		return ok(), ""
	case "held":
		if w := m.rename(o.P, o.Q); !w.okay() {
			return w, ""
		}
		m.N[norm(o.Q)].Data = content(o.D)
		return ok(), ""
	case "paged":
		names := []string{}
		for _, k := range m.kids(p) {
			names = append(names, path.Base(k))
		}
		sort.Strings(names)
		return ok(), strings.Join(names, "\x00")
	case "links":
		return ok(), o.D
	}
	panic(setupError{"unknown operation " + o.K})
}

func resize(b []byte, n int64) []byte {
	if n <= int64(len(b)) {
		return append([]byte{}, b[:n]...)
	}
	return append(append([]byte{}, b...), make([]byte, n-int64(len(b)))...)
}

func writeAt(b, d []byte, off int64) []byte {
	if len(d) == 0 {
		return b
	}
	if end := off + int64(len(d)); end > int64(len(b)) {
		b = resize(b, end)
	} else {
		b = append([]byte{}, b...)
	}
	copy(b[off:], d)
	return b
}

// guard runs f and reports a panic or that it did not return in time.
func guard(d time.Duration, f func()) (problem string) {
	done := make(chan string, 1)
	go func() {
		defer func() {
			if r := recover(); r != nil {
				if s, ok := r.(setupError); ok {
					done <- "setup: " + s.s
					return
				}
				done <- fmt.Sprintf("panic: %v\n%s", r, stackTrace())
			}
		}()
		f()
		done <- ""
	}()
	t := time.NewTimer(d)
	defer t.Stop()
	select {
	case s := <-done:
		return s
	case <-t.C:
		return "hang: the call did not return within " + d.String()
	}
}

// Generator

type GenOpt struct {
	symlinks bool
	archive  bool
	reopen   bool
	weird    bool // unusual characters in names
	spell    bool // alternative spellings of paths
	invalid  int  // percentage of paths which are chosen without regard for what exists
	deep     bool
	maxLen   int64
	mutate   bool // only mutating operations
	pad      bool // the tape is padded in between
	weights  map[string]int
}

var (
	plainNames = []string{"a", "b", "c", "dir", "dir1", "dir2", "file", "file1"}
	weirdNames = []string{"a_b", "axb", "a%b", "ab", "a", "A", "sp ace", "d.d", "x.gz", "x", "x.gz.age", "ä", "日本", ".hidden", "a b%", "_", "%", "...", "a'b", "a\"b", "a\\b", "-", "dir", "dirx", "dir_", "x.zst", "x.age", "x.pgp", "ü.bz2", "di", " lead", "trail ", "new\nline", "tab\tx", "*", "a?", "[a]", "a=b", "#x", "~", "a.", "..a", "con:1", "a,b;c", ".gz", ".age"}
)

type Gen struct {
	r *rand.Rand
	o GenOpt
	m *Model
	n int64
}

func (g *Gen) name() string {
	return pickName(g.r, g.o.weird)
}

var nameSuffixes = []string{".gz", ".lz4", ".zst", ".br", ".bz2", ".age", ".pgp"}

func pickName(r *rand.Rand, weird bool) string {
	if !weird || r.Intn(100) >= 75 {
		return plainNames[r.Intn(len(plainNames))]
	}
	switch r.Intn(14) {
	case 0, 1:
		// Names which look like those of compressed or encrypted members
		n := plainNames[r.Intn(3)]
		s := nameSuffixes[r.Intn(len(nameSuffixes))]
		for n += s; r.Intn(2) == 0; n += s {
			if r.Intn(3) == 0 {
				s = nameSuffixes[r.Intn(len(nameSuffixes))]
			}
		}
		return n
	case 2:
		// Names around the limits of the header formats
		return strings.Repeat("n", []int{99, 100, 101, 155, 156, 255}[r.Intn(6)]-1) + plainNames[r.Intn(3)]
	}
	return weirdNames[r.Intn(len(weirdNames))]
}

func (g *Gen) pick(f func(p string, n *MNode) bool) (string, bool) {
	c := []string{}
	for _, k := range g.m.names() {
		if f(k, g.m.N[k]) {
			c = append(c, k)
		}
	}
	if len(c) == 0 {
		return "", false
	}
	return c[g.r.Intn(len(c))], true
}

func (g *Gen) dir() string {
	p, _ := g.pick(func(p string, n *MNode) bool { return n.Dir })
	return p
}

func (g *Gen) fresh() string {
	for i := 0; ; i++ {
		p := path.Join(g.dir(), g.name())
		if _, ok := g.m.N[p]; !ok || i > 8 {
			return p
		}
	}
}

func (g *Gen) any() string {
	if g.r.Intn(100) < g.o.invalid {
		p := "/" + g.name()
		for g.r.Intn(3) == 0 {
			p = path.Join(p, g.name())
		}
		if g.r.Intn(2) == 0 {
			p = path.Join(g.existing(), g.name())
		}
		return p
	}
	return g.existing()
}

func (g *Gen) existing() string {
	p, ok := g.pick(func(p string, n *MNode) bool { return p != "/" })
	if !ok {
		return "/" + g.name()
	}
	return p
}

func (g *Gen) file() string {
	p, ok := g.pick(func(p string, n *MNode) bool { return !n.Dir })
	if !ok {
		return g.fresh()
	}
	return p
}

// spelled returns an equivalent spelling of p.
func (g *Gen) spelled(p string) string {
	if !g.o.spell || g.r.Intn(100) < 50 || p == "/" {
		return p
	}
	switch g.r.Intn(6) {
	case 0:
		return strings.TrimPrefix(p, "/")
	case 1:
		return "." + p
	case 2:
		return p + "/"
	case 3:
		return "/" + p
	case 4:
		return path.Dir(p) + "/./" + path.Base(p)
	default:
		return "/zz/.." + p
	}
}

func (g *Gen) size() int64 {
	max := g.o.maxLen
	if max == 0 {
		max = 3000
	}
	switch g.r.Intn(10) {
	case 0:
		return 0
	case 1:
		return 1
	case 2:
		return []int64{511, 512, 513, 1024, 1023}[g.r.Intn(5)] % (max + 1)
	default:
		return g.r.Int63n(max + 1)
	}
}

func (g *Gen) data() string {
	g.n++
	return fmt.Sprintf("%d:%d", g.size(), g.n+g.r.Int63n(1000)*7)
}

func (g *Gen) perm() uint32 {
	m := []uint32{0644, 0600, 0755, 0700, 0777, 0400, 0640}[g.r.Intn(7)]
	if g.r.Intn(8) == 0 {
		m |= uint32([]os.FileMode{os.ModeSetuid, os.ModeSetgid, os.ModeSticky, os.ModeSetuid | os.ModeSticky}[g.r.Intn(4)])
	}
	return m
}

var defaultWeights = map[string]int{
	"create": 14, "write": 14, "openro": 4, "mkdir": 12, "mkdirall": 6, "remove": 8, "removeall": 5, "rename": 14,
	"chmod": 5, "chown": 4, "chtimes": 5, "stat": 3, "read": 3, "list": 3, "opsarchive": 5, "opsupdate": 3, "opsdelete": 2, "opsmove": 2, "reopen": 3, "reindex": 2, "symlink": 3, "pad": 3,
}

var readOnlyKinds = map[string]bool{"stat": true, "read": true, "list": true, "openro": true}

func (g *Gen) next() Op {
	wts := g.o.weights
	if wts == nil {
		wts = defaultWeights
	}
	ks := []string{}
	total := 0
	for k, w := range wts {
		if (k == "symlink" && !g.o.symlinks) || (strings.HasPrefix(k, "ops") && !g.o.archive) || ((k == "reopen" || k == "reindex") && !g.o.reopen) || (k == "pad" && !g.o.pad) || (g.o.mutate && readOnlyKinds[k]) {
			continue
		}
		ks = append(ks, k)
		total += w
	}
	sort.Strings(ks)
	x := g.r.Intn(total)
	k := ""
	for _, c := range ks {
		if x < wts[c] {
			k = c
			break
		}
		x -= wts[c]
	}
	// Start with something to work on
	if len(g.m.N) < 4 && g.r.Intn(3) > 0 {
		k = []string{"mkdir", "create", "mkdirall"}[g.r.Intn(3)]
	}
	o := g.gen(k)
	g.m.apply(o)
	return o
}

func (g *Gen) gen(k string) Op {
	o := Op{K: k}
	inv := g.r.Intn(100) < g.o.invalid
	switch k {
	case "create":
		o.P = g.fresh()
		if inv || g.r.Intn(4) == 0 {
			o.P = g.any()
		}
		o.D = g.data()
		o.P = g.spelled(o.P)
	case "write":
		o.P = g.file()
		if inv {
			o.P = g.any()
		}
		o.F = []int{os.O_WRONLY, os.O_RDWR}[g.r.Intn(2)]
		for _, f := range []int{os.O_CREATE, os.O_APPEND, os.O_TRUNC} {
			if g.r.Intn(3) == 0 {
				o.F |= f
			}
		}
		if g.r.Intn(10) == 0 {
			o.F |= os.O_CREATE | os.O_EXCL
		}
		o.M = g.perm()
		if g.r.Intn(5) > 0 {
			o.D = g.data()
		}
		if g.r.Intn(3) == 0 {
			o.A = g.size()
		}
		if g.r.Intn(5) == 0 {
			o.B = g.size() + 1
		}
		o.P = g.spelled(o.P)
	case "openro":
		o.P = g.any()
		o.F = os.O_RDONLY
		if n, exists := g.m.N[norm(o.P)]; exists && !n.Dir && g.r.Intn(3) == 0 {
			o.F |= []int{os.O_CREATE, os.O_CREATE | os.O_EXCL}[g.r.Intn(2)]
		}
		o.P = g.spelled(o.P)
	case "mkdir":
		o.P, o.M = g.fresh(), g.perm()
		if inv {
			o.P = g.any()
		}
		o.P = g.spelled(o.P)
	case "mkdirall":
		o.M = g.perm()
		o.P = g.fresh()
		for g.r.Intn(2) == 0 {
			o.P = path.Join(o.P, g.name())
		}
		if inv {
			o.P = path.Join(g.any(), g.name())
		}
		o.P = g.spelled(o.P)
	case "remove":
		o.P = g.any()
		if !inv && g.r.Intn(2) == 0 {
			o.P = g.file()
		}
		o.P = g.spelled(o.P)
	case "removeall":
		o.P = g.any()
		if !inv && g.r.Intn(2) == 0 {
			if d := g.dir(); d != "/" {
				o.P = d
			}
		}
		o.P = g.spelled(o.P)
	case "rename":
		o.P = g.any()
		switch g.r.Intn(6) {
		case 0:
			o.Q = g.any()
		case 1:
			if d := g.dir(); d != "/" {
				o.P = d
			}
			o.Q = path.Join(o.P, g.name())
		case 2:
			if d := g.dir(); d != "/" {
				o.P = d
			}
			o.Q = g.fresh()
		case 3:
			o.P = g.file()
			o.Q = g.file()
		default:
			o.Q = g.fresh()
		}
		o.P, o.Q = g.spelled(o.P), g.spelled(o.Q)
	case "chmod":
		o.P, o.M = g.spelled(g.any()), g.perm()
	case "chown":
		o.P, o.A, o.B = g.spelled(g.any()), int64(g.r.Intn(3000)), int64(g.r.Intn(3000))
	case "chtimes":
		o.P, o.A, o.B = g.spelled(g.any()), g.r.Int63n(1<<60)+1, g.r.Int63n(1<<60)+1
		if g.r.Intn(2) == 0 {
			o.A, o.B = o.A/1e9*1e9, o.B/1e9*1e9
		}
	case "stat", "read":
		o.P = g.spelled(g.any())
	case "list":
		o.P, o.A = g.spelled(g.dir()), -1
		if inv {
			o.P = g.spelled(g.any())
		}
	case "opsarchive":
		seen := map[string]bool{}
		newdirs := []string{}
		for i := 0; i < 1+g.r.Intn(5); i++ {
			d := g.dir()
			if len(newdirs) > 0 && g.r.Intn(2) == 0 {
				d = newdirs[g.r.Intn(len(newdirs))]
			}
			p := path.Join(d, g.name())
			if n, ok := g.m.N[p]; seen[p] || (ok && n.Dir) {
				continue
			}
			seen[p] = true
			s := Op{K: "file", P: p, M: g.perm()}
			if _, ok := g.m.N[p]; !ok && g.r.Intn(3) == 0 {
				s.K = "dir"
				newdirs = append(newdirs, p)
			} else {
				s.D = g.data()
			}
			o.S = append(o.S, s)
		}
	case "opsupdate":
		seen := map[string]bool{}
		if g.r.Intn(2) == 0 {
			o.A = 1
		}
		for i := 0; i < 1+g.r.Intn(3); i++ {
			p := g.file()
			if n, ok := g.m.N[p]; seen[p] || !ok || n.Dir {
				continue
			}
			seen[p] = true
			o.S = append(o.S, Op{K: "file", P: p, M: g.perm(), D: g.data()})
		}
	case "opsdelete":
		o.P = g.existing()
	case "opsmove":
		o.P = g.existing()
		for i := 0; i < 10; i++ {
			o.Q = g.fresh()
			if _, ok := g.m.N[o.Q]; !ok && o.Q != o.P && !under(o.Q, o.P) {
				break
			}
			o.Q = ""
		}
		if o.Q == "" {
			return Op{K: "stat", P: "/"}
		}
	case "pad":
		o.A = []int64{1, 2, 7, 16, 20, 33}[g.r.Intn(6)]
	case "symlink":
		p, exists := g.pick(func(p string, n *MNode) bool { return !n.Dir })
		if !exists {
			return Op{K: "stat", P: "/"}
		}
		o.P = p
		o.Q = path.Join(g.dir(), "link"+fmt.Sprint(g.r.Intn(1000)))
	}
	return o
}

func genOps(r *rand.Rand, o GenOpt, n int) []Op {
	g := &Gen{r: r, o: o, m: newModel()}
	ops := []Op{}
	for i := 0; i < n; i++ {
		ops = append(ops, g.next())
	}
	return ops
}

var _ = tar.TypeReg
