package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"os"
	"path"
	"sort"
	"strings"
	"time"

	"github.com/pojntfx/stfs/pkg/config"
)

// C10: every call returns and leaves the drive free, whatever fails

const faultLimit = 15 * time.Second

var faultKinds = []string{"open-w", "open-r", "close-w", "close-r", "write", "short-write", "read", "seek", "db", "buf", "src-next", "src-open", "src-read", "src-seek"}

type c10X struct {
	Op  Op  `json:"op"`
	Max int `json:"max"` // positions per kind of fault
}

// execX runs the calls which only C10 needs besides those of exec.
func (w *World) execX(o Op) (err error) {
	switch o.K {
	case "badlevel":
		_, err = w.wops.Archive(w.sources(o.S), "bogus", o.A == 1, false)
	case "badlevelupdate":
		_, err = w.wops.Update(w.sources(o.S), "bogus", true, false)
	case "overwrite":
		_, err = w.wops.Archive(w.sources(o.S), w.C.Level, true, false)
	case "opsinit":
		err = w.wops.Initialize(o.P, os.ModePerm, w.C.Level)
	case "fsinit":
		_, err = w.fs.Initialize(w.C.Root, os.ModePerm)
	case "restoretree":
		err = w.rops.Restore(
			func(string, os.FileMode) (io.WriteCloser, error) {
				if w.fl.fire("buf") {
					return nil, errInjected
				}
				return nopWC{io.Discard}, nil
			},
			func(string, os.FileMode) error {
				if w.fl.fire("buf") {
					return errInjected
				}
				return nil
			}, o.P, o.Q, o.A == 1)
	case "handle":
		f, err := w.fs.OpenFile(o.P, o.F, os.FileMode(o.M))
		if err != nil {
			return err
		}
		for _, s := range o.S {
			switch s.K {
			case "read":
				_, err = f.Read(make([]byte, s.A))
			case "readat":
				_, err = f.ReadAt(make([]byte, s.A), s.B)
			case "write":
				_, err = f.Write(content(s.D))
			case "writeat":
				_, err = f.WriteAt(content(s.D), s.B)
			case "writestring":
				_, err = f.WriteString(string(content(s.D)))
			case "seek":
				_, err = f.Seek(s.A, int(s.B))
			case "truncate":
				err = f.Truncate(s.A)
			case "sync":
				err = f.Sync()
			case "stat":
				_, err = f.Stat()
			case "readdir":
				_, err = f.Readdir(int(s.A))
			case "readdirnames":
				_, err = f.Readdirnames(int(s.A))
			}
		}
		if e := f.Close(); e != nil {
			err = e
		}
		if o.A == 1 {
			f.Close()
		}
		return err
	default:
		_, err = w.exec(o)
	}
	return err
}

func genHandle(r *rand.Rand, g *Gen) Op {
	o := Op{K: "handle", P: g.spelled(g.any()), F: []int{os.O_RDONLY, os.O_WRONLY, os.O_RDWR}[r.Intn(3)], M: 0644, A: int64(r.Intn(4) / 3)}
	for _, f := range []int{os.O_CREATE, os.O_APPEND, os.O_TRUNC} {
		if r.Intn(4) == 0 {
			o.F |= f
		}
	}
	for i := 0; i < 1+r.Intn(5); i++ {
		k := []string{"read", "read", "readat", "write", "write", "writeat", "writestring", "seek", "truncate", "sync", "stat", "readdir", "readdirnames"}[r.Intn(13)]
		s := Op{K: k}
		switch k {
		case "read", "truncate":
			s.A = g.size()
		case "readat":
			s.A, s.B = g.size(), g.size()-1
		case "write", "writestring":
			s.D = g.data()
		case "writeat":
			s.D, s.B = g.data(), g.size()-1
		case "seek":
			s.A, s.B = g.size()-r.Int63n(20), int64(r.Intn(3))
		case "readdir", "readdirnames":
			s.A = int64(r.Intn(4) - 1)
		}
		o.S = append(o.S, s)
	}
	return o
}

func genC10(r *rand.Rand, tier string, i int) Case {
	c := Case{C: genCfg(r, true)}
	g := &Gen{r: r, o: GenOpt{invalid: 25, archive: true, symlinks: r.Intn(4) == 0, weird: r.Intn(4) == 0, spell: r.Intn(3) == 0, mutate: true}, m: newModel()}
	for j := 0; j < 2+r.Intn(6); j++ {
		c.Ops = append(c.Ops, g.next())
	}
	x := c10X{Max: 3}
	if tier == "thorough" {
		x.Max = 12
	}
	kinds := []string{"create", "write", "openro", "mkdir", "mkdirall", "remove", "removeall", "rename", "chmod", "chown", "chtimes", "stat", "read", "list",
		"opsarchive", "opsupdate", "opsdelete", "opsmove", "restoretree", "handle", "handle", "handle", "missing-delete", "missing-move", "missing-restore", "missing-update", "badlevel", "badlevelupdate", "overwrite", "opsinit", "fsinit", "reindex", "initfresh", "symlink", "move-onto"}
	switch k := kinds[i%len(kinds)]; k {
	case "handle":
		x.Op = genHandle(r, g)
	case "missing-delete":
		x.Op = Op{K: "opsdelete", P: "/missing/" + g.name()}
	case "missing-move":
		x.Op = Op{K: "opsmove", P: "/missing/" + g.name(), Q: "/to"}
	case "move-onto":
		x.Op = Op{K: "opsmove", P: g.existing(), Q: g.existing()}
	case "missing-restore":
		x.Op = Op{K: "restoretree", P: "/missing/" + g.name(), Q: "out", A: int64(r.Intn(2))}
	case "missing-update":
		x.Op = Op{K: "opsupdate", A: int64(r.Intn(2)), S: []Op{{K: "file", P: "/missing", M: 0644, D: "100:3"}}}
	case "badlevel", "badlevelupdate", "overwrite":
		x.Op = Op{K: k, A: int64(r.Intn(2)), S: []Op{{K: "file", P: "/new", M: 0644, D: "100:3"}, {K: "dir", P: "/newdir", M: 0755}, {K: "file", P: "/newdir/x", M: 0644, D: "0:3"}}}
		if k == "badlevelupdate" {
			x.Op.S = []Op{{K: "file", P: g.file(), M: 0644, D: "100:3"}}
		}
	case "opsinit":
		x.Op = Op{K: k, P: "/"}
	case "restoretree":
		x.Op = Op{K: k, P: g.any(), Q: []string{"", "out"}[r.Intn(2)], A: int64(r.Intn(2))}
		if r.Intn(3) == 0 {
			x.Op.P = ""
		}
	case "fsinit":
		x.Op = Op{K: k}
	case "initfresh":
		c.Ops = nil
		x.Op = Op{K: "fsinit"}
	case "reindex":
		x.Op = Op{K: "fsinit", A: 1}
	default:
		x.Op = g.gen(k)
	}
	if len(x.Op.S) > 1 && r.Intn(3) == 0 && strings.HasPrefix(x.Op.K, "ops") {
		// One of the sources fails half way
		j := r.Intn(len(x.Op.S))
		x.Op.S[j].P = "/missing-parent/" + g.name()
	}
	c.X, _ = json.Marshal(x)
	return c
}

func runC10(c Case, dir string, st *Stats) *Viol {
	x := c10X{}
	if err := json.Unmarshal(c.X, &x); err != nil {
		fatalSetup("%v", err)
	}
	w := newWorld(dir, c.C)
	fresh := len(c.Ops) == 0 && x.Op.K == "fsinit"
	if fresh {
		if err := w.build(w.freshDB(), WOpt{}); err != nil {
			fatalSetup("%v", err)
		}
	} else {
		var err error
		if v := call(-1, "Initialize", func() { err = w.open() }); v != nil {
			return v
		}
		if err != nil {
			return viol(-1, "initialize", "initializing an empty drive fails: %v", err)
		}
		for i, o := range c.Ops {
			if v := call(i, o.String(), func() { w.exec(o) }); v != nil {
				return v
			}
		}
	}
	defer func() { closeDB(w.meta) }()
	last := len(c.Ops)
	one := func(f *Fault) (map[string]int, *Viol) {
		tw, err := w.twin(x.Op.K != "fsinit" || x.Op.A != 1, WOpt{})
		if err != nil {
			fatalSetup("twin: %v", err)
		}
		what := x.Op.String()
		if f != nil {
			what += fmt.Sprintf(" with %s number %d failing", f.Kind, f.At+1)
		}
		tw.fl.arm(f)
		var res error
		s := guard(faultLimit, func() { res = tw.execX(x.Op) })
		counts := map[string]int{}
		tw.fl.mu.Lock()
		for k, n := range tw.fl.count {
			counts[k] = n
		}
		hit := tw.fl.hit
		tw.fl.mu.Unlock()
		tw.fl.arm(nil)
		if s != "" {
			if strings.HasPrefix(s, "setup: ") {
				panic(setupError{s})
			}
			key := "panic"
			d := ""
			if !strings.HasPrefix(s, "panic") {
				key, d = "hang", allStacks()
			}
			return counts, viol(last, key, "%s: %s\n%s", what, s, d)
		}
		st.eval(f == nil || hit)
		if f != nil {
			st.count("fault:" + f.Kind)
			if hit && res == nil {
				st.count("fault survived")
			}
		} else {
			st.count("op:" + x.Op.K)
			st.count("result:" + class(res))
		}
		if !tw.free(faultLimit) {
			return counts, viol(last, "hang-drive", "%s (%v): the drive is still in use after the call has returned\n%s", what, res, allStacks())
		}
		// Any next call returns, too
		probes := []Op{{K: "stat", P: "/"}, {K: "create", P: "/probe", D: "700:3"}, {K: "read", P: "/probe"}, {K: "opsdelete", P: "/probe"}, {K: "removeall", P: "/missing"}, {K: "mkdir", P: "/probedir", M: 0755}, {K: "opsarchive", S: []Op{{K: "file", P: "/probe2", M: 0644, D: "10:1"}}}}
		for _, p := range probes {
			if s := guard(faultLimit, func() { tw.exec(p) }); s != "" {
				if strings.HasPrefix(s, "setup: ") {
					panic(setupError{s})
				}
				key := "panic-probe"
				if !strings.HasPrefix(s, "panic") {
					key = "hang-probe"
				}
				return counts, viol(last, key, "%s (%v), and then %v: %s\n%s", what, res, p, s, allStacks())
			}
		}
		tw.drop()
		return counts, nil
	}
	counts, v := one(nil)
	if v != nil {
		return v
	}
	r := rand.New(rand.NewSource(c.Seed))
	ks := []string{}
	for k := range counts {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		at := []int{}
		if counts[k] <= x.Max {
			for i := 0; i < counts[k]; i++ {
				at = append(at, i)
			}
		} else {
			at = append(r.Perm(counts[k])[:x.Max-1], counts[k]-1)
		}
		for _, i := range at {
			if _, v := one(&Fault{Kind: k, At: i}); v != nil {
				return v
			}
		}
	}
	return nil
}

// C15: a read-only filesystem changes nothing

type c15X struct {
	NilWrite bool `json:"nilwrite"`
	KeepIdx  bool `json:"keepindex"`
	Calls    []Op `json:"calls"`
}

var permOps = map[string]bool{"create": true, "mkdir": true, "mkdirall": true, "remove": true, "removeall": true, "rename": true, "chmod": true, "chown": true, "chtimes": true, "symlink": true}

func genC15(r *rand.Rand, tier string, i int) Case {
	c := Case{C: genCfg(r, true)}
	g := &Gen{r: r, o: GenOpt{invalid: 20, archive: true, symlinks: r.Intn(4) == 0, weird: r.Intn(3) == 0, spell: r.Intn(3) == 0, mutate: true}, m: newModel()}
	for j := 0; j < 3+r.Intn(8); j++ {
		c.Ops = append(c.Ops, g.next())
	}
	x := c15X{NilWrite: r.Intn(2) == 0, KeepIdx: r.Intn(3) > 0}
	g.o.mutate = false
	n := 12 + r.Intn(12)
	if tier == "thorough" {
		n *= 3
	}
	ks := []string{"create", "mkdir", "mkdirall", "remove", "removeall", "rename", "chmod", "chown", "chtimes", "symlink", "stat", "lstat", "read", "list", "handle", "handle", "handle", "handle", "readlink"}
	for j := 0; j < n; j++ {
		k := ks[(j+i)%len(ks)]
		var o Op
		switch k {
		case "handle":
			o = genHandle(r, g)
			if r.Intn(3) == 0 {
				o.F |= os.O_CREATE | os.O_EXCL
			}
			if r.Intn(8) == 0 {
				o.P = g.spelled(g.dir())
			}
		case "lstat", "readlink":
			o = Op{K: k, P: g.spelled(g.any())}
		case "symlink":
			o = Op{K: k, P: g.any(), Q: g.fresh()}
		default:
			o = g.gen(k)
		}
		x.Calls = append(x.Calls, o)
	}
	c.X, _ = json.Marshal(x)
	return c
}

// roHandle runs the calls on a handle and returns what they answered.
func (w *World) roHandle(o Op) (openErr error, res []string, errs []error, final error) {
	f, err := w.fs.OpenFile(o.P, o.F, os.FileMode(o.M))
	if err != nil {
		return err, nil, nil, nil
	}
	for _, s := range o.S {
		out := ""
		var err error
		var n int
		switch s.K {
		case "read":
			b := make([]byte, s.A)
			n, err = f.Read(b)
			out = short(b[:n])
		case "readat":
			b := make([]byte, s.A)
			n, err = f.ReadAt(b, s.B)
			if n >= 0 && n <= len(b) {
				out = short(b[:n])
			}
		case "write":
			_, err = f.Write(content(s.D))
		case "writeat":
			_, err = f.WriteAt(content(s.D), s.B)
		case "writestring":
			_, err = f.WriteString(string(content(s.D)))
		case "seek":
			var p int64
			p, err = f.Seek(s.A, int(s.B))
			out = fmt.Sprint(p)
		case "truncate":
			err = f.Truncate(s.A)
		case "sync":
			err = f.Sync()
		case "stat":
			var fi os.FileInfo
			if fi, err = f.Stat(); err == nil {
				out = entOf(fi).String()
			}
		case "readdir", "readdirnames":
			var ns []string
			ns, err = f.Readdirnames(int(s.A))
			sort.Strings(ns)
			out = strings.Join(ns, "\x00")
		}
		res = append(res, out)
		errs = append(errs, err)
	}
	return nil, res, errs, f.Close()
}

func (w *World) roRead(o Op) (string, error) {
	switch o.K {
	case "stat":
		fi, err := w.fs.Stat(o.P)
		if err != nil {
			return "", err
		}
		return entOf(fi).String(), nil
	case "lstat":
		fi, _, err := w.fs.LstatIfPossible(o.P)
		if err != nil {
			return "", err
		}
		return entOf(fi).String(), nil
	case "readlink":
		return w.fs.ReadlinkIfPossible(o.P)
	}
	return w.exec(o)
}

func isMutHandle(k string) bool {
	return k == "write" || k == "writeat" || k == "writestring" || k == "truncate"
}

func runC15(c Case, dir string, st *Stats) *Viol {
	x := c15X{}
	if err := json.Unmarshal(c.X, &x); err != nil {
		fatalSetup("%v", err)
	}
	w := newWorld(dir, c.C)
	if err := w.open(); err != nil {
		st.undecided("initialize: %v", err)
		return nil
	}
	defer func() { closeDB(w.meta) }()
	for _, o := range c.Ops {
		if s := guard(callLimit, func() { w.exec(o) }); s != "" {
			st.undecided("%v: %s", o, strings.SplitN(s, "\n", 2)[0])
			return nil
		}
	}
	ro, err := w.twin(x.KeepIdx, WOpt{readOnly: true, nilWrite: x.NilWrite})
	if err != nil {
		fatalSetup("%v", err)
	}
	defer ro.drop()
	rw, err := w.twin(x.KeepIdx, WOpt{})
	if err != nil {
		fatalSetup("%v", err)
	}
	defer rw.drop()
	// A writable twin over the same data must not be changed by the comparison either: only read calls are made on it
	tape := ro.tapeBytes()
	var e1, e2 error
	if v := undecidedHang(st, guard(callLimit, func() {
		_, e1 = ro.fs.Initialize(c.C.norm().Root, os.ModePerm)
		_, e2 = rw.fs.Initialize(c.C.norm().Root, os.ModePerm)
	})); v {
		return nil
	}
	if e2 != nil {
		st.undecided("initialize: %v", e2)
		return nil
	}
	if e1 != nil {
		return viol(-1, "initialize", "opening the populated tape read-only fails (%v), opening it writable does not", e1)
	}
	if !bytes.Equal(tape, ro.tapeBytes()) {
		return viol(-1, "tape", "opening the tape read-only changes it")
	}
	idx, err := ro.dumpIndex()
	if err != nil {
		fatalSetup("%v", err)
	}
	// what was written last by the clock must not differ, so compare the index with itself only
	for i, o := range x.Calls {
		var v *Viol
		if undecidedHang(st, guard(callLimit, func() { v = ro.roCall(rw, i, o, st) })) {
			return nil
		}
		if v != nil {
			return v
		}
		if !bytes.Equal(tape, ro.tapeBytes()) {
			return viol(i, "tape", "%v changes the tape of a read-only filesystem", o)
		}
		now, err := ro.dumpIndex()
		if err != nil {
			fatalSetup("%v", err)
		}
		if now != idx {
			return viol(i, "index", "%v changes the index of a read-only filesystem", o)
		}
	}
	t1, e1 := walk(ro.fs, c.C.norm().Root, true)
	t2, e2 := walk(rw.fs, c.C.norm().Root, true)
	if (e1 == nil) != (e2 == nil) {
		return viol(-1, "walk", "walking the read-only filesystem: %v, the writable one: %v", e1, e2)
	}
	if e1 == nil {
		if d := treeDiff(t1, t2, true, nil); d != "" {
			return viol(-1, "walk", "the read-only and the writable filesystem differ: %s", d)
		}
	}
	if !bytes.Equal(tape, ro.tapeBytes()) {
		return viol(-1, "tape", "walking the read-only filesystem changes the tape")
	}
	return nil
}

func undecidedHang(st *Stats, s string) bool {
	if s == "" {
		return false
	}
	if strings.HasPrefix(s, "setup: ") {
		panic(setupError{s})
	}
	st.undecided("%s", strings.SplitN(s, "\n", 2)[0])
	return true
}

func (w *World) roCall(rw *World, i int, o Op, st *Stats) *Viol {
	st.count(o.K)
	st.eval(true)
	if permOps[o.K] {
		var err error
		if o.K == "create" {
			_, err = w.fs.Create(o.P)
		} else {
			_, err = w.exec(o)
		}
		if class(err) != ePerm {
			return viol(i, "perm:"+o.K, "%v on a read-only filesystem: %v (%s) instead of a permission error", o, err, class(err))
		}
		return nil
	}
	if o.K == "handle" {
		oe, res, errs, fe := w.roHandle(o)
		// The same handle, but only its reading calls, on a writable instance
		ro := o
		ro.F = os.O_RDONLY
		writes := o.F&(os.O_WRONLY|os.O_RDWR|os.O_APPEND|os.O_TRUNC|os.O_CREATE) != 0
		oe2, _, _, _ := rw.roHandle(Op{K: "handle", P: o.P, F: os.O_RDONLY})
		if oe != nil {
			if writes {
				c := class(oe)
				if c != ePerm && !(oe2 != nil && c == class(oe2)) && c != eIsDir && c != eExist {
					return viol(i, "perm:open", "opening with flags %#x on a read-only filesystem: %v (%s)", o.F, oe, c)
				}
				return nil
			}
			if oe2 == nil || class(oe) != class(oe2) {
				return viol(i, "open", "%v: %v on the read-only, but %v on the writable filesystem", o, oe, oe2)
			}
			return nil
		}
		if oe2 != nil {
			return viol(i, "open", "%v: no error on the read-only, but %v on the writable filesystem", o, oe2)
		}
		fi, err := rw.fs.Stat(o.P)
		dir := err == nil && fi.IsDir()
		mut := false
		for j, s := range o.S {
			if isMutHandle(s.K) {
				mut = true
				c := class(errs[j])
				if c != ePerm && !(dir && c == eIsDir) {
					return viol(i, "perm:"+s.K, "%v on a handle of a read-only filesystem (opened with %#x): %v (%s) instead of a permission error", s, o.F, errs[j], c)
				}
			}
		}
		if !writes && !mut {
			_, res2, errs2, fe2 := rw.roHandle(ro)
			for j, s := range o.S {
				// A seek to nowhere is refused in the words of the buffer which is behind the handle
				c1, c2 := class(errs[j]), class(errs2[j])
				if c1 == eInvalid {
					c1 = eOther
				}
				if c2 == eInvalid {
					c2 = eOther
				}
				if res[j] != res2[j] || c1 != c2 {
					return viol(i, "handle", "%v of %v: %q (%v) on the read-only, but %q (%v) on the writable filesystem", s, o, res[j], errs[j], res2[j], errs2[j])
				}
			}
			if (fe == nil) != (fe2 == nil) {
				return viol(i, "close", "%v: closing: %v on the read-only, but %v on the writable filesystem", o, fe, fe2)
			}
		}
		return nil
	}
	if o.K == "openro" {
		o.F = os.O_RDONLY
	}
	a, ea := w.roRead(o)
	b, eb := rw.roRead(o)
	if a != b || class(ea) != class(eb) {
		return viol(i, "read", "%v: %q (%v) on the read-only, but %q (%v) on the writable filesystem", o, a, ea, b, eb)
	}
	return nil
}

func init() {
	props["C10"] = &propDef{gen: genC10, n: map[string]int{"quick": 210, "thorough": 1400}, run: runC10}
	props["C15"] = &propDef{gen: genC15, n: map[string]int{"quick": 400, "thorough": 4000}, run: runC15}
}

var _ = path.Join
var _ = config.NoneKey
