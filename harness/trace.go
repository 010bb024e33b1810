package main

import (
	"archive/tar"
	"bytes"
	"context"
	"fmt"
	"math/rand"
	"os"
	"path"
	"strings"
	"time"

	"github.com/pojntfx/stfs/pkg/config"
)

const callLimit = 30 * time.Second

// step describes what a trace property may look at after an operation.
type step struct {
	i      int
	o      Op
	res    string
	err    error
	want   want
	wres   string
	before []byte
	after  []byte
}

type traceChecks struct {
	results   bool // results and tree equal those of the reference
	hangs     bool // panics and hangs are violations of this property
	each      func(w *World, m *Model, s *step) *Viol
	end       func(w *World, m *Model, st *Stats) *Viol
	needBytes bool
	treeEvery bool
}

// call runs f under a watchdog.
func call(step int, what string, f func()) *Viol {
	s := guard(callLimit, f)
	switch {
	case s == "":
		return nil
	case strings.HasPrefix(s, "setup: "):
		panic(setupError{s})
	case strings.HasPrefix(s, "panic"):
		return viol(step, "panic", "%s: %s", what, s)
	default:
		return viol(step, "hang", "%s: %s\n%s", what, s, allStacks())
	}
}

func runTrace(c Case, dir string, st *Stats, t traceChecks) *Viol {
	w := newWorld(dir, c.C)
	hang := func(v *Viol) *Viol {
		if v == nil || t.hangs {
			return v
		}
		st.undecided("%s", strings.SplitN(v.Detail, "\n", 2)[0])
		return &Viol{Key: "skip"}
	}
	var err error
	if v := hang(call(-1, "Initialize", func() { err = w.open() })); v != nil {
		return skipNil(v)
	}
	if err != nil {
		if t.results {
			return viol(-1, "initialize", "initializing an empty drive fails: %v", err)
		}
		st.undecided("initialize: %v", err)
		return nil
	}
	defer func() { closeDB(w.meta) }()
	m := newModel()
	mutated := false
	for i, o := range c.Ops {
		s := &step{i: i, o: o}
		if t.needBytes {
			s.before = w.tapeBytes()
		}
		if v := hang(call(i, o.String(), func() { s.res, s.err = w.exec(o) })); v != nil {
			return skipNil(v)
		}
		if t.needBytes {
			s.after = w.tapeBytes()
		}
		prev := m
		if t.results {
			prev = m.clone()
		}
		s.want, s.wres = m.apply(o)
		if s.want.okay() && !readOnlyKinds[o.K] {
			mutated = true
		}
		st.count(o.K)
		st.count("result:" + class(s.err))
		st.eval(s.err == nil && !readOnlyKinds[o.K])
		if t.results {
			if s.want.okay() != (s.err == nil) {
				return viol(i, "result", "%v: the reference answers %v, the filesystem %v (%v)", o, s.want, class(s.err), s.err)
			}
			if s.err != nil && !s.want.match(s.err) {
				return viol(i, "error-class", "%v: the reference answers %v, the filesystem %v (%v)", o, s.want, class(s.err), s.err)
			}
			if s.err == nil && s.wres != "" && s.res != s.wres {
				return viol(i, "value", "%v: the reference answers %q, the filesystem %q", o, s.wres, s.res)
			}
			var tr Tree
			var werr error
			if v := hang(call(i, "walk", func() { tr, werr = walk(w.fs, w.C.Root, true) })); v != nil {
				return skipNil(v)
			}
			if werr != nil {
				return viol(i, "walk", "after %v: %v", o, werr)
			}
			if d := m.diff(tr); d != "" {
				return viol(i, "tree", "after %v (%v): %s", o, class(s.err), d)
			}
			_ = prev
		} else if s.want.okay() != (s.err == nil) {
			// This run and the reference went different ways, what follows would not be meaningful
			st.count("diverged")
			if t.each != nil {
				if v := t.each(w, m, s); v != nil {
					return v
				}
			}
			break
		}
		if t.each != nil {
			var v *Viol
			if hv := hang(call(i, "check after "+o.String(), func() { v = t.each(w, m, s) })); hv != nil {
				return skipNil(hv)
			}
			if v != nil {
				return v
			}
		}
	}
	_ = mutated
	if t.end != nil {
		var v *Viol
		if hv := hang(call(len(c.Ops)-1, "final check", func() { v = t.end(w, m, st) })); hv != nil {
			return skipNil(hv)
		}
		return v
	}
	return nil
}

func skipNil(v *Viol) *Viol {
	if v.Key == "skip" {
		return nil
	}
	return v
}

// Configurations

var comps = config.KnownCompressionFormats
var levels = config.KnownCompressionLevels
var encs = config.KnownEncryptionFormats
var sigs = config.KnownSignatureFormats
var caches = config.KnownWriteCacheTypes
var recordSizes = []int{20, 1, 2, 3, 7, 64}

// genCfg mostly returns plain pipelines, which are fast.
func genCfg(r *rand.Rand, tapes bool) Cfg {
	c := Cfg{RecordSize: recordSizes[r.Intn(len(recordSizes))], Cache: caches[r.Intn(len(caches))], WOnlyRead: r.Intn(2) == 0}
	if r.Intn(3) == 0 {
		c.Comp = comps[r.Intn(len(comps))]
		c.Level = levels[r.Intn(len(levels))]
	}
	if r.Intn(6) == 0 {
		c.Enc = encs[r.Intn(len(encs))]
	}
	if r.Intn(6) == 0 {
		c.Sig = sigs[r.Intn(len(sigs))]
	}
	if tapes && r.Intn(4) == 0 {
		c.Tape = true
		c.Comp, c.Enc, c.Sig = "", "", ""
		c.RecordSize = []int{20, 1, 2, 7}[r.Intn(4)]
	}
	return c
}

func traceLen(r *rand.Rand, tier string) int {
	if tier == "thorough" {
		return 6 + r.Intn(30)
	}
	return 4 + r.Intn(14)
}

// C02: every call does what a reference filesystem does

func c02(o GenOpt) func(r *rand.Rand, tier string, i int) Case {
	return func(r *rand.Rand, tier string, i int) Case {
		o := o
		o.weird = r.Intn(3) == 0
		o.spell = r.Intn(3) == 0
		o.reopen = r.Intn(4) == 0
		o.archive = r.Intn(4) == 0
		return Case{C: genCfg(r, true), Ops: genOps(r, o, traceLen(r, tier))}
	}
}

// rebuildDiff compares what the filesystem shows with what a rebuild and a reopened index show.
func (w *World) rebuildDiff(step int, reopenToo bool) *Viol {
	t1, err := walk(w.fs, w.C.Root, true)
	if err != nil {
		return viol(step, "walk", "the running instance cannot be walked: %v", err)
	}
	for _, keep := range []bool{false, true} {
		if keep && !reopenToo {
			continue
		}
		what := "rebuilding the index from the tape"
		if keep {
			what = "reopening the index in a fresh process"
		}
		tw, err := w.twin(keep, WOpt{})
		if err != nil {
			return viol(step, "twin", "%s fails: %v", what, err)
		}
		before := tw.tapeBytes()
		root, err := tw.fs.Initialize(w.C.Root, os.ModePerm)
		if err != nil {
			tw.drop()
			return viol(step, "rebuild", "%s fails: %v", what, err)
		}
		t2, err := walk(tw.fs, w.C.Root, true)
		if err != nil {
			tw.drop()
			return viol(step, "rebuild", "after %s (root %q) the tree cannot be walked: %v", what, root, err)
		}
		if d := treeDiff(t1, t2, true, nil); d != "" {
			tw.drop()
			return viol(step, "rebuild", "%s changes %s", what, d)
		}
		if !bytes.Equal(before, tw.tapeBytes()) {
			tw.drop()
			return viol(step, "rebuild", "%s changes the tape", what)
		}
		tw.drop()
	}
	return nil
}

// wellFormed checks that listings and lookups agree and that every live row is reachable.
func (w *World) wellFormed(step int, r *rand.Rand) *Viol {
	t, err := walk(w.fs, w.C.Root, false)
	if err != nil {
		return viol(step, "walk", "%v", err)
	}
	hs, err := w.rows()
	if err != nil {
		return viol(step, "rows", "%v", err)
	}
	live := map[string]bool{}
	for _, h := range hs {
		n := norm(h.Name)
		if h.Linkname != "" {
			n = norm(h.Linkname)
		}
		live[n] = true
		if t[n] == nil {
			return viol(step, "unreachable", "the live entry %q cannot be reached by listing directories from the root", n)
		}
		if n != "/" {
			if p := t[path.Dir(n)]; p == nil || !p.Dir {
				return viol(step, "parent", "the parent of %q is not a directory: %v", n, p)
			}
		}
	}
	for p, e := range t {
		if !live[p] {
			return viol(step, "listed", "%q is listed but is not a live entry", p)
		}
		fi, err := w.fs.Stat(p)
		if err != nil {
			return viol(step, "stat", "%q is listed but stat fails: %v", p, err)
		}
		s := entOf(fi)
		if s.Dir != e.Dir || s.Size != e.Size {
			return viol(step, "stat", "%q is listed as %v but stat says %v", p, e, s)
		}
		f, err := w.fs.Open(p)
		if err != nil {
			return viol(step, "open", "%q is listed but cannot be opened: %v", p, err)
		}
		fi, err = f.Stat()
		if err == nil {
			s := entOf(fi)
			if s.Dir != e.Dir || s.Size != e.Size {
				err = fmt.Errorf("it says %v", s)
			}
		}
		if err != nil {
			return viol(step, "open", "%q is listed as %v but the stat of its handle disagrees: %v", p, e, err)
		}
		if !e.Dir {
			b, err := readAll(f)
			if err != nil || int64(len(b)) != e.Size {
				return viol(step, "open", "%q is listed as %v but reading it returns %d bytes and %v", p, e, len(b), err)
			}
		} else {
			kids := map[string]bool{}
			for q := range t {
				if q != "/" && path.Dir(q) == p {
					kids[path.Base(q)] = true
				}
			}
			for _, count := range []int{0, -1, 1, 2, len(kids), len(kids) + 1, 1 + r.Intn(4)} {
				d, err := w.fs.Open(p)
				if err != nil {
					return viol(step, "open", "%q: %v", p, err)
				}
				names, err := d.Readdirnames(count)
				if err != nil && len(names) > 0 {
					return viol(step, "list", "Readdirnames(%d) of %q: %v", count, p, err)
				}
				seen := map[string]bool{}
				for _, n := range names {
					if seen[n] {
						return viol(step, "list-twice", "Readdirnames(%d) of %q lists %q twice", count, p, n)
					}
					seen[n] = true
					if !kids[n] {
						return viol(step, "list-foreign", "Readdirnames(%d) of %q lists %q, which is not one of its children %v", count, p, n, kids)
					}
				}
				if count > 0 && len(names) > count {
					return viol(step, "list-count", "Readdirnames(%d) of %q returns %d names", count, p, len(names))
				}
				if count <= 0 && len(names) != len(kids) {
					return viol(step, "list-missing", "Readdirnames(%d) of %q returns %v instead of %v", count, p, names, kids)
				}
				if count > 0 && len(kids) > 0 && len(names) == 0 {
					return viol(step, "list-missing", "Readdirnames(%d) of %q returns nothing instead of some of %v", count, p, kids)
				}
				d.Close()
			}
		}
		f.Close()
	}
	return nil
}

// positions checks C04.
func (w *World) positions(step int) *Viol {
	hs, err := w.rows()
	if err != nil {
		return viol(step, "rows", "%v", err)
	}
	rs := int64(w.C.RecordSize)
	for _, h := range hs {
		if h.Block < 0 || h.Block >= rs || h.Lastknownblock < 0 || h.Lastknownblock >= rs || h.Record < 0 || h.Lastknownrecord < 0 {
			return viol(step, "block", "%q has the position (%d,%d) and the last known position (%d,%d), which is out of range for the record size %d", h.Name, h.Record, h.Block, h.Lastknownrecord, h.Lastknownblock, rs)
		}
		if h.Lastknownrecord*rs+h.Lastknownblock < h.Record*rs+h.Block {
			return viol(step, "lastknown", "%q has the position (%d,%d) but the earlier last known position (%d,%d)", h.Name, h.Record, h.Block, h.Lastknownrecord, h.Lastknownblock)
		}
		if h.Typeflag == int64(tar.TypeReg) && h.Linkname == "" {
			b, hdr, err := w.fetch(int(h.Record), int(h.Block))
			if err != nil {
				return viol(step, "fetch", "fetching %q at (%d,%d) fails: %v", h.Name, h.Record, h.Block, err)
			}
			c, err := readFile(w.fs, norm(h.Name))
			if err != nil {
				return viol(step, "read", "reading %q: %v", h.Name, err)
			}
			if !bytes.Equal(b, c) || int64(len(c)) != h.Size {
				return viol(step, "fetch", "fetching %q at (%d,%d) returns %s, the file contains %s and its size is %d (record %q)", h.Name, h.Record, h.Block, short(b), short(c), h.Size, hdr.Name)
			}
		}
	}
	if w.C.Tape {
		// Every position is the start of a record if fetching the header there works
		for _, h := range hs {
			if _, _, err := w.fetch(int(h.Record), int(h.Block)); err != nil {
				return viol(step, "fetch", "fetching %q at (%d,%d) fails: %v", h.Name, h.Record, h.Block, err)
			}
		}
		return nil
	}
	recs, err := scanTape(w.tapeBytes())
	if err != nil {
		return viol(step, "scan", "%v", err)
	}
	starts, last := map[int64]int{}, int64(0)
	for i, r := range recs {
		starts[r.Off] = i
		last = r.Off
	}
	for _, h := range hs {
		off := (rs*h.Record + h.Block) * 512
		i, ok := starts[off]
		if !ok {
			return viol(step, "start", "%q has the position (%d,%d), where no record starts", h.Name, h.Record, h.Block)
		}
		if off := (rs*h.Lastknownrecord + h.Lastknownblock) * 512; true {
			if _, ok := starts[off]; !ok {
				return viol(step, "start", "%q has the last known position (%d,%d), where no record starts", h.Name, h.Lastknownrecord, h.Lastknownblock)
			}
		}
		// Which record created or last replaced the content?
		if w.C.Enc == "" && w.C.Sig == "" {
			act := recs[i].Hdr.PAXRecords["STFS.Action"]
			if act == "DELETE" || recs[i].Hdr.PAXRecords["STFS.ReplacesName"] != "" || (act == "UPDATE" && recs[i].Hdr.PAXRecords["STFS.ReplacesContent"] == "false") {
				return viol(step, "content-record", "the position (%d,%d) of %q is that of a record which carries no content (%v)", h.Record, h.Block, h.Name, recs[i].Hdr.PAXRecords)
			}
		}
	}
	r, b, err := w.meta.GetLastIndexedRecordAndBlock(context.Background(), w.C.RecordSize)
	if err != nil {
		return viol(step, "last", "%v", err)
	}
	if got := (rs*r + b) * 512; got != last && len(recs) > 0 {
		return viol(step, "last", "the index reports (%d,%d) (offset %d) as the last position, but the final record is at offset %d", r, b, got, last)
	}
	return nil
}

// tapeForm checks C05 at rest.
func (w *World) tapeForm(step int, st *step) *Viol {
	if st.o.K == "pad" {
		return nil
	}
	if !bytes.HasPrefix(st.after, st.before) {
		return viol(step, "append-only", "%v changes bytes which have already been on the tape (%d bytes before, %d after)", st.o, len(st.before), len(st.after))
	}
	if st.err != nil && len(st.after) != len(st.before) {
		return viol(step, "rejected-appends", "%v fails with %v but appends %d bytes", st.o, st.err, len(st.after)-len(st.before))
	}
	if readOnlyKinds[st.o.K] && len(st.after) != len(st.before) {
		return viol(step, "read-appends", "%v appends %d bytes", st.o, len(st.after)-len(st.before))
	}
	if w.C.Tape {
		for _, f := range splitMarks(w.tape) {
			if _, err := scanTape(f); err != nil {
				return viol(step, "stream", "after %v: %v", st.o, err)
			}
		}
		return nil
	}
	if len(st.after)%512 != 0 {
		return viol(step, "blocks", "after %v the tape has %d bytes, which is not a whole number of blocks", st.o, len(st.after))
	}
	recs, err := scanTape(st.after)
	if err != nil {
		return viol(step, "stream", "after %v: %v", st.o, err)
	}
	if n := len(st.after); n >= 1024 && !zeroBlock(st.after[n-1024:]) {
		return viol(step, "trailer", "after %v the tape does not end with a trailer", st.o)
	}
	if w.C.Enc == "" && w.C.Comp == "" && w.C.Sig == "" {
		hs, err := w.rows()
		if err != nil {
			return viol(step, "rows", "%v", err)
		}
		by := map[int64]Rec{}
		for _, r := range recs {
			by[r.Off] = r
		}
		for _, h := range hs {
			if h.Typeflag != int64(tar.TypeReg) || h.Linkname != "" {
				continue
			}
			r, ok := by[(int64(w.C.RecordSize)*h.Record+h.Block)*512]
			if !ok {
				return viol(step, "content-record", "an independent reader finds no record at (%d,%d) for %q", h.Record, h.Block, h.Name)
			}
			c, err := readFile(w.fs, norm(h.Name))
			if err != nil || !bytes.Equal(c, r.Data) {
				return viol(step, "content-record", "an independent reader extracts %s for %q, which contains %s (%v)", short(r.Data), h.Name, short(c), err)
			}
		}
	}
	return nil
}

func splitMarks(t *fakeTape) [][]byte {
	r := [][]byte{}
	cur := []byte{}
	for _, o := range t.objs {
		if o.mark {
			r = append(r, cur)
			cur = []byte{}
		} else {
			cur = append(cur, o.data...)
		}
	}
	if len(cur) > 0 {
		r = append(r, cur)
	}
	return r
}

func init() {
	props["C02"] = &propDef{
		gen: c02(GenOpt{invalid: 20}),
		n:   map[string]int{"quick": 600, "thorough": 6000},
		run: func(c Case, dir string, st *Stats) *Viol {
			return runTrace(c, dir, st, traceChecks{results: true, hangs: true})
		},
	}
	props["C01"] = &propDef{
		gen: func(r *rand.Rand, tier string, i int) Case {
			o := GenOpt{invalid: 5, archive: true, reopen: r.Intn(3) == 0, mutate: true, pad: r.Intn(4) == 0, weird: r.Intn(2) == 0, spell: r.Intn(4) == 0, symlinks: r.Intn(5) == 0}
			if o.symlinks {
				o.weights = map[string]int{"create": 10, "mkdir": 10, "symlink": 10, "write": 10, "chmod": 5, "chtimes": 5}
			}
			return Case{C: genCfg(r, true), Ops: genOps(r, o, traceLen(r, tier))}
		},
		n: map[string]int{"quick": 480, "thorough": 6000},
		run: func(c Case, dir string, st *Stats) *Viol {
			return runTrace(c, dir, st, traceChecks{
				each: func(w *World, m *Model, s *step) *Viol {
					if s.i%3 != 2 {
						return nil
					}
					return w.rebuildDiff(s.i, false)
				},
				end: func(w *World, m *Model, st *Stats) *Viol { return w.rebuildDiff(len(c.Ops)-1, true) },
			})
		},
	}
	props["C04"] = &propDef{
		gen: func(r *rand.Rand, tier string, i int) Case {
			o := GenOpt{invalid: 5, archive: true, reopen: r.Intn(3) == 0, mutate: true, maxLen: 12000, pad: r.Intn(4) == 0, weird: r.Intn(4) == 0}
			return Case{C: genCfg(r, true), Ops: genOps(r, o, traceLen(r, tier))}
		},
		n: map[string]int{"quick": 480, "thorough": 6000},
		run: func(c Case, dir string, st *Stats) *Viol {
			return runTrace(c, dir, st, traceChecks{each: func(w *World, m *Model, s *step) *Viol { return w.positions(s.i) }})
		},
	}
	props["C05"] = &propDef{
		gen: func(r *rand.Rand, tier string, i int) Case {
			o := GenOpt{invalid: 30, archive: true, reopen: r.Intn(3) == 0, weird: r.Intn(4) == 0, pad: r.Intn(3) == 0}
			return Case{C: genCfg(r, true), Ops: genOps(r, o, traceLen(r, tier))}
		},
		n: map[string]int{"quick": 480, "thorough": 6000},
		run: func(c Case, dir string, st *Stats) *Viol {
			return runTrace(c, dir, st, traceChecks{needBytes: true, each: func(w *World, m *Model, s *step) *Viol { return w.tapeForm(s.i, s) }})
		},
	}
	props["C12"] = &propDef{
		gen: func(r *rand.Rand, tier string, i int) Case {
			o := GenOpt{invalid: 3, weird: true, mutate: true, archive: r.Intn(4) == 0, reopen: r.Intn(6) == 0, maxLen: 40,
				weights: map[string]int{"create": 12, "mkdir": 16, "mkdirall": 14, "removeall": 9, "rename": 18, "opsdelete": 4, "opsmove": 6, "remove": 2, "reopen": 1}}
			return Case{C: genCfg(r, false), Ops: genOps(r, o, traceLen(r, tier)+6)}
		},
		n: map[string]int{"quick": 480, "thorough": 6000},
		run: func(c Case, dir string, st *Stats) *Viol {
			return runTrace(c, dir, st, traceChecks{
				each: func(w *World, m *Model, s *step) *Viol {
					switch s.o.K {
					case "removeall", "rename", "opsdelete", "opsmove", "remove":
					default:
						return nil
					}
					if s.o.K == "rename" && !s.want.okay() && s.err == nil && under(norm(s.o.Q), norm(s.o.P)) {
						return viol(s.i, "own-subtree", "%v is not refused", s.o)
					}
					if s.want.okay() != (s.err == nil) {
						return nil
					}
					t, err := walk(w.fs, w.C.Root, true)
					if err != nil {
						return viol(s.i, "walk", "after %v: %v", s.o, err)
					}
					if d := m.diff(t); d != "" {
						return viol(s.i, "subtree", "after %v: %s", s.o, d)
					}
					rt, err := w.rowTree()
					if err != nil {
						return viol(s.i, "rows", "after %v: %v", s.o, err)
					}
					if len(rt) != len(m.N) {
						return viol(s.i, "rows", "after %v there are %d live rows for %d entries", s.o, len(rt), len(m.N))
					}
					return nil
				},
				end: func(w *World, m *Model, st *Stats) *Viol {
					tw, err := w.twin(false, WOpt{})
					if err != nil {
						return nil
					}
					defer tw.drop()
					if _, err := tw.fs.Initialize(w.C.Root, os.ModePerm); err != nil {
						return nil
					}
					t, err := walk(tw.fs, w.C.Root, true)
					if err != nil {
						return viol(len(c.Ops)-1, "rebuild", "after a rebuild: %v", err)
					}
					if d := m.diff(t); d != "" && st.Counts["diverged"] == 0 {
						return viol(len(c.Ops)-1, "rebuild", "after a rebuild: %s", d)
					}
					return nil
				},
			})
		},
	}
	props["C13"] = &propDef{
		gen: func(r *rand.Rand, tier string, i int) Case {
			o := GenOpt{invalid: 25, weird: r.Intn(2) == 0, mutate: true, archive: r.Intn(4) == 0, reopen: r.Intn(3) == 0, spell: r.Intn(3) == 0, maxLen: 300}
			return Case{C: genCfg(r, false), Ops: genOps(r, o, traceLen(r, tier))}
		},
		n: map[string]int{"quick": 400, "thorough": 5000},
		run: func(c Case, dir string, st *Stats) *Viol {
			r := rand.New(rand.NewSource(c.Seed))
			return runTrace(c, dir, st, traceChecks{each: func(w *World, m *Model, s *step) *Viol { return w.wellFormed(s.i, r) }})
		},
	}
}
