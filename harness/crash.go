package main

import (
	"archive/tar"
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"sort"
	"strings"
)

// Crash points, stale indexes and replays (C06, C07, C16)

type snapAt struct {
	n    int // length of the tape
	rows map[string]*Ent
}

// history runs operations and records the state of the running instance after each call.
func history(w *World, ops []Op, st *Stats) ([]snapAt, bool) {
	snaps := []snapAt{}
	if err := w.open(); err != nil {
		st.undecided("initialize: %v", err)
		return nil, false
	}
	take := func() bool {
		rt, err := w.rowTree()
		if err != nil {
			st.undecided("rows: %v", err)
			return false
		}
		snaps = append(snaps, snapAt{len(w.tapeBytes()), rt})
		return true
	}
	if !take() {
		return nil, false
	}
	for _, o := range ops {
		if s := guard(callLimit, func() { w.exec(o) }); s != "" {
			st.undecided("%v: %s", o, strings.SplitN(s, "\n", 2)[0])
			return nil, false
		}
		if !take() {
			return nil, false
		}
	}
	return snaps, true
}

// over returns a world with the given tape and an index which reflects it if idx is not nil.
func (w *World) over(tape []byte, idx []byte) (*World, error) {
	w.nscr++
	t := newWorld(fmt.Sprintf("%s/over%03d", w.Dir, w.nscr), w.C)
	if err := os.WriteFile(t.Drive, tape, 0600); err != nil {
		return nil, err
	}
	db := t.freshDB()
	if idx != nil {
		if err := os.WriteFile(db, idx, 0600); err != nil {
			return nil, err
		}
	}
	return t, t.build(db, WOpt{})
}

func (w *World) indexFile() []byte {
	b, err := os.ReadFile(w.DB)
	if err != nil {
		fatalSetup("index: %v", err)
	}
	return b
}

// scratch rebuilds the index of a tape from scratch.
func (w *World) scratch(tape []byte) (map[string]*Ent, []byte, error) {
	t, err := w.over(tape, nil)
	if err != nil {
		fatalSetup("%v", err)
	}
	defer t.drop()
	if err := t.index(0, 0, true, nil); err != nil {
		return nil, nil, err
	}
	rt, err := t.rowTree()
	return rt, t.indexFile(), err
}

func keysOf(ms ...map[string]*Ent) []string {
	s := map[string]bool{}
	for _, m := range ms {
		for k := range m {
			s[k] = true
		}
	}
	r := []string{}
	for k := range s {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func rowsDiff(a, b map[string]*Ent) string {
	for _, k := range keysOf(a, b) {
		if d := entDiff(a[k], b[k], true); d != "" {
			return fmt.Sprintf("%q: %s", k, d)
		}
	}
	return ""
}

// metaDiff compares everything but the content.
func metaDiff(a, b *Ent) string {
	if a == nil || b == nil {
		return entDiff(a, b, true)
	}
	x, y := *a, *b
	x.Data, y.Data, x.Err, y.Err = nil, nil, "", ""
	return entDiff(&x, &y, true)
}

// tornOK decides whether got may be what is left after the record which leads from a to b has been torn.
func tornOK(got, a, b map[string]*Ent) string {
	for _, k := range keysOf(got, a, b) {
		if entDiff(got[k], a[k], true) == "" {
			continue
		}
		if entDiff(a[k], b[k], true) == "" {
			return fmt.Sprintf("%q, which the torn record does not concern, changes from %v to %v", k, a[k], got[k])
		}
		if d := metaDiff(got[k], b[k]); d != "" {
			return fmt.Sprintf("%q is neither as before nor as after the torn record: %v (before %v, after %v)", k, got[k], a[k], b[k])
		}
		if g := got[k]; g != nil && g.Err == "" && !bytes.Equal(g.Data, b[k].Data) && (a[k] == nil || !bytes.Equal(g.Data, a[k].Data)) {
			return fmt.Sprintf("restoring the torn entry %q returns %s, but it never contained this (before %v, after %v)", k, short(g.Data), a[k], b[k])
		}
	}
	return ""
}

func cutPoints(r *rand.Rand, recs []Rec, n int64, max int) []int64 {
	s := map[int64]bool{}
	add := func(p int64) {
		if p >= 0 && p <= n {
			s[p] = true
		}
	}
	for len(s) < max {
		i := r.Intn(len(recs))
		x := recs[i]
		h := x.End - (int64(len(x.Data))+511)/512*512 // start of the content
		switch r.Intn(10) {
		case 0:
			add(x.Off)
		case 1:
			add(x.Off + 1)
		case 2:
			add(x.Off + 512*(1+r.Int63n(4)))
		case 3:
			add(x.Off + 512*(1+r.Int63n(4)) + []int64{-1, 1}[r.Intn(2)])
		case 4:
			add(h)
		case 5:
			add(h + []int64{-1, 1, 512, 100, 511}[r.Intn(5)])
		case 6:
			add(x.End)
		case 7:
			add(x.End + []int64{-1, 1, -512, 512, 1024, 1023}[r.Intn(6)])
		case 8:
			add(h + int64(len(x.Data)) + []int64{0, -1, 1}[r.Intn(3)])
		default:
			add(r.Int63n(n + 1))
		}
		max-- // duplicates count as well
		if max < 0 {
			break
		}
	}
	ps := []int64{}
	for p := range s {
		ps = append(ps, p)
	}
	sort.Slice(ps, func(i, j int) bool { return ps[i] < ps[j] })
	return ps
}

type cutX struct {
	Cuts []int64 `json:"cuts,omitempty"`
	N    int     `json:"n"`
}

func crashGen(n, maxLen int64) func(r *rand.Rand, tier string, i int) Case {
	return func(r *rand.Rand, tier string, i int) Case {
		o := GenOpt{invalid: 3, archive: true, mutate: true, maxLen: maxLen, weird: r.Intn(3) == 0}
		c := genCfg(r, false)
		k := int(n)
		if tier == "thorough" {
			k *= 5
		}
		x, _ := json.Marshal(cutX{N: k})
		return Case{C: c, Ops: genOps(r, o, 3+r.Intn(8)), X: x}
	}
}

func runC06(c Case, dir string, st *Stats) *Viol {
	w := newWorld(dir, c.C)
	snaps, okay := history(w, c.Ops, st)
	defer func() { closeDB(w.meta) }()
	if !okay {
		return nil
	}
	full := w.tapeBytes()
	recs, err := scanTape(full)
	if err != nil || len(recs) == 0 {
		st.undecided("scan: %v", err)
		return nil
	}
	x := cutX{}
	json.Unmarshal(c.X, &x)
	cuts := x.Cuts
	if len(cuts) == 0 {
		cuts = cutPoints(rand.New(rand.NewSource(c.Seed)), recs, int64(len(full)), 2*x.N)
	}
	states := map[int]map[string]*Ent{0: {}}
	state := func(k int) (map[string]*Ent, error) {
		if s, ok := states[k]; ok {
			return s, nil
		}
		rt, _, err := w.scratch(full[:recs[k-1].End])
		if err == nil {
			states[k] = rt
		}
		return rt, err
	}
	for _, p := range cuts {
		k := 0
		for k < len(recs) && recs[k].End <= p {
			k++
		}
		var before, after map[string]*Ent
		var got map[string]*Ent
		var err, berr, aerr error
		if s := guard(callLimit, func() {
			before, berr = state(k)
			after = before
			if k < len(recs) {
				after, aerr = state(k + 1)
			}
			got, _, err = w.scratch(full[:p])
		}); s != "" {
			return viol(len(c.Ops), strings.SplitN(s, ":", 2)[0], "cut at byte %d of %d: %s", p, len(full), s)
		}
		if err != nil {
			return viol(len(c.Ops), "rebuild-fails", "rebuilding the index from the first %d of %d bytes fails: %v", p, len(full), err)
		}
		if berr != nil || aerr != nil {
			return viol(len(c.Ops), "rebuild-fails", "rebuilding the index from the first %d or %d records fails: %v %v", k, k+1, berr, aerr)
		}
		st.eval(k < len(recs) && recs[k].Off < p)
		if d := tornOK(got, before, after); d != "" {
			return viol(len(c.Ops), "torn", "cut at byte %d of %d (inside record %d of %d, which starts at %d): %s", p, len(full), k, len(recs), func() int64 {
				if k < len(recs) {
					return recs[k].Off
				}
				return int64(len(full))
			}(), d)
		}
		// At the end of a call the rebuilt state is what the running instance showed
		for _, s := range snaps {
			if s.n > 0 && k > 0 && int64(s.n) >= recs[k-1].End && (k == len(recs) || int64(s.n) <= recs[k].Off) {
				if d := rowsDiff(before, s.rows); d != "" {
					return viol(len(c.Ops), "prefix", "the index rebuilt from the first %d records differs from what the running instance showed then: %s", k, d)
				}
				st.count("call-boundary")
			}
		}
	}
	return nil
}

func runC07(c Case, dir string, st *Stats) *Viol {
	w := newWorld(dir, c.C)
	_, okay := history(w, c.Ops, st)
	defer func() { closeDB(w.meta) }()
	if !okay {
		return nil
	}
	var full []byte
	var want map[string]*Ent
	var err error
	if w.C.Tape {
		return nil
	}
	full = w.tapeBytes()
	recs, err := scanTape(full)
	if err != nil || len(recs) == 0 {
		st.undecided("scan: %v", err)
		return nil
	}
	want, _, err = w.scratch(full)
	if err != nil {
		return viol(len(c.Ops), "scratch", "rebuilding the index from scratch fails: %v", err)
	}
	x := cutX{}
	json.Unmarshal(c.X, &x)
	r := rand.New(rand.NewSource(c.Seed))
	js := []int{len(recs)}
	if len(recs) <= x.N {
		for j := 0; j <= len(recs); j++ {
			js = append(js, j)
		}
	} else {
		for i := 0; i < x.N; i++ {
			js = append(js, r.Intn(len(recs)+1))
		}
	}
	for n, j := range js {
		var idx []byte
		what := fmt.Sprintf("an index of the first %d of %d records", j, len(recs))
		if n == 0 {
			idx = w.indexFile()
			what = "the index of the running instance"
		} else {
			end := int64(0)
			if j > 0 {
				end = recs[j-1].End
			}
			if _, idx, err = w.scratch(full[:end]); err != nil {
				return viol(len(c.Ops), "prefix", "building %s fails: %v", what, err)
			}
		}
		t, err := w.over(full, idx)
		if err != nil {
			fatalSetup("%v", err)
		}
		for pass := 1; pass <= 2; pass++ {
			var ierr error
			if s := guard(callLimit, func() { ierr = t.index(0, 0, false, nil) }); s != "" {
				st.undecided("index: %s", strings.SplitN(s, "\n", 2)[0])
				return nil
			}
			if ierr != nil {
				return viol(len(c.Ops), "replay-fails", "replaying the tape into %s fails (pass %d): %v", what, pass, ierr)
			}
			got, err := t.rowTree()
			if err != nil {
				return viol(len(c.Ops), "replay", "after replaying the tape into %s (pass %d): %v", what, pass, err)
			}
			st.eval(true)
			if d := rowsDiff(want, got); d != "" {
				return viol(len(c.Ops), "replay", "replaying the tape into %s (pass %d) differs from a rebuild: %s", what, pass, d)
			}
		}
		t.drop()
	}
	return nil
}

func runC16(c Case, dir string, st *Stats) *Viol {
	w := newWorld(dir, c.C)
	_, okay := history(w, c.Ops, st)
	defer func() { closeDB(w.meta) }()
	if !okay {
		return nil
	}
	full := w.tapeBytes()
	recs, err := scanTape(full)
	if err != nil || len(recs) == 0 {
		st.undecided("scan: %v", err)
		return nil
	}
	x := cutX{}
	json.Unmarshal(c.X, &x)
	r := rand.New(rand.NewSource(c.Seed))
	cuts := append([]int64{int64(len(full))}, cutPoints(r, recs, int64(len(full)), 2*x.N)...)
	live := w.indexFile()
	for _, p := range cuts {
		tape := full[:p]
		k := 0
		for k < len(recs) && recs[k].End <= p {
			k++
		}
		want, _, err := w.scratch(tape)
		if err != nil {
			st.undecided("scratch rebuild: %v", err)
			continue
		}
		root := want["/"] != nil
		torn := map[string]bool{}
		if k < len(recs) && k > 0 {
			a, _, err1 := w.scratch(full[:recs[k-1].End])
			b, _, err2 := w.scratch(full[:recs[k].End])
			if err1 == nil && err2 == nil {
				for _, n := range keysOf(a, b) {
					if entDiff(a[n], b[n], true) != "" {
						torn[n] = true
					}
				}
			}
		}
		for _, mode := range []string{"absent", "current", "prefix"} {
			var idx []byte
			switch mode {
			case "current":
				idx = live
			case "prefix":
				j := r.Intn(len(recs) + 1)
				if j > 0 {
					if _, idx, err = w.scratch(full[:recs[j-1].End]); err != nil {
						continue
					}
				}
				mode = fmt.Sprintf("prefix of %d records", j)
			}
			what := fmt.Sprintf("tape cut at %d of %d bytes, index %s", p, len(full), mode)
			t, err := w.over(tape, idx)
			if err != nil {
				fatalSetup("%v", err)
			}
			v := func() *Viol {
				defer t.drop()
				var ierr error
				if s := guard(callLimit, func() { _, ierr = t.fs.Initialize("/", os.ModePerm) }); s != "" {
					return viol(len(c.Ops), strings.SplitN(s, ":", 2)[0], "%s: initializing: %s", what, s)
				}
				after := t.tapeBytes()
				if !bytes.HasPrefix(after, tape) {
					return viol(len(c.Ops), "destructive", "%s: initializing removes or rewrites tape content (%d bytes before, %d after)", what, len(tape), len(after))
				}
				if root && len(after) != len(tape) {
					return viol(len(c.Ops), "appends", "%s: initializing appends %d bytes although there is a root on the tape", what, len(after)-len(tape))
				}
				st.eval(ierr == nil)
				if ierr != nil {
					return viol(len(c.Ops), "init-fails", "%s: initializing fails: %v", what, ierr)
				}
				got, err := t.rowTree()
				if err != nil {
					return viol(len(c.Ops), "rows", "%s: %v", what, err)
				}
				if !root {
					delete(got, "/")
				}
				if d := rowsDiff(want, got); d != "" {
					return viol(len(c.Ops), "unfaithful", "%s: the filesystem differs from a rebuild from scratch: %s", what, d)
				}
				// Write through it
				written := map[string][]byte{}
				for i := 0; i < 2; i++ {
					n := fmt.Sprintf("/written%d", i)
					d := content(fmt.Sprintf("%d:%d", []int{0, 1, 700, 2000, 12000}[r.Intn(5)], r.Intn(1000)))
					var err error
					if s := guard(callLimit, func() {
						f, e := t.fs.Create(n)
						if e != nil {
							err = e
							return
						}
						if len(d) > 0 {
							if _, e := f.Write(d); e != nil {
								err = e
							}
						}
						if e := f.Close(); err == nil {
							err = e
						}
					}); s != "" {
						return viol(len(c.Ops), "write", "%s: writing %q: %s", what, n, s)
					}
					if err != nil {
						return viol(len(c.Ops), "write", "%s: writing %q fails: %v", what, n, err)
					}
					written[n] = d
				}
				for n, d := range written {
					b, err := readFile(t.fs, n)
					if err != nil || !bytes.Equal(b, d) {
						return viol(len(c.Ops), "read-back", "%s: %q reads %s instead of %s (%v)", what, n, short(b), short(d), err)
					}
				}
				if !bytes.HasPrefix(t.tapeBytes(), tape) {
					return viol(len(c.Ops), "destructive", "%s: writing removes or rewrites tape content", what)
				}
				rt, err := t.rowTree()
				if err != nil {
					return viol(len(c.Ops), "rows", "%s: %v", what, err)
				}
				re, _, err := w.scratch(t.tapeBytes())
				if err != nil {
					return viol(len(c.Ops), "rebuild-after", "%s: rebuilding after writing fails: %v", what, err)
				}
				for n := range torn {
					delete(rt, n)
					delete(re, n)
				}
				if d := rowsDiff(rt, re); d != "" {
					return viol(len(c.Ops), "rebuild-after", "%s: rebuilding after writing changes %s", what, d)
				}
				for n := range want {
					if !torn[n] && entDiff(want[n], re[n], true) != "" {
						return viol(len(c.Ops), "rebuild-after", "%s: after writing and rebuilding %q changes from %v to %v", what, n, want[n], re[n])
					}
				}
				for n, d := range written {
					if e := re[n]; e == nil || !bytes.Equal(e.Data, d) || e.Size != int64(len(d)) {
						return viol(len(c.Ops), "rebuild-after", "%s: after a rebuild %q is %v instead of %s", what, n, e, short(d))
					}
				}
				return nil
			}()
			if v != nil {
				return v
			}
		}
	}
	return nil
}

var _ = tar.TypeReg

func init() {
	props["C06"] = &propDef{gen: crashGen(16, 2500), n: map[string]int{"quick": 240, "thorough": 1600}, run: runC06}
	props["C07"] = &propDef{
		gen: func(r *rand.Rand, tier string, i int) Case {
			c := crashGen(6, 400)(r, tier, i)
			if i%2 == 0 {
				o := GenOpt{invalid: 3, mutate: true, archive: true, maxLen: 60, weird: r.Intn(3) == 0,
					weights: map[string]int{"create": 10, "mkdir": 8, "remove": 12, "removeall": 6, "rename": 22, "write": 5, "opsupdate": 4, "opsarchive": 4, "opsmove": 6, "opsdelete": 3}}
				c.Ops = genOps(r, o, 8+r.Intn(14))
			}
			return c
		},
		n: map[string]int{"quick": 400, "thorough": 4000}, run: runC07}
	props["C16"] = &propDef{gen: crashGen(4, 2500), n: map[string]int{"quick": 240, "thorough": 1600}, run: runC16}
}
