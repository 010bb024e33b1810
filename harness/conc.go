package main

import (
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"os"
	"path"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/pojntfx/stfs/pkg/config"
	"github.com/spf13/afero"
)

// C11: concurrent callers

type c11X struct {
	Clients [][]Op `json:"clients"`
	Delay   int    `json:"delay"` // microseconds at most, at every call into the drive, the index and the cache
	Rounds  int    `json:"rounds"`
}

// event is one call of a client.
type event struct {
	client   int
	op       Op
	what     string // name of the call
	inv, res int64
	err      error
	val      string
}

// genC11 builds client programs. Files which are written through handles are
// private to one writer, as several open handles on one file have no common
// reference semantics, but anyone may look at them; everything below /s is
// created, renamed, removed and listed by everyone.
func genC11(r *rand.Rand, tier string, i int) Case {
	c := Case{C: genCfg(r, true)}
	if i%8 > 0 {
		// Pipelines are expensive under the race detector and add little
		c.C.Comp, c.C.Enc, c.C.Sig = "", "", ""
	} else if c.C.Comp == config.CompressionFormatZStandardKey || c.C.Comp == config.CompressionFormatBrotliKey {
		c.C.Comp = config.CompressionFormatGZipKey
	}
	x := c11X{Delay: []int{0, 50, 300}[r.Intn(3)], Rounds: 3}
	n := 2 + r.Intn(3)
	if tier == "thorough" {
		n = 2 + r.Intn(7)
		x.Rounds = 6
	}
	c.Ops = []Op{{K: "mkdir", P: "/s", M: 0755}, {K: "mkdir", P: "/s/a", M: 0755}, {K: "create", P: "/s/f"}, {K: "mkdir", P: "/p", M: 0755}}
	for k := 0; k < n; k++ {
		if r.Intn(2) == 0 {
			c.Ops = append(c.Ops, Op{K: "create", P: fmt.Sprintf("/p/f%d", k), D: fmt.Sprintf("%d:%d", r.Intn(2000), k+1)})
		}
	}
	shared := []string{"/s/a", "/s/b", "/s/f", "/s/g", "/s/a/x", "/s/a/y", "/s/b/x"}
	sp := func() string { return shared[r.Intn(len(shared))] }
	for k := 0; k < n; k++ {
		ops := []Op{}
		size := 2000
		for j := 0; j < 2+r.Intn(2); j++ {
			switch r.Intn(14) {
			case 0, 1:
				size += r.Intn(3000)
				ops = append(ops, Op{K: "put", P: fmt.Sprintf("/p/f%d", k), D: fmt.Sprintf("%d:%d", size, r.Intn(1000)), M: 0644})
			case 2, 3:
				ops = append(ops, Op{K: "get", P: fmt.Sprintf("/p/f%d", r.Intn(n))})
			case 4:
				ops = append(ops, Op{K: "mkdir", P: sp(), M: 0755})
			case 5:
				ops = append(ops, Op{K: "mkdirall", P: sp(), M: 0755})
			case 6:
				ops = append(ops, Op{K: "remove", P: sp()})
			case 7:
				ops = append(ops, Op{K: "removeall", P: sp()})
			case 8, 9:
				ops = append(ops, Op{K: "rename", P: sp(), Q: sp()})
			case 10:
				ops = append(ops, Op{K: []string{"chmod", "chown"}[r.Intn(2)], P: sp(), M: []uint32{0700, 0711, 0600}[r.Intn(3)], A: int64(r.Intn(9)), B: 3})
			case 11:
				ops = append(ops, Op{K: "stat", P: sp()})
			case 12:
				ops = append(ops, Op{K: "ls", P: []string{"/s", "/p", "/", "/s/a"}[r.Intn(4)]})
			case 13:
				ops = append(ops, Op{K: "touch", P: sp()})
			}
		}
		x.Clients = append(x.Clients, ops)
	}
	c.X, _ = json.Marshal(x)
	return c
}

type recorder struct {
	mu    sync.Mutex
	clock int64
	evs   []*event
}

func (r *recorder) do(client int, o Op, what string, f func() (string, error)) (string, error) {
	e := &event{client: client, op: o, what: what}
	e.inv = atomic.AddInt64(&r.clock, 1)
	e.val, e.err = f()
	e.res = atomic.AddInt64(&r.clock, 1)
	r.mu.Lock()
	r.evs = append(r.evs, e)
	r.mu.Unlock()
	return e.val, e.err
}

func (w *World) client(rec *recorder, id int, o Op) {
	open := func(flag int) afero.File {
		var h afero.File
		rec.do(id, o, "open", func() (string, error) {
			var err error
			h, err = w.fs.OpenFile(o.P, flag, os.FileMode(o.M))
			if err != nil {
				h = nil
			}
			return "", err
		})
		return h
	}
	closeH := func(h afero.File, what string) {
		rec.do(id, o, what, func() (string, error) { return "", h.Close() })
	}
	switch o.K {
	case "put":
		h := open(os.O_RDWR | os.O_CREATE)
		if h == nil {
			return
		}
		d := content(o.D)
		rec.do(id, o, "write", func() (string, error) {
			n, err := h.Write(d)
			if err == nil && n != len(d) {
				err = io.ErrShortWrite
			}
			return "", err
		})
		closeH(h, "publish")
	case "get":
		h := open(os.O_RDONLY)
		if h == nil {
			return
		}
		rec.do(id, o, "read", func() (string, error) {
			b, err := readAll(h)
			return short(b), err
		})
		closeH(h, "close")
	case "touch":
		h := open(os.O_RDWR | os.O_CREATE)
		if h != nil {
			closeH(h, "close")
		}
	case "ls":
		h := open(os.O_RDONLY)
		if h == nil {
			return
		}
		// The directory might be gone or be another one by now, so do not
		// look at a stale handle
		closeH(h, "close")
		if o.P == "/s/a" {
			return
		}
		rec.do(id, o, "ls", func() (string, error) { return w.exec(Op{K: "list", P: o.P, A: -1}) })
	default:
		rec.do(id, o, o.K, func() (string, error) { return w.exec(o) })
	}
}

// step applies one call to the reference and tells whether the outcome matches.
func (m *Model) event(e *event) bool {
	fits := func(w want) bool { return w.okay() == (e.err == nil) && (e.err == nil || w.match(e.err)) }
	switch e.what {
	case "open":
		flag := os.O_RDONLY
		if e.op.K == "put" || e.op.K == "touch" {
			flag = os.O_RDWR | os.O_CREATE
		}
		w, _ := m.open(e.op.P, flag, os.FileMode(e.op.M))
		return fits(w)
	case "write", "close":
		return e.err == nil
	case "publish":
		if e.err != nil {
			return false
		}
		if n := m.N[e.op.P]; n != nil {
			n.Data = writeAt(n.Data, content(e.op.D), 0)
		}
		return true
	case "read":
		n := m.N[e.op.P]
		return n != nil && e.err == nil && short(n.Data) == e.val
	case "ls":
		w, v := m.apply(Op{K: "list", P: e.op.P, A: -1})
		return fits(w) && (e.err != nil || v == e.val)
	default:
		w, v := m.apply(e.op)
		return fits(w) && (e.err != nil || v == "" || v == e.val)
	}
}

func (m *Model) print() string {
	b := &strings.Builder{}
	for _, k := range m.names() {
		n := m.N[k]
		fmt.Fprintf(b, "%s|%v|%o|%d|%d|%d|%d\n", k, n.Dir, n.Mode, n.UID, n.GID, len(n.Data), sum(n.Data))
	}
	return b.String()
}

// linearize looks for a sequential order with the same outcomes and the same
// final filesystem.
func linearize(m *Model, evs []*event, final func(m *Model) string, budget int) (found bool, exhausted bool, last string) {
	seen := map[string]bool{}
	var rec func(m *Model, left []*event) bool
	steps := 0
	rec = func(m *Model, left []*event) bool {
		steps++
		if steps > budget {
			exhausted = true
			return false
		}
		if len(left) == 0 {
			d := final(m)
			if d != "" {
				last = d
			}
			return d == ""
		}
		ids := make([]string, len(left))
		min := left[0].res
		for i, e := range left {
			ids[i] = fmt.Sprint(e.inv)
			if e.res < min {
				min = e.res
			}
		}
		key := strings.Join(ids, ",") + "\n" + m.print()
		if seen[key] {
			return false
		}
		seen[key] = true
		for i, e := range left {
			if e.inv > min {
				continue
			}
			n := m.clone()
			if !n.event(e) {
				continue
			}
			rest := append(append([]*event{}, left[:i]...), left[i+1:]...)
			if rec(n, rest) {
				return true
			}
		}
		return false
	}
	found = rec(m.clone(), evs)
	return found, exhausted, last
}

func runC11(c Case, dir string, st *Stats) *Viol {
	x := c11X{}
	if err := json.Unmarshal(c.X, &x); err != nil {
		fatalSetup("%v", err)
	}
	for round := 0; round < x.Rounds; round++ {
		if v := runC11Round(c, x, path.Join(dir, fmt.Sprint(round)), round, st); v != nil {
			return v
		}
	}
	return nil
}

func runC11Round(c Case, x c11X, dir string, round int, st *Stats) *Viol {
	w := newWorld(dir, c.C)
	if err := w.open(); err != nil {
		st.undecided("initialize: %v", err)
		return nil
	}
	defer func() {
		closeDB(w.meta)
		os.RemoveAll(dir)
	}()
	m := newModel()
	for _, o := range c.Ops {
		if _, err := w.exec(o); err != nil {
			st.undecided("%v: %v", o, err)
			return nil
		}
		m.apply(o)
	}
	rec := &recorder{}
	if x.Delay > 0 {
		var mu sync.Mutex
		r := rand.New(rand.NewSource(c.Seed + int64(round)))
		w.fl.setDelay(func() {
			mu.Lock()
			d := r.Intn(x.Delay*2) - x.Delay
			mu.Unlock()
			if d > 0 {
				time.Sleep(time.Duration(d) * time.Microsecond)
			}
		})
	}
	start := make(chan struct{})
	if v := call(round, "concurrent clients", func() {
		var wg sync.WaitGroup
		var pmu sync.Mutex
		var p interface{}
		for id, ops := range x.Clients {
			id, ops := id, ops
			wg.Add(1)
			go func() {
				defer wg.Done()
				defer func() {
					if e := recover(); e != nil {
						pmu.Lock()
						p = fmt.Sprintf("%v\n%s", e, stackTrace())
						pmu.Unlock()
					}
				}()
				<-start
				for _, o := range ops {
					w.client(rec, id, o)
				}
			}()
		}
		close(start)
		wg.Wait()
		if p != nil {
			panic(p)
		}
	}); v != nil {
		return v
	}
	w.fl.setDelay(nil)
	evs := append([]*event{}, rec.evs...)
	sort.Slice(evs, func(i, j int) bool { return evs[i].inv < evs[j].inv })
	overlap := 0
	for i := 1; i < len(evs); i++ {
		if evs[i].inv < evs[i-1].res {
			overlap++
		}
	}
	st.eval(overlap > 0)
	for _, e := range evs {
		st.count(e.what)
		if e.err != nil {
			st.count("failed")
		}
	}
	tr, err := walk(w.fs, w.C.Root, true)
	if err != nil {
		return viol(round, "walk", "after concurrent calls: %v\n%s", err, showEvs(evs))
	}
	found, exhausted, last := linearize(m, evs, func(m *Model) string { return m.diff(tr) }, 200000)
	if !found {
		if exhausted {
			st.undecided("too many orders to try")
			return nil
		}
		return viol(round, "linearizability", "no sequential order of the calls explains their outcomes and the final tree (%s)\n%s", last, showEvs(evs))
	}
	if v := w.rebuildDiff(round, false); v != nil {
		v.Detail += "\n" + showEvs(evs)
		return v
	}
	return nil
}

func showEvs(evs []*event) string {
	b := &strings.Builder{}
	for _, e := range evs {
		fmt.Fprintf(b, "  [%d,%d] client %d: %s of %v -> %q %v\n", e.inv, e.res, e.client, e.what, e.op, e.val, e.err)
	}
	return b.String()
}

func init() {
	props["C11"] = &propDef{gen: genC11, n: map[string]int{"quick": 160, "thorough": 1600}, run: runC11}
}
