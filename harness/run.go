package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"time"
)

// Case is one fully determined experiment.
type Case struct {
	Prop string          `json:"property"`
	Kind string          `json:"kind,omitempty"`
	C    Cfg             `json:"config"`
	Seed int64           `json:"seed"`
	Ops  []Op            `json:"ops,omitempty"`
	X    json.RawMessage `json:"x,omitempty"`
}

type Viol struct {
	Key    string `json:"key"`    // short, stable identification of what failed
	Detail string `json:"detail"` // what was observed
	Step   int    `json:"step"`
}

func viol(step int, key, f string, a ...interface{}) *Viol {
	return &Viol{Key: key, Detail: fmt.Sprintf(f, a...), Step: step}
}

type Stats struct {
	Evals      int            `json:"evals"`
	Nontrivial int            `json:"nontrivial"`
	Counts     map[string]int `json:"counts"`
	Samples    []string       `json:"samples"`
	Undecided  []string       `json:"undecided"`
}

func (s *Stats) count(k string) {
	if s.Counts == nil {
		s.Counts = map[string]int{}
	}
	s.Counts[k]++
}
func (s *Stats) eval(nontrivial bool) {
	s.Evals++
	if nontrivial {
		s.Nontrivial++
	}
}
func (s *Stats) undecided(f string, a ...interface{}) {
	if len(s.Undecided) < 20 {
		s.Undecided = append(s.Undecided, fmt.Sprintf(f, a...))
	}
	s.count("undecided")
}

func stackTrace() string { return string(debug.Stack()) }

func allStacks() string {
	b := make([]byte, 1<<20)
	return string(b[:runtime.Stack(b, true)])
}

type propDef struct {
	gen func(r *rand.Rand, tier string, i int) Case
	n   map[string]int // number of cases by tier
	run func(c Case, dir string, st *Stats) *Viol
}

var props = map[string]*propDef{}

type outFile struct {
	Prop  string  `json:"property"`
	Stats Stats   `json:"stats"`
	Viols []found `json:"violations"`
	Done  int     `json:"done"`
	Total int     `json:"total"`
	Wall  float64 `json:"wall"`
}

type found struct {
	Case Case `json:"case"`
	Viol Viol `json:"viol"`
}

func caseSeed(seed int64, i int) int64 { return seed*1000003 + int64(i)*7919 + 17 }

// runFinding replays the calls of a known finding: what they return is compared with what the reference returns.
func runFinding(c Case, dir string, st *Stats) *Viol {
	w := newWorld(dir, c.C)
	if err := w.open(); err != nil {
		st.undecided("initialize: %v", err)
		return nil
	}
	defer func() { closeDB(w.meta) }()
	m := newModel()
	for i, o := range c.Ops {
		var res string
		var err error
		if v := call(i, o.String(), func() { res, err = w.exec(o) }); v != nil {
			return v
		}
		want, wres := m.apply(o)
		if want.okay() != (err == nil) {
			return viol(i, "result", "%v: the reference answers %v, the filesystem %v (%v)", o, want, class(err), err)
		}
		if err == nil && wres != "" && res != wres || o.K == "links" && res != o.D {
			return viol(i, "value", "%v: the reference answers %q, the filesystem %q", o, wres, res)
		}
	}
	return nil
}

func runSafe(p *propDef, c Case, dir string, st *Stats) (v *Viol) {
	defer func() {
		if r := recover(); r != nil {
			if s, ok := r.(setupError); ok {
				st.undecided("%s", s.s)
				v = nil
				return
			}
			v = &Viol{Key: "panic", Detail: fmt.Sprintf("panic in the harness or the code: %v\n%s", r, stackTrace())}
		}
	}()
	os.MkdirAll(dir, 0700)
	defer os.RemoveAll(dir)
	if c.Kind == "finding" {
		return runFinding(c, dir, st)
	}
	return p.run(c, dir, st)
}

// shrink removes operations while the same kind of violation remains.
func shrink(p *propDef, c Case, v *Viol, dir string, budget time.Duration) (Case, *Viol) {
	end := time.Now().Add(budget)
	if strings.HasPrefix(v.Key, "hang") || len(c.Ops) < 2 {
		return c, v
	}
	if v.Step+1 < len(c.Ops) && v.Step >= 0 {
		t := c
		t.Ops = append([]Op{}, c.Ops[:v.Step+1]...)
		if nv := runSafe(p, t, dir, &Stats{}); nv != nil && nv.Key == v.Key {
			c, v = t, nv
		}
	}
	for size := len(c.Ops) / 2; size >= 1; {
		changed := false
		for i := 0; i+size <= len(c.Ops) && time.Now().Before(end); {
			t := c
			t.Ops = append(append([]Op{}, c.Ops[:i]...), c.Ops[i+size:]...)
			if nv := runSafe(p, t, dir, &Stats{}); nv != nil && nv.Key == v.Key {
				c, v = t, nv
				changed = true
			} else {
				i += size
			}
		}
		if time.Now().After(end) {
			break
		}
		if !changed || size > len(c.Ops) {
			size /= 2
		}
	}
	return c, v
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: vh run|replay|list ...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "list":
		ks := []string{}
		for k := range props {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		fmt.Println(strings.Join(ks, " "))
	case "run":
		fset := flag.NewFlagSet("run", flag.ExitOnError)
		prop := fset.String("prop", "", "")
		tier := fset.String("tier", "quick", "")
		seed := fset.Int64("seed", 1, "")
		shard := fset.Int("shard", 0, "")
		shards := fset.Int("shards", 1, "")
		out := fset.String("out", "", "")
		journal := fset.String("journal", "", "")
		dir := fset.String("dir", "", "scratch directory")
		limit := fset.Duration("limit", 10*time.Minute, "")
		n := fset.Int("n", 0, "")
		max := fset.Int("maxviol", 1, "")
		fset.Parse(os.Args[2:])
		p := props[*prop]
		if p == nil || *dir == "" {
			fmt.Fprintln(os.Stderr, "unknown property or no scratch directory")
			os.Exit(2)
		}
		total := p.n[*tier]
		if *n > 0 {
			total = *n
		}
		res := outFile{Prop: *prop, Total: total}
		start := time.Now()
		write := func() {
			res.Wall = time.Since(start).Seconds()
			b, _ := json.Marshal(res)
			if *out != "" {
				os.WriteFile(*out, b, 0600)
			} else {
				os.Stdout.Write(append(b, '\n'))
			}
		}
		for i := *shard; i < total; i += *shards {
			if time.Since(start) > *limit {
				res.Stats.undecided("time limit reached before case %d of %d", i, total)
				break
			}
			s := caseSeed(*seed, i)
			c := p.gen(rand.New(rand.NewSource(s)), *tier, i)
			c.Prop, c.Seed = *prop, s
			if *journal != "" {
				b, _ := json.Marshal(c)
				os.WriteFile(*journal, b, 0600)
			}
			if len(res.Stats.Samples) < 2 {
				b, _ := json.Marshal(c)
				if len(b) > 1500 {
					b = append(b[:1500], []byte("...")...)
				}
				res.Stats.Samples = append(res.Stats.Samples, string(b))
			}
			v := runSafe(p, c, filepath.Join(*dir, "w"), &res.Stats)
			res.Done++
			if v != nil {
				c, v = shrink(p, c, v, filepath.Join(*dir, "s"), 20*time.Second)
				res.Viols = append(res.Viols, found{c, *v})
				write()
				if len(res.Viols) >= *max {
					break
				}
				if strings.HasPrefix(v.Key, "hang") {
					break
				}
			}
		}
		write()
	case "replay":
		b, err := os.ReadFile(os.Args[2])
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		f := found{}
		if err := json.Unmarshal(b, &f); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		p := props[f.Case.Prop]
		if p == nil {
			os.Exit(2)
		}
		dir, err := os.MkdirTemp("", "vh-replay-")
		if err != nil {
			os.Exit(2)
		}
		defer os.RemoveAll(dir)
		st := &Stats{}
		v := runSafe(p, f.Case, filepath.Join(dir, "w"), st)
		fmt.Println(f.Case.Prop, "config:", fmt.Sprintf("%+v", f.Case.C))
		for i, o := range f.Case.Ops {
			fmt.Println("  ", i, o)
		}
		if v == nil {
			fmt.Println("not reproduced", st.Undecided)
			return
		}
		fmt.Printf("VIOLATION key=%s step=%d\n%s\n", v.Key, v.Step, v.Detail)
		os.RemoveAll(dir)
		os.Exit(1)
	}
}
