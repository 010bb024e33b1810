package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"os"
	"strings"

	"github.com/pojntfx/stfs/pkg/config"
	"github.com/spf13/afero"
)

// Content round trips (C03) and open files (C14)

func matrixCfg(r *rand.Rand, i int) Cfg {
	c := Cfg{
		Comp: comps[i%len(comps)], Level: levels[(i/len(comps))%len(levels)],
		Enc: encs[(i/24)%len(encs)], Sig: sigs[(i/72)%len(sigs)],
		RecordSize: recordSizes[r.Intn(len(recordSizes))], Cache: caches[r.Intn(len(caches))], WOnlyRead: r.Intn(2) == 0,
	}
	return c
}

// sized returns a content specification for the size classes of C03.
func sized(r *rand.Rand, rs int) string {
	rec := rs * 512
	n := []int{0, 1, 511, 512, 513, rec - 1, rec, rec + 1, 3*rec + 17, r.Intn(4 * rec), r.Intn(2000), 40000}[r.Intn(12)]
	if n > 70000 {
		n = 70000
	}
	switch r.Intn(4) {
	case 0:
		return "=" + string(make([]byte, n))
	case 1:
		return fmt.Sprintf("%d:%d", n, 2*r.Intn(1000))
	case 2:
		return fmt.Sprintf("%d:%d", n, 2*r.Intn(1000)+1)
	default:
		return "=" + strings.Repeat("\x00\xffa", n/3+1)[:n]
	}
}

func runC03(c Case, dir string, st *Stats) *Viol {
	w := newWorld(dir, c.C)
	var err error
	if v := call(-1, "Initialize", func() { err = w.open() }); v != nil {
		st.undecided("%s", v.Detail)
		return nil
	}
	defer func() { closeDB(w.meta) }()
	if err != nil {
		if w.C.Tape {
			st.count("unsupported on tapes")
			return nil
		}
		return viol(-1, "initialize", "%v", err)
	}
	want := map[string][]byte{}
	for i, o := range c.Ops {
		var err error
		if v := call(i, o.String(), func() { _, err = w.exec(o) }); v != nil {
			st.undecided("%s", strings.SplitN(v.Detail, "\n", 2)[0])
			return nil
		}
		if err != nil {
			if w.C.Tape && (errors.Is(err, config.ErrCompressionFormatRegularOnly) || errors.Is(err, config.ErrCompressionFormatRequiresLargerRecordSize) ||
				errors.Is(err, config.ErrSignatureFormatRegularOnly) || strings.Contains(err.Error(), "window")) {
				st.count("unsupported on tapes")
				return nil
			}
			return viol(i, "write-fails", "%v: %v", o, err)
		}
		d := content(o.D)
		switch o.K {
		case "create":
			want[o.P] = d
		case "write":
			if o.F&os.O_APPEND != 0 {
				want[o.P] = writeAt(want[o.P], d, int64(len(want[o.P])))
			} else {
				want[o.P] = d
			}
		case "opsarchive", "opsupdate":
			for _, s := range o.S {
				want[s.P] = content(s.D)
			}
		}
	}
	check := func(w *World, when string) *Viol {
		hs, err := w.rows()
		if err != nil {
			return viol(len(c.Ops), "rows", "%v", err)
		}
		pos := liveHeaders(hs)
		for n, d := range want {
			st.eval(len(d) > 0)
			fi, err := w.fs.Stat(n)
			if err != nil || fi.Size() != int64(len(d)) {
				return viol(len(c.Ops), "size", "%s: Stat of %q reports %v (%v) instead of %d", when, n, func() int64 {
					if fi == nil {
						return -1
					}
					return fi.Size()
				}(), err, len(d))
			}
			if b, err := readFile(w.fs, n); err != nil || !bytes.Equal(b, d) {
				return viol(len(c.Ops), "read", "%s: reading %q returns %s instead of %s (%v)", when, n, short(b), short(d), err)
			}
			if b, err := w.restore(n); err != nil || !bytes.Equal(b, d) {
				return viol(len(c.Ops), "restore", "%s: restoring %q returns %s instead of %s (%v)", when, n, short(b), short(d), err)
			}
			h := pos[n]
			if h == nil {
				return viol(len(c.Ops), "row", "%s: %q has no row", when, n)
			}
			if h.Size != int64(len(d)) {
				return viol(len(c.Ops), "size", "%s: the row of %q reports the size %d instead of %d", when, n, h.Size, len(d))
			}
			if b, _, err := w.fetch(int(h.Record), int(h.Block)); err != nil || !bytes.Equal(b, d) {
				return viol(len(c.Ops), "fetch", "%s: fetching %q at (%d,%d) returns %s instead of %s (%v)", when, n, h.Record, h.Block, short(b), short(d), err)
			}
		}
		return nil
	}
	var res *Viol
	if v := call(len(c.Ops), "reading", func() {
		if res = check(w, "in the running instance"); res != nil {
			return
		}
		for _, keep := range []bool{true, false} {
			t, err := w.twin(keep, WOpt{})
			if err != nil {
				fatalSetup("%v", err)
			}
			if _, err := t.fs.Initialize(w.C.Root, os.ModePerm); err != nil {
				res = viol(len(c.Ops), "reopen", "reopening (index kept: %v): %v", keep, err)
			} else {
				res = check(t, fmt.Sprintf("after reopening (index kept: %v)", keep))
			}
			t.drop()
			if res != nil {
				return
			}
		}
	}); v != nil {
		st.undecided("%s", strings.SplitN(v.Detail, "\n", 2)[0])
		return nil
	}
	return res
}

// Handles

type HOp struct {
	K string `json:"k"`
	N int64  `json:"n,omitempty"`
	O int64  `json:"o,omitempty"`
	W int    `json:"w,omitempty"`
	D string `json:"d,omitempty"`
}

func (h HOp) String() string { return fmt.Sprintf("%s n=%d o=%d w=%d d=%s", h.K, h.N, h.O, h.W, h.D) }

type c14X struct {
	Init string `json:"init"`
	Flag int    `json:"flag"`
	New  bool   `json:"new"`
	H    []HOp  `json:"h"`
}

func genC14(r *rand.Rand, tier string, i int) Case {
	c := genCfg(r, false)
	if i%3 == 0 {
		c = matrixCfg(r, r.Intn(216))
		if r.Intn(2) == 0 {
			c.Enc, c.Sig = "", ""
		}
	}
	rec := int64(c.norm().RecordSize * 512)
	x := c14X{Flag: []int{os.O_RDONLY, os.O_WRONLY, os.O_RDWR, os.O_RDWR}[r.Intn(4)]}
	if x.Flag != os.O_RDONLY {
		if r.Intn(4) == 0 {
			x.Flag |= os.O_APPEND
		}
		if r.Intn(5) == 0 {
			x.Flag |= os.O_TRUNC
		}
		if r.Intn(3) == 0 {
			x.Flag |= os.O_CREATE
			x.New = r.Intn(2) == 0
		}
	}
	size := int64(0)
	switch r.Intn(5) {
	case 0:
	case 1:
		size = r.Int63n(20)
	case 2:
		size = 500 + r.Int63n(40)
	case 3:
		size = r.Int63n(3*rec + 1)
	default:
		size = r.Int63n(3000)
	}
	if size > 60000 {
		size = 60000
	}
	x.Init = fmt.Sprintf("%d:%d", size, r.Intn(1000))
	off := func() int64 {
		switch r.Intn(10) {
		case 0:
			return -1 - r.Int63n(10)
		case 1:
			return 0
		case 2:
			return size
		case 3:
			return size + 1 + r.Int63n(50)
		case 4:
			return size - 1
		default:
			return r.Int63n(size + 10)
		}
	}
	length := func() int64 {
		switch r.Intn(8) {
		case 0:
			return 0
		case 1:
			return size + 10
		default:
			return 1 + r.Int63n(1+size/2+20)
		}
	}
	n := 3 + r.Intn(14)
	if tier == "thorough" {
		n = 3 + r.Intn(30)
	}
	for j := 0; j < n; j++ {
		h := HOp{}
		switch r.Intn(16) {
		case 0, 1, 2:
			h = HOp{K: "read", N: length()}
		case 3, 4:
			h = HOp{K: "readat", N: length(), O: off()}
		case 5, 6, 7, 8:
			h = HOp{K: "seek", O: off(), W: r.Intn(3)}
			if h.W != 0 && r.Intn(3) > 0 {
				h.O = -r.Int63n(20)
			}
		case 9, 10, 11:
			h = HOp{K: "write", D: fmt.Sprintf("%d:%d", r.Int63n(600), r.Intn(1000))}
		case 12:
			h = HOp{K: "writestring", D: fmt.Sprintf("%d:%d", r.Int63n(60), r.Intn(1000))}
		case 13:
			h = HOp{K: "writeat", D: fmt.Sprintf("%d:%d", r.Int63n(300), r.Intn(1000)), O: off()}
			if x.Flag&os.O_APPEND != 0 {
				h = HOp{K: "read", N: length()}
			}
		case 14:
			h = HOp{K: "truncate", O: off()}
		case 15:
			h = HOp{K: "sync"}
			if r.Intn(2) == 0 {
				h = HOp{K: "stat"}
			}
		}
		x.H = append(x.H, h)
	}
	b, _ := json.Marshal(x)
	return Case{C: c, X: b}
}

func runC14(c Case, dir string, st *Stats) *Viol {
	x := c14X{}
	if err := json.Unmarshal(c.X, &x); err != nil {
		fatalSetup("%v", err)
	}
	w := newWorld(dir, c.C)
	if err := w.open(); err != nil {
		st.undecided("initialize: %v", err)
		return nil
	}
	defer func() { closeDB(w.meta) }()
	var v *Viol
	if p := guard(callLimit, func() { v = c14Steps(w, x, st) }); p != "" {
		if strings.HasPrefix(p, "panic") {
			return viol(0, "panic", "%s", p)
		}
		st.undecided("%s", strings.SplitN(p, "\n", 2)[0])
		return nil
	}
	return v
}

func c14Steps(w *World, x c14X, st *Stats) *Viol {
	data := []byte{}
	if !x.New {
		data = content(x.Init)
		if _, err := w.exec(Op{K: "create", P: "/f", D: x.Init}); err != nil {
			st.undecided("create: %v", err)
			return nil
		}
	}
	f, err := w.fs.OpenFile("/f", x.Flag, 0644)
	if err != nil {
		return viol(-1, "open", "opening with flags %#x fails: %v", x.Flag, err)
	}
	acc := x.Flag & (os.O_RDONLY | os.O_WRONLY | os.O_RDWR)
	canW := acc != os.O_RDONLY
	canR := acc != os.O_WRONLY || w.C.WOnlyRead
	app := x.Flag&os.O_APPEND != 0
	if x.Flag&os.O_TRUNC != 0 {
		data = []byte{}
	}
	pos := int64(0)
	for i, h := range x.H {
		st.eval(true)
		st.count(h.K)
		bad := func(f string, a ...interface{}) *Viol {
			return viol(i, "handle-"+h.K, "flags %#x, step %d (%v), cursor %d of %d: %s", x.Flag, i, h, pos, len(data), fmt.Sprintf(f, a...))
		}
		switch h.K {
		case "read":
			buf := make([]byte, h.N)
			n, err := f.Read(buf)
			if !canR {
				if err == nil || n != 0 || err == io.EOF {
					return bad("reading a write-only handle returns %d, %v", n, err)
				}
				continue
			}
			want := 0
			if pos < int64(len(data)) {
				want = copy(make([]byte, h.N), data[pos:])
			}
			if n != want {
				return bad("Read returns %d bytes (%v) instead of %d", n, err, want)
			}
			if want > 0 && !bytes.Equal(buf[:n], data[pos:pos+int64(n)]) {
				return bad("Read returns %s instead of %s", short(buf[:n]), short(data[pos:pos+int64(n)]))
			}
			if h.N > 0 && want == 0 {
				if err != io.EOF {
					return bad("Read at the end returns %v instead of EOF", err)
				}
			} else if err != nil && !(err == io.EOF && pos+int64(n) == int64(len(data))) {
				return bad("Read fails: %v", err)
			} else if err == io.EOF && want > 0 {
				return bad("Read signals the end along with data")
			}
			pos += int64(n)
		case "readat":
			buf := make([]byte, h.N)
			n, err := f.ReadAt(buf, h.O)
			if h.N == 0 && h.O < 0 {
				continue // nothing to read from nowhere
			}
			if !canR || h.O < 0 {
				if err == nil || n != 0 || err == io.EOF {
					return bad("ReadAt returns %d, %v instead of an error", n, err)
				}
				continue
			}
			want := 0
			if h.O < int64(len(data)) {
				want = copy(make([]byte, h.N), data[h.O:])
			}
			if n != want || (n > 0 && !bytes.Equal(buf[:n], data[h.O:h.O+int64(n)])) {
				return bad("ReadAt returns %d bytes %s (%v) instead of %d", n, short(buf[:n]), err, want)
			}
			if int64(n) < h.N && err != io.EOF {
				return bad("a short ReadAt returns %v instead of EOF", err)
			}
			if int64(n) == h.N && err != nil && !(err == io.EOF && h.O+int64(n) >= int64(len(data))) {
				return bad("ReadAt fails: %v", err)
			}
		case "seek":
			base := int64(0)
			if h.W == 1 {
				base = pos
			} else if h.W == 2 {
				base = int64(len(data))
			}
			n, err := f.Seek(h.O, h.W)
			if base+h.O < 0 {
				if err == nil {
					return bad("seeking to a negative offset returns %d and no error", n)
				}
				continue
			}
			if err != nil || n != base+h.O {
				return bad("Seek returns %d, %v instead of %d", n, err, base+h.O)
			}
			pos = base + h.O
		case "write", "writestring":
			d := content(h.D)
			var n int
			var err error
			if h.K == "write" {
				n, err = f.Write(d)
			} else {
				n, err = f.WriteString(string(d))
			}
			if !canW {
				if err == nil || n != 0 {
					return bad("writing to a read-only handle returns %d, %v", n, err)
				}
				continue
			}
			if err != nil || n != len(d) {
				return bad("it returns %d, %v instead of %d", n, err, len(d))
			}
			off := pos
			if app {
				off = int64(len(data))
			}
			if len(d) > 0 {
				data = writeAt(data, d, off)
				pos = off + int64(len(d))
			}
		case "writeat":
			d := content(h.D)
			n, err := f.WriteAt(d, h.O)
			if len(d) == 0 && h.O < 0 {
				continue
			}
			if !canW || h.O < 0 {
				if err == nil || n != 0 {
					return bad("WriteAt returns %d, %v instead of an error", n, err)
				}
				continue
			}
			if err != nil || n != len(d) {
				return bad("WriteAt returns %d, %v instead of %d", n, err, len(d))
			}
			data = writeAt(data, d, h.O)
		case "truncate":
			err := f.Truncate(h.O)
			if !canW || h.O < 0 {
				if err == nil {
					return bad("Truncate succeeds")
				}
				continue
			}
			if err != nil {
				return bad("Truncate fails: %v", err)
			}
			data = resize(data, h.O)
		case "sync":
			if err := f.Sync(); err != nil && canW {
				return bad("Sync fails: %v", err)
			}
		case "stat":
			// Which length an open handle reports before it is closed is left open
			if _, err := f.Stat(); err != nil {
				return bad("Stat fails: %v", err)
			}
		}
	}
	if err := f.Close(); err != nil {
		return viol(len(x.H), "handle-close", "closing fails: %v", err)
	}
	return c14Final(w.fs, data, x)
}

func c14Final(a afero.Fs, data []byte, x c14X) *Viol {
	b, err := readFile(a, "/f")
	if err != nil || !bytes.Equal(b, data) {
		return viol(len(x.H), "handle-final", "flags %#x, after close: a fresh open reads %s (%v) instead of %s; calls: %v", x.Flag, short(b), err, short(data), x.H)
	}
	fi, err := a.Stat("/f")
	if err != nil || fi.Size() != int64(len(data)) {
		return viol(len(x.H), "handle-final", "flags %#x, after close: Stat reports %v (%v) instead of %d", x.Flag, fi, err, len(data))
	}
	return nil
}

func init() {
	props["C03"] = &propDef{
		gen: func(r *rand.Rand, tier string, i int) Case {
			c := matrixCfg(r, i)
			if i >= 216 && r.Intn(3) == 0 {
				c.Tape = true
				c.RecordSize = []int{20, 1, 2, 7}[r.Intn(4)]
				if r.Intn(2) == 0 {
					c.Sig = ""
				}
			}
			ops := []Op{}
			rs := c.norm().RecordSize
			n := 1 + r.Intn(3)
			for j := 0; j < n; j++ {
				p := fmt.Sprintf("/f%d", j)
				if r.Intn(2) == 0 {
					p += pickName(r, true)
				}
				if r.Intn(5) == 0 {
					p += nameSuffixes[r.Intn(len(nameSuffixes))]
				}
				switch r.Intn(3) {
				case 0:
					ops = append(ops, Op{K: "create", P: p, D: sized(r, rs)})
				case 1:
					ops = append(ops, Op{K: "opsarchive", S: []Op{{K: "file", P: p, M: 0600, D: sized(r, rs)}, {K: "file", P: p + "x", M: 0600, D: sized(r, rs)}}})
				default:
					ops = append(ops, Op{K: "create", P: p, D: sized(r, rs)})
					switch r.Intn(3) {
					case 0:
						ops = append(ops, Op{K: "write", P: p, F: os.O_WRONLY | os.O_TRUNC, D: sized(r, rs)})
					case 1:
						ops = append(ops, Op{K: "write", P: p, F: os.O_RDWR | os.O_APPEND, D: sized(r, rs)})
					default:
						ops = append(ops, Op{K: "opsupdate", A: 1, S: []Op{{K: "file", P: p, M: 0600, D: sized(r, rs)}}})
					}
				}
			}
			// Attribute changes leave the content alone
			if r.Intn(2) == 0 {
				ops = append(ops, Op{K: "chmod", P: ops[0].P, M: 0640})
				if ops[0].K == "opsarchive" {
					ops[len(ops)-1].P = ops[0].S[0].P
				}
			}
			return Case{C: c, Ops: ops}
		},
		n: map[string]int{"quick": 432, "thorough": 4000}, run: runC03}
	props["C14"] = &propDef{gen: genC14, n: map[string]int{"quick": 1200, "thorough": 12000}, run: runC14}
}
