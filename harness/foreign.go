package main

import (
	"archive/tar"
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path"
	"sort"
	"strings"
	"time"

	"github.com/pojntfx/stfs/pkg/cache"
	"github.com/pojntfx/stfs/pkg/config"
	"github.com/spf13/afero"
)

// C17: foreign archives

type foreignEnt struct {
	P   string `json:"p"` // relative to the top
	Dir bool   `json:"dir,omitempty"`
	D   string `json:"d,omitempty"`
	M   uint32 `json:"m"`
}

type c17X struct {
	Fmt  int          `json:"format"` // 0 USTAR, 1 PAX, 2 GNU
	Top  string       `json:"top"`    // "./", "/" or "name/"
	Pad  int          `json:"pad"`    // the archive is padded to a multiple of this
	Ents []foreignEnt `json:"ents"`
	RO   bool         `json:"ro"`
}

var tarFormats = []tar.Format{tar.FormatUSTAR, tar.FormatPAX, tar.FormatGNU}

func (x c17X) archive() []byte {
	b := &bytes.Buffer{}
	tw := tar.NewWriter(b)
	mt := time.Unix(1600000000, 0)
	wr := func(h *tar.Header, d []byte) {
		h.Format, h.ModTime, h.Uname, h.Gname = tarFormats[x.Fmt], mt, "user", "group"
		if err := tw.WriteHeader(h); err != nil {
			fatalSetup("foreign: %v", err)
		}
		if _, err := tw.Write(d); err != nil {
			fatalSetup("foreign: %v", err)
		}
	}
	wr(&tar.Header{Typeflag: tar.TypeDir, Name: x.Top, Mode: 0755}, nil)
	for _, e := range x.Ents {
		n := x.Top + e.P
		if e.Dir {
			wr(&tar.Header{Typeflag: tar.TypeDir, Name: n + "/", Mode: int64(e.M)}, nil)
		} else {
			d := content(e.D)
			wr(&tar.Header{Typeflag: tar.TypeReg, Name: n, Mode: int64(e.M), Size: int64(len(d))}, d)
		}
	}
	if err := tw.Close(); err != nil {
		fatalSetup("foreign: %v", err)
	}
	if x.Pad > 0 {
		for b.Len()%x.Pad != 0 {
			b.WriteByte(0)
		}
	}
	return b.Bytes()
}

func (x c17X) model() *Model {
	m := newModel()
	m.N["/"].Mode = 0755
	for _, e := range x.Ents {
		n := &MNode{Dir: e.Dir, Mode: os.FileMode(e.M)}
		if !e.Dir {
			n.Data = content(e.D)
		}
		m.N[path.Join("/", e.P)] = n
	}
	return m
}

// treeVs compares names, kinds and content (owners and times are up to whoever wrote the entry).
func treeVs(m *Model, t Tree) string {
	for _, k := range m.names() {
		n, e := m.N[k], t[k]
		switch {
		case e == nil:
			return fmt.Sprintf("%q is missing", k)
		case e.Err != "":
			return fmt.Sprintf("%q cannot be read: %s", k, e.Err)
		case e.Dir != n.Dir:
			return fmt.Sprintf("%q has the wrong kind", k)
		case !n.Dir && (!bytes.Equal(n.Data, e.Data) || e.Size != int64(len(n.Data))):
			return fmt.Sprintf("%q has the content %s (size %d) instead of %s", k, short(e.Data), e.Size, short(n.Data))
		case e.Mode.Perm() != n.Mode.Perm():
			return fmt.Sprintf("%q has the mode %o instead of %o", k, e.Mode.Perm(), n.Mode.Perm())
		}
	}
	ks := []string{}
	for k := range t {
		if m.N[k] == nil {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	if len(ks) > 0 {
		return fmt.Sprintf("%q must not exist", ks[0])
	}
	return ""
}

func genC17(r *rand.Rand, tier string, i int) Case {
	x := c17X{Fmt: i % 3, Top: []string{"./", "/", "top/"}[i/3%3], Pad: []int{0, 0, 10240, 512}[r.Intn(4)]}
	if x.Top == "top/" {
		x.Top = []string{"top/", "a/", ".hidden/", "a b/", "dir/", "d.tar/", "a_b/", "x/"}[r.Intn(8)]
	}
	names := append(append([]string{}, plainNames...), weirdNames...)
	if x.Fmt == 0 {
		names = append([]string{}, plainNames...)
		for _, n := range weirdNames {
			if isASCII(n) {
				names = append(names, n)
			}
		}
	}
	dirs := []string{""}
	seen := map[string]bool{}
	n := 2 + r.Intn(10)
	if tier == "thorough" {
		n = 2 + r.Intn(30)
	}
	for j := 0; j < n; j++ {
		d := dirs[r.Intn(len(dirs))]
		if r.Intn(3) == 0 {
			d = dirs[len(dirs)-1]
		}
		name := names[r.Intn(len(names))]
		if r.Intn(8) == 0 {
			l := 20 + r.Intn(70)
			if x.Fmt != 0 {
				l = 20 + r.Intn(220)
			}
			name = strings.Repeat("long", l/4+1)[:l]
		}
		p := path.Join(d, name)
		if seen[p] || (x.Fmt == 0 && len(x.Top+p) > 95) || len(p) > 700 {
			continue
		}
		seen[p] = true
		e := foreignEnt{P: p, M: []uint32{0644, 0755, 0600}[r.Intn(3)]}
		if r.Intn(3) == 0 {
			e.Dir = true
			dirs = append(dirs, p)
		} else {
			e.D = fmt.Sprintf("%d:%d", []int{0, 1, 511, 512, 513, 1024, r.Intn(3000), r.Intn(30000)}[r.Intn(8)], r.Intn(100000))
		}
		x.Ents = append(x.Ents, e)
	}
	c := Case{C: Cfg{RecordSize: recordSizes[r.Intn(len(recordSizes))], Cache: caches[r.Intn(len(caches))], WOnlyRead: r.Intn(2) == 0}.norm()}
	if r.Intn(4) == 0 {
		// What is added later may be compressed only if the original members are, too, so don't
		c.C.Comp = ""
	}
	x.RO = r.Intn(6) == 0
	if !x.RO {
		g := &Gen{r: r, o: GenOpt{invalid: 5, weird: r.Intn(2) == 0, mutate: true, spell: r.Intn(2) == 0}, m: x.model()}
		g.o.weights = map[string]int{"create": 20, "write": 10, "mkdir": 12, "mkdirall": 6, "remove": 8, "removeall": 4, "rename": 10, "chmod": 5}
		for j := 0; j < r.Intn(8); j++ {
			c.Ops = append(c.Ops, g.next())
		}
	}
	c.X, _ = json.Marshal(x)
	return c
}

func isASCII(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] >= 0x80 {
			return false
		}
	}
	return true
}

// compose opens the filesystem as documented.
func (w *World) compose() (afero.Fs, string, error) {
	root, err := w.fs.Initialize("/", os.ModePerm)
	if err != nil {
		return nil, "", err
	}
	f, err := cache.NewCacheFilesystem(w.fs, root, config.NoneKey, time.Hour, "")
	return f, root, err
}

func aferoExec(f afero.Fs, o Op) error {
	switch o.K {
	case "create":
		h, err := f.Create(o.P)
		if err != nil {
			return err
		}
		if d := content(o.D); len(d) > 0 {
			if _, err := h.Write(d); err != nil {
				h.Close()
				return err
			}
		}
		return h.Close()
	case "write":
		h, err := f.OpenFile(o.P, o.F, os.FileMode(o.M))
		if err != nil {
			return err
		}
		if o.B > 0 {
			if err := h.Truncate(o.B - 1); err != nil {
				h.Close()
				return err
			}
		}
		if o.A > 0 {
			if _, err := h.Seek(o.A, 0); err != nil {
				h.Close()
				return err
			}
		}
		if d := content(o.D); len(d) > 0 {
			if _, err := h.Write(d); err != nil {
				h.Close()
				return err
			}
		}
		return h.Close()
	case "mkdir":
		return f.Mkdir(o.P, os.FileMode(o.M))
	case "mkdirall":
		return f.MkdirAll(o.P, os.FileMode(o.M))
	case "remove":
		return f.Remove(o.P)
	case "removeall":
		return f.RemoveAll(o.P)
	case "rename":
		return f.Rename(o.P, o.Q)
	case "chmod":
		return f.Chmod(o.P, os.FileMode(o.M))
	}
	panic(setupError{"unknown operation " + o.K})
}

func runC17(c Case, dir string, st *Stats) *Viol {
	x := c17X{}
	if err := json.Unmarshal(c.X, &x); err != nil {
		fatalSetup("%v", err)
	}
	w := newWorld(dir, c.C)
	if err := os.WriteFile(w.Drive, x.archive(), 0600); err != nil {
		fatalSetup("%v", err)
	}
	if err := w.build(w.freshDB(), WOpt{readOnly: x.RO, nilWrite: x.RO}); err != nil {
		fatalSetup("%v", err)
	}
	defer func() { closeDB(w.meta) }()
	var f afero.Fs
	var root string
	var err error
	if v := call(-1, "Initialize", func() { f, root, err = w.compose() }); v != nil {
		return v
	}
	what := fmt.Sprintf("a %v archive below %q", tarFormats[x.Fmt], x.Top)
	if err != nil {
		return viol(-1, "open", "%s cannot be opened: %v", what, err)
	}
	m := x.model()
	st.count(tarFormats[x.Fmt].String() + " " + []string{"./", "/", "top/"}[map[bool]int{true: 0}[x.Top == "./"]+map[bool]int{true: 1}[x.Top == "/"]+map[bool]int{true: 2}[len(x.Top) > 2]])
	check := func(i int, f afero.Fs, when string) *Viol {
		var v *Viol
		if h := call(i, "walk "+when, func() {
			t, err := walk(f, "/", true)
			if err != nil {
				v = viol(i, "walk", "%s (root %q) %s: %v", what, root, when, err)
				return
			}
			if d := treeVs(m, t); d != "" {
				v = viol(i, "tree", "%s (root %q) %s: %s", what, root, when, d)
				return
			}
			for _, k := range m.names() {
				if k == "/" {
					continue
				}
				for _, s := range []string{k[1:], "." + k} {
					fi, err := f.Stat(s)
					if err != nil {
						v = viol(i, "spelling", "%s (root %q) %s: %q is found as %q, but not as %q: %v", what, root, when, k, k, s, err)
						return
					}
					if d := entDiff(&Ent{Dir: fi.IsDir(), Mode: t[k].Mode, Size: fi.Size(), UID: t[k].UID, GID: t[k].GID, Data: t[k].Data, Link: t[k].Link}, t[k], false); d != "" {
						v = viol(i, "spelling", "%s %s: %q and %q are different entries: %s", what, when, k, s, d)
						return
					}
					if !m.N[k].Dir {
						b, err := readFile(f, s)
						if err != nil || !bytes.Equal(b, m.N[k].Data) {
							v = viol(i, "spelling", "%s %s: %q reads differently from %q: %v", what, when, s, k, err)
							return
						}
					}
				}
			}
		}); h != nil {
			return h
		}
		return v
	}
	st.eval(len(x.Ents) > 0)
	if v := check(-1, f, "as written"); v != nil {
		return v
	}
	if x.RO {
		st.count("read-only")
		return nil
	}
	for i, o := range c.Ops {
		var err error
		if v := call(i, o.String(), func() { err = aferoExec(f, o) }); v != nil {
			return v
		}
		want, _ := m.apply(o)
		st.eval(true)
		st.count(o.K)
		if want.okay() != (err == nil) {
			return viol(i, "result", "%s (root %q): %v: the reference answers %v, the filesystem %v", what, root, o, want, err)
		}
		if v := check(i, f, "after "+o.String()); v != nil {
			return v
		}
	}
	tw, err := w.twin(false, WOpt{})
	if err != nil {
		fatalSetup("%v", err)
	}
	defer tw.drop()
	var g afero.Fs
	if v := call(len(c.Ops), "rebuild", func() { g, root, err = tw.compose() }); v != nil {
		return v
	}
	if err != nil {
		return viol(len(c.Ops), "rebuild", "%s cannot be opened again: %v", what, err)
	}
	return check(len(c.Ops), g, "after rebuilding the index")
}

func init() {
	props["C17"] = &propDef{gen: genC17, n: map[string]int{"quick": 540, "thorough": 5400}, run: runC17}
}
