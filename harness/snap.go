package main

import (
	"archive/tar"
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"os"
	"path"
	"sort"
	"strings"
	"time"

	"github.com/pojntfx/stfs/pkg/config"
	"github.com/pojntfx/stfs/pkg/fs"
	"github.com/spf13/afero"
)

type Ent struct {
	Dir   bool
	Mode  os.FileMode
	Size  int64
	UID   int
	GID   int
	Mtime time.Time
	Atime time.Time
	Data  []byte
	Err   string // error while reading
	Link  string
}

func (e *Ent) String() string {
	if e == nil {
		return "<none>"
	}
	k := "file"
	if e.Dir {
		k = "dir"
	}
	return fmt.Sprintf("{%s mode=%o size=%d uid=%d gid=%d mtime=%s atime=%s data=%s err=%q link=%q}", k, e.Mode, e.Size, e.UID, e.GID,
		e.Mtime.UTC().Format(time.RFC3339Nano), e.Atime.UTC().Format(time.RFC3339Nano), short(e.Data), e.Err, e.Link)
}

func short(b []byte) string {
	if len(b) <= 24 {
		return fmt.Sprintf("%q", b)
	}
	return fmt.Sprintf("%q...(%d bytes, sum %x)", b[:16], len(b), sum(b))
}

func sum(b []byte) uint32 {
	h := uint32(2166136261)
	for _, c := range b {
		h = (h ^ uint32(c)) * 16777619
	}
	return h
}

type Tree map[string]*Ent

func entOf(fi os.FileInfo) *Ent {
	e := &Ent{Dir: fi.IsDir(), Mode: fi.Mode(), Size: fi.Size(), Mtime: fi.ModTime()}
	if s, ok := fi.Sys().(*fs.Stat); ok {
		e.UID = int(s.Uid)
		e.GID = int(s.Gid)
		sec, nsec := s.Atim.Unix()
		e.Atime = time.Unix(sec, nsec)
	}
	if e.Dir {
		e.Size = 0
	}
	return e
}

func readAll(f afero.File) ([]byte, error) {
	buf := &bytes.Buffer{}
	p := make([]byte, 32*1024)
	zero := 0
	for {
		n, err := f.Read(p)
		buf.Write(p[:n])
		if err == io.EOF {
			return buf.Bytes(), nil
		}
		if err != nil {
			return buf.Bytes(), err
		}
		if n == 0 {
			zero++
			if zero > 100 {
				return buf.Bytes(), io.ErrNoProgress
			}
		}
	}
}

func readFile(a afero.Fs, name string) ([]byte, error) {
	f, err := a.Open(name)
	if err != nil {
		return nil, err
	}
	b, err := readAll(f)
	if cerr := f.Close(); err == nil {
		err = cerr
	}
	return b, err
}

var errTooDeep = errors.New("the tree is too deep or has too many entries")

// walk returns everything that can be reached from the root through listings.
func walk(a afero.Fs, root string, content bool) (Tree, error) {
	t := Tree{}
	fi, err := a.Stat(root)
	if err != nil {
		return nil, fmt.Errorf("stat of the root %q: %w", root, err)
	}
	t["/"] = entOf(fi)
	var rec func(real, shown string, depth int) error
	rec = func(real, shown string, depth int) error {
		if depth > 40 || len(t) > 5000 {
			return errTooDeep
		}
		d, err := a.Open(real)
		if err != nil {
			return fmt.Errorf("open of directory %q: %w", real, err)
		}
		infos, err := d.Readdir(-1)
		if err != nil {
			return fmt.Errorf("readdir of %q: %w", real, err)
		}
		if err := d.Close(); err != nil {
			return fmt.Errorf("close of directory %q: %w", real, err)
		}
		for _, fi := range infos {
			name := path.Join(real, fi.Name())
			sh := path.Join(shown, fi.Name())
			if _, ok := t[sh]; ok {
				return fmt.Errorf("%q is listed more than once", sh)
			}
			e := entOf(fi)
			t[sh] = e
			if l, ok := a.(afero.LinkReader); ok {
				if ln, err := l.ReadlinkIfPossible(name); err == nil {
					// Links are not followed, and may lead nowhere
					e.Link = ln
					e.Data, err = readFile(a, name)
					if err != nil {
						e.Err = err.Error()
					}
					continue
				}
			}
			if e.Dir {
				if err := rec(name, sh, depth+1); err != nil {
					return err
				}
			} else if content && fi.Mode().IsRegular() {
				e.Data, err = readFile(a, name)
				if err != nil {
					e.Err = err.Error()
				}
			}
		}
		return nil
	}
	return t, rec(root, "/", 0)
}

func entDiff(a, b *Ent, times bool) string {
	if a == nil || b == nil {
		if a == b {
			return ""
		}
		return fmt.Sprintf("%v vs %v", a, b)
	}
	switch {
	case a.Dir != b.Dir, a.Mode != b.Mode, a.Size != b.Size, a.UID != b.UID, a.GID != b.GID, !bytes.Equal(a.Data, b.Data), a.Link != b.Link, (a.Err == "") != (b.Err == ""):
		return fmt.Sprintf("%v vs %v", a, b)
	}
	if times && (!a.Mtime.Equal(b.Mtime) || !a.Atime.Equal(b.Atime)) {
		return fmt.Sprintf("%v vs %v", a, b)
	}
	return ""
}

func treeDiff(a, b Tree, times bool, skip map[string]bool) string {
	keys := map[string]bool{}
	for k := range a {
		keys[k] = true
	}
	for k := range b {
		keys[k] = true
	}
	ks := []string{}
	for k := range keys {
		if !skip[k] {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	for _, k := range ks {
		if d := entDiff(a[k], b[k], times); d != "" {
			return fmt.Sprintf("%q: %s", k, d)
		}
	}
	return ""
}

// Independent scan of a regular drive

type Rec struct {
	Off  int64
	End  int64 // behind the padded content
	Hdr  *tar.Header
	Data []byte
}

type countR struct {
	r io.Reader
	n int64
}

func (c *countR) Read(p []byte) (int, error) {
	n, err := c.r.Read(p)
	c.n += int64(n)
	return n, err
}

func zeroBlock(b []byte) bool {
	for _, c := range b {
		if c != 0 {
			return false
		}
	}
	return true
}

// scanTape iterates over every record of a tape like an independent tar reader which ignores zero blocks does. It
// returns what it found before the first malformed record along with an error.
func scanTape(b []byte) ([]Rec, error) {
	recs := []Rec{}
	off := int64(0)
	for off < int64(len(b)) {
		if int64(len(b))-off < 512 {
			if zeroBlock(b[off:]) {
				return recs, fmt.Errorf("partial block of zeros at the end (offset %d)", off)
			}
			return recs, fmt.Errorf("partial block at the end (offset %d)", off)
		}
		if zeroBlock(b[off : off+512]) {
			off += 512
			continue
		}
		c := &countR{r: bytes.NewReader(b[off:])}
		tr := tar.NewReader(c)
		hdr, err := tr.Next()
		if err != nil {
			return recs, fmt.Errorf("no well-formed record at offset %d: %w", off, err)
		}
		data, err := io.ReadAll(tr)
		if err != nil {
			return recs, fmt.Errorf("content of the record at offset %d: %w", off, err)
		}
		end := off + (c.n+511)/512*512
		if end > int64(len(b)) {
			return recs, fmt.Errorf("padding of the record at offset %d is cut off", off)
		}
		recs = append(recs, Rec{off, end, hdr, data})
		off = end
	}
	return recs, nil
}

// rowTree returns the rows of the index by name, with the content at their positions.
func (w *World) rowTree() (map[string]*Ent, error) {
	hs, err := w.rows()
	if err != nil {
		return nil, err
	}
	t := map[string]*Ent{}
	for _, h := range hs {
		e := &Ent{Dir: h.Typeflag == int64(tar.TypeDir), Mode: os.FileMode(h.Mode), Size: h.Size, UID: int(h.UID), GID: int(h.Gid),
			Mtime: h.Modtime, Atime: h.Accesstime, Link: h.Linkname}
		if e.Dir {
			e.Size = 0
		}
		if h.Typeflag == int64(tar.TypeReg) {
			e.Data, _, err = w.fetch(int(h.Record), int(h.Block))
			if err != nil {
				e.Err = err.Error()
			}
		}
		k := path.Join("/", h.Name)
		if h.Linkname != "" {
			k += " -> " + h.Linkname
		}
		if o, ok := t[k]; ok {
			return nil, fmt.Errorf("two live rows for %q: %v and %v", k, o, e)
		}
		t[k] = e
	}
	return t, nil
}

// dumpIndex returns every row of the index, including the deleted ones, as text.
func (w *World) dumpIndex() (string, error) {
	db := dbOf(w.meta)
	if db == nil {
		return "", errors.New("no database")
	}
	rows, err := db.QueryContext(context.Background(), "select * from headers order by name, linkname")
	if err != nil {
		return "", err
	}
	defer rows.Close()
	cols, err := rows.Columns()
	if err != nil {
		return "", err
	}
	sb := &strings.Builder{}
	for rows.Next() {
		vals := make([]interface{}, len(cols))
		ptrs := make([]interface{}, len(cols))
		for i := range vals {
			ptrs[i] = &vals[i]
		}
		if err := rows.Scan(ptrs...); err != nil {
			return "", err
		}
		for i, c := range cols {
			fmt.Fprintf(sb, "%s=%v;", c, vals[i])
		}
		sb.WriteByte('\n')
	}
	return sb.String(), rows.Err()
}

func liveHeaders(hs []*config.Header) map[string]*config.Header {
	m := map[string]*config.Header{}
	for _, h := range hs {
		m[path.Join("/", h.Name)] = h
	}
	return m
}
