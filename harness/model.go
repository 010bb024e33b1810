package main

import (
	"bytes"
	"database/sql"
	"errors"
	"fmt"
	"os"
	"path"
	"sort"
	"strings"
	"syscall"
	"time"

	"github.com/pojntfx/stfs/pkg/config"
)

// Reference filesystem

type MNode struct {
	Dir   bool
	Data  []byte
	Mode  os.FileMode
	UID   int
	GID   int
	Mtime *time.Time // nil: whatever the clock said
	Atime *time.Time
}

func (n *MNode) clone() *MNode {
	c := *n
	return &c
}

type Model struct{ N map[string]*MNode }

func newModel() *Model {
	return &Model{map[string]*MNode{"/": {Dir: true, Mode: 0777, UID: os.Getuid(), GID: os.Getgid()}}}
}

func (m *Model) clone() *Model {
	c := &Model{map[string]*MNode{}}
	for k, v := range m.N {
		c.N[k] = v.clone()
	}
	return c
}

// Error classes
const (
	eOK       = "ok"
	eNotExist = "not-exist"
	eExist    = "exist"
	ePerm     = "permission"
	eIsDir    = "is-directory"
	eNotDir   = "not-directory"
	eNotEmpty = "not-empty"
	eInvalid  = "invalid"
	eOther    = "other"
)

func class(err error) string {
	switch {
	case err == nil:
		return eOK
	case errors.Is(err, os.ErrNotExist), errors.Is(err, sql.ErrNoRows):
		return eNotExist
	case errors.Is(err, config.ErrDirectoryNotEmpty), errors.Is(err, syscall.ENOTEMPTY):
		return eNotEmpty
	case errors.Is(err, config.ErrIsDirectory), errors.Is(err, syscall.EISDIR):
		return eIsDir
	case errors.Is(err, config.ErrIsFile), errors.Is(err, syscall.ENOTDIR):
		return eNotDir
	case errors.Is(err, os.ErrExist):
		return eExist
	case errors.Is(err, os.ErrPermission):
		return ePerm
	case errors.Is(err, os.ErrInvalid), errors.Is(err, syscall.EINVAL):
		return eInvalid
	}
	return eOther
}

// want is what the reference answers: success, or one of several classes.
type want []string

func ok() want            { return want{eOK} }
func no(c ...string) want { return c }

func (w want) okay() bool { return len(w) == 1 && w[0] == eOK }
func (w want) match(err error) bool {
	c := class(err)
	for _, x := range w {
		if x == c {
			return true
		}
	}
	return false
}

func norm(p string) string { return path.Join("/", p) }

// parent returns nil if the parent of p exists and is a directory.
func (m *Model) parent(p string) want {
	d := path.Dir(p)
	n, ok := m.N[d]
	if ok {
		if n.Dir {
			return nil
		}
		return no(eNotDir, eNotExist)
	}
	// an ancestor might be a file
	for d != "/" {
		d = path.Dir(d)
		if n, ok := m.N[d]; ok && !n.Dir {
			return no(eNotDir, eNotExist)
		}
	}
	return no(eNotExist)
}

func (m *Model) kids(p string) []string {
	r := []string{}
	for k := range m.N {
		if k != "/" && path.Dir(k) == p {
			r = append(r, k)
		}
	}
	sort.Strings(r)
	return r
}

func under(p, dir string) bool {
	return p != dir && (dir == "/" || strings.HasPrefix(p, dir+"/"))
}

func (m *Model) names() []string {
	r := []string{}
	for k := range m.N {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func (m *Model) missing(p string) want {
	if w := m.parent(p); w != nil {
		return append(want{eNotExist}, w...)
	}
	return no(eNotExist)
}

func (m *Model) mkdir(p string, perm os.FileMode) want {
	p = norm(p)
	if _, ok := m.N[p]; ok {
		return no(eExist)
	}
	if w := m.parent(p); w != nil {
		return w
	}
	m.N[p] = &MNode{Dir: true, Mode: perm, UID: os.Getuid(), GID: os.Getgid()}
	return ok()
}

func (m *Model) mkdirAll(p string, perm os.FileMode) want {
	p = norm(p)
	todo := []string{}
	for d := p; ; d = path.Dir(d) {
		if n, ok := m.N[d]; ok {
			if !n.Dir {
				return no(eNotDir, eExist, eNotExist)
			}
			break
		}
		todo = append(todo, d)
	}
	for _, d := range todo {
		m.N[d] = &MNode{Dir: true, Mode: perm, UID: os.Getuid(), GID: os.Getgid()}
	}
	return ok()
}

// open answers an open and applies its effects; created tells whether the file is new.
func (m *Model) open(p string, flag int, perm os.FileMode) (w want, created bool) {
	p = norm(p)
	n, exists := m.N[p]
	writable := flag&(os.O_WRONLY|os.O_RDWR) != 0
	if exists {
		if flag&os.O_CREATE != 0 && flag&os.O_EXCL != 0 {
			return no(eExist, eIsDir), false
		}
		if n.Dir && (writable || flag&(os.O_TRUNC|os.O_APPEND|os.O_CREATE) != 0) {
			return no(eIsDir, eExist), false
		}
		if flag&os.O_TRUNC != 0 && writable && len(n.Data) > 0 {
			n.Data = nil
			n.Mtime = nil
		}
		return ok(), false
	}
	if flag&os.O_CREATE == 0 {
		return m.missing(p), false
	}
	if w := m.parent(p); w != nil {
		return w, false
	}
	m.N[p] = &MNode{Mode: perm, UID: os.Getuid(), GID: os.Getgid()}
	return ok(), true
}

func (m *Model) remove(p string) want {
	p = norm(p)
	n, exists := m.N[p]
	if !exists {
		return m.missing(p)
	}
	if n.Dir && len(m.kids(p)) > 0 {
		return no(eNotEmpty)
	}
	delete(m.N, p)
	return ok()
}

func (m *Model) removeAll(p string) want {
	p = norm(p)
	for k := range m.N {
		if k != "/" && (k == p || under(k, p)) {
			delete(m.N, k)
		}
	}
	return ok()
}

func (m *Model) rename(a, b string) want {
	a, b = norm(a), norm(b)
	if a == "/" {
		return no(eInvalid, ePerm, eExist)
	}
	s, exists := m.N[a]
	if !exists {
		return m.missing(a)
	}
	if s.Dir && under(b, a) {
		return no(eInvalid, eNotExist, eNotDir)
	}
	if b == "/" {
		return no(eInvalid, ePerm, eExist, eNotEmpty, eIsDir)
	}
	if w := m.parent(b); w != nil {
		return w
	}
	if a == b {
		return ok()
	}
	if t, exists := m.N[b]; exists {
		if s.Dir != t.Dir {
			return no(eExist, eIsDir, eNotDir)
		}
		if t.Dir && len(m.kids(b)) > 0 {
			return no(eNotEmpty, eExist)
		}
	}
	delete(m.N, b)
	moved := map[string]*MNode{}
	for k, n := range m.N {
		if k == a || under(k, a) {
			moved[b+k[len(a):]] = n
			delete(m.N, k)
		}
	}
	for k, n := range moved {
		m.N[k] = n
	}
	return ok()
}

func (m *Model) attr(p string, f func(n *MNode)) want {
	p = norm(p)
	n, exists := m.N[p]
	if !exists {
		return m.missing(p)
	}
	f(n)
	return ok()
}

// bits are the permissions, and setuid, setgid and sticky
func bits(m os.FileMode) os.FileMode {
	return m & (os.ModePerm | os.ModeSetuid | os.ModeSetgid | os.ModeSticky)
}

// diffModel compares a walked tree with the model.
func (m *Model) diff(t Tree) string {
	for _, k := range m.names() {
		n := m.N[k]
		e, ok := t[k]
		if !ok {
			return fmt.Sprintf("%q is missing", k)
		}
		if e.Err != "" {
			return fmt.Sprintf("%q cannot be read: %s", k, e.Err)
		}
		if e.Dir != n.Dir {
			return fmt.Sprintf("%q has the wrong kind: %v", k, e)
		}
		if !n.Dir {
			if !bytes.Equal(e.Data, n.Data) {
				return fmt.Sprintf("%q has the content %s instead of %s", k, short(e.Data), short(n.Data))
			}
			if e.Size != int64(len(n.Data)) {
				return fmt.Sprintf("%q has the size %d instead of %d", k, e.Size, len(n.Data))
			}
		}
		if bits(e.Mode) != bits(n.Mode) {
			return fmt.Sprintf("%q has the mode %o instead of %o", k, bits(e.Mode), bits(n.Mode))
		}
		if e.UID != n.UID || e.GID != n.GID {
			return fmt.Sprintf("%q has the owner %d:%d instead of %d:%d", k, e.UID, e.GID, n.UID, n.GID)
		}
		if n.Mtime != nil && !n.Mtime.Equal(e.Mtime) {
			return fmt.Sprintf("%q has the modification time %v instead of %v", k, e.Mtime.UTC(), n.Mtime.UTC())
		}
		if n.Atime != nil && !n.Atime.Equal(e.Atime) {
			return fmt.Sprintf("%q has the access time %v instead of %v", k, e.Atime.UTC(), n.Atime.UTC())
		}
	}
	ks := []string{}
	for k := range t {
		if _, ok := m.N[k]; !ok {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	if len(ks) > 0 {
		return fmt.Sprintf("%q must not exist (%v)", ks[0], t[ks[0]])
	}
	return ""
}
