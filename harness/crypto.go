package main

import (
	"archive/tar"
	"bytes"
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"os"
	"path"
	"strconv"
	"strings"
	"time"

	"github.com/pojntfx/stfs/internal/records"
	"github.com/pojntfx/stfs/pkg/compression"
	"github.com/pojntfx/stfs/pkg/config"
	"github.com/pojntfx/stfs/pkg/encryption"
	"github.com/pojntfx/stfs/pkg/keys"
	"github.com/pojntfx/stfs/pkg/signature"
	"github.com/pojntfx/stfs/pkg/utility"
)

// Signatures (C08), secrecy (C09) and keys (C18)

func canon(v interface{}) string {
	b, err := json.Marshal(v)
	if err != nil {
		fatalSetup("%v", err)
	}
	return string(b)
}

func fetchKey(h *config.Header) string {
	c := *h
	c.Record, c.Lastknownrecord, c.Block, c.Lastknownblock, c.Deleted = 0, 0, 0, 0, 0
	return canon(c)
}

type legit struct {
	headers  map[string]bool     // what the indexer accepted on the untouched tape
	sealed   map[string]bool     // headers which the legitimate writer signed, as seen when restoring
	contents map[string][]byte   // content by header
	bySig    map[string][][]byte // content by its signature
}

// contentSig returns the signature of the content in a header.
func contentSig(h *config.Header) string {
	px := map[string]string{}
	if json.Unmarshal([]byte(h.Paxrecords), &px) != nil {
		return ""
	}
	return px[records.STFSRecordSignature]
}

// vouched tells whether a signed header which came without content (such as
// an update of the metadata) carries the signature of this very content.
func (l *legit) vouched(h *config.Header, b []byte) bool {
	if !l.sealed[fetchKey(h)] || contentSig(h) == "" {
		return false
	}
	for _, c := range l.bySig[contentSig(h)] {
		if bytes.Equal(c, b) {
			return true
		}
	}
	return false
}

func (w *World) legit(recs []Rec) (*legit, error) {
	l := &legit{map[string]bool{}, map[string]bool{}, map[string][]byte{}, map[string][][]byte{}}
	t, err := w.over(w.tapeBytes(), nil)
	if err != nil {
		return nil, err
	}
	defer t.drop()
	if err := t.index(0, 0, true, func(h *tar.Header) { l.headers[canon(h)] = true }); err != nil {
		return nil, err
	}
	rs := int64(w.C.RecordSize)
	for _, r := range recs {
		n := r.Off / 512
		b, h, err := t.fetch(int(n/rs), int(n%rs))
		if h != nil {
			l.sealed[fetchKey(h)] = true
		}
		if err == nil && h != nil {
			l.contents[fetchKey(h)] = b
			if s := contentSig(h); s != "" {
				l.bySig[s] = append(l.bySig[s], b)
			}
		}
	}
	return l, nil
}

// accepted checks everything which can be accepted from a tape.
func (w *World) accepted(l *legit, tape []byte, what string, st *Stats) *Viol {
	t, err := w.over(tape, nil)
	if err != nil {
		fatalSetup("%v", err)
	}
	defer t.drop()
	var v *Viol
	if s := guard(callLimit, func() {
		n := 0
		err := t.index(0, 0, true, func(h *tar.Header) {
			n++
			if !l.headers[canon(h)] && v == nil {
				v = viol(-1, "foreign-header", "%s: the indexer accepts a header which the legitimate writer never signed: %s", what, canon(h))
			}
		})
		if v != nil {
			return
		}
		if err != nil {
			st.count("rebuild rejected")
		} else {
			st.count("rebuild accepted")
		}
		// Restore at every position at which a record might start
		offs := map[int64]bool{}
		for o := int64(0); o < int64(len(tape)); o += 512 {
			if len(tape) < 16*1024 {
				offs[o] = true
			}
		}
		if recs, _ := scanTape(tape); true {
			for _, r := range recs {
				offs[r.Off] = true
			}
		}
		if hs, err := t.rows(); err == nil {
			for _, h := range hs {
				offs[(h.Record*int64(t.C.RecordSize)+h.Block)*512] = true
			}
		}
		rs := int64(t.C.RecordSize)
		for o := range offs {
			b, h, err := t.fetch(int(o/512/rs), int(o/512%rs))
			if err != nil || h == nil {
				st.count("restore rejected")
				continue
			}
			st.count("restore accepted")
			want, known := l.contents[fetchKey(h)]
			if !known && l.vouched(h, b) {
				continue
			}
			if !known {
				v = viol(-1, "foreign-restore", "%s: restoring at offset %d accepts a header which the legitimate writer never signed: %s", what, o, fetchKey(h))
				return
			}
			if !bytes.Equal(want, b) {
				v = viol(-1, "foreign-content", "%s: restoring %q at offset %d returns %s, but %s was signed under this header", what, h.Name, o, short(b), short(want))
				return
			}
		}
	}); s != "" {
		if strings.HasPrefix(s, "panic") {
			st.undecided("%s: %s", what, strings.SplitN(s, "\n", 2)[0])
		}
		st.undecided("%s: %s", what, strings.SplitN(s, "\n", 2)[0])
		return nil
	}
	return v
}

func rewrite(recs []Rec) []byte {
	b := &bytes.Buffer{}
	for _, r := range recs {
		h := *r.Hdr
		h.Size = int64(len(r.Data))
		tw := tar.NewWriter(b)
		if err := tw.WriteHeader(&h); err != nil {
			fatalSetup("forging: %v", err)
		}
		if _, err := tw.Write(r.Data); err != nil {
			fatalSetup("forging: %v", err)
		}
		if err := tw.Close(); err != nil {
			fatalSetup("forging: %v", err)
		}
	}
	return b.Bytes()
}

func copyHdr(h *tar.Header) *tar.Header {
	c := *h
	c.PAXRecords = map[string]string{}
	for k, v := range h.PAXRecords {
		c.PAXRecords[k] = v
	}
	return &c
}

const (
	sigRec = records.STFSRecordSignature
	embRec = records.STFSRecordEmbeddedHeader
)

// forge returns a forged tape and how it was made.
func (w *World) forge(r *rand.Rand, recs []Rec, other *keyset) ([]byte, string) {
	return w.forgeAt(r, recs, other, r.Intn(len(recs)), r.Intn(19))
}

// piped returns data as it would be written by anyone who knows the recipient.
func (w *World) piped(data []byte) []byte {
	buf := &bytes.Buffer{}
	e, err := encryption.Encrypt(buf, w.C.Enc, w.k.encRecipient)
	if err != nil {
		return data
	}
	c, err := compression.Compress(e, w.C.Comp, w.C.Level, true, w.C.RecordSize)
	if err != nil {
		return data
	}
	if _, err := c.Write(data); err != nil {
		return data
	}
	c.Flush()
	c.Close()
	e.Close()
	return buf.Bytes()
}

func (w *World) forgeAt(r *rand.Rand, recs []Rec, other *keyset, i, kind int) ([]byte, string) {
	cp := make([]Rec, len(recs))
	for i, x := range recs {
		cp[i] = Rec{Hdr: copyHdr(x.Hdr), Data: append([]byte{}, x.Data...)}
	}
	open := func(j int) *tar.Header {
		h := copyHdr(cp[j].Hdr)
		if err := encryption.DecryptHeader(h, w.C.Enc, w.k.encIdentity); err != nil {
			fatalSetup("forging: %v", err)
		}
		if h.PAXRecords == nil {
			h.PAXRecords = map[string]string{}
		}
		return h
	}
	seal := func(j int, h *tar.Header) {
		if err := encryption.EncryptHeader(h, w.C.Enc, w.k.encRecipient); err != nil {
			fatalSetup("forging: %v", err)
		}
		h.Size = int64(len(cp[j].Data))
		cp[j].Hdr = h
	}
	edit := func(e string) string {
		in := &tar.Header{}
		if json.Unmarshal([]byte(e), in) != nil {
			return e
		}
		switch r.Intn(7) {
		case 0:
			in.Name = "/forged"
		case 1:
			in.Mode ^= 0777
		case 2:
			in.Uid = 4242
		case 3:
			in.ModTime = in.ModTime.Add(time.Second)
		case 4:
			in.PAXRecords = map[string]string{records.STFSRecordVersion: "1", records.STFSRecordAction: records.STFSRecordActionDelete}
		case 5:
			in.Size++
		default:
			in.Typeflag = tar.TypeDir
		}
		return canon(in)
	}
	newSig := func(e string) string {
		s, err := signature.SignString(e, true, w.C.Sig, other.sigIdentity)
		if err != nil {
			fatalSetup("forging: %v", err)
		}
		return s
	}
	h := open(i)
	name := ""
	switch kind {
	case 0:
		name = "edited embedded header, kept signature"
		h.PAXRecords[embRec] = edit(h.PAXRecords[embRec])
		seal(i, h)
	case 1:
		name = "edited embedded header, removed signature"
		h.PAXRecords[embRec] = edit(h.PAXRecords[embRec])
		delete(h.PAXRecords, sigRec)
		seal(i, h)
	case 2:
		name = "removed signature"
		delete(h.PAXRecords, sigRec)
		seal(i, h)
	case 3:
		name = "garbage signature"
		if r.Intn(2) == 0 {
			h.PAXRecords[embRec] = edit(h.PAXRecords[embRec])
		}
		h.PAXRecords[sigRec] = []string{"garbage", "AAAA", " ", base64.StdEncoding.EncodeToString(bytes.Repeat([]byte{0xc2}, 40)), base64.StdEncoding.EncodeToString([]byte{0xcb, 3, 'b', 0, 0})}[r.Intn(5)]
		seal(i, h)
	case 4:
		name = "edited embedded header, re-encoded signature"
		h.PAXRecords[embRec] = edit(h.PAXRecords[embRec])
		s := h.PAXRecords[sigRec]
		if b, err := base64.StdEncoding.DecodeString(s); err == nil {
			switch r.Intn(3) {
			case 0:
				s = base64.StdEncoding.EncodeToString(append(b, 0))
			case 1:
				s = base64.StdEncoding.EncodeToString(append(append([]byte{}, b...), b...))
			default:
				if len(b) > 4 {
					b = b[:len(b)-1-r.Intn(3)]
				}
				s = base64.StdEncoding.EncodeToString(b)
			}
		}
		h.PAXRecords[sigRec] = s
		seal(i, h)
	case 5:
		name = "signature of another record"
		j := r.Intn(len(cp))
		if j == i {
			return nil, ""
		}
		o := open(j)
		if o.PAXRecords[embRec] == h.PAXRecords[embRec] {
			return nil, ""
		}
		h.PAXRecords[sigRec] = o.PAXRecords[sigRec]
		seal(i, h)
	case 6:
		name = "signed with another key"
		h.PAXRecords[embRec] = edit(h.PAXRecords[embRec])
		h.PAXRecords[sigRec] = newSig(h.PAXRecords[embRec])
		seal(i, h)
	case 7:
		name = "resigned with another key"
		h.PAXRecords[sigRec] = newSig(h.PAXRecords[embRec])
		in := &tar.Header{}
		json.Unmarshal([]byte(h.PAXRecords[embRec]), in)
		in.Name += "x"
		h.PAXRecords[embRec] = canon(in)
		h.PAXRecords[sigRec] = newSig(h.PAXRecords[embRec])
		seal(i, h)
	case 8, 9:
		name = "unsigned record of a plain tar writer"
		b := []byte("unsigned")
		ty := byte(tar.TypeReg)
		n := []string{"/plain", "/a", "/dir/x"}[r.Intn(3)]
		var px map[string]string
		if kind == 9 {
			ty, b, n = tar.TypeDir, nil, "/plaindir/"
			if r.Intn(2) == 0 {
				ty, n = tar.TypeSymlink, "/plainlink"
			}
			if r.Intn(2) == 0 {
				px = map[string]string{records.STFSRecordVersion: "1", records.STFSRecordAction: records.STFSRecordActionDelete}
			}
		}
		nr := Rec{Hdr: &tar.Header{Typeflag: ty, Name: n, Mode: 0644, Format: tar.FormatPAX, PAXRecords: px}, Data: b}
		if ty == tar.TypeSymlink {
			nr.Hdr.Linkname = "/target"
		}
		cp = append(cp[:i:i], append([]Rec{nr}, cp[i:]...)...)
	case 10:
		name = "plain header sealed for the recipient but not signed"
		in := &tar.Header{Typeflag: tar.TypeReg, Name: "/plain", Mode: 0644, Format: tar.FormatPAX, PAXRecords: map[string]string{}}
		cp[i].Data = nil
		seal(i, in)
	case 11:
		name = "replaced content"
		if len(cp[i].Data) == 0 {
			return nil, ""
		}
		r.Read(cp[i].Data)
	case 12:
		name = "flipped content byte"
		if len(cp[i].Data) == 0 {
			return nil, ""
		}
		cp[i].Data[r.Intn(len(cp[i].Data))] ^= byte(1 << r.Intn(8))
	case 13:
		name = "changed length of the content"
		if len(cp[i].Data) == 0 {
			return nil, ""
		}
		if r.Intn(2) == 0 {
			cp[i].Data = cp[i].Data[:r.Intn(len(cp[i].Data))]
		} else {
			cp[i].Data = append(cp[i].Data, []byte("more")...)
		}
	case 14:
		name = "content of another record"
		j := r.Intn(len(cp))
		if bytes.Equal(cp[j].Data, cp[i].Data) {
			return nil, ""
		}
		cp[i].Data = append([]byte{}, cp[j].Data...)
	case 15:
		name = "content added to a record without any"
		if len(cp[i].Data) > 0 {
			return nil, ""
		}
		cp[i].Data = w.piped([]byte("added content"))
	case 16:
		name = "content written by a second writer"
		if len(cp[i].Data) == 0 {
			return nil, ""
		}
		cp[i].Data = w.piped([]byte("chosen by the attacker"))
	case 17:
		name = "changed outer fields"
		h.Name, h.Mode, h.Uid = "/outer", 0777, 7
		h.PAXRecords[records.STFSRecordUncompressedSize] = "3"
		h.PAXRecords[records.STFSRecordAction] = records.STFSRecordActionDelete
		h.PAXRecords[records.STFSRecordReplacesName] = "/x"
		seal(i, h)
	case 18:
		name = "embedded header without a wrapper"
		in := &tar.Header{}
		if json.Unmarshal([]byte(h.PAXRecords[embRec]), in) != nil {
			return nil, ""
		}
		in.Name, in.Format = "/unwrapped", tar.FormatPAX
		in.AccessTime, in.ChangeTime = time.Time{}, time.Time{}
		in.ModTime = in.ModTime.Truncate(time.Second)
		in.Xattrs = nil
		if in.PAXRecords != nil && r.Intn(2) == 0 {
			in.PAXRecords[embRec] = h.PAXRecords[embRec]
			in.PAXRecords[sigRec] = h.PAXRecords[sigRec] + "x"
		}
		if in.Typeflag == tar.TypeDir {
			cp[i].Data = nil
		}
		seal(i, in)
	}
	return rewrite(cp), fmt.Sprintf("%s (record %d)", name, i)
}

type c08X struct {
	Flips  int `json:"flips"`
	Forges int `json:"forges"`
}

func runC08(c Case, dir string, st *Stats) *Viol {
	w := newWorld(dir, c.C)
	_, okay := history(w, c.Ops, st)
	defer func() { closeDB(w.meta) }()
	if !okay {
		return nil
	}
	full := w.tapeBytes()
	recs, err := scanTape(full)
	if err != nil || len(recs) == 0 {
		st.undecided("scan: %v", err)
		return nil
	}
	l, err := w.legit(recs)
	if err != nil {
		st.undecided("the untouched tape is rejected: %v", err)
		return nil
	}
	x := c08X{}
	json.Unmarshal(c.X, &x)
	r := rand.New(rand.NewSource(c.Seed))
	if v := w.accepted(l, full, "untouched tape", st); v != nil {
		return v
	}
	for i := 0; i < x.Flips; i++ {
		b := append([]byte{}, full...)
		p := r.Intn(len(b))
		if i%2 == 0 {
			// Inside something which is not padding
			for j := 0; j < 200 && b[p] == 0; j++ {
				p = r.Intn(len(b))
			}
		}
		b[p] ^= byte(1 << r.Intn(8))
		if r.Intn(4) == 0 {
			b[p] = byte(r.Intn(256))
		}
		if b[p] == full[p] {
			continue
		}
		st.eval(true)
		if v := w.accepted(l, b, fmt.Sprintf("byte %d of %d changed from %#x to %#x", p, len(b), full[p], b[p]), st); v != nil {
			return v
		}
	}
	other := mustKeys(w.C.Enc, w.C.Sig, 1)
	// Content behind records which have none, and other content behind those which have some
	type pick struct{ rec, kind int }
	picks := []pick{}
	for i, e := range recs {
		if len(e.Data) == 0 {
			picks = append(picks, pick{i, 15})
		} else {
			picks = append(picks, pick{i, 14 + 2*r.Intn(2)})
		}
	}
	r.Shuffle(len(picks), func(i, j int) { picks[i], picks[j] = picks[j], picks[i] })
	if len(picks) > x.Forges/2 {
		picks = picks[:x.Forges/2]
	}
	for i := 0; i < x.Forges; i++ {
		var b []byte
		var how string
		if i < len(picks) {
			b, how = w.forgeAt(r, recs, other, picks[i].rec, picks[i].kind)
		} else {
			b, how = w.forge(r, recs, other)
		}
		if b == nil {
			continue
		}
		st.eval(true)
		st.count("forgery:" + strings.SplitN(how, " (", 2)[0])
		if v := w.accepted(l, b, how, st); v != nil {
			return v
		}
	}
	return nil
}

// Secrecy

type c09X struct {
	Markers []string `json:"markers"`
}

func needles(m string) [][]byte {
	n := [][]byte{[]byte(m), []byte(hex.EncodeToString([]byte(m))), []byte(strings.ToUpper(hex.EncodeToString([]byte(m))))}
	for k := 0; k < 3 && k < len(m); k++ {
		// An alignment of base64 which does not depend on what surrounds the marker
		s := m[k:]
		s = s[:len(s)/3*3]
		if len(s) >= 6 {
			n = append(n, []byte(base64.StdEncoding.EncodeToString([]byte(s))), []byte(base64.URLEncoding.EncodeToString([]byte(s))))
		}
	}
	return n
}

func genC09(r *rand.Rand, tier string, i int) Case {
	c := Cfg{RecordSize: recordSizes[r.Intn(len(recordSizes))], Cache: caches[r.Intn(len(caches))], WOnlyRead: r.Intn(2) == 0,
		Enc: []string{config.EncryptionFormatAgeKey, config.EncryptionFormatPGPKey}[i%2], Sig: sigs[(i/2)%len(sigs)], Comp: comps[(i/6)%len(comps)], Level: levels[r.Intn(len(levels))]}
	x := c09X{}
	mark := func() string {
		b := make([]byte, 12)
		r.Read(b)
		m := "Mk" + hex.EncodeToString(b)
		x.Markers = append(x.Markers, m)
		return m
	}
	num := func() int64 {
		n := 1000000000 + r.Int63n(1000000000)
		x.Markers = append(x.Markers, strconv.FormatInt(n, 10))
		return n
	}
	text := func() string {
		m := mark()
		return "=" + strings.Repeat(m+" ", 1+r.Intn(60))
	}
	ops := []Op{}
	dirs, files := []string{"/"}, []string{}
	add := func(o Op) { ops = append(ops, o) }
	newIn := func() string { return path.Join(dirs[r.Intn(len(dirs))], mark()) }
	for j := 0; j < 5+r.Intn(6); j++ {
		switch k := r.Intn(11); {
		case k < 2 || len(files) == 0 && k > 3:
			p := newIn()
			add(Op{K: "create", P: p, D: text()})
			files = append(files, p)
		case k == 2:
			p := newIn()
			add(Op{K: "mkdir", P: p, M: 0755})
			dirs = append(dirs, p)
		case k == 3:
			p := newIn()
			add(Op{K: "opsarchive", S: []Op{{K: "file", P: p, M: 0600, D: text()}}})
			files = append(files, p)
		case k == 4:
			add(Op{K: "write", P: files[r.Intn(len(files))], F: os.O_WRONLY | os.O_TRUNC, D: text()})
		case k == 5:
			add(Op{K: "chown", P: files[r.Intn(len(files))], A: num(), B: num()})
		case k == 6:
			add(Op{K: "chtimes", P: files[r.Intn(len(files))], A: num() * 1e9, B: num() * 1e9})
		case k == 7:
			q := newIn()
			f := r.Intn(len(files))
			add(Op{K: "rename", P: files[f], Q: q})
			files[f] = q
		case k == 8:
			add(Op{K: "symlink", P: files[r.Intn(len(files))], Q: newIn()})
		case k == 9:
			f := r.Intn(len(files))
			add(Op{K: "remove", P: files[f]})
			files = append(files[:f:f], files[f+1:]...)
		default:
			add(Op{K: "opsupdate", A: int64(r.Intn(2)), S: []Op{{K: "file", P: files[r.Intn(len(files))], M: 0600, D: text()}}})
		}
	}
	b, _ := json.Marshal(x)
	return Case{C: c, Ops: ops, X: b}
}

func runC09(c Case, dir string, st *Stats) *Viol {
	x := c09X{}
	if err := json.Unmarshal(c.X, &x); err != nil {
		fatalSetup("%v", err)
	}
	w := newWorld(dir, c.C)
	if err := w.open(); err != nil {
		st.undecided("initialize: %v", err)
		return nil
	}
	defer func() { closeDB(w.meta) }()
	words := []string{"STFS.Action", "STFS.Version", "STFS.ReplacesName", "STFS.ReplacesContent", "STFS.UncompressedSize", "STFS.Signature"}
	all := [][]byte{}
	for _, m := range append(words, x.Markers...) {
		all = append(all, needles(m)...)
	}
	seen := 0
	scan := func(i int, what string) *Viol {
		b := w.tapeBytes()
		from := seen - 100
		if from < 0 {
			from = 0
		}
		for _, n := range all {
			if p := bytes.Index(b[from:], n); p >= 0 {
				return viol(i, "clear", "after %s: the tape contains %q in clear at offset %d", what, n, from+p)
			}
		}
		seen = len(b)
		recs, err := scanTape(b)
		if err != nil {
			st.undecided("scan: %v", err)
			return nil
		}
		for _, r := range recs {
			h := r.Hdr
			if h.Name != "" || h.Linkname != "" || h.Uid != 0 || h.Gid != 0 || h.Uname != "" || h.Gname != "" || h.Mode != 0 ||
				(!h.ModTime.IsZero() && h.ModTime.Unix() != 0) || !h.AccessTime.IsZero() || !h.ChangeTime.IsZero() || (h.Typeflag != tar.TypeReg && h.Typeflag != 0) || h.Devmajor != 0 || h.Devminor != 0 {
				return viol(i, "wrapper", "after %s: the header at offset %d reveals more than its size: %s", what, r.Off, canon(h))
			}
			for k := range h.PAXRecords {
				if k != embRec {
					return viol(i, "wrapper", "after %s: the header at offset %d has the record %q in clear", what, r.Off, k)
				}
			}
			e := h.PAXRecords[embRec]
			if _, err := base64.StdEncoding.DecodeString(e); e != "" && err != nil {
				in := &tar.Header{}
				if json.Unmarshal([]byte(e), in) == nil {
					return viol(i, "wrapper", "after %s: the header at offset %d is embedded in clear", what, r.Off)
				}
			}
		}
		return nil
	}
	if v := scan(-1, "Initialize"); v != nil {
		return v
	}
	for i, o := range c.Ops {
		var err error
		if s := guard(callLimit, func() { _, err = w.exec(o) }); s != "" {
			st.undecided("%v: %s", o, strings.SplitN(s, "\n", 2)[0])
			return nil
		}
		st.eval(err == nil)
		st.count(o.K)
		if v := scan(i, o.String()); v != nil {
			return v
		}
	}
	// A different private key
	t, err := w.over(w.tapeBytes(), nil)
	if err != nil {
		fatalSetup("%v", err)
	}
	defer t.drop()
	wrong, right := mustKeys(w.C.Enc, w.C.Sig, 1), t.k
	t.k = &keyset{encRecipient: wrong.encRecipient, encIdentity: wrong.encIdentity, sigRecipient: right.sigRecipient, sigIdentity: right.sigIdentity}
	if err := t.index(0, 0, true, nil); err == nil {
		return viol(len(c.Ops), "wrong-key", "rebuilding the index succeeds with a different private key")
	}
	recs, _ := scanTape(w.tapeBytes())
	rs := int64(w.C.RecordSize)
	reader, err := t.rops.GetBackend().GetReader()
	if err != nil {
		st.undecided("reader: %v", err)
		return nil
	}
	defer t.rops.GetBackend().CloseReader()
	for _, r := range recs {
		n := r.Off / 512
		crypto := config.CryptoConfig{Recipient: right.sigRecipient, Identity: wrong.encIdentity}
		buf := &bytes.Buffer{}
		if err := fetchWith(reader, t, crypto, int(n/rs), int(n%rs), buf); err == nil {
			return viol(len(c.Ops), "wrong-key", "restoring the record at offset %d succeeds with a different private key (%s)", r.Off, short(buf.Bytes()))
		}
	}
	return nil
}

// Keys

type c18X struct {
	Pw    string `json:"pw"`
	Other string `json:"other"`
	Data  string `json:"data"`
}

var passwords = []string{"", "a", "password", "pässwörd", "日本語パスワード", " ", "p w", strings.Repeat("long", 60), "\x00", "tab\t", "🔑", "0", "PASSWORD", "password "}

func genC18(r *rand.Rand, tier string, i int) Case {
	c := Cfg{}
	switch {
	case i%9 == 4:
		// Parsing an identity takes seconds and a gigabyte
		c.Sig = config.SignatureFormatMinisignKey
	case i%3 == 0:
		c.Sig = config.SignatureFormatPGPKey
	case i%3 == 1:
		c.Enc = config.EncryptionFormatPGPKey
	default:
		c.Enc = config.EncryptionFormatAgeKey
	}
	x := c18X{Pw: passwords[(i/4)%len(passwords)], Data: fmt.Sprintf("%d:%d", []int{0, 1, 600, 70000}[r.Intn(4)], r.Intn(1000))}
	if i/4 >= len(passwords) {
		b := make([]rune, 1+r.Intn(30))
		for j := range b {
			b[j] = rune(32 + r.Intn(600))
		}
		x.Pw = string(b)
	}
	x.Other = passwords[r.Intn(len(passwords))]
	switch r.Intn(4) {
	case 0:
		x.Other = x.Pw + "x"
	case 1:
		x.Other = ""
	}
	if x.Other == x.Pw {
		x.Other = x.Pw + "x"
	}
	b, _ := json.Marshal(x)
	return Case{C: c, X: b}
}

func runC18(c Case, dir string, st *Stats) *Viol {
	x := c18X{}
	if err := json.Unmarshal(c.X, &x); err != nil {
		fatalSetup("%v", err)
	}
	data := content(x.Data)
	var v *Viol
	s := guard(4*callLimit, func() {
		if c.C.Enc != "" {
			v = c18Enc(c.C.Enc, x, data, st)
		} else {
			v = c18Sig(c.C.Sig, x, data, st)
		}
	})
	if strings.HasPrefix(s, "panic") {
		return viol(0, "panic", "%s", s)
	}
	if s != "" {
		st.undecided("%s", s)
	}
	return v
}

func encOver(format string, rec interface{}, data []byte) ([]byte, error) {
	b := &bytes.Buffer{}
	e, err := encryption.Encrypt(b, format, rec)
	if err != nil {
		return nil, err
	}
	if _, err := e.Write(data); err != nil {
		return nil, err
	}
	err = e.Close()
	return b.Bytes(), err
}

func decOver(format string, id interface{}, b []byte) ([]byte, error) {
	d, err := encryption.Decrypt(bytes.NewReader(b), format, id)
	if err != nil {
		return nil, err
	}
	out, err := io.ReadAll(d)
	if err != nil {
		return nil, err
	}
	return out, d.Close()
}

func c18Enc(format string, x c18X, data []byte, st *Stats) *Viol {
	type pair struct{ rec, id interface{} }
	ps := []pair{}
	for i, pw := range []string{x.Pw, x.Other} {
		priv, pub, err := utility.Keygen(config.PipeConfig{Encryption: format}, config.PasswordConfig{Password: pw})
		if err != nil {
			return viol(i, "keygen", "generating a key with the password %q: %v", pw, err)
		}
		rec, err := keys.ParseRecipient(format, pub)
		if err != nil {
			return viol(i, "parse", "the public half of a %s key does not parse: %v", format, err)
		}
		id, err := keys.ParseIdentity(format, priv, pw)
		if err != nil {
			return viol(i, "parse", "the private half of a %s key with the password %q does not parse: %v", format, pw, err)
		}
		if i == 0 {
			if _, err := keys.ParseIdentity(format, priv, x.Other); err == nil {
				return viol(i, "password", "the private half of a %s key with the password %q parses with the password %q", format, pw, x.Other)
			}
		}
		ps = append(ps, pair{rec, id})
	}
	for i := range ps {
		b, err := encOver(format, ps[i].rec, data)
		if err != nil {
			return viol(i, "encrypt", "%v", err)
		}
		h := &tar.Header{Name: "/n", Size: 7, PAXRecords: map[string]string{"a": "b"}}
		if err := encryption.EncryptHeader(h, format, ps[i].rec); err != nil {
			return viol(i, "encrypt", "header: %v", err)
		}
		for j := range ps {
			st.eval(true)
			out, err := decOver(format, ps[j].id, b)
			hh := *h
			herr := encryption.DecryptHeader(&hh, format, ps[j].id)
			if i == j {
				if err != nil || !bytes.Equal(out, data) {
					return viol(i, "decrypt", "%s with the password %q: decrypting returns %s instead of %s (%v)", format, x.Pw, short(out), short(data), err)
				}
				if herr != nil || hh.Name != "/n" {
					return viol(i, "decrypt", "%s: decrypting a header returns %v (%v)", format, canon(hh), herr)
				}
			} else if err == nil || herr == nil {
				return viol(i, "cross", "%s: data for one pair is decrypted by another (%v, %v)", format, err, herr)
			}
		}
	}
	return nil
}

func c18Sig(format string, x c18X, data []byte, st *Stats) *Viol {
	type pair struct{ rec, id interface{} }
	ps := []pair{}
	for i, pw := range []string{x.Pw, x.Other} {
		priv, pub, err := utility.Keygen(config.PipeConfig{Signature: format}, config.PasswordConfig{Password: pw})
		if err != nil {
			return viol(i, "keygen", "generating a key with the password %q: %v", pw, err)
		}
		rec, err := keys.ParseSignerRecipient(format, pub)
		if err != nil {
			return viol(i, "parse", "the public half of a %s key does not parse: %v", format, err)
		}
		id, err := keys.ParseSignerIdentity(format, priv, pw)
		if err != nil {
			return viol(i, "parse", "the private half of a %s key with the password %q does not parse: %v", format, pw, err)
		}
		if i == 0 {
			if _, err := keys.ParseSignerIdentity(format, priv, x.Other); err == nil {
				return viol(i, "password", "the private half of a %s key with the password %q parses with the password %q", format, pw, x.Other)
			}
		}
		ps = append(ps, pair{rec, id})
	}
	check := func(rec interface{}, d []byte, sig string) error {
		rd, verify, err := signature.Verify(bytes.NewReader(d), true, format, rec, sig)
		if err != nil {
			return err
		}
		if _, err := io.Copy(io.Discard, rd); err != nil {
			return err
		}
		return verify()
	}
	for i := range ps {
		rd, sign, err := signature.Sign(bytes.NewReader(data), true, format, ps[i].id)
		if err != nil {
			return viol(i, "sign", "%v", err)
		}
		if b, err := io.ReadAll(rd); err != nil || !bytes.Equal(b, data) {
			return viol(i, "sign", "signing changes what passes through: %s (%v)", short(b), err)
		}
		sig, err := sign()
		if err != nil {
			return viol(i, "sign", "%v", err)
		}
		h := &tar.Header{Name: "/n", Size: 7}
		if err := signature.SignHeader(h, true, format, ps[i].id); err != nil {
			return viol(i, "sign", "header: %v", err)
		}
		for j := range ps {
			st.eval(true)
			err := check(ps[j].rec, data, sig)
			hh := *h
			herr := signature.VerifyHeader(&hh, true, format, ps[j].rec)
			if i == j {
				if err != nil || herr != nil || hh.Name != "/n" {
					return viol(i, "verify", "%s with the password %q: verifying fails: %v, header %v", format, x.Pw, err, herr)
				}
				if check(ps[j].rec, append(append([]byte{}, data...), 'x'), sig) == nil {
					return viol(i, "verify", "%s: altered data verifies", format)
				}
			} else if err == nil || herr == nil {
				return viol(i, "cross", "%s: data signed by one pair is verified by another (%v, %v)", format, err, herr)
			}
		}
	}
	return nil
}

func init() {
	props["C08"] = &propDef{
		gen: func(r *rand.Rand, tier string, i int) Case {
			c := Cfg{RecordSize: recordSizes[r.Intn(len(recordSizes))], Cache: caches[r.Intn(len(caches))],
				Sig: []string{config.SignatureFormatMinisignKey, config.SignatureFormatPGPKey}[i%2], Enc: encs[(i/2)%len(encs)], Comp: comps[(i/6)%len(comps)], Level: levels[r.Intn(len(levels))]}
			o := GenOpt{invalid: 0, archive: true, mutate: true, maxLen: 60, symlinks: r.Intn(3) == 0}
			x := c08X{Flips: 14, Forges: 14}
			if tier == "thorough" {
				x = c08X{Flips: 200, Forges: 80}
			}
			b, _ := json.Marshal(x)
			ops := genOps(r, o, 2+r.Intn(4))
			if i%4 < 2 {
				// Members without content
				ops = append(ops, Op{K: "create", P: "/empty"})
				if r.Intn(2) == 0 {
					ops = append(ops, Op{K: "chmod", P: "/empty", M: 0640})
				}
			}
			return Case{C: c, Ops: ops, X: b}
		},
		n: map[string]int{"quick": 288, "thorough": 960}, run: runC08}
	props["C09"] = &propDef{gen: genC09, n: map[string]int{"quick": 192, "thorough": 1920}, run: runC09}
	props["C18"] = &propDef{gen: genC18, n: map[string]int{"quick": 56, "thorough": 400}, run: runC18}
}
