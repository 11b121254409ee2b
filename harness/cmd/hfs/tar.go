package main

import (
	"archive/tar"
	"bytes"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"os"
	"path"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"time"

	"github.com/ngicks/go-fsys-helper/fsutil"
	"github.com/ngicks/go-fsys-helper/fsutil/errdef"
	"github.com/ngicks/go-fsys-helper/tarfs"
	"verif/harness/fsx"
	"verif/harness/rt"
)

// ---- writing archives

type tarBuf struct{ bytes.Buffer }

func pad512(n int) int { return (512 - n%512) % 512 }

func octal(b []byte, v int64) { copy(b, fmt.Sprintf("%0*o", len(b)-1, v)) }

// rawHeader is one V7/ustar/GNU header block.
func rawHeader(name, link string, typ byte, size int64, mode int64, mtime int64, gnu bool, sparse func(blk []byte)) []byte {
	b := make([]byte, 512)
	copy(b[0:100], name)
	octal(b[100:108], mode)
	octal(b[108:116], 0)
	octal(b[116:124], 0)
	octal(b[124:136], size)
	octal(b[136:148], mtime)
	b[156] = typ
	copy(b[157:257], link)
	if gnu {
		copy(b[257:], "ustar  \x00")
	} else {
		copy(b[257:], "ustar\x0000")
	}
	if sparse != nil {
		sparse(b)
	}
	fixSum(b)
	return b
}

func fixSum(b []byte) {
	copy(b[148:156], "        ")
	var s int64
	for _, x := range b[:512] {
		s += int64(x)
	}
	copy(b[148:156], fmt.Sprintf("%06o\x00 ", s))
}

func (t *tarBuf) body(b []byte) {
	t.Write(b)
	t.Write(make([]byte, pad512(len(b))))
}

func (t *tarBuf) end() { t.Write(make([]byte, 1024)) }

func paxRecord(k, v string) string {
	n := len(k) + len(v) + 3
	for {
		s := fmt.Sprintf("%d %s=%s\n", n, k, v)
		if len(s) == n {
			return s
		}
		n = len(s)
	}
}

func (t *tarBuf) pax(records ...string) {
	var s string
	for i := 0; i < len(records); i += 2 {
		s += paxRecord(records[i], records[i+1])
	}
	t.Write(rawHeader("PaxHeaders/x", "", 'x', int64(len(s)), 0o644, 0, false, nil))
	t.body([]byte(s))
}

type span struct{ off, n int64 }

// sparseMap makes a map of data regions within size.
func sparseMap(c *rt.Case, size int64) (l []span) {
	pos := int64(0)
	most := 9
	if c.IntN(6) == 0 { // maps longer than a block
		most = 120
	}
	for range c.IntN(most) {
		left := size - pos
		if left <= 0 {
			break
		}
		if c.IntN(4) > 0 {
			pos += 1 + c.Int64N(min(left, 2000))
		}
		left = size - pos
		if left < 0 {
			break
		}
		n := int64(0)
		if left > 0 && c.IntN(6) > 0 {
			n = 1 + c.Int64N(min(left, 1500))
		}
		l = append(l, span{pos, n})
		pos += n
	}
	if c.IntN(2) == 0 { // GNU tar ends a map with an empty entry at the end
		l = append(l, span{size, 0})
	}
	return
}

// sparseVersion names the version of a 0.x map, which need not be named, or an
// unknown one: such a member is a plain file.
func sparseVersion(c *rt.Case, minor string) []string {
	switch c.IntN(8) {
	case 0, 1:
		return []string{"GNU.sparse.major", "0", "GNU.sparse.minor", minor}
	case 2:
		return []string{"GNU.sparse.major", []string{"2", "0", "x"}[c.IntN(3)], "GNU.sparse.minor", "7"}
	}
	return nil
}

// sparseEntry writes one sparse file in one of the four formats.
func (t *tarBuf) sparseEntry(c *rt.Case, name string, format int, mode int64) {
	size := []int64{1, 512, 3000, 10000, 70000}[c.IntN(5)]
	m := sparseMap(c, size)
	if len(m) == 0 {
		m = []span{{size, 0}}
	}
	var data []byte
	for _, s := range m {
		d := make([]byte, s.n)
		for i := range d {
			d[i] = byte(c.Uint32() | 1)
		}
		data = append(data, d...)
	}
	mt := int64(1e9) + c.Int64N(1e8)
	switch format {
	case 0: // old GNU
		if c.IntN(4) == 0 {
			// a long name, which may fill its blocks exactly
			n := []int{512, 511, 513, 1024, 150}[c.IntN(5)] - 1
			long := name
			for len(long) < n {
				long += "/" + strings.Repeat("l", min(120, max(1, n-len(long)-1)))
			}
			if long = strings.TrimSuffix(long[:n], "/"); c.IntN(4) > 0 || len(long) < n {
				long += "\x00"
			}
			t.Write(rawHeader("././@LongLink", "", 'L', int64(len(long)), 0o644, 0, true, nil))
			t.body([]byte(long))
		}
		rest, ext := m, false
		loose := c.IntN(3) == 0 // maps whose blocks are not full
		entries := func(b []byte, n int) (more bool) {
			if loose && c.IntN(2) == 0 {
				n = c.IntN(n)
			}
			for i := 0; i < n && len(rest) > 0; i++ {
				octal(b[i*24:i*24+12], rest[0].off)
				octal(b[i*24+12:i*24+24], rest[0].n)
				rest = rest[1:]
			}
			ext = len(rest) > 0 || loose && c.IntN(4) == 0
			return ext
		}
		t.Write(rawHeader(name, "", 'S', int64(len(data)), mode, mt, true, func(b []byte) {
			if entries(b[386:], 4) {
				b[482] = 1
			}
			octal(b[483:495], size)
		}))
		for ext {
			b := make([]byte, 512)
			if entries(b, 21) {
				b[504] = 1
			}
			t.Write(b)
		}
	case 1: // PAX 0.0
		rec := []string{"GNU.sparse.size", fmt.Sprint(size), "GNU.sparse.numblocks", fmt.Sprint(len(m))}
		for _, s := range m {
			rec = append(rec, "GNU.sparse.offset", fmt.Sprint(s.off), "GNU.sparse.numbytes", fmt.Sprint(s.n))
		}
		rec = append(rec, sparseVersion(c, "0")...)
		t.pax(rec...)
		t.Write(rawHeader(name, "", '0', int64(len(data)), mode, mt, false, nil))
	case 2: // PAX 0.1
		var l []string
		for _, s := range m {
			l = append(l, fmt.Sprint(s.off), fmt.Sprint(s.n))
		}
		t.pax(append([]string{"GNU.sparse.size", fmt.Sprint(size), "GNU.sparse.numblocks", fmt.Sprint(len(m)),
			"GNU.sparse.map", strings.Join(l, ","), "GNU.sparse.name", name}, sparseVersion(c, "1")...)...)
		t.Write(rawHeader("GNUSparseFile.0/x", "", '0', int64(len(data)), mode, mt, false, nil))
	default: // PAX 1.0
		h := fmt.Sprintf("%d\n", len(m))
		for _, s := range m {
			h += fmt.Sprintf("%d\n%d\n", s.off, s.n)
		}
		h += string(make([]byte, pad512(len(h))))
		t.pax("GNU.sparse.major", "1", "GNU.sparse.minor", "0", "GNU.sparse.name", name, "GNU.sparse.realsize", fmt.Sprint(size))
		data = append([]byte(h), data...)
		t.Write(rawHeader("GNUSparseFile.0/x", "", '0', int64(len(data)), mode, mt, false, nil))
	}
	t.body(data)
}

var tarNames = []string{"a", "b", "a-", "d"}

func tarPath(c *rt.Case, odd bool) string {
	var l []string
	for range 1 + c.IntN(4) {
		n := tarNames[c.IntN(len(tarNames))]
		if odd && c.IntN(10) == 0 {
			n = []string{strings.Repeat("long", 40), "é", "..x", "...", "a b", "-", "a.b", "\\", "x\ny", "%2f", "名", "a-"}[c.IntN(12)]
		}
		l = append(l, n)
	}
	p := strings.Join(l, "/")
	if odd {
		switch c.IntN(25) {
		case 0:
			p = "./" + p
		case 1:
			p = "/" + p
		case 2:
			p = "x/../" + p
		case 3:
			p = "./" + strings.ReplaceAll(p, "/", "//")
		case 4:
			p = "../" + p
		case 5:
			p = strings.ReplaceAll(p, "/", "/./")
		case 6:
			p = "//../" + p
		}
	}
	return p
}

var tarTargets = append([]string{"/a", "/", "../..", "../../a", "a/../b", "a/b/..", "a/b/../c", "./../b", "b/", "a//b", "c/./a", "../../../../../../x", "", "a/.", "./", "b/..", "a/", "../a/"}, linkTargets...)

// genTar makes an archive. It is well-formed, whatever its names.
func genTar(c *rt.Case, odd, files bool) []byte {
	var t tarBuf
	w := tar.NewWriter(&t)
	var names []string
	size := []int{18, 18, 18, 18, 18, 18, 18, 90}[c.IntN(8)]
	if c.R.ID == "T01" && c.IntN(150) == 0 {
		size = 1200
	}
	again, wide := c.IntN(4) == 0, c.IntN(4) == 0
	for range c.IntN(size) {
		name := tarPath(c, odd)
		if wide && c.IntN(3) > 0 {
			name = path.Join(name, fmt.Sprint("w", c.IntN(2*size)))
		}
		redir := false
		if again && len(names) > 0 && c.IntN(4) == 0 {
			// a header for something the archive has, or implied, before
			name = names[c.IntN(len(names))]
			if d := path.Dir(path.Clean("./" + name)); c.IntN(2) == 0 && d != "." {
				name, redir = d, true
			}
		}
		h := &tar.Header{Name: name, Mode: int64([]int{0o644, 0o600, 0o755, 0o4755, 0o2711, 0o1777, 0o444, 0}[c.IntN(8)]),
			ModTime: time.Unix(1e9+c.Int64N(1e8), 0), Uid: c.IntN(3), Gid: 7,
			Format: []tar.Format{tar.FormatUnknown, tar.FormatUSTAR, tar.FormatPAX, tar.FormatGNU}[c.IntN(4)]}
		if h.Format == tar.FormatPAX && c.IntN(2) == 0 {
			h.ModTime = h.ModTime.Add(123456789)
			h.PAXRecords = map[string]string{"VENDOR.key": "v"}
			h.AccessTime = h.ModTime
		}
		var body []byte
		k := c.IntN(20)
		if files {
			k = c.IntN(9)
		}
		if redir && c.IntN(4) > 0 {
			k = 8
		}
		switch {
		case k < 6:
			h.Typeflag = tar.TypeReg
			body = make([]byte, []int{0, 1, 511, 512, 513, 1025, 5000}[c.IntN(7)])
			for i := range body {
				body[i] = byte(c.Uint32())
			}
			h.Size = int64(len(body))
		case k < 9:
			h.Typeflag = tar.TypeDir
			if c.IntN(8) == 0 {
				h.Name = []string{".", "./", "/"}[c.IntN(3)]
			} else if c.IntN(2) == 0 {
				h.Name += "/"
			}
		case k < 14:
			h.Typeflag = tar.TypeSymlink
			h.Linkname = tarTargets[c.IntN(len(tarTargets))]
			if c.IntN(3) == 0 {
				h.Linkname = tarPath(c, odd)
			}
		case k < 17:
			h.Typeflag = tar.TypeLink
			h.Linkname = tarPath(c, odd)
			if len(names) > 0 && c.IntN(3) > 0 {
				h.Linkname = names[c.IntN(len(names))]
			}
		case k < 18:
			h.Typeflag = []byte{tar.TypeChar, tar.TypeBlock, tar.TypeFifo}[c.IntN(3)]
		case k < 19:
			c.Must(w.Flush())
			t.sparseEntry(c, path.Clean("./"+tarNames[c.IntN(4)]+"/"+tarNames[c.IntN(4)]), c.IntN(4), h.Mode)
			continue
		default:
			h.Typeflag, h.Format = tar.TypeXGlobalHeader, tar.FormatPAX
			h = &tar.Header{Typeflag: tar.TypeXGlobalHeader, Name: []string{"", "a"}[c.IntN(2)], PAXRecords: map[string]string{"VENDOR.x": "y"}}
		}
		if err := w.WriteHeader(h); err != nil {
			// not expressible in that format
			h.Format = tar.FormatUnknown
			if w.WriteHeader(h) != nil {
				continue
			}
		}
		_, err := w.Write(body)
		c.Must(err)
		names = append(names, name)
		c.Logf("entry %q %c -> %q size %d mode %o", h.Name, h.Typeflag, h.Linkname, h.Size, h.Mode)
	}
	if odd && !files && c.IntN(30) == 0 {
		// a chain of about as many links as may be followed
		n := 37 + c.IntN(6)
		for i := range n {
			c.Must(w.WriteHeader(&tar.Header{Typeflag: tar.TypeSymlink, Name: fmt.Sprint("k", i), Linkname: fmt.Sprint("k", i+1), Mode: 0o777}))
		}
		h := &tar.Header{Typeflag: tar.TypeReg, Name: fmt.Sprint("k", n), Mode: 0o644, Size: 3}
		if dir := c.IntN(2) == 0; dir {
			h.Typeflag, h.Size = tar.TypeDir, 0
		}
		c.Must(w.WriteHeader(h))
		_, err := w.Write([]byte("end")[:h.Size])
		c.Must(err)
		c.Logf("chain of %d links", n)
	}
	c.Must(w.Flush())
	if c.IntN(8) > 0 { // the end mark may be absent
		t.end()
	}
	return t.Bytes()
}

// ---- reading them independently

type tnode struct {
	h       *tar.Header // nil: made up
	typ     byte        // kind after hard links
	link    string      // of symbolic links
	data    []byte
	dataErr error
	kids    map[string]bool
	bad     bool // hard link leading nowhere
	skip    bool // unknown
	from    string
}

type tmodel struct {
	n   map[string]*tnode
	err error
}

func tarClean(name string) string {
	name = path.Clean(name)
	for strings.HasPrefix(name, "/") {
		name = name[1:]
	}
	if name == "" {
		return "."
	}
	return name
}

// readTar builds the expected tree with archive/tar and sequential reading.
func readTar(b []byte, opt *tarfs.FsOption, limit int64) *tmodel {
	type ent struct {
		h    *tar.Header
		data []byte
		err  error
	}
	last := map[string]ent{}
	r := tar.NewReader(bytes.NewReader(b))
	m := &tmodel{n: map[string]*tnode{}}
	for i := 1; ; i++ {
		h, err := r.Next()
		if err == io.EOF {
			break
		}
		if err != nil {
			m.err = err
			break
		}
		if h.Typeflag == tar.TypeXGlobalHeader {
			continue
		}
		e := ent{h: h}
		e.data, e.err = io.ReadAll(io.LimitReader(r, limit))
		if e.err != nil {
			// an error in one body is none of the next
			r = tar.NewReader(bytes.NewReader(b))
			for range i {
				_, _ = r.Next()
			}
		}
		if e.err == nil && int64(len(e.data)) == limit {
			e.err = errors.New("too long for the model")
		}
		last[tarClean(h.Name)] = e
	}
	m.n["."] = &tnode{typ: tar.TypeDir, kids: map[string]bool{}}
	var keys []string
	for k := range last {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		e := last[k]
		if k == ".." || strings.HasPrefix(k, "../") {
			continue
		}
		if k == "." {
			if e.h.Typeflag == tar.TypeDir {
				m.n["."].h = e.h
			}
			continue
		}
		switch e.h.Typeflag {
		case tar.TypeReg, tar.TypeGNUSparse, '\x00', tar.TypeDir, tar.TypeLink:
		case tar.TypeSymlink:
			if !opt.HandleSymlink {
				continue
			}
		case tar.TypeChar, tar.TypeBlock, tar.TypeFifo:
			if !opt.AllowDev {
				continue
			}
		default:
			continue
		}
		n := &tnode{h: e.h, typ: e.h.Typeflag, data: e.data, dataErr: e.err, from: k}
		if n.typ == tar.TypeSymlink {
			n.link = e.h.Linkname
		}
		if n.typ == tar.TypeDir {
			n.kids = map[string]bool{}
		}
		m.n[k] = n
	}
	// parents
	for _, k := range keys {
		if m.n[k] == nil || k == "." {
			continue
		}
		for p := k; p != "."; {
			par := path.Dir(p)
			if d := m.n[par]; d == nil || d.typ != tar.TypeDir {
				m.n[par] = &tnode{typ: tar.TypeDir, kids: map[string]bool{}}
			}
			m.n[par].kids[path.Base(p)] = true
			p = par
		}
	}
	return m
}

// link resolves the hard links of the model. resolve maps a path through
// symbolic links except a last one.
func (m *tmodel) link(resolve func(string) (string, bool)) {
	state := map[*tnode]int{}
	var do func(n *tnode)
	do = func(n *tnode) {
		if n.typ != tar.TypeLink || state[n] == 2 {
			return
		}
		if state[n] == 1 {
			n.bad = true
			return
		}
		state[n] = 1
		p, ok := resolve(tarClean(n.h.Linkname))
		t := m.n[p]
		if !ok || t == nil {
			n.bad = true
		} else {
			if t.typ == tar.TypeLink {
				do(t)
			}
			switch {
			case t.typ == tar.TypeLink || t.bad || t.typ == tar.TypeDir:
				n.bad = true
			default:
				n.typ, n.link, n.data, n.dataErr, n.from = t.typ, t.link, t.data, t.dataErr, t.from
			}
		}
		state[n] = 2
	}
	for _, n := range m.n {
		do(n)
	}
}

// build materializes the tree so that the kernel can resolve names in it.
// Hard links are made as what they resolve to.
func (m *tmodel) build(dir string) error {
	var ps []string
	for p := range m.n {
		ps = append(ps, p)
	}
	sort.Strings(ps)
	for _, p := range ps {
		n := m.n[p]
		q := filepath.Join(dir, p)
		var err error
		switch n.typ {
		case tar.TypeDir:
			if p != "." {
				err = os.Mkdir(q, 0o755)
			}
		case tar.TypeSymlink:
			if n.link == "" {
				// the kernel has no such links; one leading nowhere does
				err = os.Symlink("nowhere/at/all", q)
			} else {
				err = os.Symlink(n.link, q)
			}
		default:
			err = os.WriteFile(q, nil, 0o644)
		}
		if err != nil {
			return err
		}
	}
	return nil
}

func tarErrClass(err error) string {
	switch {
	case err == nil:
		return "ok"
	case errors.Is(err, fsutil.ErrPathEscapes):
		return "escape"
	case errors.Is(err, errdef.ELOOP):
		return "loop"
	case errors.Is(err, fs.ErrNotExist):
		return "notexist"
	case errors.Is(err, syscall.ENOTDIR):
		return "notdir"
	case errors.Is(err, fs.ErrInvalid):
		return "invalid"
	}
	return "error"
}

func tarInfo(n *tnode, base string, i fs.FileInfo) string {
	var bad []string
	add := func(f string, a ...any) { bad = append(bad, fmt.Sprintf(f, a...)) }
	if i.Name() != base {
		add("name %q, want %q", i.Name(), base)
	}
	if n.h == nil {
		if i.Mode() != fs.ModeDir|0o755 && base != "." {
			add("made-up directory has mode %v", i.Mode())
		}
		return strings.Join(bad, ", ")
	}
	want := n.h.FileInfo().Mode()
	if n.h.Typeflag == tar.TypeLink && n.typ == tar.TypeSymlink {
		want = want&^fs.ModeType | fs.ModeSymlink
	}
	if i.Mode() != want {
		add("mode %v, want %v", i.Mode(), want)
	}
	if n.typ == tar.TypeReg || n.typ == tar.TypeGNUSparse {
		if n.dataErr == nil && i.Size() != int64(len(n.data)) {
			add("size %d, want %d", i.Size(), len(n.data))
		}
	}
	if !i.ModTime().Equal(n.h.ModTime) {
		add("mtime %v, want %v", i.ModTime(), n.h.ModTime)
	}
	if i.IsDir() != (n.typ == tar.TypeDir) {
		add("IsDir %v", i.IsDir())
	}
	return strings.Join(bad, ", ")
}

// tarCompare compares a view with the model: every entry, listing, content.
// strict: reads must succeed where the model has data.
func tarCompare(c *rt.Case, pre string, v *tarfs.Fs, m *tmodel, strict bool) {
	var ps []string
	for p := range m.n {
		ps = append(ps, p)
	}
	sort.Strings(ps)
	for _, p := range ps {
		n := m.n[p]
		if !fs.ValidPath(p) || n.skip {
			continue
		}
		c.R.Eval(1)
		fail := func(k, f string, a ...any) { c.Fail(pre+":"+k, "%q: %s", p, fmt.Sprintf(f, a...)) }
		i, err := v.Lstat(p)
		if err != nil {
			fail("lstat", "%v", err)
			continue
		}
		if n.typ == tar.TypeLink || n.bad {
			c.R.Count("hard link leading nowhere")
			if f, err := v.Open(p); err == nil {
				f.Close()
				fail("badlink", "a hard link leading nowhere was opened")
			}
			continue
		}
		if d := tarInfo(n, path.Base(p), i); d != "" {
			fail("info", "Lstat: %s", d)
		}
		l, lerr := v.ReadLink(p)
		if n.typ == tar.TypeSymlink {
			if lerr != nil || l != n.link {
				fail("readlink", "%q, %v; want %q", l, lerr, n.link)
			}
			c.R.Count("symbolic links")
			continue
		}
		if lerr == nil {
			fail("readlink", "of no link: %q", l)
		}
		f, err := v.Open(p)
		if err != nil {
			fail("open", "%v", err)
			continue
		}
		if i, err := f.Stat(); err != nil {
			fail("fstat", "%v", err)
		} else if d := tarInfo(n, path.Base(p), i); d != "" {
			fail("info", "handle Stat: %s", d)
		}
		if n.typ == tar.TypeDir {
			c.R.Count("directories")
			es, err := f.(fs.ReadDirFile).ReadDir(-1)
			if err != nil {
				fail("readdir", "%v", err)
			}
			seen := map[string]bool{}
			for _, e := range es {
				if seen[e.Name()] {
					fail("readdir-twice", "lists %q twice", e.Name())
				}
				seen[e.Name()] = true
				k := m.n[path.Join(p, e.Name())]
				if k == nil || !n.kids[e.Name()] {
					fail("readdir-extra", "lists %q", e.Name())
					continue
				}
				if ei, err := e.Info(); err != nil {
					fail("readdir-info", "%v", err)
				} else if d := tarInfo(k, e.Name(), ei); d != "" && !k.bad && !k.skip && k.typ != tar.TypeLink {
					fail("readdir-info", "%q: %s", e.Name(), d)
				}
			}
			for k := range n.kids {
				if !seen[k] {
					fail("readdir-missing", "does not list %q", k)
				}
			}
			f.Close()
			continue
		}
		c.R.Count("files")
		b, err := io.ReadAll(io.LimitReader(f, 1<<22))
		switch {
		case n.dataErr == nil && err == nil && bytes.Equal(b, n.data):
			c.R.CountN("bytes compared", len(b))
			if n.h.Typeflag == tar.TypeGNUSparse || n.h.PAXRecords["GNU.sparse.realsize"]+n.h.PAXRecords["GNU.sparse.size"] != "" {
				c.R.Count("sparse files")
			}
			if n.h.Typeflag == tar.TypeLink {
				c.R.Count("hard links")
			}
		case n.dataErr == nil && err == nil:
			fail("content", "%d bytes %08x, want %d %08x", len(b), fsx.Sum(b), len(n.data), fsx.Sum(n.data))
		case n.dataErr == nil && strict:
			fail("read", "%v", err)
		case n.dataErr != nil && err == nil && n.dataErr.Error() != "too long for the model":
			fail("truncated", "%d bytes returned as complete, archive/tar says %v", len(b), n.dataErr)
		}
		if n.dataErr == nil && err == nil && len(n.data) < 1<<20 {
			f.Close()
			f, err = v.Open(p)
			if err != nil {
				fail("open", "%v", err)
				continue
			}
			readHistory(c, pre, p, f, n.data)
		}
		if err := f.Close(); err != nil {
			fail("close", "%v", err)
		}
		if k, err := f.Read(make([]byte, 1)); !errors.Is(err, fs.ErrClosed) || k != 0 {
			fail("closed", "Read after Close: %d, %v", k, err)
		}
	}
}
