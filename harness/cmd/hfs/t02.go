package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"os"
	"path"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"github.com/ngicks/go-fsys-helper/tarfs"
	"verif/harness/fsx"
	"verif/harness/rt"
)

func isHeader(b []byte) bool {
	if len(b) < 512 || bytes.Equal(b[:512], make([]byte, 512)) {
		return false
	}
	t := bytes.Clone(b[:512])
	fixSum(t)
	sum := func(f []byte) string { return strings.Trim(string(f), " \x00") }
	return strings.TrimLeft(sum(t[148:156]), "0") == strings.TrimLeft(sum(b[148:156]), "0")
}

func headers(b []byte) (l []int) {
	for o := 0; o+512 <= len(b); o += 512 {
		if isHeader(b[o:]) {
			l = append(l, o)
		}
	}
	return
}

func base256(f []byte, v uint64, neg bool) {
	fill := byte(0)
	if neg {
		fill = 0xff
	}
	for i := range f {
		f[i] = fill
	}
	for i := len(f) - 1; i > 0 && i >= len(f)-8; i-- {
		f[i] = byte(v)
		v >>= 8
	}
	f[0] |= 0x80
}

var numbers = []string{"-1", "0", "1", "511", "512", "513", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "4294967296", "99999999999999999999999", "1048577", "", "x", "08", " 7", "1e3"}

// mutate damages an archive.
func mutateTar(c *rt.Case, b []byte) []byte {
	b = bytes.Clone(b)
	for range 1 + c.IntN(4) {
		hs := headers(b)
		var h []byte
		if len(hs) > 0 {
			h = b[hs[c.IntN(len(hs))]:]
		}
		blocks := len(b) / 512
		switch k := c.IntN(12); {
		case k == 0 && len(b) > 0: // anywhere
			b = b[:c.IntN(len(b))]
			c.Logf("cut to %d", len(b))
		case k == 1 && blocks > 0:
			b = b[:c.IntN(blocks)*512]
			c.Logf("cut to %d", len(b))
		case k == 2 && len(b) > 0:
			for range 1 + c.IntN(5) {
				i := c.IntN(len(b))
				b[i] = byte(c.Uint32())
			}
			c.Logf("bytes changed")
		case k <= 4 && h != nil: // header bytes, checksum right
			i := c.IntN(512)
			h[i] = byte(c.Uint32())
			fixSum(h)
			c.Logf("header byte %d = %d", i, h[i])
		case k == 5 && h != nil:
			h[156] = []byte("012345678SDVMNLKxgX\x00")[c.IntN(20)]
			fixSum(h)
			c.Logf("type %c", h[156])
		case k == 6 && h != nil: // a numeric field
			f := [][]byte{h[124:136], h[124:136], h[483:495], h[386:398], h[398:410], h[136:148], h[100:108]}[c.IntN(7)]
			switch c.IntN(3) {
			case 0:
				copy(f, "7777777777777777"[:len(f)-1])
			case 1:
				base256(f, []uint64{1 << 62, 1<<63 - 1, 1 << 40, 513, 1 << 33}[c.IntN(5)], false)
			default:
				base256(f, ^uint64(0)-c.Uint64N(3), true)
			}
			fixSum(h)
			c.Logf("number % x", f)
		case k == 7 && blocks > 1: // blocks repeated, dropped or moved
			i, n := c.IntN(blocks), 1+c.IntN(3)
			i, n = i*512, min(n*512, len(b)-i*512)
			j := c.IntN(blocks) * 512
			piece := bytes.Clone(b[i : i+n])
			switch c.IntN(3) {
			case 0:
				b = append(b[:i:i], b[i+n:]...)
			case 1:
				b = append(append(b[:j:j], piece...), b[j:]...)
			default:
				copy(b[j:], piece)
			}
			c.Logf("blocks moved")
		case k <= 9: // a record or a sparse map in text
			var at []int
			for _, w := range []string{"sparse.", "realsize=", "map=", "size=", "numblocks=", "offset=", "numbytes=", "path="} {
				for o := 0; ; {
					i := bytes.Index(b[o:], []byte(w))
					if i < 0 {
						break
					}
					o += i + len(w)
					at = append(at, o)
				}
			}
			if len(at) == 0 {
				continue
			}
			o := at[c.IntN(len(at))]
			e := bytes.IndexByte(b[o:], '\n')
			if e < 0 {
				continue
			}
			v := numbers[c.IntN(len(numbers))]
			for i := o; i < o+e; i++ { // same length
				if i-o < len(v) {
					b[i] = v[i-o]
				} else if c.IntN(2) == 0 {
					b[i] = '0' + byte(c.IntN(10))
				}
			}
			c.Logf("record at %d -> %q", o, b[o:o+e])
		case k == 10 && h != nil: // names
			n := []string{"a", "a/b", ".", "/", "..", "a/..", "", "a/b/c/d", "\xff", "a\x00b"}[c.IntN(10)]
			f := [][]byte{h[0:100], h[157:257]}[c.IntN(2)]
			clear(f)
			copy(f, n)
			fixSum(h)
			c.Logf("name %q", n)
		default: // text digits anywhere in a small 1.0 map
			for o := 0; o+512 <= len(b); o += 512 {
				if i := bytes.IndexByte(b[o:o+512], '\n'); i > 0 && i < 8 && c.IntN(2) == 0 {
					v := numbers[c.IntN(len(numbers))]
					copy(b[o:], v)
					c.Logf("map at %d = %q", o, v)
				}
			}
		}
	}
	return b
}

// exploreTar uses a view of whatever archive and checks that it is
// consistent with itself.
func exploreTar(c *rt.Case, v *tarfs.Fs, archive []byte, clean bool) {
	entries := 0
	var walk func(p string, depth int)
	walk = func(p string, depth int) {
		if entries++; entries > 3000 || depth > 200 {
			return
		}
		c.R.Eval(1)
		fail := func(k, f string, a ...any) { c.Fail("T02:"+k, "%q: %s", p, fmt.Sprintf(f, a...)) }
		i, err := v.Lstat(p)
		if err != nil {
			fail("lstat", "listed, but %v", err)
			return
		}
		f, err := v.Open(p)
		if err != nil {
			if i.IsDir() {
				fail("open", "directory: %v", err)
			}
			c.R.Count("entries refused")
			return
		}
		defer f.Close()
		fi, err := f.Stat()
		if err != nil {
			fail("fstat", "%v", err)
			return
		}
		if i.Mode().IsRegular() && (fi.Size() != i.Size() || fi.Mode() != i.Mode()) {
			fail("fstat", "%v %d, Lstat %v %d", fi.Mode(), fi.Size(), i.Mode(), i.Size())
		}
		if i.IsDir() {
			es, err := f.(fs.ReadDirFile).ReadDir(-1)
			if err != nil {
				fail("readdir", "%v", err)
			}
			seen := map[string]bool{}
			for _, e := range es {
				if seen[e.Name()] {
					fail("twice", "lists %q twice", e.Name())
				}
				seen[e.Name()] = true
				q := path.Join(p, e.Name())
				if !fs.ValidPath(q) || strings.Contains(e.Name(), "/") || e.Name() == "" || e.Name() == "." {
					if fs.ValidPath(q) || e.Name() == ".." {
						fail("name", "lists %q", e.Name())
					}
					c.R.Count("odd names")
					continue
				}
				if l, err := v.Lstat(q); err == nil && (l.Mode().Type() != e.Type() || l.IsDir() != e.IsDir() || l.Name() != e.Name()) {
					fail("type", "lists %q as %v, Lstat %q %v", e.Name(), e.Type(), l.Name(), l.Mode())
				}
				walk(q, depth+1)
			}
			return
		}
		if fi.IsDir() || !fi.Mode().IsRegular() { // through a link, or a device
			return
		}
		size := fi.Size()
		if size < 0 {
			fail("size", "negative size %d", size)
			return
		}
		ra := f.(io.ReaderAt)
		if size > 1<<20 { // holes: look here and there
			for range 4 {
				off := c.Int64N(size)
				b := make([]byte, 600)
				n, err := ra.ReadAt(b, off)
				if int64(n) > size-off || err == nil && n < len(b) || err == io.EOF && off+int64(n) != size {
					fail("readat", "ReadAt(%d) of %d = %d, %v", off, size, n, err)
				}
			}
			if end, err := f.(io.Seeker).Seek(0, io.SeekEnd); err != nil || end != size {
				fail("seek", "end %d, %v; size %d", end, err, size)
			}
			c.R.Count("huge files")
			return
		}
		b, err := io.ReadAll(io.LimitReader(f, size+10))
		if int64(len(b)) > size {
			fail("long", "read %d of %d bytes", len(b), size)
		}
		if err == nil && int64(len(b)) != size {
			fail("short", "read %d of %d bytes without an error", len(b), size)
		}
		if err != nil {
			c.R.Count("reads refused")
			return
		}
		c.R.Count("files read")
		// every run of content is in the archive
		for _, run := range bytes.FieldsFunc(b, func(r rune) bool { return r == 0 }) {
			if clean && len(run) > 3 && len(run) < 300 && !bytes.Contains(archive, run) {
				fail("bytes", "content not in the archive")
			}
		}
		at := make([]byte, len(b))
		if n, err := ra.ReadAt(at, 0); n != len(b) || !bytes.Equal(at, b) || err != nil && err != io.EOF {
			fail("readat", "ReadAt gives %d, %v; Read gave %d", n, err, len(b))
		}
	}
	walk(".", 0)
	for range 10 { // names nobody listed
		p := tarPath(c, false)
		if f, err := v.Open(p); err == nil {
			f.Close()
		}
		_, _ = v.Lstat(p)
		_, _ = v.ReadLink(p)
		_, _ = fs.ReadFile(limited{v}, p)
		if s, err := v.Sub(p); err == nil {
			_, _ = fs.ReadDir(s, ".")
			_, _ = s.Open(tarPath(c, false))
		}
	}
}

// limited refuses huge files.
type limited struct{ fs.FS }

func (l limited) Open(p string) (fs.File, error) {
	f, err := l.FS.Open(p)
	if err != nil {
		return nil, err
	}
	if i, err := f.Stat(); err != nil || i.Size() > 1<<20 {
		f.Close()
		return nil, errors.New("huge")
	}
	return f, nil
}

func anyTar(c *rt.Case, b []byte) {
	opt := tarOpt(c)
	t0 := time.Now()
	v, err := tarfs.New(bytes.NewReader(b), opt)
	d := time.Since(t0)
	m := readTar(b, opt, 1<<20)
	c.R.Distinct(fmt.Sprintf("%08x", fsx.Sum(b)))
	if d > 20*time.Second {
		c.Fail("T02:slow", "New took %v for %d bytes", d, len(b))
	}
	if err != nil {
		c.R.Count("archives refused")
		if m.err == nil {
			c.R.Count("archives refused, archive/tar takes them")
		}
		return
	}
	if m.err != nil {
		c.Fail("T02:accepted", "a view of an archive of which archive/tar says %v", m.err)
		return
	}
	c.R.Count("archives taken")
	exploreTar(c, v, b, true)
	if !c.Failed() && len(m.n) < 300 {
		tarJudge(c, "T02", v, m, opt, false)
	}
}

// cutReader is an archive that got shorter, or which fails in a region.
type cutReader struct {
	b        []byte
	len      int
	from, to int
	armed    bool
}

func (r *cutReader) ReadAt(p []byte, off int64) (int, error) {
	b := r.b
	if r.armed && r.len >= 0 {
		b = b[:r.len]
	}
	if off >= int64(len(b)) {
		return 0, io.EOF
	}
	n := copy(p, b[off:])
	if r.armed && r.from < r.to && int(off)+n > r.from && int(off) < r.to {
		return max(0, r.from-int(off)), errUser
	}
	if n < len(p) {
		return n, io.EOF
	}
	return n, nil
}

// laterTar: the archive is damaged after the view was made.
func laterTar(c *rt.Case) {
	b := genTar(c, true, c.IntN(2) == 0)
	opt := tarOpt(c)
	r := &cutReader{b: b, len: -1}
	v, err := tarfs.New(r, opt)
	if err != nil {
		c.Fail("T02:later:new", "%v", err)
		return
	}
	type fl struct {
		p string
		f fs.File
		b []byte
	}
	var files []fl
	_ = fs.WalkDir(v, ".", func(p string, d fs.DirEntry, err error) error {
		if err == nil && d.Type().IsRegular() {
			if data, err := fs.ReadFile(v, p); err == nil {
				f, err := v.Open(p)
				c.Must(err)
				files = append(files, fl{p, f, data})
			}
		}
		return nil
	})
	r.armed = true
	if c.IntN(2) == 0 {
		r.len = c.IntN(len(b) + 1)
		c.Logf("cut to %d of %d", r.len, len(b))
	} else if len(b) > 0 {
		r.from = c.IntN(len(b))
		r.to = r.from + 1 + c.IntN(600)
		c.Logf("fails in [%d, %d)", r.from, r.to)
	}
	for _, x := range files {
		c.R.Eval(1)
		got, err := io.ReadAll(x.f)
		switch {
		case err == nil && !bytes.Equal(got, x.b):
			c.Fail("T02:later:clean", "%q: %d of %d bytes without an error", x.p, len(got), len(x.b))
		case err != nil && !bytes.HasPrefix(x.b, got):
			c.Fail("T02:later:bytes", "%q: wrong bytes before %v", x.p, err)
		case err != nil:
			c.R.Count("damage reported")
		}
		for range 3 {
			off := c.IntN(len(x.b) + 1)
			p := make([]byte, c.IntN(len(x.b)+5))
			n, err := x.f.(io.ReaderAt).ReadAt(p, int64(off))
			want := x.b[off:min(len(x.b), off+len(p))]
			switch {
			case !bytes.Equal(p[:n], want[:min(n, len(want))]) || n > len(want):
				c.Fail("T02:later:bytes", "%q: ReadAt(%d, %d) gives wrong bytes", x.p, len(p), off)
			case n < len(want) && (err == nil || err == io.EOF):
				c.Fail("T02:later:clean", "%q: ReadAt(%d, %d) = %d, %v; want %d", x.p, len(p), off, n, err, len(want))
			}
		}
		x.f.Close()
	}
	c.R.Distinct(fmt.Sprintf("later %08x %d %d", fsx.Sum(b), r.len, r.from))
}

var t02 = &rt.Check{ID: "T02", Level: "exploration", CaseTimeout: 60 * time.Second,
	Rule: "archives of all formats, the fixtures of the Go distribution among them, cut, with bytes, header fields, numbers, records, sparse maps and names changed under a right checksum and blocks moved; whatever opens is explored in full under a watchdog, checked for consistency with itself and compared with archive/tar; archives cut or failing after the view was made; distinct by archive",
	Run: func(r *rt.Run) {
		var seeds [][]byte
		l, _ := filepath.Glob(filepath.Join(os.Getenv("VERIF_GOROOT"), "src/archive/tar/testdata/*.tar"))
		sort.Strings(l)
		for _, p := range l {
			if b, err := os.ReadFile(p); err == nil && len(b) < 1<<20 {
				seeds = append(seeds, b)
			}
		}
		r.CountN("fixtures of the Go distribution", len(seeds))
		r.CasesPar("fixtures", len(seeds), 8, func(c *rt.Case) { anyTar(c, seeds[c.Idx]) })
		base := func(c *rt.Case) []byte {
			switch {
			case c.IntN(5) == 0 && len(seeds) > 0:
				return seeds[c.IntN(len(seeds))]
			case c.IntN(4) == 0:
				var t tarBuf
				for range 1 + c.IntN(3) {
					t.sparseEntry(c, tarNames[c.IntN(4)], c.IntN(4), 0o644)
				}
				t.end()
				return t.Bytes()
			}
			return genTar(c, true, c.IntN(3) == 0)
		}
		r.CasesPar("mutated", r.N(6000, 400000), 8, func(c *rt.Case) { anyTar(c, mutateTar(c, base(c))) })
		r.CasesPar("cuts", r.N(60, 3000), 8, func(c *rt.Case) { // everywhere near block borders
			b := base(c)
			for o := 0; o < len(b) && o < 30000; o += 512 {
				for _, d := range []int{0, 1, 511} {
					if o+d <= len(b) {
						anyTar(c, b[:o+d])
					}
				}
			}
		})
		r.CasesPar("later", r.N(1500, 60000), 8, laterTar)
		r.Floor("archives taken", 2000)
		r.Floor("archives refused", 2000)
		r.Floor("files read", 2000)
		r.Floor("damage reported", 100)
	}}
