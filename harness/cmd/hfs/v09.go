package main

import (
	"archive/tar"
	"bytes"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"math"
	"os"
	"path"
	"sort"
	"testing/fstest"
	"time"

	"github.com/ngicks/go-fsys-helper/tarfs"
	"github.com/ngicks/go-fsys-helper/vroot"
	"github.com/ngicks/go-fsys-helper/vroot-adapter/overlayfs"
	"github.com/ngicks/go-fsys-helper/vroot/osfs"
	"verif/harness/fsx"
	"verif/harness/ovl"
	"verif/harness/rt"
)

// dirFile is what every listing handle offers; the last two may be missing.
type dirFile interface {
	ReadDir(n int) ([]fs.DirEntry, error)
	Close() error
}

// listed is one entry of a listing, whatever the form.
type listed struct {
	name string
	typ  fs.FileMode
	has  bool // typ known
	info fs.FileInfo
}

// page reads one page by form 0..2.
func page(f dirFile, form, n int) (out []listed, err error) {
	switch form {
	case 1:
		if r, ok := f.(interface {
			Readdir(int) ([]fs.FileInfo, error)
		}); ok {
			var l []fs.FileInfo
			l, err = r.Readdir(n)
			for _, i := range l {
				if i == nil {
					return nil, errors.New("nil FileInfo in Readdir")
				}
				out = append(out, listed{i.Name(), i.Mode().Type(), true, i})
			}
			return
		}
	case 2:
		if r, ok := f.(interface {
			Readdirnames(int) ([]string, error)
		}); ok {
			var l []string
			l, err = r.Readdirnames(n)
			for _, s := range l {
				out = append(out, listed{name: s})
			}
			return
		}
	}
	var l []fs.DirEntry
	l, err = f.ReadDir(n)
	for _, e := range l {
		x := listed{e.Name(), e.Type(), true, nil}
		if i, err := e.Info(); err == nil {
			x.info = i
		}
		out = append(out, x)
	}
	return
}

// pagedCheck drives one directory handle. mutate (nil: immutable) removes or
// adds an entry and reports which.
func pagedCheck(c *rt.Case, part string, open func() (dirFile, error), initial map[string]fs.FileMode, mutate func() (removed, added string), rewind bool) {
	fail := func(sig, f string, a ...any) { c.Fail("V09:"+part+":"+sig, f, a...) }
	// Under mutation these are the kernel's pages, handed through; what it
	// promises depends on the file system scratch files are on.
	kernels := mutate != nil && (part == "osroot" || part == "osfs" || part == "from-dirfs")
	f, err := open()
	if err != nil {
		fail("open", "open: %v", err)
		return
	}
	defer f.Close()
	now := map[string]fs.FileMode{}
	for k, v := range initial {
		now[k] = v
	}
	rounds := 1
	if rewind {
		rounds += c.IntN(3)
	}
	key := part
	for rnd := 0; rnd < rounds && !c.Failed(); rnd++ {
		if rnd > 0 {
			s, ok := f.(io.Seeker)
			if !ok {
				return
			}
			if _, err := s.Seek(0, io.SeekStart); err != nil {
				fail("rewind", "Seek(0, 0) on a directory: %v", err)
				return
			}
			c.Logf("rewind")
			c.R.Count("rewinds")
		}
		stable := map[string]fs.FileMode{}
		for k, v := range now {
			stable[k] = v
		}
		extra := map[string]bool{}
		seen := map[string]int{}
		form := c.IntN(4)
		stopAt := -1
		if rewind && c.IntN(3) == 0 {
			stopAt = c.IntN(4)
		}
		ended := false
		pages := 0
		for ; pages < 200 && pages != stopAt; pages++ {
			n := pick(c.Rand, 1, 1, 2, 2, 3, 5, 8, 100)
			if c.IntN(15) == 0 { // sums with it overflow
				n = pick(c.Rand, math.MaxInt, math.MaxInt-1, math.MaxInt-3, math.MaxInt32)
				c.R.Count("huge-pages")
			}
			if c.IntN(12) == 0 {
				n = pick(c.Rand, 0, -1)
			}
			fm := form
			if form == 3 {
				fm = c.IntN(3)
			}
			l, err := page(f, fm, n)
			c.Logf("page(form %d, %d) = %d, %v", fm, n, len(l), err)
			c.R.Eval(1)
			c.R.Count("pages")
			if n > 0 && len(l) > n {
				fail("too-many", "asked for %d entries, got %d", n, len(l))
			}
			for _, e := range l {
				seen[e.name]++
				if seen[e.name] > 1 && !kernels {
					fail("twice", "%q listed twice", e.name)
				}
				m, ok := stable[e.name]
				if !ok && !extra[e.name] {
					fail("unknown", "%q listed, never there", e.name)
				}
				if ok && e.has && m != e.typ {
					fail("type", "%q listed as %v, is %v", e.name, e.typ, m)
				}
				if e.info != nil && (e.info.Name() != e.name || ok && e.info.Mode().Type() != m) {
					fail("info", "%q: info says %q %v, is %v", e.name, e.info.Name(), e.info.Mode(), m)
				}
			}
			if n <= 0 {
				if err != nil {
					fail("all-error", "page(%d): %v", n, err)
				}
				ended = true
				break
			}
			if err != nil {
				if err != io.EOF {
					fail("error", "page(%d): %v", n, err)
				}
				if len(l) != 0 {
					fail("eof-with-entries", "%d entries along with io.EOF", len(l))
				}
				ended = true
				break
			}
			if len(l) == 0 && kernels {
				// os.File has nothing to say when every entry of the page
				// disappeared (it looks entries up after reading the names).
				c.R.Count("vanished-pages")
			} else if len(l) == 0 {
				fail("empty-page", "no entries and no error for n=%d", n)
				return
			}
			if mutate != nil && c.IntN(2) == 0 {
				rm, add := mutate()
				if rm != "" {
					delete(now, rm)
					if _, ok := stable[rm]; ok {
						extra[rm] = true
						delete(stable, rm)
					}
					c.R.Count("removed-during-scan")
				}
				if add != "" {
					now[add] = 0
					if _, ok := stable[add]; !ok {
						extra[add] = true
					}
					c.R.Count("added-during-scan")
				}
				c.Logf("removed %q added %q", rm, add)
			}
		}
		if ended {
			for k := range stable {
				if seen[k] != 1 && !kernels {
					fail("missed", "%q never listed", k)
				}
			}
			if l, err := page(f, 0, 1); mutate == nil && (len(l) != 0 || err != io.EOF) {
				fail("after-end", "after the end: %d entries, %v", len(l), err)
			}
			if l, err := page(f, 0, -1); mutate == nil && (len(l) != 0 || err != nil) {
				fail("after-end-all", "ReadDir(-1) after the end: %d entries, %v", len(l), err)
			}
			key += fmt.Sprint(":", len(stable), form, pages)
		} else if stopAt < 0 {
			fail("endless", "no end after %d pages", pages)
		}
	}
	c.R.Distinct(key)
}

// dirTypes lists what a directory holds by Lstat of the names put there.
func entryNames(n int) (l []string) {
	for i := 0; i < n; i++ {
		l = append(l, fmt.Sprintf("e%02d%c", i, 'a'+i*7%26))
	}
	return
}

// fill makes n entries of mixed kinds in dir.
func fill(c *rt.Case, s fsx.FS, dir string, n int) map[string]fs.FileMode {
	m := map[string]fs.FileMode{}
	names := entryNames(n)
	c.Shuffle(len(names), func(i, j int) { names[i], names[j] = names[j], names[i] })
	for _, e := range names {
		p := path.Join(dir, e)
		switch c.IntN(4) {
		case 0:
			c.Must(s.Mkdir(p, 0o755))
			m[e] = fs.ModeDir
		case 1:
			c.Must(s.Symlink("nowhere", p))
			m[e] = fs.ModeSymlink
		default:
			c.Must(vroot.WriteFile(s, p, []byte(e), 0o644))
			m[e] = 0
		}
	}
	return m
}

func mutator(c *rt.Case, s fsx.FS, dir string, m map[string]fs.FileMode) func() (string, string) {
	var left []string
	for k := range m {
		left = append(left, k)
	}
	sort.Strings(left)
	added := 0
	return func() (rm, add string) {
		if len(left) > 0 && c.IntN(3) != 0 {
			i := c.IntN(len(left))
			rm = left[i]
			left = append(left[:i], left[i+1:]...)
			c.Must(s.RemoveAll(path.Join(dir, rm)))
			return rm, ""
		}
		added++
		add = fmt.Sprintf("new%d", added)
		c.Must(vroot.WriteFile(s, path.Join(dir, add), nil, 0o644))
		return "", add
	}
}

// overlayDir is an overlay whose entries come from several layers: hidden,
// removed, shadowed and merged ones.
func overlayDir(c *rt.Case) (o fsx.FS, dir string, m map[string]fs.FileMode) {
	dir = pick(c.Rand, ".", "d", "d/e")
	s := &ovl.Stack{Opt: &overlayfs.Option{}}
	at := time.Unix(1e9, 0)
	n := pick(c.Rand, 0, 1, 2, 5, 9, 20)
	for i := 0; i < 1+c.IntN(3); i++ {
		s.Layers = append(s.Layers, ovl.Layer{Canonical: i == 0 || c.IntN(2) == 0, M: ovl.NewMarks(), Ents: map[string]ovl.Ent{}})
		s.Back = append(s.Back, ovl.NewBackend(c, "mem"))
		s.Stores = append(s.Stores, ovl.NewStore())
		l := &s.Layers[i]
		for p := dir; p != "." && (i == 0 || c.IntN(8) > 0 || p == "d"); p = path.Dir(p) {
			for q := p; q != "."; q = path.Dir(q) {
				l.Ents[q] = ovl.Ent{K: 'd', Perm: 0o755, Mtime: at}
			}
		}
		if l.Ents[dir].K == 0 && dir != "." {
			continue
		}
		for _, e := range entryNames(n) {
			p := path.Join(dir, e)
			switch c.IntN(6) {
			case 0:
				l.Ents[p] = ovl.Ent{K: 'd', Perm: 0o755, Mtime: at}
			case 1:
				l.Ents[p] = ovl.Ent{K: 'l', Target: "nowhere"}
			case 2, 3:
				l.Ents[p] = ovl.Ent{K: 'f', Perm: 0o644, Data: []byte(p), Mtime: at}
			case 4:
				if l.Canonical {
					l.M.SetWhiteout(p)
				}
			}
		}
	}
	m = map[string]fs.FileMode{}
	for p, e := range ovl.Union(s.Layers) {
		if path.Dir(p) == dir {
			m[path.Base(p)] = map[byte]fs.FileMode{'d': fs.ModeDir, 'l': fs.ModeSymlink}[e.K]
		}
	}
	c.Logf("%s", s.Describe())
	s.Put(c)
	c.Must(s.Mount(c))
	return s.Sys().FS, dir, m
}

var v09 = &rt.Check{ID: "V09", Level: "exploration",
	Rule: "directory handles of every listing file system read in random pages of mixed forms, with entries removed and added between pages and rewinds, pages of any size up to the largest int; overlays included; non-trivial = a listing ran to its end; distinct by file system, entry count, form and page count",
	Run: func(r *rt.Run) {
		n := r.N(2000, 40000)
		sizes := func(c *rt.Case) int { return pick(c.Rand, 0, 1, 2, 3, 5, 8, 13, 30) }
		fsOpen := func(s fsx.FS, p string) func() (dirFile, error) {
			return func() (dirFile, error) {
				f, err := s.Open(p)
				if err != nil {
					return nil, err
				}
				return f, nil
			}
		}
		type cfg struct {
			name   string
			mut    bool
			rewind bool
			mk     func(c *rt.Case) (view, base fsx.FS, dir string)
		}
		for _, f := range []cfg{
			{"mem", true, true, func(c *rt.Case) (fsx.FS, fsx.FS, string) { m := mem(); return m, m, "." }},
			{"mem-sub", true, true, func(c *rt.Case) (fsx.FS, fsx.FS, string) {
				m := mem()
				c.Must(m.MkdirAll("p/q", 0o755))
				s, err := m.OpenRoot("p")
				c.Must(err)
				return s, s, "q"
			}},
			{"osroot", true, true, func(c *rt.Case) (fsx.FS, fsx.FS, string) {
				s := fsx.WrapRoot[*osfs.File, *osfs.Root](osRoot(c, subdir(c, "g"))).FS
				return s, s, "."
			}},
			{"osfs", true, true, func(c *rt.Case) (fsx.FS, fsx.FS, string) {
				s := vroot.Widen[*osfs.File](osFs(c, subdir(c, "g")))
				return s, s, "."
			}},
			{"prefix", true, true, func(c *rt.Case) (fsx.FS, fsx.FS, string) {
				m := mem()
				c.Must(m.MkdirAll("p/q", 0o755))
				s, err := vroot.NewPathPrefixFs[vroot.File](m, "p")
				c.Must(err)
				return s, s, "q"
			}},
			{"readonly", true, true, func(c *rt.Case) (fsx.FS, fsx.FS, string) {
				m := mem()
				return fsx.Wrap[*vroot.ReadOnlyFile](vroot.NewReadOnlyFs[vroot.File](m)).FS, m, "."
			}},
			{"from-dirfs", true, true, func(c *rt.Case) (fsx.FS, fsx.FS, string) {
				d := subdir(c, "g")
				return vroot.FromIoFs(os.DirFS(d).(fs.ReadLinkFS), "d"), osDirSys(d).FS, "."
			}},
			{"from-to-iofs", true, true, func(c *rt.Case) (fsx.FS, fsx.FS, string) {
				m := mem()
				return vroot.FromIoFs(vroot.ToIoFs[vroot.File](m).(fs.ReadLinkFS), "d"), m, "."
			}},
		} {
			r.CasesPar(f.name, n, 8, func(c *rt.Case) {
				view, base, dir := f.mk(c)
				m := fill(c, base, dir, sizes(c))
				var mu func() (string, string)
				if f.mut && c.IntN(3) != 0 {
					mu = mutator(c, base, dir, m)
				}
				pagedCheck(c, f.name, fsOpen(view, dir), m, mu, f.rewind)
				view.Close()
				r.Sample("%s %v", f.name, c.Log())
			})
		}
		r.CasesPar("overlay", n, 8, func(c *rt.Case) {
			o, dir, m := overlayDir(c)
			defer o.Close()
			var mu func() (string, string)
			if c.IntN(3) != 0 {
				mu = mutator(c, o, dir, m)
			}
			pagedCheck(c, "overlay", fsOpen(o, dir), m, mu, true)
		})
		r.CasesPar("from-mapfs", n, 8, func(c *rt.Case) {
			m := fstest.MapFS{}
			want := map[string]fs.FileMode{}
			for _, e := range entryNames(sizes(c)) {
				if c.IntN(3) == 0 {
					m["d/"+e+"/x"] = &fstest.MapFile{}
					want[e] = fs.ModeDir
				} else {
					m["d/"+e] = &fstest.MapFile{}
					want[e] = 0
				}
			}
			m["d"] = &fstest.MapFile{Mode: fs.ModeDir | 0o755}
			pagedCheck(c, "from-mapfs", fsOpen(vroot.FromIoFs(m, "m"), "d"), want, nil, false)
		})
		r.CasesPar("to-iofs", n, 8, func(c *rt.Case) {
			m := mem()
			want := fill(c, m, ".", sizes(c))
			var io fs.FS = vroot.ToIoFs[vroot.File](m)
			if c.IntN(2) == 0 {
				io = vroot.ToIoFsRoot[vroot.File](m)
			}
			var mu func() (string, string)
			if c.IntN(3) != 0 {
				mu = mutator(c, m, ".", want)
			}
			pagedCheck(c, "to-iofs", func() (dirFile, error) {
				f, err := io.Open(".")
				if err != nil {
					return nil, err
				}
				return f.(fs.ReadDirFile), nil
			}, want, mu, true)
		})
		r.CasesPar("tar", n, 8, func(c *rt.Case) {
			var buf bytes.Buffer
			w := tar.NewWriter(&buf)
			want := map[string]fs.FileMode{}
			dir := pick(c.Rand, ".", "d", "d/e")
			names := entryNames(sizes(c))
			c.Shuffle(len(names), func(i, j int) { names[i], names[j] = names[j], names[i] })
			if dir != "." {
				c.Must(w.WriteHeader(&tar.Header{Name: dir + "/", Typeflag: tar.TypeDir, Mode: 0o755}))
			}
			for _, e := range names {
				h := &tar.Header{Name: path.Join(dir, e), Mode: 0o644, Typeflag: tar.TypeReg}
				switch c.IntN(4) {
				case 0:
					h.Typeflag, h.Mode = tar.TypeDir, 0o755
					want[e] = fs.ModeDir
				case 1:
					h.Typeflag, h.Linkname = tar.TypeSymlink, "nowhere"
					want[e] = fs.ModeSymlink
				case 2: // implicit directory
					h.Name += "/x"
					want[e] = fs.ModeDir
				default:
					want[e] = 0
				}
				c.Must(w.WriteHeader(h))
			}
			c.Must(w.Close())
			t, err := tarfs.New(bytes.NewReader(buf.Bytes()), &tarfs.FsOption{HandleSymlink: true})
			if err != nil {
				c.Fail("V09:tar:new", "tarfs.New: %v", err)
				return
			}
			pagedCheck(c, "tar", func() (dirFile, error) {
				f, err := t.Open(dir)
				if err != nil {
					return nil, err
				}
				return f.(fs.ReadDirFile), nil
			}, want, nil, true)
		})
		r.Floor("pages", 5000)
		r.Floor("huge-pages", 500)
		r.Floor("removed-during-scan", 500)
	}}
