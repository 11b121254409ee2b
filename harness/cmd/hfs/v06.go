package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"os"
	"path"
	"sort"
	"strings"
	"testing/fstest"

	"github.com/ngicks/go-fsys-helper/vroot"
	"github.com/ngicks/go-fsys-helper/vroot/osfs"
	"verif/harness/fsx"
	"verif/harness/rt"
)

func infoStr(i fs.FileInfo, err error) string {
	if err != nil {
		return fsx.Class(err)
	}
	s := fmt.Sprintf("%s %v", i.Name(), i.Mode())
	if i.Mode().IsRegular() {
		s += fmt.Sprintf(" %d %d", i.Size(), i.ModTime().UnixNano())
	}
	return s
}

// ioCompare walks an io/fs view and compares every way of looking at an entry
// with what the file system beneath says. base maps the view's root.
func ioCompare(c *rt.Case, part string, v fs.FS, base fsx.FS, dir string, depth int) {
	fail := func(sig, f string, a ...any) { c.Fail("V06:"+part+":"+sig, f, a...) }
	if depth > 6 {
		return
	}
	es, err := fs.ReadDir(v, dir)
	var wantNames []string
	bf, berr := base.Open(dir)
	if berr == nil {
		l, e := bf.ReadDir(-1)
		berr = e
		bf.Close()
		for _, x := range l {
			wantNames = append(wantNames, x.Name())
		}
		sort.Strings(wantNames)
	}
	c.R.Eval(1)
	if fsx.Class(err) != fsx.Class(berr) {
		fail("readdir-error", "ReadDir(%q): %v, beneath %v", dir, err, berr)
		return
	}
	var got []string
	for _, e := range es {
		got = append(got, e.Name())
	}
	if fmt.Sprint(got) != fmt.Sprint(wantNames) {
		fail("readdir", "ReadDir(%q) = %q, beneath %q", dir, got, wantNames)
		return
	}
	// the handle's own listing, any order
	if f, err := v.Open(dir); err != nil {
		fail("open-dir", "Open(%q): %v", dir, err)
	} else {
		rd, ok := f.(fs.ReadDirFile)
		if !ok {
			fail("not-readdirfile", "Open(%q) is no ReadDirFile", dir)
		} else {
			l, err := rd.ReadDir(-1)
			var n []string
			for _, e := range l {
				n = append(n, e.Name())
			}
			sort.Strings(n)
			if err != nil || fmt.Sprint(n) != fmt.Sprint(wantNames) {
				fail("handle-readdir", "handle of %q lists %q, %v; want %q", dir, n, err, wantNames)
			}
		}
		if _, err := f.Read(make([]byte, 1)); err == nil || err == io.EOF {
			fail("read-dir", "reading directory %q: %v", dir, err)
		}
		if err := f.Close(); err != nil {
			fail("close", "Close of %q: %v", dir, err)
		}
	}
	for _, e := range es {
		p := path.Join(dir, e.Name())
		c.R.Eval(1)
		c.R.Count("entries")
		li, lerr := base.Lstat(p)
		if lerr != nil {
			fail("base", "beneath: lstat %q: %v", p, lerr)
			continue
		}
		if e.Type() != li.Mode().Type() || e.IsDir() != li.IsDir() {
			fail("type", "%q: type %v, beneath %v", p, e.Type(), li.Mode())
		}
		want := infoStr(li, nil)
		if g := infoStr(e.Info()); g != want {
			fail("entry-info", "%q: entry info %s, beneath %s", p, g, want)
		}
		if g := infoStr(fs.Lstat(v, p)); g != want {
			fail("lstat", "Lstat(%q) = %s, beneath %s", p, g, want)
		}
		if g, w := infoStr(fs.Stat(v, p)), infoStr(base.Stat(p)); g != w {
			fail("stat", "Stat(%q) = %s, beneath %s", p, g, w)
		}
		gt, gerr := fs.ReadLink(v, p)
		wt, werr := base.ReadLink(p)
		if gt != wt || fsx.Class(gerr) != fsx.Class(werr) {
			fail("readlink", "ReadLink(%q) = %q, %v; beneath %q, %v", p, gt, gerr, wt, werr)
		}
		b, gerr := fs.ReadFile(v, p)
		wb, _, werr := fsx.ReadFile(base, p)
		if fsx.Class(gerr) != fsx.Class(werr) || !bytes.Equal(b, wb) && werr == nil {
			fail("readfile", "ReadFile(%q) = %d bytes, %v; beneath %d bytes, %v", p, len(b), gerr, len(wb), werr)
		}
		f, gerr := v.Open(p)
		wf, werr := base.Open(p)
		if fsx.Class(gerr) != fsx.Class(werr) {
			fail("open", "Open(%q): %v, beneath %v", p, gerr, werr)
		}
		if gerr == nil && werr == nil {
			if g, w := infoStr(f.Stat()), infoStr(wf.Stat()); g != w {
				fail("handle-stat", "handle of %q: %s, beneath %s", p, g, w)
			}
			if i, err := f.Stat(); err == nil && i.Mode().IsRegular() {
				readHistory(c, "V06:"+part, p, f, wb)
			}
			if h, err := base.Open(p); err == nil { // one handle narrowed by itself
				n := vroot.NarrowFile(h)
				if g, w := infoStr(n.Stat()), infoStr(wf.Stat()); g != w {
					fail("narrow-stat", "narrowed handle of %q: %s, beneath %s", p, g, w)
				}
				if i, err := n.Stat(); err == nil && i.Mode().IsRegular() {
					readHistory(c, "V06:"+part+":narrow", p, n, wb)
				} else if err == nil && i.IsDir() {
					if d, ok := n.(fs.ReadDirFile); !ok {
						fail("narrow-dir", "a narrowed directory %q has no ReadDir", p)
					} else {
						ge, gerr := d.ReadDir(-1)
						we, werr := wf.ReadDir(-1)
						if len(ge) != len(we) || gerr != nil || werr != nil {
							fail("narrow-dir", "a narrowed directory %q lists %d, %v; beneath %d, %v", p, len(ge), gerr, len(we), werr)
						}
					}
				}
				if err := n.Close(); err != nil {
					fail("narrow-close", "%q: %v", p, err)
				}
				if _, err := h.Stat(); err == nil && fsx.Class(err) == "ok" {
					if _, err := h.Read(make([]byte, 1)); !errors.Is(err, fs.ErrClosed) {
						fail("narrow-close", "%q: open after closing its narrowed form: %v", p, err)
					}
				}
				c.R.Count("narrowed")
			}
		}
		if gerr == nil {
			f.Close()
		}
		if werr == nil {
			wf.Close()
		}
		if e.IsDir() {
			if c.IntN(3) == 0 {
				sub, err := fs.Sub(v, p)
				if err != nil {
					fail("sub", "Sub(%q): %v", p, err)
					continue
				}
				c.R.Count("subs")
				// a sub view shows the same entries
				subNames := func(s fs.FS, d string) string {
					l, err := fs.ReadDir(s, d)
					var n []string
					for _, e := range l {
						n = append(n, e.Name()+e.Type().String())
						if e.Type().IsRegular() {
							b, err := fs.ReadFile(s, path.Join(d, e.Name()))
							n = append(n, fmt.Sprint(fsx.Sum(b), err == nil))
						}
					}
					return fmt.Sprint(n, err == nil)
				}
				if g, w := subNames(sub, "."), subNames(v, p); g != w {
					fail("sub", "Sub(%q) shows %s, the view %s", p, g, w)
				}
				for _, up := range []string{"..", "../x", "/"} {
					if _, err := sub.Open(up); !errors.Is(err, fs.ErrInvalid) {
						fail("sub-invalid", "Sub(%q).Open(%q): %v", p, up, err)
					}
				}
			}
			ioCompare(c, part, v, base, p, depth+1)
		}
	}
}

// readHistory reads a handle at random and compares with the content.
func readHistory(c *rt.Case, pre, p string, f fs.File, content []byte) {
	ref := bytes.NewReader(content)
	sk, seeks := f.(io.Seeker)
	ra, rats := f.(io.ReaderAt)
	if seeks != rats {
		c.Fail(pre+":surface", "%q: Seeker %v, ReaderAt %v", p, seeks, rats)
	}
	lax := strings.HasPrefix(pre, "V08") // fstest.MapFS refuses offsets past the end
	for i := 0; i < 6; i++ {
		c.R.Eval(1)
		n := c.IntN(len(content) + 4)
		switch k := c.IntN(3); {
		case k == 1 && seeks:
			off, wh := int64(c.IntN(len(content)+3))-1, c.IntN(3)
			g, ge := sk.Seek(off, wh)
			if pos, _ := ref.Seek(0, io.SeekCurrent); lax && ge != nil && (wh == 0 && off > int64(len(content)) || wh == 1 && pos+off > int64(len(content)) || wh == 2 && off > 0) {
				continue
			}
			w, we := ref.Seek(off, wh)
			if (ge == nil) != (we == nil) || ge == nil && g != w {
				c.Fail(pre+":seek", "%q: Seek(%d, %d) = %d, %v; want %d, %v", p, off, wh, g, ge, w, we)
				return
			}
		case k == 2 && rats:
			off := int64(c.IntN(len(content) + 2))
			b, wb := make([]byte, n), make([]byte, n)
			g, ge := ra.ReadAt(b, off)
			w, _ := ref.ReadAt(wb, off)
			if lax && off > int64(len(content)) && g == 0 && ge != nil {
				continue
			}
			if g != w || !bytes.Equal(b[:g], wb[:w]) || g < n && ge != io.EOF {
				c.Fail(pre+":readat", "%q: ReadAt(%d, %d) = %d, %v; want %d", p, n, off, g, ge, w)
				return
			}
		default:
			b, wb := make([]byte, n), make([]byte, n)
			g, ge := io.ReadFull(f, b)
			w, we := io.ReadFull(ref, wb)
			if g != w || !bytes.Equal(b[:g], wb[:w]) || ge != we {
				c.Fail(pre+":read", "%q: reading %d gives %d, %v; want %d, %v", p, n, g, ge, w, we)
				return
			}
		}
	}
}

var badPaths = []string{"", "/", "/a", "a/", "a//b", "./a", "a/.", "a/./b", "..", "../a", "a/..", "a/../b", "a\x00b", "\xff", "a/\xffb", "//", "a/b/", "."[:0] + "./", "..//a"}

func ioInvalid(c *rt.Case, part string, v fs.FS) {
	p := badPaths[c.IntN(len(badPaths))]
	for what, fn := range map[string]func() error{
		"Open":     func() error { _, e := v.Open(p); return e },
		"ReadDir":  func() error { _, e := fs.ReadDir(v, p); return e },
		"ReadFile": func() error { _, e := fs.ReadFile(v, p); return e },
		"Stat":     func() error { _, e := fs.Stat(v, p); return e },
		"Lstat":    func() error { _, e := fs.Lstat(v, p); return e },
		"ReadLink": func() error { _, e := fs.ReadLink(v, p); return e },
		"Sub":      func() error { _, e := fs.Sub(v, p); return e },
	} {
		c.R.Eval(1)
		c.R.Count("invalid")
		err := fn()
		var pe *fs.PathError
		if !errors.Is(err, fs.ErrInvalid) || !errors.As(err, &pe) {
			c.Fail("V06:"+part+":invalid:"+what, "%s(%q): %v, want a PathError with ErrInvalid", what, p, err)
		}
	}
}

// expected are the paths reachable without links, for fstest.
func expected(t fsx.Tree) (l []string) {
	for p := range t {
		if !strings.HasPrefix(p, "!") && p != "." {
			l = append(l, p)
		}
	}
	sort.Strings(l)
	return
}

var v06 = &rt.Check{ID: "V06", Level: "exploration",
	Rule: "random trees with odd names and links seen through the io/fs adaptors and compared entry by entry with the file system beneath, handles read at random, also narrowed one by one, invalid paths through every method, testing/fstest with os.DirFS as control, io/fs file systems seen through the reverse adaptor, and one call beneath failing: what does not fail shows what was there; non-trivial = at least three entries; distinct by tree",
	Run: func(r *rt.Run) {
		names := []string{"a", "b", "c d", "é", "x\\y", "..e", "-z", "a:b"}
		build := func(c *rt.Case, s fsx.Sys) []fsx.Op {
			ops := treeOps(c, names, 3, 6+c.IntN(14), false)
			apply(s, ops)
			return ops
		}
		for _, f := range []struct {
			name string
			mk   func(c *rt.Case) (base fsx.FS, v fs.FS, ops []fsx.Op)
		}{
			{"mem", func(c *rt.Case) (fsx.FS, fs.FS, []fsx.Op) {
				m := mem()
				ops := build(c, fsx.Sys{FS: m})
				return m, vroot.ToIoFs[vroot.File](m), ops
			}},
			{"mem-root", func(c *rt.Case) (fsx.FS, fs.FS, []fsx.Op) {
				m := mem()
				ops := build(c, fsx.Sys{FS: m})
				return m, vroot.ToIoFsRoot[vroot.File](m), ops
			}},
			{"osfs", func(c *rt.Case) (fsx.FS, fs.FS, []fsx.Op) {
				o := osFs(c, subdir(c, "g"))
				ops := build(c, fsx.Wrap[*osfs.File](o))
				return fsx.Wrap[*osfs.File](o).FS, vroot.ToIoFs[*osfs.File](o), ops
			}},
			{"osroot", func(c *rt.Case) (fsx.FS, fs.FS, []fsx.Op) {
				o := osRoot(c, subdir(c, "g"))
				ops := build(c, fsx.Wrap[*osfs.File](o))
				return fsx.Wrap[*osfs.File](o).FS, vroot.ToIoFsRoot[*osfs.File](o), ops
			}},
			{"round-trip", func(c *rt.Case) (fsx.FS, fs.FS, []fsx.Op) {
				m := mem()
				ops := build(c, fsx.Sys{FS: m})
				return m, vroot.ToIoFs[vroot.File](vroot.FromIoFs(vroot.ToIoFs[vroot.File](m).(fs.ReadLinkFS), "r")), ops
			}},
		} {
			r.CasesPar(f.name, r.N(500, 15000), 8, func(c *rt.Case) {
				base, v, ops := f.mk(c)
				defer base.Close()
				for _, o := range ops {
					c.Logf("%v", o)
				}
				ioCompare(c, f.name, v, base, ".", 0)
				for i := 0; i < 3; i++ {
					ioInvalid(c, f.name, v)
				}
				if _, err := fs.Stat(v, "never"); !errors.Is(err, fs.ErrNotExist) {
					c.Fail("V06:"+f.name+":missing", "Stat of a missing name: %v", err)
				}
				t := fsx.Dump(fsx.Sys{FS: base}, fsx.DumpOpt{})
				if len(t) > 3 {
					c.R.Distinct(t.String())
				}
				escapes := false
				for _, d := range t { // fstest takes every Sub as well
					escapes = escapes || strings.HasPrefix(d, "link") && strings.Contains(d, "..")
				}
				if c.IntN(2) == 0 && !escapes {
					dir := subdir(c, "control")
					apply(osDirSys(dir), ops)
					want := expected(fsx.Dump(osDirSys(dir), fsx.DumpOpt{}))
					if fmt.Sprint(want) == fmt.Sprint(expected(t)) {
						if fstest.TestFS(os.DirFS(dir), want...) == nil {
							c.R.Count("fstest")
							if err := fstest.TestFS(v, want...); err != nil {
								c.Fail("V06:"+f.name+":fstest", "%v", err)
							}
						}
					}
				}
				r.Sample("%s %v", f.name, c.Log())
			})
		}
		// the reverse adaptor
		r.CasesPar("from-dirfs", r.N(500, 15000), 8, func(c *rt.Case) {
			dir := subdir(c, "g")
			s := osDirSys(dir)
			build(c, s)
			v := vroot.FromIoFs(os.DirFS(dir).(fs.ReadLinkFS), "x")
			reverse(c, "from-dirfs", fsx.Sys{FS: v}, fsx.Dump(s, fsx.DumpOpt{Mtime: true}), s)
		})
		r.CasesPar("from-mapfs", r.N(500, 15000), 8, func(c *rt.Case) {
			m := fstest.MapFS{}
			want := fsx.Tree{}
			for i := 0; i < c.IntN(10); i++ {
				var q []string
				for j := 0; j <= c.IntN(3); j++ {
					q = append(q, pick(c.Rand, "a", "b", "c d", "é"))
				}
				p := path.Join(q...)
				clash := false
				for k := range m {
					clash = clash || k == p || strings.HasPrefix(k, p+"/") || strings.HasPrefix(p, k+"/")
				}
				if clash {
					continue
				}
				b := make([]byte, c.IntN(30))
				for i := range b {
					b[i] = byte(c.IntN(256))
				}
				m[p] = &fstest.MapFile{Data: b, Mode: 0o640}
				want[p] = fmt.Sprintf("file 640 size=%d %08x", len(b), fsx.Sum(b))
				for d := path.Dir(p); d != "."; d = path.Dir(d) {
					want[d] = "dir 555"
				}
			}
			v := fsx.Sys{FS: vroot.FromIoFs(m, "m")}
			if d := fsx.Diff(fsx.Dump(v, fsx.DumpOpt{}), want); d != "" {
				c.Fail("V06:from-mapfs:tree", "%s", d)
			}
			reverse(c, "from-mapfs", v, nil, fsx.Sys{})
			if len(want) > 3 {
				c.R.Distinct(want.String())
			}
		})
		r.CasesPar("from-mem", r.N(500, 15000), 8, func(c *rt.Case) {
			m := mem()
			s := fsx.Sys{FS: m}
			build(c, s)
			v := vroot.FromIoFs(vroot.ToIoFsRoot[vroot.File](m).(fs.ReadLinkFS), "x")
			reverse(c, "from-mem", fsx.Sys{FS: v}, fsx.Dump(s, fsx.DumpOpt{Mtime: true}), s)
		})
		r.CasesPar("faults", r.N(2500, 60000), 8, ioFaults)
		r.Floor("faults", 2000)
		r.Floor("entries", 5000)
		r.Floor("fstest", 60)
		r.Floor("refused", 2000)
	}}

// reverse checks an adapted io/fs file system: same tree, nothing changes.
func reverse(c *rt.Case, part string, v fsx.Sys, want fsx.Tree, base fsx.Sys) {
	if want != nil {
		if d := fsx.Diff(fsx.Dump(v, fsx.DumpOpt{Mtime: true}), want); d != "" {
			c.Fail("V06:"+part+":tree", "%s", d)
		}
		if len(want) > 3 {
			c.R.Distinct(want.String())
		}
	}
	before := fsx.Dump(v, fsx.DumpOpt{Mtime: true})
	w := fsx.NewWorld(v)
	g := &fsx.Gen{Rand: c.Rand, Names: []string{"a", "b", "c d", "é", "n"}, Depth: 2, Kinds: allOps, Handles: 2, Targets: linkTargets}
	for i := 0; i < 20; i++ {
		o := g.Next()
		if !mutating(o) {
			if o.K == "open" {
				w.Exec(o)
			}
			continue
		}
		if strings.Contains("write writestring writeat truncate fchmod", o.K) && w.Files[o.H] == nil {
			continue
		}
		out := w.Exec(o)
		c.R.Eval(1)
		c.R.Count("refused")
		if out.Err == "ok" {
			c.Fail("V06:"+part+":accepted:"+o.K, "%v succeeded on an io/fs file system", o)
		}
	}
	for _, p := range []string{"../a", "/a", "a/../../b"} {
		for what, fn := range map[string]func() error{
			"Open":     func() error { _, e := v.Open(p); return e },
			"Stat":     func() error { _, e := v.Stat(p); return e },
			"Lstat":    func() error { _, e := v.Lstat(p); return e },
			"ReadLink": func() error { _, e := v.ReadLink(p); return e },
			"OpenFile": func() error { _, e := v.OpenFile(p, os.O_RDONLY, 0); return e },
		} {
			if err := fn(); !errors.Is(err, vroot.ErrPathEscapes) {
				c.Fail("V06:"+part+":escape:"+what, "%s(%q): %v", what, p, err)
			}
		}
	}
	w.CloseAll()
	if d := fsx.Diff(fsx.Dump(v, fsx.DumpOpt{Mtime: true}), before); d != "" {
		c.Fail("V06:"+part+":changed", "%s", d)
	}
}

// ioFaults lets one call beneath an adaptor fail: an operation which does not
// fail in turn tells what it tells otherwise, and no handle stays open.
func ioFaults(c *rt.Case) {
	m := mem()
	ops := treeOps(c, []string{"a", "b", "c d", "é"}, 3, 6+c.IntN(10), false)
	apply(fsx.Sys{FS: m}, ops)
	mon := fsx.NewMon(m)
	part := pick(c.Rand, "to", "from-to")
	var ff fs.FS
	var rr vroot.Fs[vroot.File]
	ff = vroot.ToIoFs[vroot.File](mon)
	if part == "from-to" {
		rr = vroot.Widen(vroot.FromIoFs(ff.(fs.ReadLinkFS), "x"))
	}
	ks := append(fsx.Dump(fsx.Sys{FS: m}, fsx.DumpOpt{}).Keys(), ".", "gone")
	open := func(p string) (fs.File, error) {
		if rr != nil {
			return rr.Open(p)
		}
		return ff.Open(p)
	}
	names := func(l []fs.DirEntry) string {
		var n []string
		for _, e := range l {
			n = append(n, e.Name()+":"+e.Type().String())
		}
		sort.Strings(n)
		return strings.Join(n, ",")
	}
	info := func(i fs.FileInfo, err error) (string, error) {
		if err != nil {
			return "", err
		}
		if i == nil {
			return "nil", nil
		}
		return fmt.Sprintf("%s %v %d", i.Name(), i.Mode(), i.Size()), nil
	}
	type op struct {
		name string
		run  func(p string) (string, error)
	}
	all := []op{
		{"Stat", func(p string) (string, error) {
			if rr != nil {
				return info(rr.Stat(p))
			}
			return info(fs.Stat(ff, p))
		}},
		{"Lstat", func(p string) (string, error) {
			if rr != nil {
				return info(rr.Lstat(p))
			}
			return info(fs.Lstat(ff, p))
		}},
		{"ReadLink", func(p string) (string, error) {
			if rr != nil {
				return rr.ReadLink(p)
			}
			return fs.ReadLink(ff, p)
		}},
		{"ReadFile", func(p string) (string, error) {
			if rr != nil {
				b, err := vroot.ReadFile(rr, p)
				return string(b), err
			}
			b, err := fs.ReadFile(ff, p)
			return string(b), err
		}},
		{"ReadDir", func(p string) (string, error) {
			if rr != nil {
				l, err := vroot.ReadDir(rr, p)
				return names(l), err
			}
			l, err := fs.ReadDir(ff, p)
			return names(l), err
		}},
		{"pages", func(p string) (string, error) {
			f, err := open(p)
			if err != nil {
				return "", err
			}
			defer f.Close()
			d, ok := f.(fs.ReadDirFile)
			if !ok {
				return "", fs.ErrInvalid
			}
			var all []fs.DirEntry
			for range 100 {
				l, err := d.ReadDir(2)
				all = append(all, l...)
				if err == io.EOF {
					return names(all), nil
				}
				if err != nil {
					return "", err
				}
			}
			return "", errors.New("endless")
		}},
		{"Sub", func(p string) (string, error) {
			if rr != nil {
				return "", fs.ErrInvalid
			}
			s, err := fs.Sub(ff, p)
			if err != nil {
				return "", err
			}
			l, err := fs.ReadDir(s, ".")
			return names(l), err
		}},
	}
	for range 6 {
		o, p := all[c.IntN(len(all))], ks[c.IntN(len(ks))]
		mon.Before = nil
		want, werr := o.run(p)
		at, n, hit := 1+c.IntN(6), 0, ""
		ferr := fsx.Faulty(c.IntN(100))
		mon.Before = func(s fsx.Step) error {
			if s.Op == "close" || s.Op == "fsclose" {
				return nil
			}
			if n++; n == at {
				hit = s.String()
				return ferr
			}
			return nil
		}
		got, err := o.run(p)
		mon.Before = nil
		c.R.Eval(1)
		c.Logf("%s(%q) with %q failing: %q, %v; otherwise %q, %v", o.name, p, hit, got, err, want, werr)
		if hit != "" {
			c.R.Count("faults")
			c.R.Distinct(part + o.name + hit)
		}
		switch {
		case err == nil && (werr != nil || got != want):
			c.Fail("V06:faults:"+part+":"+o.name, "%s(%q) with %s failing (%v) = %q; otherwise %q, %v", o.name, p, hit, ferr, got, want, werr)
		case err != nil && hit == "" && werr == nil:
			c.Fail("V06:faults:"+part+":"+o.name+":error", "%s(%q): %v, nothing failed", o.name, p, err)
		}
		if l := mon.OpenHandles(); len(l) > 0 {
			c.Fail("V06:faults:"+part+":"+o.name+":handle", "%s(%q) with %s failing leaves %q open", o.name, p, hit, l)
			return
		}
	}
}
