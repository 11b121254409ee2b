package main

import (
	"archive/tar"
	"bytes"
	"fmt"
	"io"
	"io/fs"
	"os"
	"os/exec"
	"path"
	"path/filepath"
	"strings"
	"testing/fstest"

	"github.com/ngicks/go-fsys-helper/tarfs"
	"verif/harness/fsx"
	"verif/harness/rt"
)

// tarLinks compares how names resolve with the kernel: v is the view of sub
// of the tree built in dir.
func tarLinks(c *rt.Case, pre string, v *tarfs.Fs, m *tmodel, dir, sub string, rooted bool) {
	real, err := filepath.EvalSymlinks(dir)
	c.Must(err)
	base := real
	if rooted {
		base = filepath.Join(real, sub)
	}
	d, err := os.Open(base)
	c.Must(err)
	defer d.Close()
	var names []string
	for p, n := range m.n {
		if n.typ == tar.TypeSymlink {
			if q, ok := strings.CutPrefix(p, sub+"/"); ok || sub == "." {
				if sub == "." {
					q = p
				}
				names = append(names, q)
				for range 2 {
					names = append(names, q+"/"+tarPath(c, false))
				}
			}
		}
	}
	for range 12 {
		names = append(names, tarPath(c, false))
	}
	for _, p := range names {
		if !fs.ValidPath(p) {
			continue
		}
		c.R.Eval(1)
		name := p
		if !rooted && sub != "." {
			name = sub + "/" + p
		}
		rel, e := beneath(c, d, real, name)
		var got string
		f, err := v.Open(p)
		got = tarErrClass(err)
		want := errnoClass(e)
		fail := func(f string, a ...any) {
			c.Fail(pre+":resolve:"+want+"->"+got, "%q below %q (rooted %v): %s", p, sub, rooted, fmt.Sprintf(f, a...))
		}
		if want == "escape" && !rooted {
			want = "notexist" // nothing is above
			if got == "escape" {
				got = "notexist"
			}
		}
		if e != 0 {
			if err == nil {
				f.Close()
				fail("opened, the kernel says %v", e)
				continue
			}
			if got != want {
				// an empty target is "nowhere" in the tree
				fail("%v, the kernel says %v", err, e)
			}
			c.R.Count("refused: " + want)
			continue
		}
		n := m.n[rel]
		if n == nil {
			c.R.HarnessErr("kernel resolved %q to unknown %q", name, rel)
			return
		}
		if n.bad || n.typ == tar.TypeLink {
			if err == nil {
				f.Close()
				fail("opened a hard link leading nowhere")
			}
			continue
		}
		if err != nil {
			fail("%v, the kernel finds %q", err, rel)
			continue
		}
		i, err := f.Stat()
		if err != nil || i.IsDir() != (n.typ == tar.TypeDir) {
			fail("Stat: %v, %v; the kernel finds %q", i, err, rel)
		} else if n.typ == tar.TypeDir {
			es, _ := f.(fs.ReadDirFile).ReadDir(-1)
			for _, e := range es {
				if !n.kids[e.Name()] {
					fail("lists %q, not in %q", e.Name(), rel)
				}
			}
			if len(es) != len(n.kids) {
				fail("lists %d entries, %q has %d", len(es), rel, len(n.kids))
			}
			c.R.Count("resolved to directories")
		} else {
			b, err := io.ReadAll(io.LimitReader(f, int64(len(n.data))+1))
			if n.dataErr == nil && (err != nil || !bytes.Equal(b, n.data)) {
				fail("%d bytes, %v; %q has %d", len(b), err, rel, len(n.data))
			}
			c.R.Count("resolved to files")
		}
		f.Close()
		// the other ways in
		if si, err := fs.Stat(v, p); err != nil || si.IsDir() != (n.typ == tar.TypeDir) {
			fail("fs.Stat: %v, %v", si, err)
		}
	}
}

func tarOpt(c *rt.Case) *tarfs.FsOption {
	return &tarfs.FsOption{AllowDev: c.IntN(2) == 0, HandleSymlink: c.IntN(4) > 0, IsRooted: c.IntN(2) == 0}
}

func tarCase(c *rt.Case, b []byte) {
	opt := tarOpt(c)
	v, err := tarfs.New(bytes.NewReader(b), opt)
	if err != nil {
		c.Fail("T01:new", "%v", err)
		return
	}
	m := readTar(b, opt, 1<<24)
	c.Must(m.err)
	c.R.Distinct(fmt.Sprintf("%08x", fsx.Sum(b)))
	tarJudge(c, "T01", v, m, opt, true)
}

// tarJudge compares a view with its model, names through links included.
func tarJudge(c *rt.Case, id string, v *tarfs.Fs, m *tmodel, opt *tarfs.FsOption, strict bool) {
	dir, err := os.MkdirTemp(subdir(c, "g"), "")
	c.Must(err)
	defer os.RemoveAll(dir)
	// hard links are resolved in the tree of all else
	if err := m.build(dir); err != nil {
		c.R.Count("not expressible on disk")
		for _, n := range m.n {
			n.skip = n.typ == tar.TypeLink
		}
		dir = ""
	} else {
		d, err := os.Open(dir)
		c.Must(err)
		real, err := filepath.EvalSymlinks(dir)
		c.Must(err)
		m.link(func(p string) (string, bool) {
			if p == "." || !filepath.IsLocal(p) {
				return p, p == "."
			}
			par, e := beneath(c, d, real, path.Dir(p))
			if e != 0 {
				return "", false
			}
			return path.Join(par, path.Base(p)), true
		})
		d.Close()
		// hard links to symbolic links are such links
		for p, n := range m.n {
			if n.typ == tar.TypeSymlink && n.h.Typeflag == tar.TypeLink {
				q := filepath.Join(dir, p)
				c.Must(os.Remove(q))
				l := n.link
				if l == "" {
					l = "nowhere/at/all"
				}
				c.Must(os.Symlink(l, q))
			}
		}
	}
	tarCompare(c, id, v, m, strict)
	if dir == "" || c.Failed() {
		return
	}
	tarLinks(c, id, v, m, dir, ".", opt.IsRooted)
	for p, n := range m.n {
		if n.typ != tar.TypeDir || p == "." {
			continue
		}
		if !fs.ValidPath(p) {
			continue
		}
		s, err := v.Sub(p)
		if err != nil {
			c.Fail(id+":sub", "Sub(%q): %v", p, err)
			continue
		}
		tarLinks(c, id+":sub", s.(*tarfs.Fs), m, dir, p, opt.IsRooted)
		c.R.Count("sub views")
	}
}

// gnuTar archives a real tree with tar(1).
func gnuTar(c *rt.Case) {
	src := c.Dir()
	apply(osDirSys(src), treeOps(c, []string{"a", "b", "c", "é", strings.Repeat("n", 90)}, 4, 14, false))
	var files []string
	filepath.WalkDir(src, func(p string, d fs.DirEntry, err error) error {
		if d.Type().IsRegular() {
			files = append(files, p)
		}
		return nil
	})
	for i, p := range files {
		if c.IntN(3) == 0 {
			f, err := os.OpenFile(p, os.O_RDWR, 0)
			c.Must(err)
			for range c.IntN(4) {
				_, err = f.WriteAt(bytes.Repeat([]byte{byte(1 + i)}, 1+c.IntN(9000)), c.Int64N(400000))
				c.Must(err)
			}
			if c.IntN(2) == 0 {
				c.Must(f.Truncate(c.Int64N(500000)))
			}
			f.Close()
		}
		if c.IntN(4) == 0 {
			_ = os.Link(p, filepath.Join(src, fmt.Sprint("hard", i)))
		}
	}
	args := [][]string{{"--format=gnu"}, {"--format=gnu", "-S"}, {"--format=posix"}, {"--format=posix", "-S"},
		{"--format=posix", "-S", "--sparse-version=0.0"}, {"--format=posix", "-S", "--sparse-version=0.1"},
		{"--format=posix", "-S", "--sparse-version=1.0"}, {"--format=oldgnu", "-S"}, {"--format=ustar"}}[c.IntN(9)]
	if c.IntN(2) == 0 {
		args = append(args, "--hole-detection=raw")
	}
	out := filepath.Join(c.Dir(), "x.tar")
	cmd := exec.Command("tar", append(args, "-cf", out, "-C", src, ".")...)
	if o, err := cmd.CombinedOutput(); err != nil {
		c.R.Count("tar(1) refused")
		c.Logf("tar %v: %v %s", args, err, o)
		return
	}
	c.Logf("tar %v", args)
	b, err := os.ReadFile(out)
	c.Must(err)
	v, err := tarfs.New(bytes.NewReader(b), &tarfs.FsOption{HandleSymlink: true})
	if err != nil {
		c.Fail("T01:gnutar:new", "%v: %v", args, err)
		return
	}
	c.R.Count("tar(1) archives")
	seen := map[string]bool{}
	filepath.WalkDir(src, func(q string, d fs.DirEntry, err error) error {
		c.Must(err)
		p, _ := filepath.Rel(src, q)
		c.R.Eval(1)
		seen[p] = true
		w, err := os.Lstat(q)
		c.Must(err)
		i, err := v.Lstat(p)
		if err != nil {
			c.Fail("T01:gnutar:lstat", "%v %q: %v", args, p, err)
			return nil
		}
		if i.Mode() != w.Mode() && w.Mode().Type() != fs.ModeSymlink || i.Mode().Type() != w.Mode().Type() {
			c.Fail("T01:gnutar:mode", "%v %q: %v, want %v", args, p, i.Mode(), w.Mode())
		}
		if i.ModTime().Unix() != w.ModTime().Unix() {
			c.Fail("T01:gnutar:mtime", "%v %q: %v, want %v", args, p, i.ModTime(), w.ModTime())
		}
		switch {
		case w.Mode()&fs.ModeSymlink != 0:
			l, err := v.ReadLink(p)
			wl, _ := os.Readlink(q)
			if err != nil || l != wl {
				c.Fail("T01:gnutar:readlink", "%v %q: %q, %v; want %q", args, p, l, err, wl)
			}
		case w.Mode().IsRegular():
			data, err := os.ReadFile(q)
			c.Must(err)
			got, err := fs.ReadFile(v, p)
			if err != nil || !bytes.Equal(got, data) || i.Size() != int64(len(data)) {
				c.Fail("T01:gnutar:content", "%v %q: %d bytes, size %d, %v; want %d", args, p, len(got), i.Size(), err, len(data))
			}
			f, err := v.Open(p)
			if err == nil {
				readHistory(c, "T01:gnutar", p, f, data)
				f.Close()
			}
			c.R.CountN("bytes compared with disk", len(data))
		case w.IsDir():
			es, err := fs.ReadDir(v, p)
			ws, _ := os.ReadDir(q)
			if err != nil || len(es) != len(ws) {
				c.Fail("T01:gnutar:readdir", "%v %q: %d entries, %v; want %d", args, p, len(es), err, len(ws))
			}
		}
		return nil
	})
	c.R.Distinct(fmt.Sprintf("gnutar %v %d", args, len(seen)))
}

var t01 = &rt.Check{ID: "T01", Level: "exploration",
	Rule: "random archives (USTAR, PAX, GNU, sparse in four formats, duplicates, replaced kinds, directories announced late, up to a thousand entries, long names before sparse members, missing parents, odd spellings, links in any order) compared entry by entry, byte by byte and over random read histories with archive/tar plus a last-wins model; names through links compared with openat2 on a materialized twin, for the whole view and every Sub; real trees archived by tar(1) in nine formats compared with the disk; testing/fstest; distinct by archive",
	Run: func(r *rt.Run) {
		r.CasesPar("generated", r.N(3000, 150000), 8, func(c *rt.Case) { tarCase(c, genTar(c, true, false)) })
		r.CasesPar("gnutar", r.N(150, 5000), 8, gnuTar)
		r.CasesPar("fstest", r.N(150, 5000), 8, func(c *rt.Case) {
			b := genTar(c, false, true)
			v, err := tarfs.New(bytes.NewReader(b), nil)
			if err != nil {
				c.Fail("T01:new", "%v", err)
				return
			}
			m := readTar(b, &tarfs.FsOption{}, 1<<24)
			var want []string
			for p := range m.n {
				if p != "." {
					want = append(want, p)
				}
			}
			if err := fstest.TestFS(v, want...); err != nil {
				c.Fail("T01:fstest", "%v", err)
			}
			c.R.Eval(1)
			c.R.Count("fstest")
		})
		r.Floor("files", 3000)
		r.Floor("directories", 3000)
		r.Floor("symbolic links", 1500)
		r.Floor("hard links", 150)
		r.Floor("hard link leading nowhere", 100)
		r.Floor("sparse files", 300)
		r.Floor("resolved to files", 300)
		r.Floor("resolved to directories", 300)
		r.Floor("refused: escape", 300)
		r.Floor("refused: loop", 30)
		r.Floor("sub views", 1000)
		r.Floor("tar(1) archives", 100)
		r.Floor("fstest", 100)
	}}
