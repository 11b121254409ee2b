package main

import (
	"bytes"
	"fmt"
	"io"
	"io/fs"
	"math"
	"math/rand/v2"
	"os"
	"path"
	"strings"
	"time"

	"github.com/ngicks/go-fsys-helper/vroot"
	"github.com/ngicks/go-fsys-helper/vroot/memfs"
	"github.com/ngicks/go-fsys-helper/vroot/synthfs"
	"verif/harness/fsx"
	"verif/harness/rt"
)

func pick[T any](r *rand.Rand, xs ...T) T { return xs[r.IntN(len(xs))] }

func kernelWorld(c *rt.Case) *fsx.World {
	k, err := fsx.Kernel(c.Dir())
	c.Must(err)
	return fsx.NewWorld(k)
}

func memSys(name string) fsx.Sys {
	return fsx.WrapRoot[vroot.File, *synthfs.Root](memfs.New(name))
}

var linkTargets = []string{"a", "b", "a/b", "b/a-", "../a", "../b", "../a-", ".", "..", "./a", "a/..", "../a/b", "x", "a-", "a/.", "b/../a-"}

func without(kinds []string, drop ...string) (l []string) {
	for _, k := range kinds {
		keep := true
		for _, d := range drop {
			keep = keep && k != d
		}
		if keep {
			l = append(l, k)
		}
	}
	return
}

// memTolerated are documented or uninteresting differences from the kernel.
func memTolerated(o fsx.Op, got, want fsx.Out) bool {
	switch o.K {
	case "close": // a second Close may succeed
		return want.Err == "closed" && got.Err == "ok"
	case "hreaddir": // of a removed directory
		return want.Err == "notexist" && (got.Err == "ok" || got.Err == "eof") && got.Val == ""
	case "create", "openfile", "writefile", "mkdirall":
		// os.Root's loop detection differs for missing parents in link targets
		return want.Err == "error" && got.Err == "notexist" && strings.Contains(want.Raw.Error(), "too many levels")
	}
	return false
}

// danglingOnPath tells whether a mkdirall meets a dangling link, which os.Root
// follows (undocumented).
func danglingOnPath(w *fsx.World, o fsx.Op) bool {
	s, ok := w.Roots[o.R]
	if !ok {
		return false
	}
	if o.K == "rename" { // two names of one symlink: no content tells them apart
		i, err := s.Lstat(o.A)
		j, err2 := s.Lstat(o.B)
		return err == nil && err2 == nil && o.A != o.B && i.Mode()&fs.ModeSymlink != 0 && fsx.SameFile(i, j)
	}
	if o.K != "mkdirall" {
		return false
	}
	p := strings.Split(o.A, "/")
	for i := range p {
		if k := fsx.Kind(s, strings.Join(p[:i+1], "/")); strings.HasPrefix(k, "link-") && k != "link-dir" && k != "link-file" {
			return true
		}
	}
	return false
}

// looseOps fail for reasons whose kind os itself does not promise.
var looseOps = map[string]bool{"link": true, "rename": true, "mkdirall": true, "close": true, "writeat": true, "hreaddir": true}

// since is from when on times count as the present.
var since = time.Now().Add(-time.Hour)

var v02 = &rt.Check{ID: "V02", Level: "exploration",
	Rule:        "random histories of path and handle operations over few clean names, with symbolic and hard links, sizes and offsets at the edges of int64, odd modes, open handles that outlive their names and sub-roots, directories moved between parents with links leading up and out of them, times set, left and carried along; each outcome (kind of error, values) and periodically the whole tree compared with the kernel through os.Root on tmpfs; non-trivial = at least two operations succeeded; distinct by operation, precondition and outcome sequence",
	Assumptions: []string{"hard-linked names have modes of their own (documented), so histories mix either hard links or chmod"},
	Run: func(r *rt.Run) {
		run := func(part string, n int, mk func(c *rt.Case) *fsx.Gen, steps int) {
			r.CasesPar(part, n, 8, func(c *rt.Case) {
				got := fsx.NewWorld(memSys("mem"))
				want := kernelWorld(c)
				defer want.Roots[0].Close()
				defer got.CloseAll()
				defer want.CloseAll()
				fsx.Differential(c, got, want, mk(c), fsx.DiffOpt{ID: "V02", Steps: steps, Every: 10, LooseOps: looseOps, Continue: memTolerated, Skip: danglingOnPath})
				r.Sample("%v", c.Log())
			})
		}
		base := func(c *rt.Case, kinds []string) *fsx.Gen {
			return &fsx.Gen{Rand: c.Rand, Names: []string{"a", "b", "a-"}, Depth: 3, Kinds: kinds, Handles: 4, Targets: linkTargets}
		}
		links := without(fsx.BasicKinds, "chmod", "fchmod")
		modes := without(fsx.BasicKinds, "link")
		run("links", r.N(3000, 60000), func(c *rt.Case) *fsx.Gen { return base(c, links) }, 40)
		run("modes", r.N(2000, 40000), func(c *rt.Case) *fsx.Gen { return base(c, modes) }, 40)
		// mode bits which creation does not take
		run("perms", r.N(400, 8000), func(c *rt.Case) *fsx.Gen {
			g := base(c, strings.Fields(`mkdir mkdir mkdirall mkdirall openfile openfile openfile writefile remove rename list lstat stat fstat read write close`))
			g.Modes = []fs.FileMode{0o755, 0o700, 0o750, 0o755 | fs.ModeDir, 0o700 | fs.ModeSymlink, fs.ModeSetuid | 0o755, fs.ModeSticky | 0o777, fs.ModeSetgid | 0o711, 0o1755, 0o7777, fs.ModeAppend | 0o700, fs.ModeNamedPipe | 0o755, fs.ModeIrregular | 0o777}
			return g
		}, 30)
		handles := strings.Fields(`openfile openfile openfile create open read read readat write write writeat writestring seek seek truncate truncate
 fstat close hreaddir remove rename rename writefile readfile list mkdir link`)
		run("handles", r.N(2500, 60000), func(c *rt.Case) *fsx.Gen {
			g := base(c, handles)
			g.Depth, g.Handles = 1+c.IntN(2), 3
			return g
		}, 60)
		roots := append(without(links), "openroot", "openroot", "openroot", "closeroot")
		run("roots", r.N(1500, 30000), func(c *rt.Case) *fsx.Gen {
			g := base(c, roots)
			g.Roots = 3
			return g
		}, 50)
		// Times are kept by what moves, links or re-owns a name and taken by what
		// sets them; zero ones stay.
		r.CasesPar("times", r.N(400, 10000), 8, func(c *rt.Case) {
			got := fsx.NewWorld(memSys("mem"))
			want := kernelWorld(c)
			defer want.Roots[0].Close()
			defer got.CloseAll()
			defer want.CloseAll()
			// Writing leaves the time alone here (the tree owns it), so nothing is written.
			g := base(c, strings.Fields(`chtimes chtimes chtimes chtimes rename rename rename chown lchown chmod mkdir symlink open close readfile list stat remove`))
			g.Omit = true
			g.Depth = 2
			var ops []fsx.Op
			for _, n := range []string{"a", "b/a", "b/b", "a-/b"} {
				ops = append(ops, fsx.Op{K: "mkdirall", A: path.Dir(n), Perm: 0o755}, fsx.Op{K: "create", A: n, H: 3})
			}
			ops = append(ops, fsx.Op{K: "symlink", A: pick(c.Rand, "b", "a", "x"), B: "a-/a"})
			for range 40 {
				ops = append(ops, g.Next())
			}
			fsx.Differential(c, got, want, g, fsx.DiffOpt{ID: "V02", Ops: ops, Every: 5, Dump: fsx.DumpOpt{Mtime: true, Since: since}, LooseOps: looseOps, Continue: memTolerated, Skip: danglingOnPath})
			if c.Failed() {
				return
			}
			f, err := got.Roots[0].Create("l1")
			c.Must(err)
			c.Must(f.Close())
			t := time.Unix(1500000000+int64(c.IntN(1000)), 5)
			c.Must(got.Roots[0].Chmod("l1", 0o640))
			c.Must(got.Roots[0].Chtimes("l1", t, t))
			c.Must(got.Roots[0].Link("l1", "l2"))
			i, err := got.Roots[0].Stat("l1")
			c.Must(err)
			j, err := got.Roots[0].Stat("l2")
			c.Must(err)
			if !i.ModTime().Equal(t) || !j.ModTime().Equal(t) || i.Mode() != j.Mode() || j.Mode() != 0o640 {
				c.Fail("V02:times:link", "a file of %v %v and a new link to it: %v %v and %v %v", t.UnixNano(), fs.FileMode(0o640), i.ModTime().UnixNano(), i.Mode(), j.ModTime().UnixNano(), j.Mode())
			}
		})
		// Sub-roots whose directory is removed meanwhile.
		r.CasesPar("detached", r.N(1500, 30000), 8, func(c *rt.Case) {
			got := fsx.NewWorld(memSys("mem"))
			want := kernelWorld(c)
			defer want.Roots[0].Close()
			defer got.CloseAll()
			defer want.CloseAll()
			g := base(c, without(links, "openfile", "create", "open"))
			g.Roots, g.Depth, g.Names = 2, 2, []string{"a", "b"}
			ops := []fsx.Op{{K: "mkdirall", A: "a/b", Perm: 0o755}, {K: "openroot", A: pick(c.Rand, "a", "a/b"), H: 1}}
			if c.IntN(2) == 0 { // handles on the directories
				ops = append(ops, fsx.Op{K: "open", A: "a", H: 0}, fsx.Op{K: "open", A: "a/b", H: 1})
			}
			for range c.IntN(4) {
				ops = append(ops, g.Next())
			}
			ops = append(ops, fsx.Op{K: pick(c.Rand, "removeall", "remove"), A: pick(c.Rand, "a", "a/b")})
			for range 2 + c.IntN(8) {
				ops = append(ops, g.Next())
			}
			fsx.Differential(c, got, want, g, fsx.DiffOpt{ID: "V02", Ops: ops, LooseOps: looseOps, Continue: memTolerated, Skip: danglingOnPath})
		})
		run("dots", r.N(800, 20000), func(c *rt.Case) *fsx.Gen {
			g := base(c, links)
			h := *g
			g.Pth = func(*fsx.Gen) string {
				if c.IntN(5) == 0 {
					return "."
				}
				return h.Path()
			}
			return g
		}, 30)
		// Directories which move between parents, with links leading up and out of them.
		moves := strings.Fields(`rename rename rename rename mkdir mkdir symlink symlink symlink writefile writefile readfile readfile stat lstat list remove openroot mkdirall`)
		r.CasesPar("moves", r.N(2000, 40000), 8, func(c *rt.Case) {
			got := fsx.NewWorld(memSys("mem"))
			want := kernelWorld(c)
			defer want.Roots[0].Close()
			defer got.CloseAll()
			defer want.CloseAll()
			g := base(c, moves)
			g.Roots = 2
			g.Targets = []string{"../a", "../b", "../a-", "..", "../..", "../../a", "../b/a", "../../b/a-", "../a/../b", "a/..", "b/../a-"}
			ops := []fsx.Op{{K: "mkdirall", A: "a/b", Perm: 0o755}, {K: "mkdirall", A: "b/a-", Perm: 0o755}, {K: "writefile", A: "a/a-", Data: []byte("up in a"), Perm: 0o644}, {K: "writefile", A: "b/a", Data: []byte("up in b"), Perm: 0o644}}
			names := []string{"a", "b", "a-"}
			dirs := []string{"a/b", "b/a-"}
			for range 40 {
				switch c.IntN(4) {
				case 0: // to the same or another name below another directory
					d := c.IntN(len(dirs))
					to := names[c.IntN(3)] + "/" + pick(c.Rand, names[c.IntN(3)], path.Base(dirs[d]), path.Base(dirs[d]))
					ops = append(ops, fsx.Op{K: "rename", A: dirs[d], B: to})
					dirs = append(dirs, to)
				case 1:
					d := dirs[c.IntN(len(dirs))]
					ops = append(ops, fsx.Op{K: "symlink", A: g.Targets[c.IntN(len(g.Targets))], B: d + "/" + names[c.IntN(3)]})
				case 2:
					p := dirs[c.IntN(len(dirs))] + "/" + names[c.IntN(3)]
					ops = append(ops, fsx.Op{K: pick(c.Rand, "readfile", "stat", "writefile", "list"), A: p, Data: []byte(p), Perm: 0o644})
				default:
					ops = append(ops, g.Next())
				}
			}
			fsx.Differential(c, got, want, g, fsx.DiffOpt{ID: "V02", Ops: ops, Every: 10, LooseOps: looseOps, Continue: memTolerated, Skip: danglingOnPath})
		})
		r.CasesPar("edges", r.N(3000, 60000), 8, v02Edges)
		r.Floor("effective-ops", 20000)
		r.Floor("edge-calls", 5000)
	}}

// v02Edges puts sizes and offsets no file here can have to an open file: each
// call fails and leaves content and position, or does what it was asked.
func v02Edges(c *rt.Case) {
	f := mem()
	data := fsx.NewGenBytes(c.Rand, 60)
	c.Must(vroot.WriteFile(f, "f", data, 0o644))
	flag := pick(c.Rand, os.O_RDWR, os.O_RDWR, os.O_RDWR|os.O_APPEND)
	h, err := f.OpenFile("f", flag, 0)
	c.Must(err)
	defer h.Close()
	fail := func(sig, s string, a ...any) { c.Fail("V02:edges:"+sig, s, a...) }
	pos := int64(0)
	key := fmt.Sprint(flag, len(data))
	far := func() int64 {
		return pick(c.Rand, int64(math.MaxInt64), math.MaxInt64-1, math.MaxInt64-int64(c.IntN(100)), 1<<62, 1<<62+int64(c.IntN(9)), 1<<50, 1<<55+1)
	}
	for i := 0; i < 12 && !c.Failed(); i++ {
		off := far()
		p := fsx.NewGenBytes(c.Rand, 30)
		p = append(p, 'x')
		k := c.IntN(8)
		var err error
		var n int
		switch k {
		case 0:
			err = h.Truncate(off)
			if err == nil {
				fail("truncate", "Truncate(%d) of a file in memory succeeded", off)
			}
		case 1:
			n, err = h.WriteAt(p, off)
			if flag&os.O_APPEND != 0 {
				off = -1
			}
			if err == nil || n != 0 {
				fail("writeat", "WriteAt(%d bytes, %d) = %d, %v", len(p), off, n, err)
			}
		case 2:
			n, err = h.ReadAt(p, off)
			if n != 0 || err == nil {
				fail("readat", "ReadAt(%d) = %d, %v", off, n, err)
			}
		case 3:
			var at int64
			w := c.IntN(3)
			o := off
			if c.IntN(3) == 0 {
				o = -off
			}
			from := []int64{0, pos, int64(len(data))}[w]
			at, err = h.Seek(o, w)
			sum := from + o // wraps
			bad := sum < 0 || o > 0 && sum < from
			switch {
			case bad && err == nil:
				fail("seek", "Seek(%d, %d) from %d of %d = %d", o, w, pos, len(data), at)
			case !bad && (err != nil || at != sum):
				fail("seek", "Seek(%d, %d) from %d of %d = %d, %v", o, w, pos, len(data), at, err)
			case !bad:
				pos = at
			}
		case 4: // writes where it stands
			if pos > 1<<40 || flag&os.O_APPEND != 0 {
				n, err = h.Write(p)
				if flag&os.O_APPEND != 0 {
					data = append(data, p...)
					pos = int64(len(data))
					if err != nil || n != len(p) {
						fail("append", "appending %d bytes = %d, %v", len(p), n, err)
					}
				} else if err == nil || n != 0 {
					fail("write", "Write at %d = %d, %v", pos, n, err)
				}
			}
		case 5:
			n, err = h.Read(p)
			want := 0
			if pos < int64(len(data)) {
				want = min(len(p), len(data)-int(pos))
			}
			if n != want || want == 0 && err != io.EOF || want > 0 && (err != nil && err != io.EOF || !bytes.Equal(p[:n], data[pos:pos+int64(n)])) {
				fail("read", "Read(%d) at %d of %d = %d, %v", len(p), pos, len(data), n, err)
			}
			pos += int64(n)
		case 6:
			pos, err = h.Seek(int64(c.IntN(len(data)+4)), io.SeekStart)
			c.Must(err)
		case 7:
			n, err = h.WriteAt(p, -off)
			if err == nil || n != 0 {
				fail("writeat-negative", "WriteAt(%d) = %d, %v", -off, n, err)
			}
			if err = h.Truncate(-off); err == nil {
				fail("truncate-negative", "Truncate(%d) succeeded", -off)
			}
		}
		c.Logf("op %d off %d = %d, %v (at %d)", k, off, n, err, pos)
		c.R.Eval(1)
		c.R.Count("edge-calls")
		key += fmt.Sprint(" ", k, err != nil)
		at, err := h.Seek(0, io.SeekCurrent)
		if err != nil || at != pos {
			fail("position", "position %d, %v, want %d", at, err, pos)
		}
		got, err := vroot.ReadFile(f, "f")
		if err != nil || !bytes.Equal(got, data) {
			fail("content", "content %q, %v, want %q", got, err, data)
		}
		if i, err := h.Stat(); err != nil || i.Size() != int64(len(data)) {
			fail("size", "size %v, %v, want %d", i, err, len(data))
		}
	}
	c.R.Distinct(key)
}
