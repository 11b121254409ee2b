package main

import (
	"errors"
	"fmt"
	"io/fs"
	"os"
	"path"
	"path/filepath"
	"strings"
	"syscall"
	"unsafe"

	"github.com/ngicks/go-fsys-helper/fsutil"
	"github.com/ngicks/go-fsys-helper/fsutil/errdef"
	"github.com/ngicks/go-fsys-helper/vroot"
	"github.com/ngicks/go-fsys-helper/vroot/osfs"
	"verif/harness/fsx"
	"verif/harness/rt"
)

// beneath asks the kernel where name leads below dir: openat2 with
// RESOLVE_BENEATH, then the name of the descriptor.
func beneath(c *rt.Case, dir *os.File, real, name string) (string, syscall.Errno) {
	how := [3]uint64{0x200000 | syscall.O_CLOEXEC, 0, 8} // O_PATH, RESOLVE_BENEATH
	p, err := syscall.BytePtrFromString(name)
	c.Must(err)
	for {
		fd, _, e := syscall.Syscall6(437, dir.Fd(), uintptr(unsafe.Pointer(p)), uintptr(unsafe.Pointer(&how)), 24, 0, 0)
		if e == syscall.EAGAIN || e == syscall.EINTR {
			continue
		}
		if e == syscall.ENOSYS || e == syscall.EPERM {
			c.R.HarnessErr("openat2: %v", e)
		}
		if e != 0 {
			return "", e
		}
		l, err := os.Readlink(fmt.Sprintf("/proc/self/fd/%d", fd))
		syscall.Close(int(fd))
		c.Must(err)
		rel, err := filepath.Rel(real, l)
		c.Must(err)
		return rel, 0
	}
}

func resolveClass(err error) string {
	switch {
	case err == nil:
		return "ok"
	case errors.Is(err, fsutil.ErrPathEscapes):
		return "escape"
	case errors.Is(err, errdef.ELOOP):
		return "loop"
	case errors.Is(err, fs.ErrNotExist):
		return "notexist"
	case errors.Is(err, syscall.ENOTDIR):
		return "notdir"
	}
	return "error"
}

func errnoClass(e syscall.Errno) string {
	switch e {
	case 0:
		return "ok"
	case syscall.EXDEV:
		return "escape"
	case syscall.ELOOP:
		return "loop"
	case syscall.ENOENT:
		return "notexist"
	case syscall.ENOTDIR:
		return "notdir"
	}
	return "errno " + e.Error()
}

var u06 = &rt.Check{ID: "U06", Level: "exploration",
	Rule: "random trees of directories, files and links (relative, absolute, dangling, cyclic, with parent references), every path of up to four components and random longer ones resolved on the OS-backed and the in-memory file system, against openat2(RESOLVE_BENEATH); non-trivial = at least one link was followed; distinct by resolution",
	Run: func(r *rt.Run) {
		targets := append([]string{"/a", "/", "../..", "../../a", "a/../b", "a/b/..", "a/b/../c", "./../b", "b/", "a//b", "../a/../b", "c/./a", "../../../../../../x"}, linkTargets...)
		r.CasesPar("trees", r.N(2500, 40000), 8, func(c *rt.Case) {
			dir := subdir(c, "g")
			real, err := filepath.EvalSymlinks(dir)
			c.Must(err)
			names := []string{"a", "b", "a-"}
			g := &fsx.Gen{Rand: c.Rand, Names: names, Depth: 4, Targets: targets,
				Kinds: []string{"mkdirall", "mkdirall", "mkdirall", "mkdir", "writefile", "writefile", "symlink", "symlink", "symlink", "symlink"}}
			var ops []fsx.Op
			for i := 0; i < 8+c.IntN(14); i++ {
				ops = append(ops, g.Next())
			}
			apply(osDirSys(dir), ops)
			m := mem()
			apply(fsx.Sys{FS: m}, nil)
			copyTree(c, dir, m)
			for _, o := range ops {
				c.Logf("%v", o)
			}
			d, err := os.Open(dir)
			c.Must(err)
			defer d.Close()

			subjects := []struct {
				n string
				f fsx.FS
			}{
				{"osfs", vroot.Widen[*osfs.File](osFs(c, dir))},
				{"mem", m},
			}
			for _, s := range subjects {
				defer s.f.Close()
				mon := fsx.NewMon(s.f)
				mon.Before = func(st fsx.Step) error {
					if !filepath.IsLocal(st.Name) || st.Mut {
						c.Fail("U06:"+s.n+":touches", "resolving called %v", st)
					}
					return nil
				}
				check := func(p string, skip bool) {
					c.R.Eval(1)
					want, e := beneath(c, d, real, p)
					if skip {
						par := path.Dir(p)
						if !filepath.IsLocal(p) {
							e = syscall.EXDEV
						} else if p == "." {
							want, e = ".", 0
						} else if want, e = beneath(c, d, real, par); e == 0 {
							want = path.Join(want, path.Base(p))
						}
					}
					got, err := fsutil.ResolvePath(mon, p, skip)
					gc, wc := resolveClass(err), errnoClass(e)
					if gc != wc || gc == "ok" && got != want {
						if skip && wc == "notdir" {
							return // the last element is not looked at
						}
						c.Fail("U06:"+s.n+":path:"+wc+"/"+gc, "ResolvePath(%q, skip=%v) = %q, %v; the kernel says %q, %v", p, skip, got, err, want, e)
						return
					}
					c.R.Count("resolve-" + wc)
					if got != p {
						c.R.Distinct(fmt.Sprint(p, got, gc, skip))
					}
				}
				var ps []string
				for _, a := range names {
					ps = append(ps, a)
					for _, b := range names {
						ps = append(ps, a+"/"+b)
						for _, x := range names {
							ps = append(ps, a+"/"+b+"/"+x)
						}
					}
				}
				ps = append(ps, ".", "..", "../a", "/a")
				for i := 0; i < 12; i++ {
					l := 4 + c.IntN(4)
					var q []string
					for j := 0; j < l; j++ {
						q = append(q, names[c.IntN(3)])
					}
					ps = append(ps, path.Join(q...))
				}
				for _, p := range ps {
					if p == "/a" {
						for _, skip := range []bool{false, true} {
							if _, err := fsutil.ResolvePath(mon, p, skip); !errors.Is(err, fsutil.ErrPathEscapes) {
								c.Fail("U06:"+s.n+":absolute", "ResolvePath(%q) = %v", p, err)
							}
						}
						continue
					}
					check(p, false)
					check(p, true)
				}
				// links at real paths
				filepath.WalkDir(real, func(p string, e fs.DirEntry, err error) error {
					c.Must(err)
					if e.Type()&fs.ModeSymlink == 0 {
						return nil
					}
					p, _ = filepath.Rel(real, p)
					c.R.Eval(1)
					want, en := beneath(c, d, real, p)
					wc := errnoClass(en)
					got, n, err := fsutil.ResolveSymlink(mon, p, 39)
					gc := resolveClass(err)
					if gc == "ok" && got == "" {
						gc = "escape"
					}
					if gc != wc || gc == "ok" && got != want {
						c.Fail("U06:"+s.n+":link:"+wc+"/"+gc, "ResolveSymlink(%q) = %q, %d, %v; the kernel says %q, %v", p, got, n, err, want, en)
						return nil
					}
					if wc == "ok" {
						c.R.Count("links")
						if n < 1 || n > 39 {
							c.Fail("U06:"+s.n+":count", "ResolveSymlink(%q) followed %d links", p, n)
						}
						if got2, n2, err := fsutil.ResolveSymlink(mon, p, n); err != nil || got2 != got || n2 != n {
							c.Fail("U06:"+s.n+":limit", "ResolveSymlink(%q, %d) = %q, %d, %v, without limit %q, %d", p, n, got2, n2, err, got, n)
						}
						if got2, n2, err := fsutil.ResolveSymlink(mon, p, n-1); !errors.Is(err, errdef.ELOOP) {
							c.Fail("U06:"+s.n+":limit", "ResolveSymlink(%q, %d) = %q, %d, %v, but it takes %d links", p, n-1, got2, n2, err, n)
						}
					}
					return nil
				})
			}
			r.Sample("%v", c.Log())
		})
		r.CasesPar("chains", r.N(60, 300), 8, func(c *rt.Case) {
			n := 1 + c.Idx%60
			m := mem()
			c.Must(m.MkdirAll("d/e", 0o755))
			pre := pick(c.Rand, "", "d/", "d/e/")
			for i := 0; i < n; i++ {
				t := pick(c.Rand, fmt.Sprintf("l%d", i+1), fmt.Sprintf("./l%d", i+1), fmt.Sprintf("../%sl%d", map[string]string{"d/": "d/", "d/e/": "e/", "": "zz"}[pre], i+1))
				if pre == "" {
					t = fmt.Sprintf("l%d", i+1)
				}
				c.Must(m.Symlink(t, fmt.Sprintf("%sl%d", pre, i)))
			}
			end := fmt.Sprintf("%sl%d", pre, n)
			c.Must(vroot.WriteFile[vroot.File](m, end, nil, 0o644))
			got, err := fsutil.ResolvePath(m, pre+"l0", false)
			c.R.Eval(1)
			c.R.Distinct(fmt.Sprint(n, pre))
			switch {
			case n <= 38 && (err != nil || got != end):
				c.Fail("U06:chain:short", "a chain of %d links: %q, %v", n, got, err)
			case n >= 42 && !errors.Is(err, errdef.ELOOP):
				c.Fail("U06:chain:long", "a chain of %d links: %q, %v", n, got, err)
			}
		})
		r.Floor("resolve-ok", 5000)
		r.Floor("resolve-escape", 1000)
		r.Floor("resolve-loop", 200)
		r.Floor("links", 800)
	}}

// copyTree copies a kernel tree with its links as they are.
func copyTree(c *rt.Case, dir string, dst fsx.FS) {
	c.Must(filepath.WalkDir(dir, func(p string, e fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(dir, p)
		i, err := e.Info()
		if err != nil || rel == "." {
			return err
		}
		switch {
		case e.IsDir():
			return dst.Mkdir(rel, i.Mode().Perm())
		case e.Type()&fs.ModeSymlink != 0:
			t, err := os.Readlink(p)
			if err != nil {
				return err
			}
			if strings.HasPrefix(t, "/") {
				t = "/x"
			}
			err = dst.Symlink(t, rel)
			if err != nil {
				err = dst.Symlink("../../../../../../../../x", rel)
			}
			return err
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		return vroot.WriteFile(dst, rel, b, i.Mode().Perm())
	}))
}
