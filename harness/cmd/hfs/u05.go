package main

import (
	"errors"
	"fmt"
	"io"
	"io/fs"
	"os"
	"path"
	"path/filepath"
	"slices"
	"strings"
	"syscall"

	"github.com/ngicks/go-fsys-helper/fsutil"
	"github.com/ngicks/go-fsys-helper/vroot"
	"github.com/ngicks/go-fsys-helper/vroot/osfs"
	"verif/harness/fsx"
	"verif/harness/rt"
)

// srcFS is a source whose calls are counted; call number fail returns an error.
type srcFS struct {
	in   fs.FS
	n    int
	fail int
	hit  string
	kind int
	// permissions directories pretend to have, which would keep us from reading them
	pretend map[string]fs.FileMode
}

type pretending struct {
	fs.FileInfo
	m fs.FileMode
}

func (p pretending) Mode() fs.FileMode { return p.FileInfo.Mode()&^fs.ModePerm | p.m }

func (s *srcFS) info(n string, i fs.FileInfo, err error) (fs.FileInfo, error) {
	if m, ok := s.pretend[n]; ok && err == nil {
		return pretending{i, m}, nil
	}
	return i, err
}

// loosen makes every directory readable, and tells what it was before.
func loosen(f fsx.FS, dir string, was map[string]fs.FileMode) {
	i, err := f.Lstat(dir)
	if err != nil || !i.IsDir() {
		return
	}
	if i.Mode()&0o700 != 0o700 {
		was[dir] = i.Mode()
		_ = f.Chmod(dir, i.Mode()|0o700)
	}
	es, _ := vroot.ReadDir(f, dir)
	for _, e := range es {
		loosen(f, path.Join(dir, e.Name()), was)
	}
}

// dumpHard dumps directories which can not be read, too. They can be afterwards.
func dumpHard(f fsx.FS, opt fsx.DumpOpt) fsx.Tree {
	was := map[string]fs.FileMode{}
	loosen(f, ".", was)
	t := fsx.Dump(fsx.Sys{FS: f}, opt)
	if !opt.NoMode {
		for p, m := range was {
			if l, ok := t[p]; ok {
				t[p] = withMode(l, m&(fs.ModePerm|fs.ModeSetuid|fs.ModeSetgid|fs.ModeSticky))
			}
		}
	}
	return t
}

func (s *srcFS) as() error {
	l := []error{errUser, fs.ErrPermission, io.ErrUnexpectedEOF, fs.ErrNotExist, syscall.EIO}
	return errors.Join(errUser, l[s.kind%len(l)])
}

func (s *srcFS) step(op, name string) error {
	s.n++
	if s.n == s.fail {
		s.hit = op + " " + name
		return &fs.PathError{Op: op, Path: name, Err: s.as()}
	}
	return nil
}

func (s *srcFS) Open(n string) (fs.File, error) {
	if err := s.step("open", n); err != nil {
		return nil, err
	}
	f, err := s.in.Open(n)
	if err != nil || s.fail < 0 {
		return f, err
	}
	return &srcFile{s, f, n}, nil
}

func (s *srcFS) Lstat(n string) (fs.FileInfo, error) {
	if err := s.step("lstat", n); err != nil {
		return nil, err
	}
	i, err := fs.Lstat(s.in, n)
	return s.info(n, i, err)
}

func (s *srcFS) ReadLink(n string) (string, error) {
	if err := s.step("readlink", n); err != nil {
		return "", err
	}
	return fs.ReadLink(s.in, n)
}

type srcFile struct {
	s *srcFS
	f fs.File
	n string
}

func (f *srcFile) Stat() (fs.FileInfo, error) {
	if err := f.s.step("fstat", f.n); err != nil {
		return nil, err
	}
	i, err := f.f.Stat()
	return f.s.info(f.n, i, err)
}
func (f *srcFile) Close() error { return f.f.Close() }
func (f *srcFile) Read(b []byte) (int, error) {
	if err := f.s.step("read", f.n); err != nil {
		return 0, err
	}
	return f.f.Read(b[:min(len(b), 3000)])
}
func (f *srcFile) ReadDir(n int) ([]fs.DirEntry, error) {
	if err := f.s.step("readdir", f.n); err != nil {
		return nil, err
	}
	return f.f.(fs.ReadDirFile).ReadDir(n)
}

// noLstat hides Lstat and ReadLink: only plain io/fs.
type noLstat struct{ fs.FS }

type cpOpt = fsutil.CopyFsOption[*fsx.Mon, vroot.File]

// modeOf reads the mode field of a dump line, 0 for links.
func dumpMode(line string) (fs.FileMode, bool) {
	var kind string
	var m fs.FileMode
	n, _ := fmt.Sscanf(line, "%s %o", &kind, &m)
	return m, n == 2 && kind != "link"
}

func withMode(line string, m fs.FileMode) string {
	fl := strings.SplitN(line, " ", 3)
	if fl[0] == "link" {
		return line
	}
	fl[1] = fmt.Sprintf("%o", m)
	return strings.Join(fl, " ")
}

var u05 = &rt.Check{ID: "U05", Level: "fault_enumeration",
	Rule: "random source trees (files up to 100 kB, directories without write permission, setuid and sticky bits, pretended permissions of every kind, links) copied whole or by path lists onto fresh and populated destinations, again onto their own result, on in-memory and OS-backed file systems, from io/fs sources with and without links; every call of the source and of the destination fails once, in one of several ways; distinct by tree, form and failing call",
	Run: func(r *rt.Run) {
		r.CasesPar("copy", r.N(350, 6000), 8, func(c *rt.Case) {
			sd := c.Dir()
			ops := treeOps(c, []string{"a", "b", "a-", "a.x"}, 3, 4+c.IntN(14), false)
			apply(osDirSys(sd), ops)
			if c.IntN(3) == 0 {
				b := make([]byte, 100000)
				for i := range b {
					b[i] = byte(i * i >> 3)
				}
				os.WriteFile(sd+"/big", b, 0o644)
			}
			srcSys := fsx.Sys{FS: vroot.Widen[*osfs.File](osFs(c, sd))}
			t0 := fsx.Dump(srcSys, fsx.DumpOpt{})
			keys := make([]string, 0, len(t0))
			for k := range t0 {
				keys = append(keys, k)
			}
			slices.Sort(keys)
			slices.Reverse(keys)
			for _, k := range keys {
				if strings.HasPrefix(k, "!") {
					c.R.HarnessErr("source %v", k)
					return
				}
				isDir := strings.HasPrefix(t0[k], "dir")
				if strings.HasPrefix(t0[k], "link") || c.IntN(2) == 0 {
					continue
				}
				m := []fs.FileMode{0o644, 0o600, 0o444, 0o755, 0o777, 0o666, 0o640, 0o755 | fs.ModeSetuid, 0o711 | fs.ModeSticky | fs.ModeSetgid}[c.IntN(9)]
				if isDir {
					m = []fs.FileMode{0o755, 0o700, 0o555, 0o500, 0o777, 0o775, 0o755 | fs.ModeSticky, 0o511 | fs.ModeSticky}[c.IntN(8)]
				}
				c.Must(os.Chmod(filepath.Join(sd, k), m))
			}
			rootMode := []fs.FileMode{0o755, 0o755, 0o700, 0o555}[c.IntN(4)]
			c.Must(os.Chmod(sd, rootMode))
			t := fsx.Dump(srcSys, fsx.DumpOpt{})
			pretend := map[string]fs.FileMode{}

			kind := backends[c.IntN(len(backends))]
			links := c.IntN(5) > 0
			mask := c.IntN(2) == 0
			if kind == "mem" {
				mask = false // has no other bits
			}
			root := []string{".", ".", "out", "out/deep/er", "exists"}[c.IntN(5)]
			populated := c.IntN(2) == 0
			byPath := c.IntN(2) == 0
			var sel []string
			if byPath {
				links = true
				for _, k := range keys {
					if c.IntN(3) == 0 {
						sel = append(sel, k)
					}
				}
				if c.IntN(8) == 0 {
					sel = append(sel, ".")
				}
				c.Shuffle(len(sel), func(i, j int) { sel[i], sel[j] = sel[j], sel[i] })
			} else if strings.HasPrefix(root, "out/") {
				root = "out"
			}
			var args []string
			for _, s := range sel {
				switch c.IntN(6) {
				case 0:
					s = "./" + s
				case 1:
					s = "zz/../" + s
				}
				args = append(args, s)
			}

			if links && c.IntN(3) == 0 {
				for _, k := range keys {
					if m := fs.FileMode([]int{0, 0o300, 0o600, 0o100, 0o400, 0o050, 0o500, 0o200, 0o755}[c.IntN(9)]); strings.HasPrefix(t[k], "dir") && c.IntN(2) == 0 {
						pretend[k] = m
						om, _ := dumpMode(t[k])
						t[k] = withMode(t[k], om&^fs.ModePerm|m)
						c.R.Count("directories of odd permissions")
					}
				}
			}
			setup := func() (fsx.FS, *fsx.Mon) {
				f := backend(c, kind)
				c.Must(f.Mkdir("exists", 0o750))
				if populated {
					// unrelated entries, and entries of the same kinds that differ otherwise
					base := root
					c.Must(f.MkdirAll(base, 0o755))
					c.Must(vroot.WriteFile(f, path.Join(base, "unrelated"), []byte("keep"), 0o644))
					for _, k := range slices.Backward(keys) {
						if h := fsx.Sum([]byte(k)); h%3 == 0 {
							p := path.Join(base, k)
							if strings.HasPrefix(t[k], "dir") {
								f.MkdirAll(p, 0o700)
								vroot.WriteFile(f, p+"/unrelated", []byte("keep"), 0o600)
							} else if strings.HasPrefix(t[k], "file") {
								if f.MkdirAll(path.Dir(p), 0o755) == nil {
									vroot.WriteFile(f, p, []byte(strings.Repeat("longer than before ", 50)), 0o640)
								}
							}
						}
					}
				}
				return f, fsx.NewMon(f)
			}
			source := func(fail int) (*srcFS, fs.FS) {
				s := &srcFS{in: os.DirFS(sd), fail: fail, pretend: pretend, kind: fail}
				if links {
					return s, s
				}
				return s, noLstat{s}
			}
			opt := cpOpt{}
			pm := func(m fs.FileMode) fs.FileMode { return m.Perm() }
			if mask {
				opt.MaskChmodMode = fsutil.MaskChmodMode
				pm = func(m fs.FileMode) fs.FileMode {
					return m & (fs.ModePerm | fs.ModeSetuid | fs.ModeSetgid | fs.ModeSticky)
				}
			}
			do := func(mon *fsx.Mon, src fs.FS) error {
				if byPath {
					return opt.CopyPath(mon, src, root, args...)
				}
				return opt.CopyAll(mon, src, root)
			}
			// what must be there: source entry at destination path
			want := fsx.Tree{}
			put := func(k string) {
				p := path.Join(root, k)
				if k == "." {
					if p != "." {
						want[p] = fmt.Sprintf("dir %o", pm(rootMode))
					}
					return
				}
				if m, ok := dumpMode(t[k]); ok {
					want[p] = withMode(t[k], pm(m))
				} else if links {
					want[p] = t[k]
				}
			}
			if byPath {
				for _, k := range sel {
					put(k)
					if k != "." {
						for d := path.Dir(k); d != "."; d = path.Dir(d) {
							put(d)
						}
					}
				}
			} else {
				put(".")
				for _, k := range keys {
					put(k)
				}
			}
			c.Logf("%s links=%v mask=%v root=%q populated=%v paths=%q\nsource:\n%v", kind, links, mask, root, populated, args, t)

			f, mon := setup()
			before := fsx.Dump(fsx.Sys{FS: f}, fsx.DumpOpt{})
			s, src := source(0)
			nd := 0
			mon.Before = func(st fsx.Step) error { nd++; return nil }
			err := do(mon, src)
			c.R.Eval(1)
			if err != nil {
				c.Fail("U05:copy:error", "%v", err)
				return
			}
			after := dumpHard(f, fsx.DumpOpt{})
			expect := before.Clone()
			for k, v := range want {
				expect[k] = v
			}
			if root != "." { // parents of what was copied are made as needed
				for d := root; d != "."; d = path.Dir(d) {
					if _, ok := expect[d]; !ok && (len(want) > 0 || !byPath) {
						expect[d] = after[d]
						if after[d] != "dir 755" {
							c.Fail("U05:copy:parent", "%s is %q", d, after[d])
						}
					}
				}
			}
			if d := fsx.Diff(after, expect); d != "" {
				form := "all"
				if byPath {
					form = "path"
				}
				c.Fail("U05:copy:"+form+":"+fsx.DiffKind(after, expect), "%s", d)
				return
			}
			if !slices.ContainsFunc(keys, func(k string) bool {
				w := want[path.Join(root, k)]
				m, _ := dumpMode(w)
				return strings.HasPrefix(w, "link") || strings.HasPrefix(w, "file") && m&0o200 == 0
			}) {
				// once more, onto itself
				_, src := source(0)
				err := do(fsx.NewMon(f), src)
				c.R.Eval(1)
				c.R.Count("copied twice")
				if again := dumpHard(f, fsx.DumpOpt{}); err != nil || fsx.Diff(again, expect) != "" {
					c.Fail("U05:copy:again", "%v: %s", err, fsx.Diff(again, expect))
				}
			}
			f.Close()
			c.R.CountN("entries copied", len(want))
			c.R.Distinct(fmt.Sprint(kind, links, mask, root, populated, byPath, t, sel))
			ns := s.n
			// the destination fails at each call
			lim := 1 << 30
			if !r.Thorough() {
				lim = 40
			}
			for k := 1; k <= min(nd, lim); k++ {
				f, mon := setup()
				var hit fsx.Step
				fault := fsx.Faulty(c.IntN(16))
				mon.Before = func(st fsx.Step) error {
					if st.I == k {
						hit = st
						return fault
					}
					return nil
				}
				_, src := source(0)
				err := do(mon, src)
				c.R.Eval(1)
				c.R.Count("destination failed:" + hit.Op)
				c.R.Count("destination failed")
				if !errors.Is(err, fsx.ErrFault) {
					c.Fail("U05:fault:dst:"+hit.Op, "%v failed, the copy returned %v", hit, err)
				}
				after := dumpHard(f, fsx.DumpOpt{NoMode: true})
				for p, v := range before {
					if _, ok := want[p]; ok {
						continue
					}
					if m, ok := dumpMode(v); ok {
						v = strings.Replace(v, fmt.Sprintf(" %o", m), "", 1)
					}
					if after[p] != v {
						c.Fail("U05:fault:unrelated", "%v failed and changed %s from %q to %q", hit, p, v, after[p])
					}
				}
				for p := range after {
					_, w := expect[p]
					if !w {
						c.Fail("U05:fault:extra", "%v failed and left %s %q", hit, p, after[p])
					}
				}
				f.Close()
			}
			for k := 1; k <= min(ns, lim); k++ {
				f, mon := setup()
				s, src := source(k)
				err := do(mon, src)
				c.R.Eval(1)
				if s.hit == "" {
					f.Close()
					continue
				}
				op, _, _ := strings.Cut(s.hit, " ")
				c.R.Count("source failed:" + op)
				c.R.Count("source failed")
				if !errors.Is(err, errUser) {
					c.Fail("U05:fault:src:"+op, "%s failed, the copy returned %v", s.hit, err)
				}
				loosen(f, ".", map[string]fs.FileMode{})
				f.Close()
			}
			// failing to list a directory can be ignored: the rest is copied
			if !byPath && links {
				opt.IgnoreErr = func(err error) bool { return errors.Is(err, errUser) }
				for k := 1; k <= min(ns, lim); k += 1 + c.IntN(4) {
					f, mon := setup()
					s, src := source(k)
					err := do(mon, src)
					op, name, _ := strings.Cut(s.hit, " ")
					if err == nil && op == "readdir" {
						c.R.Eval(1)
						c.R.Count("ignored")
						after := dumpHard(f, fsx.DumpOpt{})
						for k, v := range expect {
							rel, err := filepath.Rel(root, k)
							if err == nil && name != "." && !strings.HasPrefix(rel, name+"/") && after[k] != v {
								c.Fail("U05:ignore", "%s failed and was ignored; %s is %q, want %q", s.hit, k, after[k], v)
							}
						}
					} else if err == nil && op == "read" {
						c.Fail("U05:ignore:read", "%s failed and was ignored", s.hit)
					}
					loosen(f, ".", map[string]fs.FileMode{})
					f.Close()
				}
			}
			if c.Idx < 2 {
				c.R.Sample("root %q paths %q\n%v", root, args, t)
			}
		})
		r.CasesPar("conflict", r.N(200, 2000), 8, func(c *rt.Case) {
			// entries of another kind are in the way: an error, or a correct copy
			kind := backends[c.IntN(len(backends))]
			f := backend(c, kind)
			defer f.Close()
			sd := c.Dir()
			k := []string{"file", "dir", "link", "dirfull"}
			a, b := k[c.IntN(4)], k[c.IntN(4)]
			if b == "link" && a != "link" {
				b = "file" // writing through links of the destination is cp's behaviour too
			}
			mk := func(sys fsx.FS, kind, tag string) {
				switch kind {
				case "file":
					c.Must(vroot.WriteFile(sys, "x", []byte(tag), 0o640))
				case "dir":
					c.Must(sys.Mkdir("x", 0o750))
				case "dirfull":
					c.Must(sys.Mkdir("x", 0o750))
					c.Must(vroot.WriteFile(sys, "x/y", []byte(tag), 0o640))
				case "link":
					c.Must(sys.Symlink("to-"+tag, "x"))
				}
			}
			mk(vroot.Widen[*osfs.File](osFs(c, sd)), a, "src")
			mk(f, b, "dst")
			c.Must(vroot.WriteFile(f, "z", []byte("keep"), 0o644))
			mon := fsx.NewMon(f)
			var err error
			src := &srcFS{in: os.DirFS(sd)}
			if c.IntN(2) == 0 {
				err = cpOpt{}.CopyAll(mon, src, ".")
			} else if a == "dirfull" {
				err = cpOpt{}.CopyPath(mon, src, ".", "x", "x/y")
			} else {
				err = cpOpt{}.CopyPath(mon, src, ".", "x")
			}
			want := fsx.Dump(fsx.Sys{FS: vroot.Widen[*osfs.File](osFs(c, sd))}, fsx.DumpOpt{})
			got := fsx.Dump(fsx.Sys{FS: f}, fsx.DumpOpt{})
			c.R.Eval(1)
			if got["z"] == "" {
				c.Fail("U05:conflict:unrelated", "z is gone")
			}
			c.R.Count(fmt.Sprintf("conflict err=%v", err != nil))
			c.R.Distinct("conflict " + kind + a + b)
			if err == nil {
				for p, v := range want {
					if got[p] != v {
						c.Fail("U05:conflict:"+a+"-over-"+b, "succeeded, %s is %q, want %q", p, got[p], v)
					}
				}
			}
		})
		r.CasesPar("missing", r.N(60, 300), 8, func(c *rt.Case) {
			f := mem()
			defer f.Close()
			sd := c.Dir()
			c.Must(os.WriteFile(sd+"/a", []byte("a"), 0o644))
			for _, p := range []string{"nope", "a/b", "../a", "/a", "a/../../a"} {
				err := cpOpt{}.CopyPath(fsx.NewMon(f), os.DirFS(sd), "r", "a", p)
				c.R.Eval(1)
				if err == nil {
					c.Fail("U05:missing", "copying %q succeeded", p)
				}
			}
			if err := (cpOpt{}).CopyPath(fsx.NewMon(f), os.DirFS(sd), "/r", "a"); !errors.Is(err, fsutil.ErrPathEscapes) {
				c.Fail("U05:absroot", "%v", err)
			}
		})
		_ = io.EOF
		r.Floor("entries copied", 1000)
		r.Floor("destination failed", 500)
		r.Floor("source failed", 100)
		r.Soft("destination failed:close", 100)
		r.Soft("destination failed:chmod", 100)
		r.Soft("destination failed:write", 100)
		r.Soft("destination failed:symlink", 30)
		r.Soft("destination failed:mkdir", 100)
		r.Soft("destination failed:create", 100)
		r.Soft("source failed:read", 100)
		r.Soft("source failed:open", 100)
		r.Soft("source failed:readdir", 50)
		r.Soft("source failed:readlink", 20)
		r.Floor("ignored", 20)
	}}
