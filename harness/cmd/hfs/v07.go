package main

import (
	"errors"
	"fmt"
	"hash/fnv"
	"io/fs"
	"os"
	"path"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"testing/fstest"

	"github.com/ngicks/go-fsys-helper/vroot"
	"github.com/ngicks/go-fsys-helper/vroot/osfs"
	"verif/harness/fsx"
	"verif/harness/rt"
)

var errVisit = errors.New("visitor says no")

// visit is one call of the visitor.
type visit struct{ path, real, info, err string }

func (v visit) String() string {
	return fmt.Sprintf("%s (%s) %s %s", v.path, v.real, v.info, v.err)
}

func mkVisit(p, real string, i fs.FileInfo, err error) visit {
	v := visit{path: p, real: real}
	if i != nil && err == nil {
		v.info = i.Mode().String()
		if i.Mode().IsRegular() {
			v.info += fmt.Sprint(" ", i.Size())
		}
	}
	if err != nil {
		v.err = "error"
		if errors.Is(err, fs.ErrNotExist) {
			v.err = "notexist"
		}
	}
	return v
}

// decider is the visitor's mind: a function of the path alone, so that the
// walk and the reference get the same answers.
type decider struct {
	seed          uint64
	skip, all, no int // 1 in n, 0 never
	remove        int
	names         []string
}

func (d decider) hash(p, what string) int {
	h := fnv.New64a()
	fmt.Fprint(h, d.seed, p, what)
	return int(h.Sum64() >> 33)
}

func (d decider) hit(n int, p, what string) bool { return n > 0 && d.hash(p, what)%n == 0 }

func (d decider) answer(v visit, rm func(string)) error {
	p := v.path
	if d.hit(d.remove, p, "rm") && p != "." {
		rm(path.Join(path.Dir(p), d.names[d.hash(p, "which")%len(d.names)]))
	}
	switch {
	case d.hit(d.no, p, "no"):
		return errVisit
	case d.hit(d.all, p, "all"):
		return vroot.SkipAll
	case d.hit(d.skip, p, "skip"):
		return vroot.SkipDir
	}
	return nil // errors are ignored
}

// refWalk walks a kernel tree by the book.
type refWalk struct {
	c       *rt.Case
	dir     string
	root    *os.File
	real    string
	follow  bool
	stat    func(p string) (fs.FileInfo, error)
	lstat   func(p string) (fs.FileInfo, error)
	readdir func(p string) ([]fs.DirEntry, error)
	fn      func(visit) error
	n       int
}

func (w *refWalk) visit(p, real string, i fs.FileInfo, err error) error {
	w.n++
	return w.fn(mkVisit(p, real, i, err))
}

func (w *refWalk) run(root string) error {
	i, err := w.lstat(root)
	if err != nil {
		err = w.visit(root, root, nil, err)
	} else {
		err = w.walk(root, root, i, nil)
	}
	if err == fs.SkipDir || err == fs.SkipAll {
		return nil
	}
	return err
}

func (w *refWalk) walk(p, real string, i fs.FileInfo, up []fs.FileInfo) error {
	if w.follow && i.Mode()&fs.ModeSymlink != 0 {
		t, err := w.stat(p)
		if err != nil {
			return w.visit(p, real, nil, err)
		}
		i = t
		if real != "" {
			r, e := beneath(w.c, w.root, w.real, real)
			if e == syscall.EXDEV {
				r = ""
			} else if e != 0 {
				return w.visit(p, real, nil, e)
			}
			real = r
		}
	}
	err := w.visit(p, real, i, nil)
	if !i.IsDir() {
		return err
	}
	if err == fs.SkipDir {
		return nil
	}
	if err != nil {
		return err
	}
	for _, u := range up {
		if os.SameFile(u, i) {
			return nil
		}
	}
	es, err := w.readdir(p)
	if err != nil {
		if err = w.visit(p, real, nil, err); err == fs.SkipDir {
			return nil
		} else if err != nil {
			return err
		}
	}
	sort.Slice(es, func(a, b int) bool { return es[a].Name() < es[b].Name() })
	for _, e := range es {
		cp, cr := path.Join(p, e.Name()), ""
		if real != "" {
			cr = path.Join(real, e.Name())
		}
		ci, err := w.lstat(cp)
		if err != nil {
			err = w.visit(cp, cr, nil, err)
		} else {
			err = w.walk(cp, cr, ci, append(up[:len(up):len(up)], i))
		}
		if err == fs.SkipDir {
			return nil // the rest of this directory
		}
		if err != nil {
			return err
		}
	}
	return nil
}

var v07 = &rt.Check{ID: "V07", Level: "exploration",
	Rule: "random trees with links, link cycles and escaping links walked with visitors that skip, stop, fail and remove siblings anywhere, and with failing Lstat, Open and ReadDir, visit by visit against an independent walk of a kernel twin; non-trivial = more than three visits; distinct by visit log",
	Run: func(r *rt.Run) {
		type subject struct {
			name string
			mk   func(c *rt.Case, dir string) fsx.FS
		}
		subjects := []subject{
			{"osfs", func(c *rt.Case, dir string) fsx.FS { return vroot.Widen[*osfs.File](osFs(c, dir)) }},
			{"osroot", func(c *rt.Case, dir string) fsx.FS {
				return fsx.WrapRoot[*osfs.File, *osfs.Root](osRoot(c, dir)).FS
			}},
			{"mem", func(c *rt.Case, dir string) fsx.FS {
				m := mem()
				copyTree(c, dir, m)
				return m
			}},
		}
		names := []string{"a", "b", "a-", "d"}
		for _, s := range subjects {
			for _, follow := range []bool{false, true} {
				part := s.name + map[bool]string{false: "", true: "-follow"}[follow]
				r.CasesPar(part, r.N(1500, 40000), 8, func(c *rt.Case) {
					ops := treeOps(c, names, 4, 10+c.IntN(16), false)
					if follow && c.IntN(15) == 0 { // more links than one path may take
						ops = append(ops, fsx.Op{K: "mkdir", A: "t", Perm: 0o755}, fsx.Op{K: "mkdir", A: "t/s", Perm: 0o755})
						for i := range 36 + c.IntN(30) {
							ops = append(ops, fsx.Op{K: "symlink", A: pick(c.Rand, "t", "t", "t/s", "./t", "gone"), B: fmt.Sprintf("l%02d", i)})
						}
						c.R.Count("many-links")
					}
					sub, ref := subdir(c, "sub"), subdir(c, "ref")
					apply(osDirSys(sub), ops)
					apply(osDirSys(ref), ops)
					for _, o := range ops {
						c.Logf("%v", o)
					}
					real, err := filepath.EvalSymlinks(ref)
					c.Must(err)
					d, err := os.Open(ref)
					c.Must(err)
					defer d.Close()
					root := "."
					if c.IntN(3) == 0 {
						root = names[c.IntN(4)]
					}
					dec := decider{seed: c.Uint64(), names: names}
					set := func(p *int, den int) {
						if c.IntN(2) == 0 {
							*p = den
						}
					}
					set(&dec.skip, 12)
					set(&dec.all, 60)
					set(&dec.no, 60)
					set(&dec.remove, 6)
					// faults by virtual path
					lfail, ofail := 0, 0
					if !follow {
						set(&lfail, 8)
					}
					set(&ofail, 12)
					ferr := errors.New("injected")

					in := s.mk(c, sub)
					defer in.Close()
					mon := fsx.NewMon(in)
					active := false
					mon.Before = func(st fsx.Step) error {
						if !active {
							return nil
						}
						if st.Op == "lstat" && dec.hit(lfail, st.Name, "lfail") || st.Op == "open" && dec.hit(ofail, st.Name, "ofail") || st.Op == "readdir" && dec.hit(ofail, st.Name, "rfail") {
							c.R.Count("faults")
							return ferr
						}
						return nil
					}
					var got []visit
					active = true
					gerr := vroot.WalkDir[vroot.File, fsx.FS](mon, root, &vroot.WalkOption{ResolveSymlink: follow}, func(p, rp string, i fs.FileInfo, err error) error {
						active = false
						defer func() { active = true }()
						v := mkVisit(p, rp, i, err)
						got = append(got, v)
						if len(got) > 20000 {
							return errors.New("endless walk")
						}
						return dec.answer(v, func(p string) { in.RemoveAll(p) })
					})
					active = false
					for _, h := range mon.OpenHandles() {
						c.Fail("V07:"+part+":handle", "%s left open", h)
					}

					osr, err := os.OpenRoot(ref)
					c.Must(err)
					defer osr.Close()
					var want []visit
					w := &refWalk{c: c, dir: ref, root: d, real: real, follow: follow,
						lstat: func(p string) (fs.FileInfo, error) {
							if dec.hit(lfail, p, "lfail") {
								return nil, ferr
							}
							if s.name == "osroot" {
								return osr.Lstat(p)
							}
							if s.name == "mem" && p != "." {
								rp, e := beneath(c, d, real, path.Dir(p))
								if e != 0 {
									return nil, e
								}
								p = path.Join(rp, path.Base(p))
							}
							return os.Lstat(filepath.Join(ref, p))
						},
						readdir: func(p string) ([]fs.DirEntry, error) {
							if dec.hit(ofail, p, "ofail") {
								return nil, ferr
							}
							es, err := os.ReadDir(filepath.Join(ref, p))
							if err == nil && dec.hit(ofail, p, "rfail") {
								return nil, ferr
							}
							return es, err
						},
						stat: func(p string) (fs.FileInfo, error) {
							switch s.name {
							case "osfs":
								return os.Stat(filepath.Join(ref, p))
							case "osroot":
								return osr.Stat(p)
							}
							rp, e := beneath(c, d, real, p)
							if e != 0 {
								return nil, e
							}
							return os.Stat(filepath.Join(ref, rp))
						},
						fn: func(v visit) error {
							want = append(want, v)
							return dec.answer(v, func(p string) {
								if s.name == "osfs" {
									os.RemoveAll(filepath.Join(ref, p))
								} else {
									osr.RemoveAll(p)
								}
							})
						},
					}
					werr := w.run(root)
					c.R.Eval(len(want))
					c.R.CountN("visits", len(want))
					for _, v := range got {
						c.Logf("%v", v)
					}
					for i := 0; i < len(got) || i < len(want); i++ {
						g, wv := visit{path: "(none)"}, visit{path: "(none)"}
						if i < len(got) {
							g = got[i]
						}
						if i < len(want) {
							wv = want[i]
						}
						if g == wv {
							if g.err != "" {
								c.R.Count("error-visits")
							}
							continue
						}
						kind := "info"
						switch {
						case g.path != wv.path:
							kind = "path"
						case g.real != wv.real:
							kind = "real"
						case g.err != wv.err:
							kind = "error"
						}
						c.Fail("V07:"+part+":"+kind, "visit %d: %v, want %v", i, g, wv)
						return
					}
					if fmt.Sprint(gerr) != fmt.Sprint(werr) && !(gerr != nil && werr != nil) {
						c.Fail("V07:"+part+":result", "WalkDir returned %v, want %v", gerr, werr)
					}
					if errors.Is(werr, errVisit) && gerr != errVisit {
						c.Fail("V07:"+part+":result", "WalkDir returned %v, not the visitor's %v", gerr, werr)
					}
					if len(want) > 3 {
						var b strings.Builder
						for _, v := range want {
							b.WriteString(v.String())
						}
						c.R.Distinct(b.String())
					}
					if follow {
						c.R.CountN("follow-visits", len(want))
					}
					r.Sample("%s root %q: %v", part, root, got)
				})
			}
		}
		// control: the reference itself against fs.WalkDir on plain trees
		r.CasesPar("control", r.N(300, 3000), 8, func(c *rt.Case) {
			ref := subdir(c, "ref")
			apply(osDirSys(ref), treeOps(c, names, 4, 15, false))
			dec := decider{seed: c.Uint64(), names: names, skip: 7, all: 40}
			var want, got []string
			werr := fs.WalkDir(os.DirFS(ref), ".", func(p string, e fs.DirEntry, err error) error {
				want = append(want, p)
				return dec.answer(visit{path: p}, nil)
			})
			w := &refWalk{c: c, dir: ref,
				lstat:   func(p string) (fs.FileInfo, error) { return os.Lstat(filepath.Join(ref, p)) },
				readdir: func(p string) ([]fs.DirEntry, error) { return os.ReadDir(filepath.Join(ref, p)) },
				fn: func(v visit) error {
					got = append(got, v.path)
					return dec.answer(v, nil)
				}}
			gerr := w.run(".")
			c.R.Eval(1)
			if fmt.Sprint(got, gerr) != fmt.Sprint(want, werr) {
				c.R.HarnessErr("reference walk %v %v, fs.WalkDir %v %v", got, gerr, want, werr)
			}
		})
		r.CasesPar("mapfs", r.N(100, 1000), 8, func(c *rt.Case) {
			m := fstest.MapFS{}
			for i := 0; i < 1+c.IntN(10); i++ {
				var q []string
				for j := 0; j <= c.IntN(4); j++ {
					q = append(q, names[c.IntN(4)])
				}
				m[path.Join(q...)+".f"] = &fstest.MapFile{Data: make([]byte, c.IntN(5))}
			}
			var got, want []string
			fs.WalkDir(m, ".", func(p string, e fs.DirEntry, err error) error { want = append(want, p); return nil })
			err := vroot.WalkDir[vroot.File, fsx.FS](vroot.FromIoFs(m, "m"), ".", nil, func(p, rp string, i fs.FileInfo, err error) error {
				got = append(got, p)
				if err != nil || p != rp || i == nil {
					c.Fail("V07:mapfs:visit", "visit %q %q %v %v", p, rp, i, err)
				}
				return nil
			})
			c.R.Eval(1)
			if err != nil || fmt.Sprint(got) != fmt.Sprint(want) {
				c.Fail("V07:mapfs:order", "visited %v (%v), want %v", got, err, want)
			}
		})
		r.Floor("visits", 20000)
		r.Floor("follow-visits", 5000)
		r.Floor("faults", 500)
		r.Floor("error-visits", 500)
	}}
