package main

import (
	"path/filepath"

	"github.com/ngicks/go-fsys-helper/vroot"
	"github.com/ngicks/go-fsys-helper/vroot/osfs"
	"github.com/ngicks/go-fsys-helper/vroot/synthfs"
	"verif/harness/fsx"
	"verif/harness/rt"
)

type (
	memRoot  = synthfs.Root
	memNorm  = vroot.PathNormalizerRoot[vroot.File, *synthfs.Root]
	memLocal = vroot.PathLocalizerRoot[vroot.File, *synthfs.Root]
	osNorm   = vroot.PathNormalizerRoot[*osfs.File, *osfs.Root]
	osLocal  = vroot.PathLocalizerRoot[*osfs.File, *osfs.Root]
)

// mess respells a clean path.
func mess(g *fsx.Gen, p string) string {
	out := ""
	if g.IntN(3) == 0 {
		out = "./"
	}
	for i, b := range p {
		out += string(b)
		if b == '/' && i > 0 {
			switch g.IntN(6) {
			case 0:
				out += "/"
			case 1:
				out += "./"
			case 2:
				out += "zz/../"
			}
		}
	}
	switch g.IntN(8) {
	case 0:
		out += "/"
	case 1:
		out += "//"
	}
	return out
}

// cleaned maps an op onto clean names.
func cleaned(pre string) func(o fsx.Op) fsx.Op {
	j := func(p string) string { return filepath.Join(pre, p) }
	return func(o fsx.Op) fsx.Op {
		switch o.K {
		case "symlink":
			o.B = j(o.B)
		case "rename", "link":
			o.A, o.B = j(o.A), j(o.B)
		default:
			o.A = j(o.A)
		}
		return o
	}
}

var v03 = &rt.Check{ID: "V03", Level: "exploration",
	Rule: "the same random history through a wrapper and applied directly to the mapped, cleaned paths of a twin file system (the operating system by package os or os.Root, or a second in-memory tree); every outcome, the values read and the tree compared; non-trivial = at least two operations succeeded",
	Run: func(r *rt.Run) {
		kinds := fsx.BasicKinds
		type cfg struct {
			name  string
			roots bool
			messy bool
			pre   string
			mk    func(c *rt.Case) (got, want *fsx.World)
		}
		k := func(c *rt.Case, name string) *fsx.World {
			s, err := fsx.Kernel(subdir(c, name))
			c.Must(err)
			return fsx.NewWorld(s)
		}
		W := fsx.NewWorld
		cfgs := []cfg{
			{"osroot", true, false, "", func(c *rt.Case) (*fsx.World, *fsx.World) {
				return W(fsx.WrapRoot[*osfs.File, *osfs.Root](osRoot(c, subdir(c, "g")))), k(c, "w")
			}},
			{"osfs", false, true, "", func(c *rt.Case) (*fsx.World, *fsx.World) {
				return W(fsx.Wrap[*osfs.File](osFs(c, subdir(c, "g/in")))), W(osDirSys(subdir(c, "w/in")))
			}},
			{"osfs-openroot", true, false, "", func(c *rt.Case) (*fsx.World, *fsx.World) {
				subdir(c, "g/in")
				rr, err := osFs(c, subdir(c, "g")).OpenRoot("in")
				c.Must(err)
				return W(fsx.WrapRoot[*osfs.File, *osfs.Root](rr)), k(c, "w")
			}},
			{"os-subroot", true, false, "", func(c *rt.Case) (*fsx.World, *fsx.World) {
				subdir(c, "g/p/q")
				rr, err := osRoot(c, subdir(c, "g")).OpenRoot("p/q")
				c.Must(err)
				return W(fsx.WrapRoot[*osfs.File, *osfs.Root](rr)), k(c, "w")
			}},
			{"mem-subroot", true, false, "", func(c *rt.Case) (*fsx.World, *fsx.World) {
				m := mem()
				c.Must(m.MkdirAll("p/q", 0o755))
				rr, err := m.OpenRoot("p/q")
				c.Must(err)
				return W(fsx.WrapRoot[vroot.File, *memRoot](rr)), W(fsx.WrapRoot[vroot.File, *memRoot](mem()))
			}},
			{"prefix-mem", false, true, "p/q", func(c *rt.Case) (*fsx.World, *fsx.World) {
				m, m2 := mem(), mem()
				c.Must(m.MkdirAll("p/q", 0o755))
				c.Must(m2.MkdirAll("p/q", 0o755))
				p, err := vroot.NewPathPrefixFs[vroot.File](m, pick(c.Rand, "p/q", "./p/q/", "p//q"))
				c.Must(err)
				return W(fsx.Wrap[vroot.File](p)), W(fsx.WrapRoot[vroot.File, *memRoot](m2))
			}},
			{"sub-mem", false, true, "p/q", func(c *rt.Case) (*fsx.World, *fsx.World) {
				m, m2 := mem(), mem()
				c.Must(m.MkdirAll("p/q", 0o755))
				c.Must(m2.MkdirAll("p/q", 0o755))
				p, err := vroot.Sub[vroot.File](m, "p/q")
				c.Must(err)
				return W(fsx.Wrap[vroot.File](p)), W(fsx.WrapRoot[vroot.File, *memRoot](m2))
			}},
			{"prefix-osfs", false, true, "p/q", func(c *rt.Case) (*fsx.World, *fsx.World) {
				subdir(c, "g/p/q")
				subdir(c, "w/p/q")
				p, err := vroot.NewPathPrefixFs[*osfs.File](osFs(c, subdir(c, "g")), "p/q")
				c.Must(err)
				return W(fsx.Wrap[*osfs.File](p)), W(osDirSys(subdir(c, "w")))
			}},
			{"prefix-prefix-osroot", false, true, "p/q", func(c *rt.Case) (*fsx.World, *fsx.World) {
				subdir(c, "g/p/q")
				subdir(c, "w/p/q")
				p, err := vroot.NewPathPrefixFs[*osfs.File](osRoot(c, subdir(c, "g")), "p")
				c.Must(err)
				q, err := vroot.Sub[*osfs.File](p, "q")
				c.Must(err)
				return W(fsx.Wrap[*osfs.File](q)), k(c, "w")
			}},
			{"normalizer-mem", true, true, "", func(c *rt.Case) (*fsx.World, *fsx.World) {
				return W(fsx.WrapRoot[vroot.File, *memNorm](vroot.NewPathNormalizerRoot[vroot.File](mem()))), W(fsx.WrapRoot[vroot.File, *memRoot](mem()))
			}},
			{"localizer-osroot", true, true, "", func(c *rt.Case) (*fsx.World, *fsx.World) {
				return W(fsx.WrapRoot[*osfs.File, *osLocal](vroot.NewPathLocalizerRoot[*osfs.File](osRoot(c, subdir(c, "g"))))), k(c, "w")
			}},
			{"normalizer-osroot", true, true, "", func(c *rt.Case) (*fsx.World, *fsx.World) {
				return W(fsx.WrapRoot[*osfs.File, *osNorm](vroot.NewPathNormalizerRoot[*osfs.File](osRoot(c, subdir(c, "g"))))), k(c, "w")
			}},
			{"normfs-localfs-osfs", false, true, "", func(c *rt.Case) (*fsx.World, *fsx.World) {
				return W(fsx.Wrap[*osfs.File](vroot.NewPathNormalizerFs[*osfs.File](vroot.NewPathLocalizerFs[*osfs.File](osFs(c, subdir(c, "g")))))), W(osDirSys(subdir(c, "w")))
			}},
			{"widen-osroot", false, false, "", func(c *rt.Case) (*fsx.World, *fsx.World) {
				return W(fsx.Sys{FS: vroot.Widen[*osfs.File](osRoot(c, subdir(c, "g")))}), k(c, "w")
			}},
			{"widen-osfs", false, true, "", func(c *rt.Case) (*fsx.World, *fsx.World) {
				return W(fsx.Sys{FS: vroot.Widen[*osfs.File](osFs(c, subdir(c, "g")))}), W(osDirSys(subdir(c, "w")))
			}},
		}
		for _, f := range cfgs {
			r.CasesPar(f.name, r.N(350, 8000), 8, func(c *rt.Case) {
				got, want := f.mk(c)
				defer got.Roots[0].Close()
				defer want.Roots[0].Close()
				defer got.CloseAll()
				defer want.CloseAll()
				g := &fsx.Gen{Rand: c.Rand, Names: []string{"a", "b", "a-"}, Depth: 3, Kinds: append([]string{"lchown", "chown"}, kinds...), Handles: 3, Targets: linkTargets}
				if f.pre != "" { // keep links inside the prefix, and also let them leave it for the tree around
					g.Targets = append([]string{"../../p/q/a", "../../../p"}, linkTargets...)
				}
				if f.roots {
					g.Kinds = append([]string{"openroot", "openroot", "openroot", "closeroot"}, kinds...)
					g.Roots = 3
				}
				if f.messy {
					g.Pth = func(g *fsx.Gen) string {
						q := *g
						q.Pth = nil
						return mess(g, q.Path())
					}
				}
				opt := fsx.DiffOpt{ID: "V03", Part: f.name, Steps: 40, Every: 20, Skip: danglingOnPath}
				opt.MapWant = cleaned(f.pre)
				if f.pre != "" {
					opt.WantDump = func() fsx.Tree { return fsx.DumpAt(want.Roots[0], f.pre, opt.Dump) }
				}
				fsx.Differential(c, got, want, g, opt)
				r.Sample("%s %v", f.name, c.Log())
			})
		}
		// constructors refuse what is no directory
		r.Cases("ctor", 1, func(c *rt.Case) {
			m := mem()
			c.Must(vroot.WriteFile[vroot.File](m, "f", []byte("x"), 0o644))
			for _, p := range []string{"", "nope", "f", "f/x", "../x"} {
				if w, err := vroot.NewPathPrefixFs[vroot.File](m, p); err == nil {
					c.Fail("V03:ctor", "NewPathPrefixFs(%q) = %v", p, w)
				}
				if _, err := vroot.Sub[vroot.File](m, p); err == nil {
					c.Fail("V03:ctor", "Sub(%q) succeeded", p)
				}
				r.Eval(1)
			}
		})
		r.Floor("effective-ops", 20000)
	}}
