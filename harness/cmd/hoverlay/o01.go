package main

import (
	"strings"

	"verif/harness/fsx"
	"verif/harness/ovl"
	"verif/harness/rt"
)

var o01 = &rt.Check{ID: "O01", Level: "exploration",
	Rule:        "random stacks of one to four layers (plain and canonical, kernel and in-memory, conflicting kinds, whiteouts, opaque directories, links) and random histories through the overlay and its sub-overlays; every outcome, and every few operations the whole tree as listing, Lstat, Stat, Open and ReadLink show it, compared with a kernel directory that held the union; pipes and sockets of a lower show, can be masked and replaced, and what would copy them up is refused and changes nothing; non-trivial = at least two operations succeeded; distinct by operation, precondition and outcome sequence",
	Assumptions: []string{"directory renames may be refused with EXDEV only when a lower layer has the directory", "handles on lower files keep the content they were opened on (judged in O07)"},
	Run: func(r *rt.Run) {
		run := func(part string, n int, steps int, kinds []string, mtime bool, mod func(c *rt.Case, g *fsx.Gen)) {
			r.CasesPar(part, n, 8, func(c *rt.Case) {
				s := genStack(c)
				if part == "sticky" {
					s = ovl.Gen(c, ovl.GenOpt{Names: []string{"a", "b", "a-"}, Depth: 3, Targets: linkTargets, Lowers: 2, Ents: 9, Backs: []string{"os"}, Sticky: true})
				}
				mount(c, s)
				defer s.Release()
				p := newPair(c, s)
				defer p.close()
				g := &fsx.Gen{Rand: c.Rand, Names: []string{"a", "b", "a-"}, Depth: 3, Kinds: kinds, Handles: 4, Targets: linkTargets}
				if mod != nil {
					mod(c, g)
				}
				opt := fsx.DiffOpt{ID: "O01", Steps: steps, Every: 5, LooseOps: looseOps, Continue: tolerated, First: p.first, After: p.after,
					Skip: func(w *fsx.World, o fsx.Op) bool { return kindSkip(w, o) || underSub(w, o) }}
				if mtime && s.Back[0].Kind == "os" {
					opt.Dump = fsx.DumpOpt{Mtime: true, Since: since}
				}
				if d := fsx.Diff(fsx.Dump(p.got.Roots[0], opt.Dump), fsx.Dump(p.want.Roots[0], opt.Dump)); d != "" {
					c.Fail("O01:union:"+fsx.DiffKind(fsx.Dump(p.got.Roots[0], opt.Dump), fsx.Dump(p.want.Roots[0], opt.Dump)), "the fresh overlay: %s", d)
					return
				}
				r.Eval(1)
				fsx.Differential(c, p.got, p.want, g, opt)
				c.Must(s.O.Close())
				r.Sample("%v", c.Log())
			})
		}
		base := without(fsx.BasicKinds, "hreaddir", "readat")
		base = append(base, "appendfile", "appendfile", "remove", "removeall", "rename")
		links := without(base, "chmod", "fchmod")
		modes := without(base, "link")
		run("sticky", r.N(300, 6000), 30, modes, true, nil)
		run("modes", r.N(2200, 60000), 40, modes, true, nil)
		run("links", r.N(1600, 40000), 40, links, true, nil)
		tree := strings.Fields(`mkdir mkdir mkdirall remove remove removeall removeall rename rename rename rename writefile symlink list lstat readfile`)
		run("tree", r.N(2000, 60000), 60, tree, true, nil)
		run("roots", r.N(1000, 30000), 50, append(without(links), "openroot", "openroot", "openroot", "closeroot"), true, func(c *rt.Case, g *fsx.Gen) { g.Roots = 3 })
		run("dots", r.N(700, 15000), 30, append(without(links), "openroot"), true, func(c *rt.Case, g *fsx.Gen) {
			g.Roots = 2
			h := *g
			g.Pth = func(*fsx.Gen) string {
				n := h.Path()
				switch c.IntN(8) {
				case 0:
					return "."
				case 3:
					return "./" + n
				}
				return n
			}
		})
		r.CasesPar("special", r.N(300, 5000), 8, special)
		r.Floor("special files not copied up", 300)
		r.Floor("effective-ops", 20000)
		r.Floor("renames refused: lower directory", 100)
	}}
