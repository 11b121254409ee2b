package fsx

import (
	"fmt"
	"io/fs"
	"strings"

	"verif/harness/rt"
)

// DiffOpt tunes a differential history.
type DiffOpt struct {
	ID       string
	Steps    int
	Dump     DumpOpt
	Every    int                            // dump every so many steps (0: end only)
	Skip     func(want *World, o Op) bool   // do not perform the op at all
	Continue func(o Op, got, want Out) bool // tolerated difference that leaves both alike: go on
	Errs     func(o Op, got, want Out) bool // tolerated difference of outcomes: stop quietly
	PathErr  bool                           // compare the paths errors carry
	Ops      []Op                           // fixed history instead of generated
	MapWant  func(o Op) Op                  // op as applied to the reference
	Same     func(o Op, got, want Out) bool // further equalities
	LooseOps map[string]bool
	Loose    bool // compare only ok/failed
	GotDump  func() Tree
	WantDump func() Tree
	Part     string // prefix of signatures
	Note     func(o Op, out Out)
	First    func(o Op, got func() Out) (out Out, done bool) // runs the op; done: settled without comparison
	After    func(o Op, got, want Out) bool                  // further judgement; false: stop
}

// Pre describes what an operation met, for signatures.
func Pre(w *World, o Op) string {
	s, ok := w.Roots[o.R]
	if !ok {
		return ""
	}
	switch o.K {
	case "symlink":
		return Kind(s, o.B)
	case "rename", "link":
		p := Kind(s, o.A) + ">" + Kind(s, o.B)
		if o.A == o.B {
			p += ":self"
		} else if strings.HasPrefix(o.B, o.A+"/") {
			p += ":into"
		} else if i, err := s.Lstat(o.A); err == nil {
			if j, err := s.Lstat(o.B); err == nil && SameFile(i, j) {
				p += ":same"
			}
		}
		return p
	case "openfile":
		return Kind(s, o.A) + ":" + flagStr(o.Flag)
	case "close", "read", "readat", "write", "writeat", "writestring", "seek", "truncate", "fstat", "fchmod", "sync", "hreaddir", "closeroot", "hrewind":
		return ""
	}
	return Kind(s, o.A)
}

// Differential runs one history against both worlds and reports the first
// divergence. It returns whether it ran to the end.
func Differential(c *rt.Case, got, want *World, g *Gen, opt DiffOpt) bool {
	steps := opt.Steps
	if opt.Ops != nil {
		steps = len(opt.Ops)
	}
	key := ""
	id := opt.ID
	if opt.Part != "" {
		id += ":" + opt.Part
	}
	okOps := 0
	cmp := func() bool {
		gd := Tree(nil)
		if opt.GotDump != nil {
			gd = opt.GotDump()
		} else {
			gd = Dump(got.Roots[0], opt.Dump)
		}
		wd := Tree(nil)
		if opt.WantDump != nil {
			wd = opt.WantDump()
		} else {
			wd = Dump(want.Roots[0], opt.Dump)
		}
		c.R.Eval(1)
		if d := Diff(gd, wd); d != "" {
			c.Fail(fmt.Sprintf("%s:tree:%s", id, DiffKind(gd, wd)), "tree after the history: %s", d)
			return false
		}
		return true
	}
	for i := 0; i < steps; i++ {
		var o Op
		if opt.Ops != nil {
			o = opt.Ops[i]
		} else {
			o = g.Next()
		}
		if opt.Skip != nil && opt.Skip(want, o) {
			continue
		}
		wo := o
		if opt.MapWant != nil {
			wo = opt.MapWant(o)
		}
		pre := Pre(want, wo)
		var gt Out
		if opt.First != nil {
			var done bool
			gt, done = opt.First(o, func() Out { return got.Exec(o) })
			if done {
				if gt.Err != "" {
					c.Logf("%v = %v (settled)", o, gt)
				}
				continue
			}
		}
		w := want.Exec(wo)
		if w.Err == "" {
			continue
		}
		if opt.First == nil {
			gt = got.Exec(o)
		}
		c.Logf("%v = %v", o, gt)
		c.R.Eval(1)
		c.R.Count("op:" + o.K)
		if w.Err == "ok" {
			okOps++
		}
		if opt.Note != nil {
			opt.Note(o, gt)
		}
		key += fmt.Sprintf("%s%s%s%s;", o.K, pre, w.Err, o.A)
		ge, we := gt.Err, w.Err
		if opt.Loose || opt.LooseOps[o.K] {
			if ge != "ok" && ge != "eof" {
				ge = "error"
			}
			if we != "ok" && we != "eof" {
				we = "error"
			}
		}
		same := ge == we && (gt.Val == w.Val || ge != "ok" && ge != "eof" && !isIO(o.K))
		if same && opt.PathErr && gt.Pth != w.Pth {
			c.Fail(fmt.Sprintf("%s:%s:error-path", id, o.K), "%v: error names %q, want %q (%v / %v)", o, gt.Pth, w.Pth, gt.Raw, w.Raw)
			return false
		}
		if same && opt.Same != nil {
			same = opt.Same(o, gt, w)
		}
		if !same {
			if opt.Continue != nil && opt.Continue(o, gt, w) {
				continue
			}
			if opt.Errs != nil && opt.Errs(o, gt, w) {
				c.R.Count("tolerated")
				return true
			}
			what := gt.Err + "/" + w.Err
			if gt.Err == w.Err {
				what = "value"
			}
			c.Fail(fmt.Sprintf("%s:%s[%s]:%s", id, o.K, pre, what), "%v [%s]: got %v, want %v", o, pre, gt, w)
			return false
		}
		if opt.After != nil && !opt.After(o, gt, w) {
			return false
		}
		if opt.Every > 0 && i%opt.Every == opt.Every-1 && i+1 < steps {
			if !cmp() {
				return false
			}
		}
	}
	ok := cmp()
	c.R.CountN("effective-ops", okOps)
	if okOps >= 2 {
		c.R.Distinct(key)
	}
	return ok
}

func isIO(k string) bool {
	switch k {
	case "read", "readat", "write", "writeat", "writestring":
		return true
	}
	return false
}

// SameFile tells whether two kernel infos are one file.
func SameFile(a, b fs.FileInfo) bool { return sameFile(a, b) }
