package main

import (
	"io"
	"io/fs"
	"os"
	"strings"
	"sync/atomic"
	"time"

	"github.com/ngicks/go-fsys-helper/vroot"
	"github.com/ngicks/go-fsys-helper/vroot/osfs"
	"verif/harness/fsx"
	"verif/harness/rt"
)

type (
	roMem = vroot.ReadOnlyRoot[vroot.File, *memRoot]
	roOs  = vroot.ReadOnlyRoot[*osfs.File, *osfs.Root]
)

var allOps = append(strings.Fields("chown lchown appendfile"), fsx.BasicKinds...)

// mutating tells whether an op asks for a change.
func mutating(o fsx.Op) bool {
	switch o.K {
	case "mkdir", "mkdirall", "remove", "removeall", "rename", "link", "symlink", "chmod", "chown", "lchown", "chtimes",
		"writefile", "appendfile", "create", "write", "writestring", "writeat", "truncate", "fchmod":
		return true
	case "openfile":
		return o.Flag&(os.O_WRONLY|os.O_RDWR|os.O_CREATE|os.O_TRUNC) != 0
	}
	return false
}

// readOnlyRun drives ro with any ops; reading ones must answer like direct,
// changing ones must fail, and nothing may reach beneath.
func readOnlyRun(c *rt.Case, part string, ro, direct fsx.Sys, muts func() []string, handles bool, steps int) {
	before := fsx.Dump(direct, fsx.DumpOpt{Mtime: true})
	got, want := fsx.NewWorld(ro), fsx.NewWorld(direct)
	defer got.CloseAll()
	defer want.CloseAll()
	g := &fsx.Gen{Rand: c.Rand, Names: []string{"a", "b", "a-"}, Depth: 3, Kinds: allOps, Handles: 3, Targets: linkTargets}
	if ro.Sub != nil {
		g.Kinds = append([]string{"openroot", "openroot"}, g.Kinds...)
		g.Roots = 3
	}
	refused := 0
	for i := 0; i < steps; i++ {
		o := g.Next()
		if o.K == "open" && g.IntN(2) == 0 {
			o.K, o.Flag = "openfile", os.O_RDONLY
		}
		if o.K == "openfile" && g.IntN(5) == 0 { // truncates without asking to write
			o.Flag = os.O_RDONLY | os.O_TRUNC | pick(g.Rand, 0, os.O_APPEND, os.O_SYNC, os.O_CREATE)
		}
		if o.K == "sync" || o.K == "close" && !handles {
			continue
		}
		if mutating(o) {
			_, okR := got.Roots[o.R]
			isH := strings.Contains("write writestring writeat truncate fchmod", o.K)
			if !okR || isH && got.Files[o.H] == nil {
				continue
			}
			gt := got.Exec(o)
			c.Logf("%v = %v", o, gt)
			c.R.Eval(1)
			c.R.Count("mutating")
			if gt.Err == "ok" || gt.Err == "eof" {
				c.Fail("V04:"+part+":"+o.K+":accepted", "%v succeeded through a read-only wrapper", o)
				return
			}
			refused++
		} else {
			w := want.Exec(o)
			if w.Err == "" {
				got.Exec(o)
				continue
			}
			gt := got.Exec(o)
			c.Logf("%v = %v", o, gt)
			c.R.Eval(1)
			c.R.Count("reading")
			ge, we := gt.Err, w.Err
			if o.K == "hreaddir" || o.K == "close" {
				if ge != "ok" {
					ge = "error"
				}
				if we != "ok" {
					we = "error"
				}
			}
			if ge != we || gt.Val != w.Val && gt.Err == "ok" {
				c.Fail("V04:"+part+":"+o.K+":"+gt.Err+"/"+w.Err, "%v: got %v, directly %v", o, gt, w)
				return
			}
		}
		if l := muts(); len(l) > 0 {
			c.Fail("V04:"+part+":"+o.K+":reached", "%v let %v through", o, l)
			return
		}
	}
	// handles themselves: everything that can write
	for _, f := range got.Files {
		for what, fn := range map[string]func() error{
			"Chown":    func() error { return f.Chown(-1, -1) },
			"Chmod":    func() error { return f.Chmod(0o700) },
			"Truncate": func() error { return f.Truncate(0) },
			"Write":    func() error { _, e := f.Write([]byte("x")); return e },
			"WriteAt":  func() error { _, e := f.WriteAt([]byte("x"), 0); return e },
			"WriteStr": func() error { _, e := f.WriteString("x"); return e },
			"Write0":   func() error { _, e := f.Write(nil); return e },
			"ReadFrom": func() error {
				if rf, ok := f.(io.ReaderFrom); ok {
					_, e := rf.ReadFrom(strings.NewReader("x"))
					return e
				}
				return fs.ErrInvalid
			},
		} {
			c.R.Eval(1)
			if err := fn(); err == nil {
				c.Fail("V04:"+part+":handle-"+what, "handle %s succeeded", what)
			}
		}
		break
	}
	if l := muts(); len(l) > 0 {
		c.Fail("V04:"+part+":handle:reached", "handles let %v through", l)
	}
	if d := fsx.Diff(fsx.Dump(direct, fsx.DumpOpt{Mtime: true}), before); d != "" {
		c.Fail("V04:"+part+":changed", "beneath the wrapper: %s", d)
	}
	// the same through the wrapper's own eyes
	if d := fsx.Diff(fsx.Dump(ro, fsx.DumpOpt{Mtime: true}), before); d != "" {
		c.Fail("V04:"+part+":view", "seen through the wrapper: %s", d)
	}
	if refused > 3 {
		c.R.Distinct(strings.Join(c.Log(), ";"))
	}
}

func noMuts() []string { return nil }

func monitor(in fsx.FS) (*fsx.Mon, func() []string) {
	m := fsx.NewMon(in)
	var n atomic.Int32
	var first atomic.Value
	m.Before = func(s fsx.Step) error {
		if s.Mut {
			n.Add(1)
			first.CompareAndSwap(nil, s.String())
		}
		return nil
	}
	return m, func() []string {
		if n.Load() == 0 {
			return nil
		}
		return []string{first.Load().(string)}
	}
}

var v04 = &rt.Check{ID: "V04", Level: "exploration",
	Rule: "random histories of all operations through read-only wrappers of a random tree; a recording file system beneath must see no mutating call, every changing call must fail, every reading call must answer as directly, and the tree (with times) must stay; non-trivial = more than three changing calls refused",
	Run: func(r *rt.Run) {
		n := r.N(500, 12000)
		tree := func(c *rt.Case, s fsx.Sys) {
			apply(s, treeOps(c, []string{"a", "b", "a-"}, 3, 14, false))
			s.Chtimes("a", time.Unix(1e9, 0), time.Unix(1e9, 0))
		}
		type cfg struct {
			name string
			mk   func(c *rt.Case) (ro, direct fsx.Sys, muts func() []string)
		}
		for _, f := range []cfg{
			{"fs-mem", func(c *rt.Case) (fsx.Sys, fsx.Sys, func() []string) {
				m := fsx.WrapRoot[vroot.File, *memRoot](mem())
				tree(c, m)
				mon, muts := monitor(m.FS)
				return fsx.Wrap[*vroot.ReadOnlyFile](vroot.NewReadOnlyFs[vroot.File](mon)), fsx.Sys{FS: m.FS}, muts
			}},
			{"fs-osfs", func(c *rt.Case) (fsx.Sys, fsx.Sys, func() []string) {
				m := fsx.Wrap[*osfs.File](osFs(c, subdir(c, "g")))
				tree(c, m)
				mon, muts := monitor(m.FS)
				return fsx.Wrap[*vroot.ReadOnlyFile](vroot.NewReadOnlyFs[vroot.File](mon)), m, muts
			}},
			{"sub-of-fs", func(c *rt.Case) (fsx.Sys, fsx.Sys, func() []string) {
				inner := mem()
				c.Must(inner.MkdirAll("p/q", 0o755))
				sub, err := inner.OpenRoot("p/q")
				c.Must(err)
				m := fsx.WrapRoot[vroot.File, *memRoot](sub)
				tree(c, m)
				mon, muts := monitor(inner)
				s, err := vroot.Sub[*vroot.ReadOnlyFile](vroot.NewReadOnlyFs[vroot.File](mon), "p/q")
				c.Must(err)
				// links out of the prefix are not contained there: compare with a prefix
				d, err := vroot.NewPathPrefixFs[vroot.File](inner, "p/q")
				c.Must(err)
				return fsx.Wrap[*vroot.ReadOnlyFile](s), fsx.Wrap[vroot.File](d), muts
			}},
			{"root-mem", func(c *rt.Case) (fsx.Sys, fsx.Sys, func() []string) {
				rr := mem()
				m := fsx.WrapRoot[vroot.File, *memRoot](rr)
				tree(c, m)
				return fsx.WrapRoot[*vroot.ReadOnlyFile, *roMem](vroot.NewReadOnlyRoot[vroot.File](rr)), m, noMuts
			}},
			{"root-os", func(c *rt.Case) (fsx.Sys, fsx.Sys, func() []string) {
				rr := osRoot(c, subdir(c, "g"))
				m := fsx.WrapRoot[*osfs.File, *osfs.Root](rr)
				tree(c, m)
				return fsx.WrapRoot[*vroot.ReadOnlyFile, *roOs](vroot.NewReadOnlyRoot[*osfs.File](rr)), m, noMuts
			}},
			{"from-iofs-mem", func(c *rt.Case) (fsx.Sys, fsx.Sys, func() []string) {
				rr := mem()
				m := fsx.WrapRoot[vroot.File, *memRoot](rr)
				tree(c, m)
				mon, muts := monitor(m.FS)
				return fsx.Sys{FS: vroot.FromIoFs(vroot.ToIoFs[vroot.File](mon).(fs.ReadLinkFS), "x")}, fsx.Sys{FS: m.FS}, muts
			}},
			{"from-iofs-dirfs", func(c *rt.Case) (fsx.Sys, fsx.Sys, func() []string) {
				dir := subdir(c, "g")
				m := osDirSys(dir)
				tree(c, m)
				return fsx.Sys{FS: vroot.FromIoFs(os.DirFS(dir).(fs.ReadLinkFS), "x")}, m, noMuts
			}},
		} {
			r.CasesPar(f.name, n, 8, func(c *rt.Case) {
				ro, direct, muts := f.mk(c)
				defer direct.Close()
				readOnlyRun(c, f.name, ro, direct, muts, f.name != "from-iofs-mem", 40)
				r.Sample("%s %v", f.name, c.Log())
			})
		}
		// a read-only handle over a writable one
		r.CasesPar("file", n, 8, func(c *rt.Case) {
			m := mem()
			data := make([]byte, c.IntN(50))
			for i := range data {
				data[i] = byte(c.IntN(256))
			}
			c.Must(vroot.WriteFile[vroot.File](m, "f", data, 0o644))
			open := func() vroot.File { f, err := m.OpenFile("f", os.O_RDWR, 0); c.Must(err); return f }
			ro, err := vroot.NewReadOnlyFile(open(), nil)
			c.Must(err)
			got, want := fsx.NewWorld(fsx.Sys{FS: m}), fsx.NewWorld(fsx.Sys{FS: m})
			got.Files[0], want.Files[0] = ro, open()
			g := &fsx.Gen{Rand: c.Rand, Names: []string{"f"}, Depth: 1, Kinds: strings.Fields("read read readat seek seek fstat write writeat writestring truncate fchmod"), Handles: 1}
			for i := 0; i < 25; i++ {
				o := g.Next()
				c.R.Eval(1)
				if mutating(o) {
					if gt := got.Exec(o); gt.Err == "ok" {
						c.Fail("V04:file:"+o.K+":accepted", "%v succeeded", o)
					}
					continue
				}
				w, gt := want.Exec(o), got.Exec(o)
				c.Logf("%v = %v", o, gt)
				if w.Err != gt.Err || w.Val != gt.Val {
					c.Fail("V04:file:"+o.K+":differs", "%v: got %v, directly %v", o, gt, w)
				}
			}
			if b, err := vroot.ReadFile[vroot.File](m, "f"); err != nil || string(b) != string(data) {
				c.Fail("V04:file:changed", "content %x, want %x (%v)", b, data, err)
			}
			if err := ro.Close(); err != nil {
				c.Fail("V04:file:close", "Close: %v", err)
			}
			if f, err := vroot.NewReadOnlyFile(vroot.File(nil), fs.ErrPermission); f != nil || err != fs.ErrPermission {
				c.Fail("V04:file:ctor", "NewReadOnlyFile(nil, err) = %v, %v", f, err)
			}
		})
		r.Floor("mutating", 5000)
		r.Floor("reading", 5000)
	}}
