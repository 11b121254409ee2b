package main

import (
	"fmt"
	"os"
	"strings"
	"time"

	"github.com/ngicks/go-fsys-helper/vroot"
	"github.com/ngicks/go-fsys-helper/vroot-adapter/overlayfs"
	"github.com/ngicks/go-fsys-helper/vroot/memfs"
	"verif/harness/fsx"
	"verif/harness/ovl"
	"verif/harness/rt"
)

// scripts are short histories of an overlay that move data between layers.
var scripts = [][]fsx.Op{
	{{K: "openfile", A: "d/b", Flag: os.O_RDWR}, {K: "write", Data: []byte("xyz")}, {K: "truncate", Off: 1}, {K: "fchmod", Perm: 0o600}, {K: "sync"}},
	{{K: "openfile", A: "d/e/big", Flag: os.O_WRONLY | os.O_APPEND}, {K: "write", Data: []byte("xyz")}},
	{{K: "openfile", A: "d/e/big", Flag: os.O_WRONLY | os.O_TRUNC}, {K: "write", Data: []byte("xyz")}},
	{{K: "openfile", A: "l", Flag: os.O_RDWR}, {K: "writeat", Off: 3, Data: []byte("xyz")}},
	{{K: "chmod", A: "d/b", Perm: 0o600}, {K: "chmod", A: "d/e", Perm: 0o700}, {K: "chmod", A: "l", Perm: 0o640}},
	{{K: "chtimes", A: "d/e/c", T: time.Unix(1e9, 0)}, {K: "chtimes", A: "d", T: time.Unix(1e9, 0)}},
	{{K: "lchown", A: "l"}, {K: "lchown", A: "d/b"}, {K: "chown", A: "d/e/c"}},
	{{K: "rename", A: "d/e/big", B: "x"}, {K: "rename", A: "l", B: "d/m"}, {K: "rename", A: "a", B: "d/b"}},
	{{K: "rename", A: "d", B: "q"}, {K: "list", A: "q"}, {K: "readfile", A: "q/e/c"}},
	{{K: "link", A: "d/b", B: "d/e/b"}, {K: "link", A: "a", B: "z"}, {K: "writefile", A: "z", Data: []byte("q"), Perm: 0o644}},
	{{K: "remove", A: "d/b"}, {K: "remove", A: "d/empty"}, {K: "removeall", A: "d"}, {K: "mkdir", A: "d", Perm: 0o755}, {K: "list", A: "d"}},
	{{K: "open", A: "d/e/big"}, {K: "read", N: 10}, {K: "writefile", A: "d/e/big", Data: []byte("new"), Perm: 0o644}, {K: "read", N: 10}, {K: "seek", N: 0}, {K: "read", N: 10}, {K: "fstat"}, {K: "readat", N: 4}},
	{{K: "open", A: "d/e/c"}, {K: "openfile", A: "d/e/c", Flag: os.O_RDWR, H: 1}, {K: "write", H: 1, Data: []byte("1")}, {K: "read", N: 5}, {K: "remove", A: "d/e/c"}, {K: "read", N: 5}, {K: "fstat"}},
	{{K: "open", A: "d"}, {K: "hreaddir", N: 1}, {K: "mkdir", A: "d/new", Perm: 0o755}, {K: "hreaddir", N: 2}, {K: "hrewind"}, {K: "hreaddir", N: -1}, {K: "fstat"}, {K: "fchmod", Perm: 0o700}},
	{{K: "open", A: "."}, {K: "hreaddir", N: 2}, {K: "open", A: "d/e", H: 1}, {K: "hreaddir", H: 1, N: 1}, {K: "removeall", A: "d/e"}, {K: "hreaddir", H: 1, N: 1}, {K: "hrewind"}, {K: "hreaddir", N: -1}},
	{{K: "openroot", A: "d", H: 1}, {K: "writefile", R: 1, A: "b", Data: []byte("1"), Perm: 0o644}, {K: "create", R: 1, A: "e/new"}, {K: "write", Data: []byte("1")}, {K: "closeroot", H: 1}},
	{{K: "openroot", A: "d/e", H: 1}, {K: "openroot", R: 1, A: ".", H: 2}, {K: "list", R: 2, A: "."}, {K: "open", R: 2, A: "big"}, {K: "read", N: 3}, {K: "open", R: 2, A: ".", H: 1}, {K: "hreaddir", H: 1, N: 1}},
	{{K: "list", A: "."}, {K: "list", A: "d"}, {K: "stat", A: "l"}, {K: "lstat", A: "d/up"}, {K: "readfile", A: "d/up"}, {K: "readlink", A: "d/loop"}, {K: "stat", A: "d/loop"}},
	{{K: "create", A: "d/e/n/x"}, {K: "mkdirall", A: "d/e/n/m", Perm: 0o755}, {K: "create", A: "d/e/n/x"}, {K: "create", A: "d/empty/x", H: 1}, {K: "openfile", A: "d/b", Flag: os.O_RDWR | os.O_CREATE | os.O_EXCL, H: 2}, {K: "symlink", A: "x", B: "d/e/s"}, {K: "symlink", A: "x", B: "d/b"}},
	{{K: "open", A: "nowhere"}, {K: "open", A: "a/b"}, {K: "openfile", A: "d", Flag: os.O_RDWR}, {K: "openfile", A: "d/dangling", Flag: os.O_RDWR}, {K: "openfile", A: "d/dangling", Flag: os.O_WRONLY | os.O_CREATE}, {K: "openroot", A: "a", H: 1}, {K: "openroot", A: "nowhere", H: 1}},
}

// copyups runs a script over a fresh overlay once for every call it makes to
// the layers, with that call failing.
func copyups(c *rt.Case) {
	r := c.R
	sc := scripts[c.Idx%len(scripts)]
	shape := c.Idx / len(scripts) % 4 // bit 0: a canonical layer between; bit 1: removal of open files refused
	fault := c.IntN(20)
	var counts []int
	run := func(on, at int) bool {
		canon := []bool{true, false}
		if shape&1 != 0 {
			canon = []bool{true, true, false}
		}
		var ws []*ward
		var ds []*overlayfs.DataSource
		for i, cn := range canon {
			m := vroot.Widen[vroot.File](memfs.New("m"))
			w := newWard(m)
			ws = append(ws, w)
			if !cn {
				seedTree(c, m)
				ds = append(ds, overlayfs.NewDataSource[vroot.File](w))
				continue
			}
			c.Must(m.MkdirAll("merged", 0o755))
			c.Must(m.MkdirAll("work", 0o755))
			if i > 0 {
				c.Must(m.MkdirAll("merged/d/e", 0o755))
				c.Must(vroot.WriteFile(m, "merged/d/e/c", []byte("middle"), 0o644))
			}
			d, err := overlayfs.NewDataSourceCanonicalStore[vroot.File](w, ovl.NewStore())
			c.Must(err)
			ds = append(ds, d)
		}
		o, err := overlayfs.New(ds[0], ds[1:], &overlayfs.Option{DisableOpenFileRemoval: shape&2 != 0})
		c.Must(err)
		base := make([]int, len(ws))
		for i, w := range ws {
			base[i] = w.Steps()
		}
		if at > 0 {
			ws[on].at, ws[on].fault = base[on]+at, fault
		}
		wo := fsx.NewWorld(fsx.WrapRoot[vroot.File, *overlayfs.Fs](o))
		what := ""
		look := func(when string) bool {
			var l []string
			for i, w := range ws {
				for _, n := range w.OpenHandles() {
					l = append(l, fmt.Sprintf("%d:%s", i, n))
				}
				if w.closes() > 0 {
					c.Fail("R01:copyups:fs-closed", "%s: layer %d was closed", when, i)
					return false
				}
			}
			if len(l) > 0 {
				c.Fail("R01:copyups:handle", "script %d shape %d, call %d of layer %d (%s) failing, %s: of the layers are open %q\n%s", c.Idx%len(scripts), shape, at, on, ws[on].failed, when, l, what)
				return false
			}
			return true
		}
		for _, op := range sc {
			what += fmt.Sprintf("%v = %v\n", op, wo.Exec(op))
			r.Eval(1)
			if len(wo.Files) == 0 && !look("nothing of the overlay being open") {
				return false
			}
		}
		wo.CloseAll()
		if !look("all handles closed") {
			return false
		}
		if at == 0 {
			for i, w := range ws {
				counts = append(counts, w.Steps()-base[i])
			}
			r.Count("copyups/clean runs")
		} else if ws[on].failed != "" {
			r.Count("copyups/fault at " + ws[on].failed)
		}
		r.Distinct(fmt.Sprint("copyups", c.Idx%len(scripts), shape, on, at, fault))
		ws[on].at = 0
		o.Close()
		for i, w := range ws {
			if l := w.OpenHandles(); len(l) > 0 || w.closes() != 1 {
				c.Fail("R01:copyups:close", "closing the overlay closed layer %d %d times and left open %s", i, w.closes(), strings.Join(l, " "))
				return false
			}
		}
		return true
	}
	if !run(0, 0) {
		return
	}
	for on := range counts {
		for at := 1; at <= counts[on]; at++ {
			if !run(on, at) {
				return
			}
		}
	}
}
