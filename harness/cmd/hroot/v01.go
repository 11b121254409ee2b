package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"math/rand/v2"
	"os"
	"path"
	"path/filepath"
	"slices"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/ngicks/go-fsys-helper/vroot"
	"github.com/ngicks/go-fsys-helper/vroot-adapter/overlayfs"
	"github.com/ngicks/go-fsys-helper/vroot/memfs"
	"github.com/ngicks/go-fsys-helper/vroot/osfs"
	"github.com/ngicks/go-fsys-helper/vroot/synthfs"
	"golang.org/x/sys/unix"
	"verif/harness/fsx"
	"verif/harness/ovl"
	"verif/harness/rt"
)

const (
	secretSize = 7777
	secretFile = 0o642 // permissions only things outside have
	secretDir  = 0o742
	secretName = "SECRETNAME"
	secretLink = "SECRETTARGET"
)

var secret = bytes.Repeat([]byte("C"), secretSize)

// secretSums are the sums of what can be read of the secret.
var secretSums = func() map[string]bool {
	m := map[string]bool{}
	for n := 1; n <= secretSize; n++ {
		m[fmt.Sprintf("%d:%x", n, fsx.Sum(secret[:n]))] = true
	}
	return m
}()

// arena is one confined file system and its surroundings.
type arena struct {
	kind  string
	wrap  string
	sys   fsx.Sys // confined
	look  fsx.Sys // describes entries of the confined tree without following
	world fsx.Sys
	root  string // the root's place in the world
	abs   string // absolute name of the world
	links bool   // whether links are promised to be confined
	after func()
}

// populate makes the surroundings.
func populate(c *rt.Case, w fsx.Sys, root string) {
	mk := func(p string) {
		f, err := w.OpenFile(p, os.O_CREATE|os.O_WRONLY|os.O_TRUNC, 0o600)
		c.Must(err)
		_, err = f.Write(secret)
		c.Must(err)
		c.Must(f.Close())
		c.Must(w.Chmod(p, secretFile))
	}
	par := path.Dir(root)
	in := func(n string) string { return path.Join(par, n) }
	c.Must(w.MkdirAll(root, 0o755))
	mk(in("canary"))
	for _, d := range []string{"dir", path.Base(root) + "x", "dir/a"} {
		c.Must(w.MkdirAll(in(d), 0o755))
		mk(in(d + "/" + secretName))
		mk(in(d + "/f"))
	}
	for _, d := range []string{"dir", path.Base(root) + "x", "dir/a"} {
		c.Must(w.Chmod(in(d), secretDir))
	}
	c.Must(w.Symlink(secretLink, in("link")))
	mk("canary0")
}

// reveals tells what an outcome gives away of the outside.
func reveals(o fsx.Op, out fsx.Out) string {
	v := out.Val
	switch {
	case strings.Contains(v, secretName), strings.Contains(v, secretLink):
		return "a name"
	case strings.Contains(v, "r---w-"):
		return "attributes"
	}
	switch o.K {
	case "stat", "lstat", "fstat":
		if strings.HasSuffix(v, fmt.Sprint(" ", secretSize)) {
			return "attributes"
		}
	case "read", "readat", "readfile":
		if secretSums[v] {
			return "content"
		}
	}
	return ""
}

// walkTo says where a path leads: "in", "escape", "missing" (or through
// something that is no directory), "loop"; judged by entries alone.
func walkTo(look fsx.Sys, p string, follow bool) string {
	if path.IsAbs(p) {
		return "escape"
	}
	var cur []string
	rest := strings.Split(p, "/")
	hops := 0
	for len(rest) > 0 {
		e := rest[0]
		rest = rest[1:]
		switch e {
		case "", ".":
			continue
		case "..":
			if len(cur) == 0 {
				return "escape"
			}
			cur = cur[:len(cur)-1]
			continue
		}
		n := path.Join(append(append([]string{}, cur...), e)...)
		i, err := look.Lstat(n)
		if err != nil {
			return "missing"
		}
		last := len(strings.Trim(strings.Join(rest, ""), "./")) == 0 && !strings.Contains(strings.Join(rest, "/"), "..")
		switch {
		case i.Mode()&fs.ModeSymlink != 0 && (!last || follow):
			if hops++; hops > 6 {
				return "loop"
			}
			t, err := look.ReadLink(n)
			if err != nil {
				return "missing"
			}
			if path.IsAbs(t) {
				return "escape"
			}
			rest = append(strings.Split(t, "/"), rest...)
		case !i.IsDir() && !last:
			return "missing"
		default:
			cur = append(cur, e)
		}
	}
	return "in"
}

// judge tells whether the path of an operation must be refused.
func judge(look fsx.Sys, p string, follow bool) (must, ident bool) {
	w := walkTo(look, p, follow)
	lex := !filepath.IsLocal(path.Clean(p))
	switch {
	case lex:
		return true, w == "escape"
	case w == "escape" && !strings.Contains(p, ".."):
		return true, true
	}
	return false, false
}

func followLast(o fsx.Op) bool {
	switch o.K {
	case "stat", "open", "chmod", "chown", "chtimes", "create", "list", "readfile", "writefile", "appendfile", "openroot":
		return true
	case "openfile":
		return o.Flag&os.O_EXCL == 0 || o.Flag&os.O_CREATE == 0
	}
	return false
}

// outside dumps the world without what is beneath the root.
func (a *arena) outside() fsx.Tree {
	t := fsx.Dump(a.world, fsx.DumpOpt{Mtime: true, Skip: func(p string) bool { return strings.HasPrefix(p, a.root+"/") }})
	for k := range t { // the root's own attributes are inside
		if k == a.root {
			t[k] = strings.Fields(t[k])[0]
		}
	}
	return t
}

var hostileTargets = []string{"..", "../canary", "../dir", "../dir/f", "../f", "../../canary0", "../..", "../dir/a", "../link", "../rootx/f", "../rootx", "../root/f", "../root",
	"a/../../canary", "a/b/../../../dir", "./../dir", "a", "b", "f", "a/f", "l", "m", "../l", ".", "a/..", "../a", "../../dir", "../../canary", "l/canary", "l/a/f", "../m"}

func hostileGen(c *rt.Case, a *arena) *fsx.Gen {
	comps := []string{"a", "a", "b", "f", "l", "l", "m", "..", "..", ".", "", "canary", "dir", "root", "rootx", "link", "canary0"}
	g := &fsx.Gen{Rand: c.Rand, Names: []string{"a", "b", "f", "l", "m"}, Depth: 3, Handles: 3, MaxData: 20}
	g.Modes = []fs.FileMode{0o755, 0o700, 0o750, 0o711, 0o777}
	kinds := append(without(fsx.BasicKinds), "chown", "lchown", "removeall", "removeall", "remove", "symlink", "symlink", "openroot", "appendfile", "chtimes", "lstat")
	if !a.links {
		kinds = without(kinds, "symlink", "readlink")
	}
	g.Kinds = kinds
	g.Targets = append([]string{a.abs + "/canary0", a.abs, "/", a.abs + "/" + a.root + "/f"}, hostileTargets...)
	plain := *g
	g.Pth = func(*fsx.Gen) string {
		switch c.IntN(6) {
		case 0, 1:
			return plain.Path()
		case 2:
			return pick(c.Rand, "..", "../", "../canary", "../dir/f", "../dir", "../rootx/f", "../root/f", "../../canary0", a.abs+"/canary0", a.abs+"/"+a.root, "/", "/a", "a/../..", "a/../../canary", "l/..", "l/../canary", "../root", ".", "./", "a/.", "a/..", "./..", "a/b/../../..", "//", "l/", "l/.", "../"+secretLink, "../link", "f/../../canary", "missing/../../canary", "..a", "...")
		case 3:
			return pick(c.Rand, "l", "m", "a/l", "b/m", "l/f", "l/a", "m/canary", "l/canary", "a/l/f", "l/m/f", "l/a/f", "m/dir/f", "l/x", "a/m/x", "l/root/f", "l/link")
		}
		var l []string
		for range 1 + c.IntN(4) {
			l = append(l, comps[c.IntN(len(comps))])
		}
		s := strings.Join(l, "/")
		if c.IntN(12) == 0 {
			s = "/" + s
		}
		return s
	}
	return g
}

var handleOp = map[string]bool{"close": true, "read": true, "readat": true, "write": true, "writeat": true, "writestring": true, "seek": true, "truncate": true, "fstat": true, "fchmod": true, "sync": true, "hreaddir": true}

// plainDir tells whether a name is a directory met without links.
func plainDir(look fsx.Sys, p string) bool {
	if !fs.ValidPath(p) || p == "." {
		return false
	}
	for q := p; q != "."; q = path.Dir(q) {
		if i, err := look.Lstat(q); err != nil || !i.IsDir() {
			return false
		}
	}
	return true
}

// plainFile tells whether a name is a regular file met without links.
func plainFile(look fsx.Sys, p string) bool {
	if path.Clean(p) != p || walkTo(look, path.Dir(p), false) != "in" {
		return false
	}
	i, err := look.Lstat(p)
	return err == nil && i.Mode().IsRegular()
}

func pick[T any](r *rand.Rand, xs ...T) T { return xs[r.IntN(len(xs))] }

func without(kinds []string, drop ...string) (l []string) {
	for _, k := range kinds {
		keep := true
		for _, d := range drop {
			keep = keep && k != d
		}
		if keep {
			l = append(l, k)
		}
	}
	return
}

// lookAt shows entries beneath a prefix of the world, following nothing.
func lookAt(w fsx.Sys, pre string) fsx.Sys {
	return fsx.Sys{FS: subLookFS{w.FS, pre}}
}

type subLookFS struct {
	fsx.FS
	pre string
}

func (s subLookFS) Lstat(n string) (fs.FileInfo, error) { return s.FS.Lstat(path.Join(s.pre, n)) }
func (s subLookFS) ReadLink(n string) (string, error)   { return s.FS.ReadLink(path.Join(s.pre, n)) }

// wraps puts a root behind one of the wrappers.
func wraps[F vroot.File, R vroot.Root[F, R]](c *rt.Case, r R, kind string) fsx.Sys {
	s := fsx.WrapRoot[F, R](r)
	switch kind {
	case "plain":
		return s
	case "normalizer":
		return fsx.WrapRoot[F, *vroot.PathNormalizerRoot[F, R]](vroot.NewPathNormalizerRoot[F, R](r))
	case "localizer":
		return fsx.WrapRoot[F, *vroot.PathLocalizerRoot[F, R]](vroot.NewPathLocalizerRoot[F, R](r))
	case "readonly":
		return fsx.Wrap[*vroot.ReadOnlyFile](vroot.NewReadOnlyRoot[F, R](r))
	case "widen":
		return fsx.Sys{FS: vroot.Widen[F](r), Sub: s.Sub}
	case "iofs":
		if f, ok := vroot.ToIoFsRoot[F, R](r).(fs.ReadLinkFS); ok {
			return fsx.Sys{FS: vroot.FromIoFs(f, "iofs")}
		}
		return s
	}
	panic(kind)
}

var wrapKinds = []string{"plain", "plain", "plain", "plain", "normalizer", "localizer", "readonly", "widen", "iofs"}

// build makes an arena of a kind.
func build(c *rt.Case, kind string) *arena {
	a := &arena{kind: kind, links: true, root: "p/root"}
	osWorld := func() string {
		d := c.Dir()
		k, err := fsx.Kernel(d)
		c.Must(err)
		a.world, a.abs = k, d
		populate(c, a.world, a.root)
		a.after = func() { k.Close() }
		return filepath.Join(d, a.root)
	}
	memWorld := func() *synthfs.Root {
		m := memfs.New("m")
		a.world, a.abs = fsx.WrapRoot[vroot.File, *synthfs.Root](m), ""
		populate(c, a.world, a.root)
		return m
	}
	wr := wrapKinds[c.IntN(len(wrapKinds))]
	a.wrap = wr
	switch kind {
	case "os":
		r, err := osfs.NewRoot(osWorld())
		c.Must(err)
		a.sys = wraps[*osfs.File, *osfs.Root](c, r, wr)
	case "os-sub":
		d := osWorld()
		p, err := osfs.NewRoot(filepath.Dir(filepath.Dir(d)))
		c.Must(err)
		r, err := p.OpenRoot(a.root)
		c.Must(err)
		a.sys = wraps[*osfs.File, *osfs.Root](c, r, wr)
	case "mem-sub":
		m := memWorld()
		p, err := m.OpenRoot("p")
		c.Must(err)
		r, err := p.OpenRoot("root")
		c.Must(err)
		a.sys = wraps[vroot.File, *synthfs.Root](c, r, wr)
	case "osfs-lexical":
		f, err := osfs.NewFs(osWorld())
		c.Must(err)
		a.sys, a.links = fsx.Wrap[*osfs.File](f), false
	case "prefix-lexical":
		m := memWorld()
		inner := vroot.Fs[vroot.File](m)
		pre := a.root
		if c.IntN(2) == 0 {
			q, err := vroot.NewPathPrefixFs[vroot.File](m, "p")
			c.Must(err)
			inner, pre = q, "root"
		}
		f, err := vroot.Sub[vroot.File](inner, pre)
		c.Must(err)
		a.sys, a.links = fsx.Wrap[vroot.File](f), false
	case "overlay-os", "overlay-mem", "overlay-sub":
		var top, low, low2 vroot.Fs[vroot.File]
		mk := func(p string) {
			c.Must(a.world.MkdirAll(p, 0o755))
		}
		// merged/ of the top is the root; staging and store are outside, too
		a.root = "p/root/merged"
		if kind == "overlay-os" {
			d := osWorld()
			lay := func(n string) vroot.Fs[vroot.File] {
				mk("p/" + n)
				dir := filepath.Join(a.abs, "p", n)
				if c.IntN(2) == 0 {
					f, err := osfs.NewFs(dir) // follows links anywhere
					c.Must(err)
					return vroot.Widen[*osfs.File](f)
				}
				r, err := osfs.NewRoot(dir)
				c.Must(err)
				return vroot.Widen[*osfs.File](r)
			}
			_ = d
			top, low, low2 = lay("root"), lay("low"), lay("low2")
		} else {
			m := memWorld()
			lay := func(n string) vroot.Fs[vroot.File] {
				mk("p/" + n)
				f, err := vroot.NewPathPrefixFs[vroot.File](m, "p/"+n)
				c.Must(err)
				return f
			}
			top, low, low2 = lay("root"), lay("low"), lay("low2")
		}
		// lowers hold hostile links of their own
		for _, n := range []string{"low", "low2"} {
			g := hostileGen(c, a)
			for range 3 + c.IntN(6) {
				p := "p/" + n + "/" + pick(c.Rand, "a", "b", "l", "m", "f", "a/l", "a/f", "b/m")
				a.world.MkdirAll(path.Dir(p), 0o755)
				switch c.IntN(3) {
				case 0:
					a.world.Symlink(g.Targets[c.IntN(len(g.Targets))], p)
				case 1:
					a.world.Mkdir(p, 0o755)
				default:
					if f, err := a.world.OpenFile(p, os.O_CREATE|os.O_EXCL|os.O_WRONLY, 0o644); err == nil {
						f.Write([]byte(n))
						f.Close()
					}
				}
			}
		}
		t, err := overlayfs.NewDataSourceCanonicalStore(top, ovl.NewStore())
		c.Must(err)
		o, err := overlayfs.New(t, []*overlayfs.DataSource{overlayfs.NewDataSource(low), overlayfs.NewDataSource(low2)}, nil)
		c.Must(err)
		ws := fsx.WrapRoot[vroot.File, *overlayfs.Fs](o)
		if kind == "overlay-sub" {
			// surroundings within the overlay
			a.world, a.root = ws, "q/p/root"
			populate(c, a.world, a.root)
			s, err := o.OpenRoot("q/p/root")
			c.Must(err)
			ws = fsx.WrapRoot[vroot.File, *overlayfs.Fs](s)
		} else {
			a.look = ws
		}
		a.sys = ws
	default:
		panic(kind)
	}
	if a.look.FS == nil {
		a.look = lookAt(a.world, a.root)
	}
	// something to meet inside
	g := hostileGen(c, a)
	in := func(p string) string { return path.Join(a.root, p) }
	for range 2 + c.IntN(6) {
		switch p := plainPath(c); c.IntN(4) {
		case 0:
			a.world.MkdirAll(in(p), 0o755)
		case 1:
			if f, err := a.world.OpenFile(in(p), os.O_CREATE|os.O_EXCL|os.O_WRONLY, 0o644); err == nil {
				f.Write([]byte("inside"))
				f.Close()
			}
		default:
			if a.links {
				a.world.Symlink(g.Targets[c.IntN(len(g.Targets))], in(p))
			}
		}
	}
	return a
}

func plainPath(c *rt.Case) string {
	return pick(c.Rand, "a", "b", "f", "l", "m", "a/b", "a/f", "a/l", "b/m", "b/a", "a/b/l", "l", "m")
}

var arenaKinds = []string{"os", "os-sub", "mem-sub", "mem-sub", "osfs-lexical", "prefix-lexical", "overlay-os", "overlay-mem", "overlay-sub"}

var v01 = &rt.Check{ID: "V01", Level: "exploration",
	Rule:        "histories of every operation with hostile path strings and links on every rooted file system, each inside surroundings with marked contents, names, attributes and link texts; after each operation its outcome is searched for the marks and compared with a walk of the entries (paths that lead outside must be refused as escapes), after each history the surroundings must be untouched; for OS-backed roots also while another thread swaps directories and outside-pointing links; non-trivial = at least one path led outside; distinct by kind, operations and path verdicts",
	Assumptions: []string{"osfs.Fs and prefixed views are documented not to confine links, so for them only path strings are hostile", "directories are not moved out of the root while operations walk through them"},
	Run: func(r *rt.Run) {
		r.CasesPar("histories", r.N(5000, 150000), 8, func(c *rt.Case) {
			a := build(c, arenaKinds[c.Idx%len(arenaKinds)])
			v01History(c, a)
			if a.after != nil {
				a.after()
			}
		})
		r.CasesPar("views", r.N(1500, 40000), 8, func(c *rt.Case) {
			a := build(c, pick(c.Rand, "os", "os-sub", "mem-sub", "overlay-os", "overlay-mem", "overlay-sub"))
			v01Views(c, a)
			if a.after != nil {
				a.after()
			}
		})
		r.CasesPar("swaps", r.N(60, 1500), 4, func(c *rt.Case) { v01Swaps(c) })
		r.Floor("escaping-paths", 5000)
		r.Floor("escaping-links", 2000)
		r.Floor("sub-root views", 300)
		r.Floor("escapes of sub-roots", 100)
		r.Floor("swaps", 500)
		r.Floor("ok-through-swaps", 300)
	}}

func v01History(c *rt.Case, a *arena) {
	before := a.outside()
	w := fsx.NewWorld(a.sys)
	defer w.CloseAll()
	g := hostileGen(c, a)
	key := a.kind
	hostile := 0
	for i := range 40 {
		o := g.Next()
		if o.K == "openroot" {
			if o.H = 1; a.sys.Sub == nil {
				continue
			}
		}
		// judged against the root of the world only
		var paths []string
		var follow bool
		switch o.K {
		case "symlink":
			paths = []string{o.B}
		case "rename", "link":
			paths = []string{o.A, o.B}
		case "close", "read", "readat", "write", "writeat", "writestring", "seek", "truncate", "fstat", "fchmod", "sync", "hreaddir":
		default:
			paths = []string{o.A}
			follow = followLast(o)
		}
		must, ident := false, true
		for _, p := range paths {
			m, id := judge(a.look, p, follow)
			must = must || m
			if len(paths) > 1 && !m && !plainFile(a.look, p) || o.K == "removeall" && (strings.HasSuffix(p, "/.") || path.Clean(p) == "/") {
				ident = false // something else may be complained about first
			}
			if m && !id {
				ident = false
			}
			if m {
				hostile++
				if filepath.IsLocal(path.Clean(p)) {
					c.R.Count("escaping-links")
				} else {
					c.R.Count("escaping-paths")
				}
			}
		}
		if o.K == "openroot" {
			// the sub-root's confinement is judged by the marks and the surroundings
			out := w.Exec(o)
			c.Logf("%v = %v", o, out)
			if must && out.Err == "ok" {
				c.Fail("V01:"+a.kind+":openroot:not-refused", "%v succeeded", o)
				return
			}
			if sub, ok := w.Roots[1]; ok && out.Err == "ok" {
				sw := fsx.NewWorld(sub)
				var look *fsx.Sys
				if plainDir(a.look, path.Clean(o.A)) {
					l := lookAt(a.look, path.Clean(o.A))
					look = &l
				}
				for range 16 {
					so := g.Next()
					if so.K == "openroot" || so.K == "closeroot" {
						continue
					}
					esc := false
					if look != nil && so.K != "symlink" && so.K != "rename" && so.K != "link" && so.K != "removeall" && so.A != "" {
						esc, _ = judge(*look, so.A, followLast(so))
					}
					sout := sw.Exec(so)
					c.Logf("sub: %v = %v", so, sout)
					if esc && !strings.HasPrefix(so.K, "h") && handleOp[so.K] == false {
						c.R.Count("escapes of sub-roots")
						if sout.Err == "ok" {
							c.Fail("V01:"+a.kind+":sub:"+so.K+":not-refused", "%v leads outside the sub-root %q and succeeded: %v", so, o.A, sout)
							return
						}
					}
					if x := reveals(so, sout); x != "" {
						c.Fail("V01:"+a.kind+":sub:"+so.K+":reveals", "%v through a sub-root gives away %s of the outside: %v", so, x, sout)
					}
				}
				sw.CloseAll()
			}
			continue
		}
		out := w.Exec(o)
		c.Logf("%v = %v", o, out)
		c.R.Eval(1)
		key += fmt.Sprint(o.K, must, out.Err)
		if x := reveals(o, out); x != "" {
			c.Fail("V01:"+a.kind+":"+o.K+":reveals", "%v gives away %s of the outside: %v", o, x, out)
			return
		}
		if must {
			if out.Err == "ok" || out.Err == "eof" {
				if o.K == "removeall" && out.Val == "" && !ident {
					continue // nothing there
				}
				c.Fail("V01:"+a.kind+":"+o.K+":not-refused", "%v leads outside and succeeded: %v", o, out)
				return
			}
			if ident && !errors.Is(out.Raw, vroot.ErrPathEscapes) {
				if (a.wrap == "readonly" || a.wrap == "iofs") && errors.Is(out.Raw, syscall.EROFS) {
					continue
				}
				if o.K == "mkdirall" && filepath.IsLocal(path.Clean(o.A)) {
					continue
				}
				c.Fail("V01:"+a.kind+":"+o.K+":identity", "%v leads outside and fails with %v, want the path-escape error", o, out)
				return
			}
		}
		if i%13 == 12 {
			if !a.check(c, before) {
				return
			}
		}
	}
	if a.check(c, before) && hostile > 0 {
		c.R.Distinct(key)
	}
	c.R.Sample("%s %v", a.kind, c.Log())
}

// check compares the surroundings.
func (a *arena) check(c *rt.Case, before fsx.Tree) bool {
	after := a.outside()
	c.R.Eval(1)
	if d := fsx.Diff(after, before); d != "" {
		c.Fail("V01:"+a.kind+":outside-changed:"+fsx.DiffKind(after, before), "outside the root: %s", d)
		return false
	}
	if _, err := a.sys.Stat("."); err != nil {
		c.Fail("V01:"+a.kind+":root-lost", "the root itself: %v", err)
		return false
	}
	return true
}

// v01Views reads through the io/fs adapters and walks.
func v01Views(c *rt.Case, a *arena) {
	before := a.outside()
	base := vroot.ToIoFs[vroot.File](a.sys.FS)
	rooted := a.sys.IoFs != nil && c.IntN(2) == 0
	if rooted {
		base = a.sys.IoFs()
	}
	views := []fs.FS{base}
	looks := []*fsx.Sys{&a.look} // nil: not told by the entries alone
	var subs func(v fs.FS, at string, depth int)
	subs = func(v fs.FS, at string, depth int) {
		for _, d := range []string{"a", "a/b", "b", "l", "m"} {
			s, err := fs.Sub(v, d)
			if err != nil {
				continue
			}
			if f, err := s.Open("."); err != nil {
				continue
			} else {
				f.Close()
			}
			views = append(views, s)
			p := path.Join(at, d)
			var look *fsx.Sys
			if rooted && at != "?" && plainDir(a.look, p) { // a sub-root is a root
				l := lookAt(a.look, p)
				look = &l
				c.R.Count("sub-root views")
			} else {
				p = "?"
			}
			looks = append(looks, look)
			if depth > 0 && len(views) < 12 {
				subs(s, p, depth-1)
			}
		}
	}
	subs(base, ".", c.IntN(2))
	bad := func(what string, args ...any) {
		c.Fail("V01:"+a.kind+":view:"+what, "%s: %v", what, fmt.Sprint(args...))
	}
	checkInfo := func(op, n string, i fs.FileInfo, err error) {
		if err == nil && (i.Size() == secretSize && i.Mode().IsRegular() || i.Mode().Perm() == secretFile || i.Mode().Perm() == secretDir) {
			bad(op, n, " shows ", i.Mode(), i.Size())
		}
	}
	names := []string{"."}
	for range 20 {
		names = append(names, pick(c.Rand, plainPath(c), plainPath(c)+"/f", plainPath(c)+"/canary", plainPath(c)+"/a/f", plainPath(c)+"/dir", plainPath(c)+"/"+secretName, "..", "../canary", "/", a.abs+"/canary0", "a/../../canary"))
	}
	for vi, v := range views {
		for _, n := range names {
			c.R.Eval(1)
			if f, err := v.Open(n); err == nil {
				i, err := f.Stat()
				checkInfo("open", n, i, err)
				b, _ := io.ReadAll(io.LimitReader(f, 100))
				if bytes.Contains(b, []byte("CCC")) {
					bad("open", n, " reads the secret")
				}
				if d, ok := f.(fs.ReadDirFile); ok {
					es, _ := d.ReadDir(-1)
					for _, e := range es {
						if e.Name() == secretName {
							bad("open-readdir", n, " lists the outside")
						}
						i, err := e.Info()
						checkInfo("open-readdir", n+"/"+e.Name(), i, err)
					}
				}
				f.Close()
				if looks[vi] != nil {
					if m, _ := judge(*looks[vi], n, true); m {
						bad("open", n, " was opened in view ", vi)
					}
				}
			} else if looks[vi] != nil {
				if m, id := judge(*looks[vi], n, true); m && id && fs.ValidPath(n) && !errors.Is(err, vroot.ErrPathEscapes) {
					c.Fail("V01:"+a.kind+":view:identity", "Open(%q) leads outside and fails with %v", n, err)
				}
			}
			if b, err := fs.ReadFile(v, n); err == nil && bytes.Contains(b, []byte("CCC")) {
				bad("readfile", n)
			}
			if es, err := fs.ReadDir(v, n); err == nil {
				for _, e := range es {
					if e.Name() == secretName {
						bad("readdir", n)
					}
				}
			}
			i, err := fs.Stat(v, n)
			checkInfo("stat", n, i, err)
			i, err = fs.Lstat(v, n)
			checkInfo("lstat", n, i, err)
			if l, err := fs.ReadLink(v, n); err == nil && l == secretLink {
				bad("readlink", n)
			}
		}
		fs.WalkDir(v, ".", func(p string, d fs.DirEntry, err error) error {
			if strings.Contains(p, secretName) {
				bad("iofs-walk", p)
			}
			return nil
		})
	}
	for _, start := range []string{".", "a", "l", "m", "..", "../dir", "l/dir"} {
		n := 0
		vroot.WalkDir[vroot.File](a.sys.FS, start, &vroot.WalkOption{ResolveSymlink: c.IntN(4) > 0}, func(p, real string, i fs.FileInfo, err error) error {
			if n++; n > 500 {
				return fs.SkipAll
			}
			if strings.Contains(p, secretName) || strings.Contains(real, secretName) {
				bad("walk", p, real)
			}
			if err == nil && i != nil {
				checkInfo("walk", p, i, err)
			}
			return nil
		})
	}
	if a.check(c, before) {
		c.R.Distinct(fmt.Sprint(a.kind, "views", len(views), names))
	}
}

// v01Swaps lets links and directories change under the operations.
func v01Swaps(c *rt.Case) {
	a := &arena{kind: "os-swap", links: true, root: "p/root"}
	d := c.Dir()
	k, err := fsx.Kernel(d)
	c.Must(err)
	defer k.Close()
	a.world, a.abs = k, d
	populate(c, a.world, a.root)
	rootDir := filepath.Join(d, a.root)
	for _, p := range []string{"a", "a/b", "s/a", "s/b", "in"} {
		c.Must(os.MkdirAll(filepath.Join(rootDir, p), 0o755))
		c.Must(os.WriteFile(filepath.Join(rootDir, p, "f"), []byte("inside"), 0o644))
	}
	// what d changes into: links to the outside, relative and absolute, and a
	// link to the inside
	tgt := []string{"../dir", "../../dir", d + "/p/dir", "..", "in", "../rootx", d, "a", "../p/root/../dir"}
	for i, t := range tgt {
		c.Must(os.Symlink(t, filepath.Join(rootDir, fmt.Sprintf("alt%d", i))))
	}
	c.Must(os.Symlink("../canary", filepath.Join(rootDir, "altf0")))
	c.Must(os.Symlink(d+"/p/canary", filepath.Join(rootDir, "altf1")))
	c.Must(os.WriteFile(filepath.Join(rootDir, "x"), []byte("inside"), 0o644))
	var sys fsx.Sys
	if c.IntN(2) == 0 {
		r, err := osfs.NewRoot(rootDir)
		c.Must(err)
		sys = wraps[*osfs.File, *osfs.Root](c, r, pick(c.Rand, "plain", "plain", "widen", "normalizer", "localizer"))
	} else {
		p, err := osfs.NewRoot(d)
		c.Must(err)
		r, err := p.OpenRoot(a.root)
		c.Must(err)
		sys = wraps[*osfs.File, *osfs.Root](c, r, "plain")
	}
	a.sys = sys
	before := a.outside()
	var stop atomic.Bool
	var wg, sw sync.WaitGroup
	swaps := 0
	sw.Add(1)
	rnd := rand.New(rand.NewPCG(c.Uint64(), 7))
	go func() {
		defer sw.Done()
		ex := func(x, y string) {
			if unix.Renameat2(unix.AT_FDCWD, filepath.Join(rootDir, x), unix.AT_FDCWD, filepath.Join(rootDir, y), unix.RENAME_EXCHANGE) == nil {
				swaps++
			}
		}
		for !stop.Load() {
			n := fmt.Sprintf("alt%d", rnd.IntN(len(tgt)))
			ex("a", n)
			if rnd.IntN(2) == 0 {
				ex("s/a", n)
			}
			ex("x", pick(rnd, "altf0", "altf1"))
			if rnd.IntN(3) == 0 {
				time.Sleep(time.Duration(rnd.IntN(50)) * time.Microsecond)
			}
			ex("x", pick(rnd, "altf0", "altf1"))
			ex("a", n)
		}
	}()
	ls := make([]*rt.Case, 2)
	for i := range ls {
		rnd := rand.New(rand.NewPCG(c.Uint64(), uint64(i)))
		ls[i] = c.Local(rnd)
		c.Go(&wg, func() {
			l := ls[i]
			w := fsx.NewWorld(sys)
			g := hostileGen(l, a)
			g.Kinds = append(g.Kinds, "readfile", "list", "stat", "writefile", "appendfile", "chmod", "chtimes", "remove", "create", "openroot")
			g.Pth = func(*fsx.Gen) string {
				return pick(rnd, "a/f", "a/f", "a/canary", "a/"+secretName, "a", "a/new", "s/a/f", "s/a", "x", "x", "a/b/f", "s/a/new", "s/../a/f", "a/../x", "a/a", "a/a/f", "in/f", "a/p/canary")
			}
			for n := range 600 {
				o := g.Next()
				if o.K == "openroot" {
					o.H = 1
				} else if n%3 == 0 {
					o.R = rnd.IntN(2)
				}
				if strings.Contains(o.A, secretName) && !slices.Contains([]string{"stat", "lstat", "list", "readfile", "open", "readlink", "remove", "chmod"}, o.K) {
					o.A = "a/new"
				}
				if strings.Contains(o.B, secretName) {
					o.B = "a/new2"
				}
				out := w.Exec(o)
				l.R.Eval(1)
				if x := reveals(o, out); x != "" {
					l.Fail("V01:os-swap:"+o.K+":reveals", "%v gives away %s of the outside: %v", o, x, out)
				}
				if out.Err == "ok" {
					l.R.Count("ok-through-swaps")
				} else if errors.Is(out.Raw, vroot.ErrPathEscapes) {
					l.R.Count("refused-through-swaps")
				}
			}
			w.CloseAll()
			if rnd.IntN(2) == 0 {
				vroot.WalkDir[vroot.File](sys.FS, ".", &vroot.WalkOption{ResolveSymlink: true}, func(p, real string, i fs.FileInfo, err error) error {
					if strings.Contains(p, secretName) || err == nil && i != nil && (i.Mode().Perm() == secretFile || i.Mode().Perm() == secretDir) {
						l.Fail("V01:os-swap:walk:reveals", "the walk shows %s (%s)", p, real)
					}
					return nil
				})
			}
		})
	}
	wg.Wait()
	stop.Store(true)
	sw.Wait()
	c.Merge(ls...)
	c.R.CountN("swaps", swaps)
	if a.check(c, before) {
		c.R.Distinct(fmt.Sprint("swap", c.Idx, swaps))
	}
}
