package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"os"
	"path"
	"slices"
	"sort"
	"strings"
	"sync/atomic"
	"testing/fstest"
	"time"

	"github.com/ngicks/go-fsys-helper/vroot"
	"github.com/ngicks/go-fsys-helper/vroot/memfs"
	"github.com/ngicks/go-fsys-helper/vroot/osfs"
	"github.com/ngicks/go-fsys-helper/vroot/synthfs"
	"verif/harness/fsx"
	"verif/harness/rt"
)

// logView counts how often a view is released.
type logView struct {
	synthfs.FileView
	id      int
	closes  atomic.Int32
	statErr bool
	open    atomic.Int32 // handles not yet closed
}

func (v *logView) Close() error { v.closes.Add(1); return v.FileView.Close() }
func (v *logView) Stat() (fs.FileInfo, error) {
	if v.statErr {
		return nil, errUser
	}
	return v.FileView.Stat()
}
func (v *logView) Open(flag int) (vroot.File, error) {
	f, err := v.FileView.Open(flag)
	if err != nil {
		return nil, err
	}
	v.open.Add(1)
	return &logHandle{File: f, v: v}, nil
}

type logHandle struct {
	vroot.File
	v    *logView
	done atomic.Bool
}

func (h *logHandle) Close() error {
	if !h.done.Swap(true) {
		h.v.open.Add(-1)
	}
	return h.File.Close()
}

// logAlloc allocates logged views.
type logAlloc struct {
	in   synthfs.FileViewAllocator
	made []*logView
}

func (a *logAlloc) Allocate(n string, p fs.FileMode) (synthfs.FileView, error) {
	v, err := a.in.Allocate(n, p)
	if err != nil {
		return nil, err
	}
	l := &logView{FileView: v, id: -len(a.made) - 1}
	a.made = append(a.made, l)
	return l, nil
}

// content is what the names of one file share.
type sContent struct {
	data  []byte
	names int
	view  *logView // nil for views made by AddFS
	ro    bool
}

type sNode struct {
	kids  map[string]*sNode // directories
	link  *string
	c     *sContent
	mode  fs.FileMode
	mtime time.Time // zero: not known
	up    *sNode
}

func (n *sNode) isDir() bool { return n != nil && n.kids != nil }

// drop forgets a node which lost its place.
func (n *sNode) drop() {
	for _, k := range n.kids {
		k.drop()
	}
	if n.c != nil {
		n.c.names--
	}
}

func (n *sNode) walk(p string, fn func(string, *sNode)) {
	fn(p, n)
	for _, k := range sortedKeys(n.kids) {
		n.kids[k].walk(path.Join(p, k), fn)
	}
}

func sortedKeys[V any](m map[string]V) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func (n *sNode) tree() fsx.Tree {
	t := fsx.Tree{}
	for _, k := range sortedKeys(n.kids) {
		n.kids[k].walk(k, func(p string, n *sNode) {
			switch {
			case n.link != nil:
				t[p] = "link -> " + *n.link
			case n.isDir():
				t[p] = fmt.Sprintf("dir %o", n.mode)
			default:
				t[p] = fmt.Sprintf("file %o size=%d %08x", n.mode, len(n.c.data), fsx.Sum(n.c.data))
			}
		})
	}
	return t
}

// get finds the node at p, following links only where asked through dirs.
func (n *sNode) get(p string) *sNode {
	if p == "." {
		return n
	}
	for _, e := range strings.Split(p, "/") {
		if n = n.kids[e]; n == nil {
			return nil
		}
	}
	return n
}

// at resolves p for the parents of an addition: links are followed.
// nil, false where it is missing; nil, true where it cannot be.
func (n *sNode) at(bound *sNode, p string, hops *int) (*sNode, bool) {
	cur := n
	es := strings.Split(p, "/")
	for i, e := range es {
		switch e {
		case "", ".":
			continue
		case "..":
			if cur == bound || cur.up == nil {
				return nil, true
			}
			cur = cur.up
			continue
		}
		k := cur.kids[e]
		if k == nil {
			return nil, false
		}
		if k.link != nil {
			*hops++
			if *hops > 40 || strings.HasPrefix(*k.link, "/") {
				return nil, true
			}
			return cur.at(bound, strings.Join(append([]string{*k.link}, es[i+1:]...), "/"), hops)
		}
		if i < len(es)-1 && !k.isDir() {
			return nil, true
		}
		cur = k
	}
	return cur, true
}

// sSrc is a source tree and its description.
type sSrc struct {
	fsys  fs.FS
	what  string
	links bool // has ReadLink
}

type addCall struct {
	path, in, ex string
	dec          synthfs.AddDecision
	err          bool
}

func entryDesc(e synthfs.AddEntry) string {
	if e == nil {
		return "-"
	}
	i := e.Info()
	d := fmt.Sprintf("%s %v", i.Mode().Type(), i.Mode().Perm())
	if i.Mode().IsRegular() {
		d += fmt.Sprintf(" %d", i.Size())
	}
	return e.Path() + " " + d
}

func nodeDesc(p string, n *sNode) string {
	if n == nil {
		return "-"
	}
	switch {
	case n.link != nil:
		return p + " " + fmt.Sprintf("%s %v", fs.ModeSymlink, n.mode)
	case n.isDir():
		return p + " " + fmt.Sprintf("%s %v", fs.ModeDir, n.mode)
	}
	return p + " " + fmt.Sprintf("%s %v %d", fs.FileMode(0), n.mode, len(n.c.data))
}

var errDecide = errors.New("refused by resolver")

// resolver8 is a resolver with the decision it takes for each entry.
type resolver8 struct {
	name string
	fn   func(p string, in, ex bool, inDir, exDir bool) (synthfs.AddDecision, error)
	cb   synthfs.AddFunc
}

func mkResolver8(c *rt.Case) resolver8 {
	std := func(p string, inDir, exDir, has bool, mode int) (synthfs.AddDecision, error) {
		switch {
		case !has:
			return synthfs.AddDecisionOverride, nil
		case mode == 1:
			return synthfs.AddDecisionKeep, nil
		case inDir && exDir:
			return synthfs.AddDecisionKeep, nil
		case mode == 2:
			return synthfs.AddDecisionSkip, fs.ErrExist
		}
		return synthfs.AddDecisionOverride, nil
	}
	wrap := func(mode int) func(string, bool, bool, bool, bool) (synthfs.AddDecision, error) {
		return func(p string, _, has, inDir, exDir bool) (synthfs.AddDecision, error) {
			return std(p, inDir, exDir, has, mode)
		}
	}
	switch c.IntN(8) {
	case 0:
		return resolver8{"default", wrap(0), nil}
	case 1:
		return resolver8{"overwrite", wrap(0), synthfs.MergeOverwrite}
	case 2:
		return resolver8{"keep", wrap(1), synthfs.MergeKeep}
	case 3:
		return resolver8{"conflict", wrap(2), synthfs.FailOnConflict}
	}
	seed := c.Uint64()
	refuse := c.IntN(4) == 0
	only := []synthfs.AddDecision{synthfs.AddDecisionKeep, synthfs.AddDecisionOverride, synthfs.AddDecisionSkip}[c.IntN(3)]
	bias := c.IntN(3)
	fn := func(p string, _, has, inDir, exDir bool) (synthfs.AddDecision, error) {
		h := uint64(fsx.Sum([]byte(p)))*0x9e3779b97f4a7c15 ^ seed
		h ^= h >> 29
		h *= 0xbf58476d1ce4e5b9
		h ^= h >> 32
		if refuse && h%11 == 0 {
			return synthfs.AddDecisionOverride, errDecide
		}
		if bias > 0 && h%4 == 0 {
			return only, nil
		}
		return []synthfs.AddDecision{synthfs.AddDecisionSkip, synthfs.AddDecisionKeep, synthfs.AddDecisionOverride, synthfs.AddDecisionOverride}[h/8%4], nil
	}
	return resolver8{"random", fn, func(in, ex synthfs.AddEntry) (synthfs.AddDecision, error) {
		return fn(in.Path(), true, ex != nil, in.Info().IsDir(), ex != nil && ex.Info().IsDir())
	}}
}

// applyAdd applies one incoming entry to the model as its decision says.
// It returns the error the resolver gives.
func (dst *sNode) applyAdd(base, p string, src *sNode, d resolver8, calls *[]addCall) error {
	ex := dst.kids[base]
	dec, err := d.fn(p, true, ex != nil, src.isDir(), ex.isDir())
	*calls = append(*calls, addCall{path: p, in: nodeDesc(p, src), ex: nodeDesc(p, ex), dec: dec, err: err != nil})
	if err != nil {
		return err
	}
	switch {
	case dec == synthfs.AddDecisionSkip:
		return nil
	case dec == synthfs.AddDecisionKeep:
		if ex != nil && (!src.isDir() || !ex.isDir()) {
			return nil
		}
		if ex == nil && !src.isDir() {
			return nil
		}
	default:
		if ex != nil {
			ex.drop()
			ex = nil
		}
	}
	if !src.isDir() {
		n := &sNode{mode: src.mode, mtime: src.mtime, link: src.link, up: dst}
		if src.c != nil {
			n.c = src.c
			n.c.names++
		}
		dst.kids[base] = n
		return nil
	}
	if ex == nil {
		ex = &sNode{kids: map[string]*sNode{}, mode: src.mode, mtime: src.mtime, up: dst}
		dst.kids[base] = ex
	}
	return ex.addKids(p, src, d, calls)
}

func (dst *sNode) addKids(p string, src *sNode, d resolver8, calls *[]addCall) error {
	for _, k := range sortedKeys(src.kids) {
		s := src.kids[k]
		if s.c != nil { // every name in the source gets a view of its own
			s = &sNode{mode: s.mode, mtime: s.mtime, c: &sContent{data: s.c.data, ro: true}}
		}
		if err := dst.applyAdd(k, path.Join(p, k), s, d, calls); err != nil {
			return err
		}
	}
	return nil
}

// parents makes the missing parents of an addition.
func (b *sNode) parents(p string, umask fs.FileMode) (*sNode, string, bool) {
	dir, base := path.Split(p)
	dir = strings.TrimSuffix(dir, "/")
	cur := b
	if dir == "" {
		return b, base, true
	}
	sofar := ""
	for _, e := range strings.Split(dir, "/") {
		sofar = path.Join(sofar, e)
		hops := 0
		n, ok := b.at(b, sofar, &hops)
		if n == nil && ok || n != nil && !n.isDir() {
			return nil, "", false
		}
		if n == nil {
			if cur.kids[e] != nil { // a dangling link
				return nil, "", false
			}
			n = &sNode{kids: map[string]*sNode{}, mode: 0o755 &^ umask, up: cur}
			cur.kids[e] = n
		}
		cur = n
	}
	return cur, base, true
}

// clone copies a model; contents are shared.
func (n *sNode) clone(up *sNode) *sNode {
	o := *n
	o.up = up
	if n.kids != nil {
		o.kids = map[string]*sNode{}
		for k, v := range n.kids {
			o.kids[k] = v.clone(&o)
		}
	}
	return &o
}

// genSource makes a source tree and what it holds.
func genSource(c *rt.Case) (*sSrc, *sNode) {
	root := &sNode{kids: map[string]*sNode{}, mode: 0o755}
	names := []string{"a", "b", "a-", "d", "a.x", "é"}
	kind := c.IntN(5)
	links := kind != 4 // 4: without ReadLink
	var fill func(n *sNode, depth int)
	fill = func(n *sNode, depth int) {
		for _, nm := range names {
			if c.IntN(5) < 2 {
				continue
			}
			mt := time.Unix(1_500_000_000+int64(c.IntN(1e8)), 0)
			switch k := c.IntN(8); {
			case k < 3 && depth > 0:
				d := &sNode{kids: map[string]*sNode{}, mode: []fs.FileMode{0o755, 0o700, 0o777}[c.IntN(3)], mtime: mt, up: n}
				fill(d, depth-1)
				n.kids[nm] = d
			case k == 3 && links:
				l := []string{"a", "../b", "nowhere", "a/b", "/abs", "."}[c.IntN(6)]
				n.kids[nm] = &sNode{link: &l, mode: 0o777, up: n}
			default:
				b := make([]byte, c.IntN(60))
				for i := range b {
					b[i] = byte(c.IntN(256))
				}
				if c.IntN(6) == 0 {
					b = nil
				}
				n.kids[nm] = &sNode{c: &sContent{data: b}, mode: []fs.FileMode{0o644, 0o600, 0o444, 0o755, 0o666}[c.IntN(5)], mtime: mt, up: n}
			}
		}
	}
	fill(root, 2)
	s := &sSrc{links: links}
	switch kind {
	case 0:
		s.what = "mapfs"
		m := fstest.MapFS{}
		root.walk(".", func(p string, n *sNode) {
			switch {
			case p == ".":
			case n.link != nil:
				m[p] = &fstest.MapFile{Mode: fs.ModeSymlink | 0o777, Data: []byte(*n.link)}
			case n.isDir():
				m[p] = &fstest.MapFile{Mode: fs.ModeDir | n.mode, ModTime: n.mtime}
			default:
				m[p] = &fstest.MapFile{Mode: n.mode, Data: n.c.data, ModTime: n.mtime}
			}
		})
		s.fsys = m
		if c.IntN(3) > 0 {
			s.what, root.mode = s.what+"/sub", 0o755
		} else {
			m["."] = &fstest.MapFile{Mode: fs.ModeDir | 0o755}
		}
		s.what = "mapfs"
		root.mode = 0o555
		if _, ok := m["."]; ok {
			root.mode = 0o755
		}
	default:
		var f fsx.FS
		dir := ""
		if kind == 3 {
			f = vroot.Widen(memfs.New("src"))
			s.what = "mem"
		} else {
			dir = c.Dir()
			f = vroot.Widen[*osfs.File](osFs(c, dir))
			s.what = "os"
		}
		root.walk(".", func(p string, n *sNode) {
			switch {
			case p == ".":
			case n.link != nil:
				c.Must(f.Symlink(*n.link, p))
			case n.isDir():
				c.Must(f.Mkdir(p, 0o755))
			default:
				c.Must(vroot.WriteFile(f, p, n.c.data, 0o644))
				c.Must(f.Chmod(p, n.mode))
				c.Must(f.Chtimes(p, n.mtime, n.mtime))
			}
		})
		root.walk(".", func(p string, n *sNode) {
			if n.isDir() && p != "." {
				c.Must(f.Chmod(p, n.mode))
				c.Must(f.Chtimes(p, n.mtime, n.mtime))
			}
		})
		i, err := f.Stat(".")
		c.Must(err)
		root.mode = i.Mode().Perm()
		switch {
		case kind == 1:
			s.fsys = os.DirFS(dir)
		case kind == 4:
			s.fsys, s.what = noLstat{os.DirFS(dir)}, "plain"
		default:
			s.fsys = vroot.ToIoFs(f)
		}
	}
	return s, root
}

func sourceTree(f fs.FS) string {
	var b strings.Builder
	_ = fs.WalkDir(f, ".", func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			fmt.Fprintln(&b, p, err)
			return nil
		}
		i, err := d.Info()
		if err != nil {
			fmt.Fprintln(&b, p, err)
			return nil
		}
		fmt.Fprint(&b, p, i.Mode(), i.ModTime().UnixNano())
		if i.Mode().IsRegular() {
			x, err := fs.ReadFile(f, p)
			fmt.Fprintf(&b, " %08x %d %v", fsx.Sum(x), len(x), err)
		} else if i.Mode()&fs.ModeSymlink != 0 {
			l, err := fs.ReadLink(f, p)
			fmt.Fprint(&b, l, err)
		}
		b.WriteByte('\n')
		return nil
	})
	return b.String()
}

var v08 = &rt.Check{ID: "V08", Level: "exploration",
	Rule: "histories of AddFile (bytes, io/fs, in-memory and ranged views) and AddFS (five kinds of source trees) with the standard resolvers and random ones (incl. refusing ones), through the root and sub-roots, mixed with ordinary operations; after each step tree, contents, times, resolver calls and the releases of every view are compared with a model applying the decisions; sources failing at a random call; distinct by history",
	Run: func(r *rt.Run) {
		r.CasesPar("compose", r.N(3000, 120000), 8, func(c *rt.Case) {
			alloc := &logAlloc{in: synthfs.NewMemAllocator(nil)}
			um := []fs.FileMode{0o022, 0, 0o077}[c.IntN(3)]
			root := synthfs.NewRoot("s", &synthfs.Option{Allocator: alloc, Umask: &um})
			model := &sNode{kids: map[string]*sNode{}, mode: 0o777 &^ um}
			var contents []*sContent
			var sources []*sSrc
			var before []string
			type held struct {
				f    vroot.File
				want []byte
				what string
			}
			var handles []held
			names := []string{"a", "b", "a-", "d", "a.x"}
			rel := func(n int) string {
				var es []string
				for range 1 + c.IntN(n) {
					es = append(es, names[c.IntN(len(names))])
				}
				return strings.Join(es, "/")
			}
			spell := func(p string) string {
				switch c.IntN(8) {
				case 0:
					return "./" + p
				case 1:
					return "zz/../" + p
				case 2:
					return strings.ReplaceAll(p, "/", "//")
				}
				return p
			}
			dirs := func() []string {
				var out []string
				model.walk(".", func(p string, n *sNode) {
					if n.isDir() {
						out = append(out, p)
					}
				})
				return out
			}
			check := func(what string) bool {
				c.R.Eval(1)
				got := fsx.Dump(fsx.Sys{FS: vroot.Widen(root)}, fsx.DumpOpt{})
				delete(got, ".")
				want := model.tree()
				if d := fsx.Diff(got, want); d != "" {
					c.Fail("V08:"+what+":"+fsx.DiffKind(got, want), "%s", d)
					return false
				}
				for _, s := range contents {
					if s.view == nil {
						continue
					}
					w := int32(0)
					if s.names == 0 {
						w = 1
					}
					if g := s.view.closes.Load(); g != w {
						c.Fail("V08:"+what+":release", "view %d with %d names released %d times", s.view.id, s.names, g)
						return false
					}
				}
				bad := ""
				model.walk(".", func(p string, n *sNode) {
					if n.mtime.IsZero() || bad != "" {
						return
					}
					if i, err := root.Lstat(p); err != nil || !i.ModTime().Equal(n.mtime) {
						bad = fmt.Sprintf("%q: modification time %v, want %v", p, i.ModTime(), n.mtime)
					}
				})
				if bad != "" {
					c.Fail("V08:"+what+":mtime", "%s", bad)
					return false
				}
				return true
			}
			sub := func() (*synthfs.Root, *sNode, string) {
				if c.IntN(4) > 0 {
					return root, model, "."
				}
				ds := dirs()
				p := ds[c.IntN(len(ds))]
				s, err := root.OpenRoot(p)
				if err != nil {
					c.Fail("V08:openroot", "%q: %v", p, err)
					return root, model, "."
				}
				return s, model.get(p), p
			}
			key := ""
			for step := range 4 + c.IntN(12) {
				if c.Failed() {
					return
				}
				_ = step
				switch k := c.IntN(20); {
				case k < 6: // AddFile
					rr, bound, at := sub()
					p := rel(3)
					b := make([]byte, c.IntN(80))
					for i := range b {
						b[i] = byte(c.IntN(256))
					}
					mt := time.Unix(1_400_000_000+int64(c.IntN(1e8)), 0)
					mode := []fs.FileMode{0o644, 0o600, 0o444, 0o755}[c.IntN(4)]
					var v synthfs.FileView = synthfs.NewBytesView(slices.Clone(b), mode, mt)
					what := "bytes"
					switch c.IntN(4) {
					case 0:
						what = "fs"
						var err error
						v, err = synthfs.NewFsView(fstest.MapFS{"x/y": &fstest.MapFile{Data: slices.Clone(b), Mode: mode, ModTime: mt}}, "x/y")
						c.Must(err)
					case 1:
						what = "mem"
						v, _ = synthfs.NewMemAllocator(nil).Allocate("m", mode)
						h, err := v.Open(os.O_WRONLY)
						c.Must(err)
						_, err = h.Write(b)
						c.Must(err)
						h.Close()
						i, err := v.Stat()
						c.Must(err)
						mt, mode = i.ModTime(), i.Mode().Perm()
					}
					if len(b) > 0 && c.IntN(3) == 0 {
						what += " ranged"
						o := c.IntN(len(b))
						n := 1 + c.IntN(len(b)-o)
						rv, err := synthfs.NewRangedView(v, int64(o), int64(n))
						if err != nil {
							c.Fail("V08:ranged", "%s view of %d bytes: NewRangedView(%d, %d): %v", what, len(b), o, n, err)
							return
						}
						v, b = rv, b[o:o+n]
					}
					lv := &logView{FileView: v, id: len(contents), statErr: c.IntN(15) == 0}
					d := mkResolver8(c)
					ct := &sContent{data: b, view: lv, ro: what != "mem"}
					calls, got := recorder(d)
					name := spell(p)
					c.Logf("AddFile(%q in %q, %s, %d bytes, %s)", name, at, what, len(b), d.name)
					err := rr.AddFile(name, lv, calls)
					lv2 := lv
					if lv.statErr {
						if !errors.Is(err, errUser) {
							c.Fail("V08:addfile:staterr", "view fails Stat, AddFile gives %v", err)
						}
						check("addfile:staterr")
						key += "s"
						continue
					}
					var want []addCall
					parent, base, ok := bound.parents(p, um)
					if !ok {
						if err == nil {
							c.Fail("V08:addfile:parent", "AddFile(%q) succeeds, parent is no directory", name)
						}
						// parents made before the obstacle may stay
						check("addfile:parent")
						key += "p"
						continue
					}
					werr := parent.applyAdd(base, p, &sNode{c: ct, mode: mode, mtime: mt}, d, &want)
					if (err == nil) != (werr == nil) || werr != nil && !errors.Is(err, werr) {
						c.Fail("V08:addfile:err", "AddFile(%q) = %v, want %v", name, err, werr)
						return
					}
					if ct.names > 0 {
						contents = append(contents, ct)
						_ = lv2
					}
					if !compareCalls(c, "addfile", d, got, want) || !check("addfile:"+d.name) {
						return
					}
					key += "f" + d.name + want[len(want)-1].dec.String()
					c.R.Count("addfile:" + d.name)
				case k < 11: // AddFS
					src, sm := genSource(c)
					rr, bound, at := sub()
					p := rel(3)
					if c.IntN(4) == 0 {
						p = "."
					}
					d := mkResolver8(c)
					calls, got := recorder(d)
					name := p
					if p != "." {
						name = spell(p)
					}
					sources = append(sources, src)
					before = append(before, sourceTree(src.fsys))
					fsys := src.fsys
					var fl *srcFS
					if c.IntN(5) == 0 {
						fl = &srcFS{in: fsys, fail: 1 + c.IntN(25)}
						fsys = fl
						if !src.links {
							fsys = noLstat{fl}
						}
					}
					c.Logf("AddFS(%q in %q, %s of %d, %s)", name, at, src.what, len(sm.tree()), d.name)
					prev := model.clone(nil)
					prevTree := model.tree()
					err := rr.AddFS(name, fsys, calls)
					if fl != nil {
						fl.fail = -1
					}
					var want []addCall
					var werr error
					ok := true
					if p == "." {
						werr = bound.addKids(".", sm, d, &want)
					} else {
						var parent *sNode
						var base string
						parent, base, ok = bound.parents(p, um)
						if ok {
							werr = parent.applyAdd(base, p, sm, d, &want)
						}
					}
					if !ok {
						if err == nil {
							c.Fail("V08:addfs:parent", "AddFS(%q) succeeds, parent is no directory", name)
							return
						}
						key += "P"
						check("addfs:parent")
						continue
					}
					if fl != nil && fl.hit != "" {
						key += "x"
						if err == nil {
							c.Fail("V08:addfs:fault", "the source fails at %s, AddFS succeeds", fl.hit)
							return
						}
						// each entry is as before or as decided
						g := fsx.Dump(fsx.Sys{FS: vroot.Widen(root)}, fsx.DumpOpt{})
						delete(g, ".")
						w := model.tree()
						all := map[string]bool{}
						for _, t := range []fsx.Tree{g, prevTree, w} {
							for q := range t {
								all[q] = true
							}
						}
						replaced := func(q string) bool {
							for _, cl := range want {
								cp := path.Join(at, cl.path)
								if cl.dec == synthfs.AddDecisionOverride && cl.ex != "-" && strings.HasPrefix(q, cp+"/") {
									return true
								}
							}
							return false
						}
						for q := range all {
							if g[q] == prevTree[q] || g[q] == w[q] || g[q] == "" && replaced(q) {
								continue
							}
							c.Fail("V08:addfs:fault", "the source fails at %s: %q is %q, was %q, decided %q", fl.hit, q, g[q], prevTree[q], w[q])
							return
						}
						_ = prev
						c.R.Count("fault")
						return // the exact tree depends on the order of visits
					}
					if (err == nil) != (werr == nil) || werr != nil && !errors.Is(err, werr) {
						c.Fail("V08:addfs:err", "AddFS(%q) = %v, want %v", name, err, werr)
						return
					}
					if !compareCalls(c, "addfs", d, got, want) || !check("addfs:"+d.name) {
						return
					}
					key += fmt.Sprint("F", d.name, src.what, len(want))
					c.R.Count("addfs:" + d.name)
					c.R.Count("source:" + src.what)
				case k == 11: // create or write
					ds := dirs()
					p := path.Join(ds[c.IntN(len(ds))], names[c.IntN(len(names))])
					n := model.get(p)
					if n != nil && n.c == nil {
						continue
					}
					b := []byte(rel(4))
					nAlloc := len(alloc.made)
					err := vroot.WriteFile(vroot.Widen(root), p, b, 0o666)
					c.Logf("write %q: %v", p, err)
					if n != nil && n.c.ro {
						if err == nil {
							c.Fail("V08:write:readonly", "writing %q over a read-only view succeeds", p)
						}
						check("write:readonly")
						continue
					}
					if err != nil {
						c.Fail("V08:write", "%q: %v", p, err)
						return
					}
					if n == nil {
						if len(alloc.made) != nAlloc+1 {
							c.Fail("V08:write:alloc", "%d views allocated", len(alloc.made)-nAlloc)
							return
						}
						ct := &sContent{names: 1, view: alloc.made[nAlloc]}
						contents = append(contents, ct)
						dp := model.get(path.Dir(p))
						n = &sNode{c: ct, mode: 0o666 &^ um, up: dp}
						dp.kids[path.Base(p)] = n
					}
					n.c.data = b
					key += "w"
					check("write")
				case k == 12: // hard link
					var fl, ds []string
					model.walk(".", func(p string, n *sNode) {
						if n.c != nil {
							fl = append(fl, p)
						} else if n.isDir() {
							ds = append(ds, p)
						}
					})
					if len(fl) == 0 {
						continue
					}
					o := fl[c.IntN(len(fl))]
					p := path.Join(ds[c.IntN(len(ds))], names[c.IntN(len(names))])
					err := root.Link(o, p)
					c.Logf("link %q %q: %v", o, p, err)
					if (err == nil) != (model.get(p) == nil) {
						c.Fail("V08:link", "Link(%q, %q): %v", o, p, err)
						return
					}
					if err == nil {
						on, dp := model.get(o), model.get(path.Dir(p))
						on.c.names++
						dp.kids[path.Base(p)] = &sNode{c: on.c, mode: on.mode, mtime: on.mtime, up: dp}
					}
					key += "l"
					check("link")
				case k < 15: // remove
					var all []string
					model.walk(".", func(p string, n *sNode) {
						if p != "." {
							all = append(all, p)
						}
					})
					if len(all) == 0 {
						continue
					}
					p := all[c.IntN(len(all))]
					n := model.get(p)
					var err error
					if c.IntN(2) == 0 {
						err = root.RemoveAll(p)
						c.Logf("removeall %q: %v", p, err)
						if err != nil {
							c.Fail("V08:removeall", "%q: %v", p, err)
							return
						}
					} else {
						err = root.Remove(p)
						c.Logf("remove %q: %v", p, err)
						if (err == nil) != (!n.isDir() || len(n.kids) == 0) {
							c.Fail("V08:remove", "%q: %v", p, err)
							return
						}
					}
					if err == nil {
						n.drop()
						delete(n.up.kids, path.Base(p))
					}
					key += "r"
					check("remove")
				case k < 17: // rename
					var all []string
					model.walk(".", func(p string, n *sNode) {
						if p != "." {
							all = append(all, p)
						}
					})
					if len(all) == 0 {
						continue
					}
					ds := dirs()
					o, p := all[c.IntN(len(all))], path.Join(ds[c.IntN(len(ds))], names[c.IntN(len(names))])
					if c.IntN(2) == 0 {
						p = all[c.IntN(len(all))]
					}
					on, pn := model.get(o), model.get(p)
					err := root.Rename(o, p)
					c.Logf("rename %q %q: %v", o, p, err)
					may := !(pn.isDir() || strings.HasPrefix(p, o+"/") && on.isDir() || on.isDir() && pn != nil)
					if (err == nil) != may {
						c.Fail("V08:rename", "Rename(%q, %q): %v", o, p, err)
						return
					}
					if err == nil && on != pn && (pn == nil || on.c == nil || on.c != pn.c) {
						if pn != nil {
							pn.drop()
						}
						delete(on.up.kids, path.Base(o))
						on.up = model.get(path.Dir(p))
						on.up.kids[path.Base(p)] = on
					}
					key += "m"
					check("rename")
				case k == 17: // mkdir, symlink
					ds := dirs()
					dp := ds[c.IntN(len(ds))]
					p := path.Join(dp, names[c.IntN(len(names))])
					var err error
					n := &sNode{kids: map[string]*sNode{}, mode: 0o750 &^ um, up: model.get(dp)}
					if c.IntN(2) == 0 {
						err = root.Mkdir(p, 0o750)
					} else {
						l := []string{"a", "../b", "nowhere", "b/c", ".."}[c.IntN(5)]
						n = &sNode{link: &l, mode: 0o777, up: n.up}
						err = root.Symlink(l, p)
					}
					c.Logf("mkdir or symlink %q: %v", p, err)
					if (err == nil) != (model.get(p) == nil) {
						c.Fail("V08:mkdir", "%q: %v", p, err)
						return
					}
					if err == nil {
						n.up.kids[path.Base(p)] = n
					}
					key += "d"
					check("mkdir")
				default: // read through a handle, keep some open; change the mode of a name
					var fl []string
					model.walk(".", func(p string, n *sNode) {
						if n.c != nil {
							fl = append(fl, p)
						}
					})
					if len(fl) == 0 {
						continue
					}
					p := fl[c.IntN(len(fl))]
					n := model.get(p)
					if c.IntN(3) == 0 {
						m := []fs.FileMode{0o600, 0o640, 0o777}[c.IntN(3)]
						if err := root.Chmod(p, m); err != nil {
							c.Fail("V08:chmod", "%q: %v", p, err)
							return
						}
						c.Logf("chmod %q", p)
						n.mode = m
						check("chmod")
					}
					f, err := root.Open(p)
					if err != nil {
						c.Fail("V08:open", "%q: %v", p, err)
						return
					}
					if n.c.ro && c.IntN(3) == 0 {
						handles = append(handles, held{f, n.c.data, p})
						continue
					}
					readHistory(c, "V08:content", p, f, n.c.data)
					f.Close()
					key += "o"
				}
			}
			for _, h := range handles {
				readHistory(c, "V08:held", h.what, h.f, h.want)
				h.f.Close()
			}
			for _, ct := range contents {
				if ct.view != nil && ct.view.open.Load() != 0 {
					c.Fail("V08:handles", "view %d: %d handles never closed", ct.view.id, ct.view.open.Load())
				}
			}
			for i, s := range sources {
				if after := sourceTree(s.fsys); after != before[i] {
					c.Fail("V08:source", "source %s changed: before\n%safter\n%s", s.what, before[i], after)
				}
			}
			c.R.Distinct(key)
			if c.Idx < 3 {
				c.R.Sample("%s", strings.Join(c.Log(), "; "))
			}
		})
		// views as such
		r.CasesPar("views", r.N(400, 10000), 8, func(c *rt.Case) {
			b := make([]byte, 1+c.IntN(300))
			for i := range b {
				b[i] = byte(c.IntN(256))
			}
			orig := slices.Clone(b)
			var v synthfs.FileView = synthfs.NewBytesView(b, 0o640, time.Unix(1, 0))
			if c.IntN(2) == 0 {
				v, _ = synthfs.NewFsView(fstest.MapFS{"f": &fstest.MapFile{Data: b, Mode: 0o640}}, "f")
			}
			want := orig
			for range c.IntN(3) { // ranges of ranges
				o := c.IntN(len(want))
				n := 1 + c.IntN(len(want)-o)
				rv, err := synthfs.NewRangedView(v, int64(o), int64(n))
				if err != nil {
					c.Fail("V08:views:ranged", "NewRangedView(%d, %d) over %d bytes: %v", o, n, len(want), err)
					return
				}
				v, want = rv, want[o:o+n]
			}
			i, err := v.Stat()
			if err != nil || i.Size() != int64(len(want)) {
				c.Fail("V08:views:stat", "Stat = %v, %v; want size %d", i, err, len(want))
				return
			}
			for _, fl := range []int{os.O_WRONLY, os.O_RDWR, os.O_WRONLY | os.O_TRUNC, os.O_RDWR | os.O_APPEND} {
				if h, err := v.Open(fl); err == nil {
					c.Fail("V08:views:writable", "Open(%#x) of a read-only view succeeds", fl)
					h.Close()
				}
			}
			h1, err := v.Open(os.O_RDONLY)
			c.Must(err)
			h2, err := v.Open(os.O_RDONLY)
			c.Must(err)
			readHistory(c, "V08:views", "h1", h1, want)
			readHistory(c, "V08:views", "h2", h2, want)
			_ = v.Close()
			if _, err := h1.Seek(0, io.SeekStart); err == nil {
				if g, err := io.ReadAll(h1); err != nil || !bytes.Equal(g, want) {
					c.Fail("V08:views:outlive", "after the view is closed: %d bytes, %v", len(g), err)
				}
			}
			for what, fn := range map[string]func() error{
				"write":       func() error { _, e := h1.Write([]byte("x")); return e },
				"writeat":     func() error { _, e := h1.WriteAt([]byte("x"), 0); return e },
				"truncate":    func() error { return h1.Truncate(0) },
				"writestring": func() error { _, e := h1.WriteString("x"); return e },
				"chmod":       func() error { return h1.Chmod(0o600) },
				"readdir":     func() error { _, e := h1.ReadDir(1); return e },
				"names":       func() error { _, e := h1.Readdirnames(-1); return e },
				"infos":       func() error { _, e := h1.Readdir(0); return e },
				"before":      func() error { _, e := h1.Seek(-1, io.SeekStart); return e },
				"range before": func() error {
					_, e := synthfs.NewRangedView(v, -1-c.Int64N(9), 1)
					return e
				},
				"empty range": func() error { _, e := synthfs.NewRangedView(v, 0, -c.Int64N(3)); return e },
				"directory view": func() error {
					_, e := synthfs.NewFsView(fstest.MapFS{"d/f": &fstest.MapFile{}}, "d")
					return e
				},
				"missing view": func() error { _, e := synthfs.NewFsView(fstest.MapFS{}, "f"); return e },
			} {
				if fn() == nil {
					c.Fail("V08:views:"+what, "%s succeeds", what)
				}
			}
			// a view with memory of its own, used without a tree
			m, err := synthfs.NewMemAllocator(nil).Allocate("m", 0o600)
			c.Must(err)
			w, err := m.Open(os.O_WRONLY)
			c.Must(err)
			_, err = w.Write(want)
			c.Must(err)
			ro, err := m.Open(os.O_RDONLY)
			c.Must(err)
			if g, err := io.ReadAll(ro); err != nil || !bytes.Equal(g, want) {
				c.Fail("V08:views:mem", "read back %d bytes, %v; want %d", len(g), err, len(want))
			}
			one := make([]byte, 1)
			for what, fn := range map[string]func() (int, error){
				"read of a write-only handle":          func() (int, error) { return w.Read(one) },
				"positioned read of a write-only one":  func() (int, error) { return w.ReadAt(one, 0) },
				"write to a read-only handle":          func() (int, error) { return ro.Write(one) },
				"positioned write to a read-only one":  func() (int, error) { return ro.WriteAt(one, 0) },
				"write of a string to a read-only one": func() (int, error) { return ro.WriteString("x") },
				"truncation through a read-only one":   func() (int, error) { return 0, ro.Truncate(0) },
			} {
				if n, err := fn(); n != 0 || err == nil || err == io.EOF {
					c.Fail("V08:views:mem:mode", "%s: %d, %v", what, n, err)
				}
			}
			if i, err := ro.Stat(); err != nil || i.Size() != int64(len(want)) {
				c.Fail("V08:views:mem:stat", "%v, %v; want size %d", i, err, len(want))
			}
			c.Must(w.Close())
			c.Must(ro.Close())
			h1.Close()
			h2.Close()
			if !bytes.Equal(b, orig) {
				c.Fail("V08:views:source", "source bytes changed")
			}
			c.R.Eval(1)
			c.R.Distinct(fmt.Sprint(len(b), len(want)))
		})
		for _, x := range []struct {
			k string
			n int
		}{{"addfile:random", 500}, {"addfs:random", 400}, {"addfs:keep", 60}, {"addfs:overwrite", 60}, {"addfs:conflict", 60}, {"fault", 100}, {"source:plain", 100}} {
			r.Floor(x.k, x.n)
		}
	}}

// recorder wraps the resolver of d, noting its calls.
func recorder(d resolver8) (synthfs.AddFunc, *[]addCall) {
	var calls []addCall
	if d.cb == nil {
		return nil, nil
	}
	return func(in, ex synthfs.AddEntry) (synthfs.AddDecision, error) {
		dec, err := d.cb(in, ex)
		calls = append(calls, addCall{in.Path(), entryDesc(in), entryDesc(ex), dec, err != nil})
		return dec, err
	}, &calls
}

func compareCalls(c *rt.Case, op string, d resolver8, gotp *[]addCall, want []addCall) bool {
	if d.cb == nil {
		return true
	}
	got := *gotp
	for i := range max(len(got), len(want)) {
		var g, w addCall
		if i < len(got) {
			g = got[i]
		}
		if i < len(want) {
			w = want[i]
		}
		if g != w {
			c.Fail("V08:"+op+":calls", "resolver call %d: %+v, want %+v", i, g, w)
			return false
		}
	}
	return true
}
