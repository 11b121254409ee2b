package main

import (
	"fmt"
	"io"
	"io/fs"
	"math/rand/v2"
	"os"
	"path"
	"sort"
	"strings"
	"sync"
	"sync/atomic"

	"github.com/ngicks/go-fsys-helper/vroot"
	"github.com/ngicks/go-fsys-helper/vroot-adapter/overlayfs"
	"verif/harness/fsx"
	"verif/harness/ovl"
	"verif/harness/rt"
)

// keyOf is the name of what a kernel handle was opened on, right after opening.
func (p *pair) keyOf(f vroot.File) string {
	n, err := os.Readlink(fmt.Sprintf("/proc/self/fd/%d", f.Fd()))
	p.c.Must(err)
	if n == p.dir {
		return ""
	}
	k, ok := strings.CutPrefix(n, p.dir+"/")
	if !ok {
		p.c.Must(fmt.Errorf("%s is not beneath %s", n, p.dir))
	}
	return k
}

// fullName resolves a name but for its last component in the reference.
func (p *pair) fullName(r int, n string) (string, bool) {
	s, ok := p.want.Roots[r]
	if !ok {
		return "", false
	}
	f, err := s.Open(path.Dir(n))
	if err != nil {
		return "", false
	}
	defer f.Close()
	if i, err := f.Stat(); err != nil || !i.IsDir() {
		return "", false
	}
	return path.Join(p.keyOf(f), path.Base(n)), true
}

func beneath(k, dir string) bool { return k == dir || strings.HasPrefix(k, dir+"/") || dir == "" }

// listed reads a directory handle from its start, in pages or at once.
func listed(f vroot.File, page int) string {
	if _, err := f.Seek(0, io.SeekStart); err != nil {
		return fsx.Class(err)
	}
	var l []string
	for {
		es, err := f.ReadDir(page)
		for _, e := range es {
			l = append(l, fmt.Sprintf("%s:%v", e.Name(), e.Type()))
		}
		if err == io.EOF && page > 0 {
			break
		}
		if err != nil {
			return fsx.Class(err)
		}
		if page <= 0 {
			break
		}
		if len(es) == 0 {
			return "an empty page"
		}
	}
	sort.Strings(l)
	return strings.Join(l, ",")
}

// refused asks a closed handle for everything.
func refused(c *rt.Case, what string, f vroot.File) {
	b := []byte("late")
	for n, fn := range map[string]func() error{
		"Read":         func() error { _, err := f.Read(b); return err },
		"ReadAt":       func() error { _, err := f.ReadAt(b, 0); return err },
		"Write":        func() error { _, err := f.Write(b); return err },
		"WriteAt":      func() error { _, err := f.WriteAt(b, 0); return err },
		"WriteString":  func() error { _, err := f.WriteString("late"); return err },
		"Seek":         func() error { _, err := f.Seek(0, io.SeekStart); return err },
		"Truncate":     func() error { return f.Truncate(1) },
		"Chmod":        func() error { return f.Chmod(0o711) },
		"Chown":        func() error { return f.Chown(-1, -1) },
		"Sync":         func() error { return f.Sync() },
		"Stat":         func() error { _, err := f.Stat(); return err },
		"ReadDir":      func() error { _, err := f.ReadDir(-1); return err },
		"Readdir":      func() error { _, err := f.Readdir(-1); return err },
		"Readdirnames": func() error { _, err := f.Readdirnames(-1); return err },
	} {
		c.R.Eval(1)
		if err := fn(); err == nil || err == io.EOF {
			c.Fail("O07:closed:"+what+":"+n, "a closed %s handle accepts %s (%v)", what, n, err)
		}
	}
	f.Close()
}

type pinned struct {
	key  string
	open bool
}

var o07 = &rt.Check{ID: "O07", Level: "exploration",
	Rule:        "random histories with up to eight handles on files and directories of random stacks: every read, seek, stat and listing through a handle compared with a kernel handle opened at the same point (on lower files: on a private copy of the content at open); closed handles asked for everything; with open-file protection every removal judged by independently counted handles per resolved name, the view and masks compared around refused ones; opens, closes and removals in parallel judged by their intervals; non-trivial = a handle was used after something happened to its name, or a removal was judged; distinct by operation and outcome sequence",
	Assumptions: []string{"a handle on a lower file shows the content of the opening even after the file was copied up and changed", "whether renaming takes a pin along is a listed finding; histories do not rename pinned names"},
	Run: func(r *rt.Run) {
		kinds := strings.Fields(`open open open open open open open openfile openfile create close
			read read read readat readat seek seek fstat fstat hreaddir hreaddir hreaddir write writeat truncate fchmod sync
			remove remove removeall rename rename rename writefile writefile appendfile appendfile mkdir mkdirall chmod symlink`)
		r.CasesPar("valid", r.N(1500, 40000), 8, func(c *rt.Case) {
			s := genStack(c)
			mount(c, s)
			defer s.Release()
			p := newPair(c, s)
			defer p.close()
			tmp := c.Dir()
			names := []string{"a", "b", "a-"}
			g := &fsx.Gen{Rand: c.Rand, Names: names, Depth: 3, Kinds: kinds, Handles: 8, Targets: linkTargets, Modes: tameModes}
			if c.IntN(2) == 0 {
				g.Roots = 3
				g.Kinds = append(append([]string{}, kinds...), "openroot")
			}
			g.Pth = func(g *fsx.Gen) string { // mostly names that exist
				n := ""
				if l := fsx.Dump(p.want.Roots[0], fsx.DumpOpt{}).Keys(); g.IntN(2) == 0 && len(l) > 0 {
					n = l[g.IntN(len(l))]
				}
				if n == "" || n == "." {
					n = names[g.IntN(3)]
					for g.IntN(2) == 0 {
						n += "/" + names[g.IntN(3)]
					}
				}
				return n
			}
			type handle struct {
				dir, lower, touched bool
				key                 string
			}
			hs := map[int]*handle{}
			n := 0
			held := func() (k int) {
				for _, m := range s.Mons[1:] {
					k += len(m.OpenHandles())
				}
				return
			}
			first := func(o fsx.Op, got func() fsx.Out) (fsx.Out, bool) {
				h := hs[o.H]
				switch o.K {
				case "open", "openfile", "create":
					old := p.got.Files[o.H]
					before := held()
					if old != nil { // let go first, so that the count is this handle's
						old.Close()
						p.want.Files[o.H].Close()
						delete(p.got.Files, o.H)
						delete(p.want.Files, o.H)
						delete(hs, o.H)
						before = held()
					}
					out, done := p.first(o, got)
					if out.Err == "ok" {
						hs[o.H] = &handle{lower: held() > before}
					}
					return out, done
				case "read", "readat", "seek", "fstat", "hreaddir", "write", "writeat", "truncate", "fchmod", "sync", "close":
					if h == nil {
						return fsx.Out{}, true
					}
					if h.dir {
						w, err := p.want.Files[o.H].Stat()
						if err == nil {
							i, err := p.want.Roots[0].Lstat(path.Join(".", h.key))
							if err != nil || !os.SameFile(i, w) { // listed finding: handles go by the name
								p.got.Files[o.H].Close()
								p.want.Files[o.H].Close()
								delete(p.got.Files, o.H)
								delete(p.want.Files, o.H)
								delete(hs, o.H)
								r.Count("handles on moved directories let go")
								return fsx.Out{}, true
							}
						}
						switch o.K {
						case "hreaddir":
							page := o.N%4 - 1
							if page == 0 {
								page = -1
							}
							a, b := listed(p.got.Files[o.H], page), listed(p.want.Files[o.H], -1)
							r.Eval(1)
							r.Count("listings through handles")
							if a != b {
								c.Fail("O07:dir:listing", "h%d on %q lists %s, want %s", o.H, h.key, a, b)
							}
							return fsx.Out{Err: "ok", Val: a}, true
						case "fstat":
							if h.lower { // describes the lower's directory until changed through the handle
								return fsx.Out{}, true
							}
						case "fchmod":
							if _, err := p.want.Files[o.H].Stat(); err == nil {
								h.lower = false
							}
						case "close", "sync", "seek":
						default: // kernels differ on the error; it has to be one
							out := got()
							if out.Err == "ok" {
								c.Fail("O07:dir:"+o.K, "%v on a directory succeeds", o)
							}
							return out, true
						}
						return got(), false
					}
					if h.lower {
						switch o.K {
						case "write", "writeat", "truncate", "fchmod":
							out := got()
							if out.Err == "ok" {
								c.Fail("O07:lower:"+o.K, "%v through a handle opened for reading succeeds", o)
							}
							return out, true
						}
					}
					if h.touched {
						r.Count("handles used after something happened")
						if h.lower {
							r.Count("lower handles used after something happened")
						}
					}
				case "remove", "removeall", "rename", "writefile", "appendfile", "chmod":
					for _, h := range hs {
						h.touched = h.touched || h.lower || o.K[0] == 'r'
					}
				}
				return p.first(o, got)
			}
			after := func(o fsx.Op, got, want fsx.Out) bool {
				switch o.K {
				case "open", "openfile", "create":
				default:
					return true
				}
				if got.Err != "ok" {
					return true
				}
				h, f := hs[o.H], p.want.Files[o.H]
				h.key = p.keyOf(f)
				i, err := f.Stat()
				c.Must(err)
				h.dir = i.IsDir()
				if h.dir || !h.lower {
					return true
				}
				// what the lower holds, out of everyone's reach
				b, _, err := fsx.ReadFile(p.want.Roots[0], h.key)
				c.Must(err)
				n++
				d := fmt.Sprintf("%s/%d", tmp, n)
				c.Must(os.Mkdir(d, 0o755))
				q := path.Join(d, path.Base(o.A))
				c.Must(os.WriteFile(q, b, 0o600))
				c.Must(os.Chmod(q, i.Mode()))
				k, err := os.Open(q)
				c.Must(err)
				if i.Mode()&(fs.ModeSetuid|fs.ModeSetgid|fs.ModeSticky) != 0 {
					c.Must(os.Chmod(q, i.Mode()))
				}
				f.Close()
				p.want.Files[o.H] = k
				r.Count("handles on lower files")
				return true
			}
			opt := fsx.DiffOpt{ID: "O07", Part: "valid", Steps: 70, Every: 10, LooseOps: looseOps, First: first, After: after,
				Skip: func(w *fsx.World, o fsx.Op) bool { return kindSkip(w, o) || underSub(w, o) },
				Continue: func(o fsx.Op, got, want fsx.Out) bool {
					return tolerated(o, got, want) || (o.K == "seek" || o.K == "sync" || o.K == "hreaddir") && got.Err != "ok" && want.Err != "ok" ||
						o.K == "sync" && hs[o.H] != nil && hs[o.H].lower
				}}
			if !fsx.Differential(c, p.got, p.want, g, opt) || c.Failed() {
				return
			}
			// every method of every handle, closed
			before := fsx.Dump(p.got.Roots[0], fsx.DumpOpt{})
			for h, f := range p.got.Files {
				f.Close()
				what := "top file"
				if hs[h].dir {
					what = "directory"
				} else if hs[h].lower {
					what = "lower file"
				}
				r.Count("closed: " + what)
				refused(c, what, f)
			}
			if d := fsx.Diff(fsx.Dump(p.got.Roots[0], fsx.DumpOpt{}), before); d != "" {
				c.Fail("O07:closed:changed", "calls on closed handles changed the tree: %s", d)
			}
			for i, m := range s.Mons {
				if l := m.OpenHandles(); len(l) > 0 && s.Stores[0] != nil {
					c.Fail("O07:leak", "layer %d still has handles open: %q", i, l)
				}
			}
			r.Sample("%v", c.Log())
		})
		pinKinds := strings.Fields(`open open open open openfile openfile create create close close close
			remove remove remove remove removeall removeall removeall writefile appendfile mkdir mkdir mkdirall rename symlink link list`)
		r.CasesPar("pin", r.N(1500, 40000), 8, func(c *rt.Case) {
			s := genStack(c)
			s.Opt = &overlayfs.Option{DisableOpenFileRemoval: true}
			mount(c, s)
			defer s.Release()
			p := newPair(c, s)
			defer p.close()
			g := &fsx.Gen{Rand: c.Rand, Names: []string{"a", "b", "a-"}, Depth: 3, Kinds: pinKinds, Handles: 6, Targets: linkTargets, Modes: tameModes}
			if c.IntN(2) == 0 {
				g.Roots = 3
				g.Kinds = append(append([]string{}, pinKinds...), "openroot")
			}
			hs := map[int]*pinned{}
			count := func(full string, tree bool) (n int) {
				for _, h := range hs {
					if h.open && (h.key == full || tree && beneath(h.key, full)) {
						n++
					}
				}
				return
			}
			first := func(o fsx.Op, got func() fsx.Out) (fsx.Out, bool) {
				switch o.K {
				case "close":
					if h := hs[o.H]; h != nil {
						if !h.open {
							r.Count("closed twice")
						}
						h.open = false
					}
				case "remove", "removeall":
					full, ok := p.fullName(o.R, o.A)
					if !ok || full == "" {
						break
					}
					i, err := p.want.Roots[o.R].Lstat(o.A)
					if err != nil || count(full, o.K == "removeall") == 0 {
						break
					}
					marks := ""
					if st := s.Stores[0]; st != nil {
						marks = st.Snapshot()
					}
					before := s.Raw(c, 0)
					out := got()
					r.Eval(1)
					what := o.K + ":file"
					if i.IsDir() {
						what = o.K + ":dir"
					}
					r.Count("refused: " + what)
					if out.Err == "ok" {
						c.Fail("O07:pin:"+what, "%v succeeded with %d handles open on %q", o, count(full, o.K == "removeall"), full)
						return out, true
					}
					if d := fsx.Diff(fsx.Dump(p.got.Roots[0], fsx.DumpOpt{}), fsx.Dump(p.want.Roots[0], fsx.DumpOpt{})); d != "" {
						c.Fail("O07:pin:"+what+":view", "%v was refused and left: %s", o, d)
					}
					if d := fsx.Diff(s.Raw(c, 0), before); d != "" {
						c.Fail("O07:pin:"+what+":top", "%v was refused and left the top: %s", o, d)
					}
					if st := s.Stores[0]; st != nil && st.Snapshot() != marks {
						c.Fail("O07:pin:"+what+":marks", "%v was refused and changed the masks from %s to %s", o, marks, st.Snapshot())
					}
					return out, true
				}
				return p.first(o, got)
			}
			after := func(o fsx.Op, got, want fsx.Out) bool {
				switch o.K {
				case "open", "openfile", "create":
					if got.Err == "ok" {
						hs[o.H] = &pinned{p.keyOf(p.want.Files[o.H]), true}
						r.Count("pins")
					}
				case "remove", "removeall":
					if got.Err == "ok" {
						r.Count("removals with nothing open")
					}
				}
				return true
			}
			skip := func(w *fsx.World, o fsx.Op) bool {
				if o.K == "rename" {
					for _, n := range []string{o.A, o.B} {
						if full, ok := p.fullName(o.R, n); ok && count(full, true) > 0 {
							return true
						}
					}
				}
				return kindSkip(w, o) || underSub(w, o)
			}
			fsx.Differential(c, p.got, p.want, g, fsx.DiffOpt{ID: "O07", Part: "pin", Steps: 60, Every: 10, LooseOps: looseOps, First: first, After: after, Skip: skip, Continue: tolerated})
			if c.Failed() {
				return
			}
			// closed, everything goes, from the leaves up or at once
			p.got.CloseAll()
			p.want.CloseAll()
			names, err := fsx.Names(p.got.Roots[0], ".")
			c.Must(err)
			for _, n := range names {
				var err error
				if c.IntN(2) == 0 {
					err = p.got.Roots[0].RemoveAll(n)
				} else {
					t := fsx.Dump(p.got.Roots[0], fsx.DumpOpt{}).Keys()
					sort.Sort(sort.Reverse(sort.StringSlice(t)))
					for _, k := range t {
						if k != "." && beneath(k, n) && err == nil {
							err = p.got.Roots[0].Remove(k)
						}
					}
				}
				r.Eval(1)
				if err != nil {
					c.Fail("O07:pin:left", "with every handle closed, removing %q: %v", n, err)
				}
			}
		})
		r.Cases("parallel", r.N(150, 3000), func(c *rt.Case) { parallelPins(c) })
		r.Cases("moved-pin", 1, func(c *rt.Case) {
			o := plainOverlay(c, &overlayfs.Option{DisableOpenFileRemoval: true})
			f, err := o.Create("a")
			c.Must(err)
			c.Must(o.Rename("a", "b"))
			if err := o.Remove("b"); err == nil {
				c.Fail("O07:pin:renamed", "a file opened as \"a\" and renamed to \"b\" can be removed while open")
			}
			f.Close()
			r.Eval(1)
		})
		r.Cases("moved-dir", 1, func(c *rt.Case) {
			o := plainOverlay(c, nil)
			c.Must(o.Mkdir("a", 0o755))
			c.Must(vroot.WriteFile(o, "a/old", []byte("x"), 0o644))
			f, err := o.Open("a")
			c.Must(err)
			c.Must(o.Rename("a", "b"))
			c.Must(o.Mkdir("a", 0o755))
			c.Must(vroot.WriteFile(o, "a/new", []byte("x"), 0o644))
			l, err := f.Readdirnames(-1)
			if fmt.Sprint(l, err) != "[old] <nil>" {
				c.Fail("O07:dir:renamed", "a handle opened on a directory since renamed lists %q (%v), want old", l, err)
			}
			f.Close()
			r.Eval(1)
		})
		r.Floor("handles on lower files", 250)
		r.Floor("lower handles used after something happened", 150)
		r.Floor("listings through handles", 200)
		r.Floor("refused: remove:file", 100)
		r.Floor("refused: remove:dir", 50)
		r.Floor("refused: removeall:dir", 200)
		r.Floor("refused: removeall:file", 100)
		r.Floor("removals with nothing open", 500)
		r.Floor("closed twice", 200)
		r.Floor("parallel: refused", 20)
		r.Floor("parallel: removed", 200)
	}}

func plainOverlay(c *rt.Case, opt *overlayfs.Option) *overlayfs.Fs {
	s := &ovl.Stack{Layers: []ovl.Layer{{Canonical: true, Ents: map[string]ovl.Ent{}}}, Back: []*ovl.Backend{ovl.NewBackend(c, "mem")}, Stores: []*ovl.Store{ovl.NewStore()}, Opt: opt}
	s.Put(c)
	c.Must(s.Mount(c))
	return s.O
}

// parallelPins judges removals by the intervals handles were open in.
func parallelPins(c *rt.Case) {
	s := ovl.Gen(c, ovl.GenOpt{Names: []string{"a", "b", "a-"}, Depth: 2, Targets: linkTargets, Lowers: 2, Ents: 8, Backs: []string{"mem"}, Top: true})
	s.Opt = &overlayfs.Option{DisableOpenFileRemoval: true}
	mount(c, s)
	defer s.Release()
	for _, n := range []string{"a", "b", "a-", "d"} {
		s.O.RemoveAll(n)
	}
	c.Must(s.O.Mkdir("d", 0o755))
	files := []string{"a", "b", "d/a", "d/b"}
	var clock atomic.Int64
	type span struct {
		name                        string
		call, opened, close, closed int64
	}
	type rem struct {
		name     string
		from, to int64
		tree, ok bool
	}
	var mu sync.Mutex
	var spans []span
	var rems []rem
	var wg sync.WaitGroup
	for g := range 4 {
		rnd := rand.New(rand.NewPCG(c.Uint64(), uint64(g)))
		c.Go(&wg, func() {
			for range 60 {
				n := files[rnd.IntN(len(files))]
				sp := span{name: n, call: clock.Add(1)}
				flag := os.O_RDONLY
				if rnd.IntN(2) == 0 {
					flag = os.O_RDWR | os.O_CREATE
				}
				f, err := s.O.OpenFile(n, flag, 0o644)
				if err != nil {
					continue
				}
				sp.opened = clock.Add(1)
				for range rnd.IntN(4) {
					f.Stat()
				}
				sp.close = clock.Add(1)
				f.Close()
				sp.closed = clock.Add(1)
				if rnd.IntN(2) == 0 {
					f.Close()
				}
				mu.Lock()
				spans = append(spans, sp)
				mu.Unlock()
			}
		})
	}
	for g := range 2 {
		rnd := rand.New(rand.NewPCG(c.Uint64(), uint64(100+g)))
		c.Go(&wg, func() {
			for range 60 {
				rm := rem{name: files[rnd.IntN(len(files))], tree: rnd.IntN(4) == 0}
				if rm.tree && rnd.IntN(2) == 0 {
					rm.name = "d"
				}
				rm.from = clock.Add(1)
				var err error
				if rm.tree {
					err = s.O.RemoveAll(rm.name)
				} else {
					err = s.O.Remove(rm.name)
				}
				rm.to = clock.Add(1)
				rm.ok = err == nil
				if rm.name == "d" {
					s.O.Mkdir("d", 0o755)
				}
				if err != nil && fsx.Class(err) == "notexist" {
					continue
				}
				mu.Lock()
				rems = append(rems, rm)
				mu.Unlock()
			}
		})
	}
	wg.Wait()
	for _, rm := range rems {
		may := false
		for _, sp := range spans {
			if sp.name != rm.name && !(rm.tree && beneath(sp.name, rm.name)) {
				continue
			}
			may = may || sp.call < rm.to && sp.closed > rm.from
			if rm.ok && sp.opened < rm.from && sp.close > rm.to {
				c.Fail("O07:parallel:removed", "%q removed during [%d,%d] although a handle on %q was open during [%d,%d]", rm.name, rm.from, rm.to, sp.name, sp.opened, sp.close)
			}
		}
		c.R.Eval(1)
		if rm.ok {
			c.R.Count("parallel: removed")
		} else {
			c.R.Count("parallel: refused")
			if !may {
				c.Fail("O07:parallel:refused", "removing %q during [%d,%d] was refused, no handle was open", rm.name, rm.from, rm.to)
			}
		}
	}
	c.R.Distinct(fmt.Sprint(rems))
}
