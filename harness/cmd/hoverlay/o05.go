package main

import (
	"errors"
	"fmt"
	"io"
	"io/fs"
	"math/rand/v2"
	"os"
	"path"
	"runtime"
	"strings"
	"sync"
	"time"

	"github.com/ngicks/go-fsys-helper/vroot"
	"github.com/ngicks/go-fsys-helper/vroot-adapter/overlayfs"
	"verif/harness/fsx"
	"verif/harness/lin"
	"verif/harness/ovl"
	"verif/harness/rt"
)

// jit dawdles in calls to a layer, without synchronizing anything.
type jit struct {
	fsx.FS
	level int
}

func jitter(level int) {
	n := time.Now().UnixNano() >> 6
	switch {
	case level == 0:
	case level > 1 && n%61 == 0:
		time.Sleep(20 * time.Microsecond)
	case n%3 == 0:
		runtime.Gosched()
	}
}

func (j jit) Lstat(n string) (fs.FileInfo, error) { jitter(j.level); return j.FS.Lstat(n) }
func (j jit) Stat(n string) (fs.FileInfo, error)  { jitter(j.level); return j.FS.Stat(n) }
func (j jit) ReadLink(n string) (string, error)   { jitter(j.level); return j.FS.ReadLink(n) }
func (j jit) Open(n string) (vroot.File, error)   { jitter(j.level); return j.FS.Open(n) }
func (j jit) OpenFile(n string, f int, p fs.FileMode) (vroot.File, error) {
	jitter(j.level)
	return j.FS.OpenFile(n, f, p)
}
func (j jit) Rename(o, n string) error            { jitter(j.level); return j.FS.Rename(o, n) }
func (j jit) Remove(n string) error               { jitter(j.level); return j.FS.Remove(n) }
func (j jit) RemoveAll(n string) error            { jitter(j.level); return j.FS.RemoveAll(n) }
func (j jit) Mkdir(n string, p fs.FileMode) error { jitter(j.level); return j.FS.Mkdir(n, p) }
func (j jit) Chmod(n string, p fs.FileMode) error { jitter(j.level); return j.FS.Chmod(n, p) }
func (j jit) Link(o, n string) error              { jitter(j.level); return j.FS.Link(o, n) }
func (j jit) Symlink(o, n string) error           { jitter(j.level); return j.FS.Symlink(o, n) }
func (j jit) Chtimes(n string, a, b time.Time) error {
	jitter(j.level)
	return j.FS.Chtimes(n, a, b)
}

// linWorld is one initial overlay that can be made again and again.
type linWorld struct {
	c     *rt.Case
	s     *ovl.Stack // what it is a copy of
	level int
	pre   []fsx.Op
	roots []string
}

// fresh builds the same layers again, in memory.
func (m linWorld) fresh(level int) *ovl.Stack {
	s := &ovl.Stack{Layers: m.s.Layers, Opt: m.s.Opt}
	for _, l := range s.Layers {
		s.Back = append(s.Back, ovl.NewBackend(m.c, "mem"))
		var st *ovl.Store
		if l.Canonical {
			st = ovl.NewStore()
		}
		s.Stores = append(s.Stores, st)
	}
	s.Thin = func(_ int, f fsx.FS) fsx.FS {
		if level == 0 {
			return f
		}
		return jit{f, level}
	}
	s.Put(m.c)
	for _, st := range s.Stores {
		if st != nil && level > 0 {
			st.Hook = func(string, string) error { jitter(level); return nil }
		}
	}
	m.c.Must(s.Mount(m.c))
	return s
}

func (m linWorld) world(s *ovl.Stack) *fsx.World {
	w := fsx.NewWorld(s.Sys())
	for _, o := range m.pre {
		w.Exec(o)
	}
	for i, p := range m.roots {
		if sub, err := w.Roots[0].Sub(p); err == nil {
			w.Roots[i+1] = sub
		}
	}
	return w
}

func share(w *fsx.World) *fsx.World {
	n := &fsx.World{Roots: map[int]fsx.Sys{}, Files: map[int]vroot.File{}}
	for k, v := range w.Roots {
		n.Roots[k] = v
	}
	for k, v := range w.Files {
		n.Files[k] = v
	}
	return n
}

func gather(w *fsx.World, ws []*fsx.World) {
	for _, x := range ws {
		for k, f := range x.Files {
			w.Files[k] = f
		}
	}
}

// linPlans makes the goroutines' programs; handles they open have slots of
// their own.
func linPlans(c *rt.Case, g *fsx.Gen, gs, steps, handles, roots int) [][]fsx.Op {
	plans := make([][]fsx.Op, gs)
	for i := range plans {
		var own []int
		for len(plans[i]) < steps {
			o := g.Next()
			o.R = 0
			if roots > 0 && c.IntN(2) == 0 {
				o.R = c.IntN(roots + 1)
			}
			switch o.K {
			case "create", "open", "openfile":
				o.H = 100 + 10*i + len(own)
				own = append(own, o.H)
				if o.K == "openfile" && o.Flag&3 == os.O_WRONLY {
					o.Flag = o.Flag&^3 | os.O_RDWR
				}
			default:
				switch {
				case o.K == "close" && len(own) == 0:
					continue
				case len(own) > 0 && (o.K == "close" || handles == 0 || c.IntN(3) == 0):
					o.H = own[c.IntN(len(own))]
				case handles > 0:
					o.H = c.IntN(handles)
				default:
					o.H = -1
				}
			}
			plans[i] = append(plans[i], o)
		}
	}
	return plans
}

// reopened compares the view with what the same layers show when opened again.
func reopened(c *rt.Case, id string, s *ovl.Stack, live fsx.Tree) {
	n := *s
	n.Thin = func(_ int, f fsx.FS) fsx.FS { return f }
	if err := n.MountMons(); err != nil {
		c.Fail(id+":reopen", "opening the layers again: %v", err)
		return
	}
	if d := fsx.Diff(fsx.Dump(n.Sys(), fsx.DumpOpt{}), live); d != "" {
		c.Fail(id+":reopened", "opened again after the concurrent history: %s", d)
	}
}

func linRun(c *rt.Case, id string, m linWorld, plans [][]fsx.Op) {
	s := m.fresh(m.level)
	real := m.world(s)
	ws := make([]*fsx.World, len(plans))
	for i := range ws {
		ws[i] = share(real)
	}
	calls, ok := lin.Concurrent(c, ws, plans, func(int) { jitter(m.level) })
	gather(real, ws)
	defer real.CloseAll()
	if !ok {
		return
	}
	for _, o := range m.pre {
		c.Logf("init %v", o)
	}
	for _, x := range calls {
		c.Logf("%v", x)
	}
	final := lin.Fingerprint(real)
	c.R.Eval(1)
	live := fsx.Dump(real.Roots[0], fsx.DumpOpt{})
	for k := range live {
		if strings.HasPrefix(k, "!") {
			c.Fail(id+":inconsistent", "the view contradicts itself afterwards: %s", k)
			return
		}
	}
	reopened(c, id, s, live)
	v, order := lin.Check(calls, final, lin.Spec{New: func() *fsx.World { return m.world(m.fresh(0)) }, Final: lin.Fingerprint, Hidden: true})
	n := lin.Overlaps(calls)
	c.R.CountN("overlapping pairs", n)
	switch v {
	case lin.Ok:
		if n > 0 {
			c.R.Distinct(lin.Key(calls, order))
			c.R.Count("overlapped histories")
			for i := range order {
				if order[i] != i {
					c.R.Count("reordered histories")
					break
				}
			}
		}
	case lin.Unknown:
		c.R.Count("undecided")
	default:
		c.Fail(id+":not-linearizable", "no sequential order explains the outcomes and the final state %s", final)
	}
}

func linStack(c *rt.Case, must ...string) linWorld {
	s := ovl.Gen(c, ovl.GenOpt{Names: []string{"a", "b", "f"}, Depth: 2, Targets: []string{"a", "b", "../a", "a/b", ".", "f"}, Lowers: 2, Ents: 5, Backs: []string{"mem"}, Top: true, Must: must})
	c.Logf("%s", s.Describe())
	return linWorld{c: c, s: s, level: c.IntN(3)}
}

// withFile puts a file into the lowest layer.
func (m linWorld) withFile(n, data string) {
	for i := range m.s.Layers {
		l := &m.s.Layers[i]
		e := map[string]ovl.Ent{}
		for k, v := range l.Ents {
			if k != n && !strings.HasPrefix(k, n+"/") {
				e[k] = v
			}
		}
		l.Ents = e
		for _, s := range []map[string]bool{l.M.W, l.M.O} {
			delete(s, n)
			delete(s, "")
		}
	}
	l := m.s.Layers[len(m.s.Layers)-1]
	l.Ents[n] = ovl.Ent{K: 'f', Perm: 0o644, Data: []byte(data), Mtime: time.Unix(1500000000, 0)}
}

var o05 = &rt.Check{ID: "O05", Level: "exploration", CaseTimeout: 60 * time.Second,
	Rule:        "two to four goroutines run short random programs on one overlay and its sub-overlays, under the race detector, layer and store calls yielding at random; every recorded history (times, outcomes, final view, handles) is explained by a sequential order replayed on a fresh overlay of the same layers, or reported; the layers opened again must show the same view; appenders to one lower file lose nothing while it is renamed, changed and copied up; contests have one winner; long mixed runs on kernel and in-memory layers; non-trivial = calls of different goroutines overlapped; distinct by explained order of operations and outcomes",
	Assumptions: []string{"the sequential meaning is that of the same implementation run sequentially, which O01 compares with the kernel", "a change of mode through a directory handle is two steps"},
	Run: func(r *rt.Run) {
		paths := strings.Fields(`mkdir mkdir mkdirall remove remove removeall removeall rename rename rename rename rename link symlink
			readlink stat lstat lstat chmod chmod create openfile openfile openfile open chtimes write read truncate fstat hreaddir`)
		handles := strings.Fields(`read read readat write write writeat writestring seek truncate fstat fstat close
			rename remove removeall chmod link openfile openfile openfile create stat mkdir`)
		gen := func(c *rt.Case, kinds []string, names ...string) *fsx.Gen {
			return &fsx.Gen{Rand: c.Rand, Names: names, Depth: 2, Kinds: kinds, Handles: 1, Targets: []string{"a", "b", "../a", "a/b", "."}, Modes: tameModes, MaxData: 12}
		}
		r.CasesPar("paths", r.N(4000, 80000), 8, func(c *rt.Case) {
			gs := 2 + c.IntN(3)
			m := linStack(c)
			if c.IntN(8) == 0 {
				m.s.Opt = &overlayfs.Option{DisableOpenFileRemoval: true}
			}
			linRun(c, "O05:paths", m, linPlans(c, gen(c, paths, "a", "b", "f"), gs, 5-gs+c.IntN(3), 0, 0))
		})
		r.CasesPar("roots", r.N(1500, 50000), 8, func(c *rt.Case) {
			gs := 2 + c.IntN(3)
			m := linStack(c, "a", "a/b")
			m.roots = []string{"a", "a/b"}
			linRun(c, "O05:roots", m, linPlans(c, gen(c, paths, "a", "b"), gs, 5-gs+c.IntN(3), 0, 2))
		})
		r.CasesPar("handles", r.N(4000, 80000), 8, func(c *rt.Case) {
			gs := 2 + c.IntN(3)
			m := linStack(c)
			m.withFile("f", "0123456789")
			for i := range 2 {
				m.pre = append(m.pre, fsx.Op{K: "openfile", A: "f", Flag: []int{os.O_RDONLY, os.O_RDWR, os.O_RDWR | os.O_APPEND}[c.IntN(3)], H: i})
			}
			linRun(c, "O05:handles", m, linPlans(c, gen(c, handles, "f", "f", "f", "a"), gs, 5-gs+c.IntN(3), 2, 0))
		})
		// everything at one lower file or directory
		r.CasesPar("one", r.N(4000, 80000), 8, func(c *rt.Case) {
			m := linStack(c)
			m.withFile("f", "lower")
			plans := make([][]fsx.Op, 2+c.IntN(3))
			for i := range plans {
				for range 1 + c.IntN(2) {
					n := pick(c.Rand, "f", "f", "f", "f", "a", "b", "a/f")
					o := fsx.Op{K: pick(c.Rand, "openfile", "openfile", "rename", "rename", "remove", "removeall", "chmod", "chtimes", "link", "mkdir", "symlink", "lstat", "stat", "create"),
						A: n, B: pick(c.Rand, "f", "a", "b", "g", "a/f"), Perm: 0o700, H: 100 + 10*i, Flag: pick(c.Rand, os.O_RDWR, os.O_RDWR|os.O_TRUNC, os.O_RDWR|os.O_CREATE|os.O_EXCL, os.O_RDWR|os.O_CREATE|os.O_APPEND, os.O_RDONLY), T: time.Unix(1600000000, 0)}
					if o.K == "symlink" || c.IntN(3) == 0 {
						o.A, o.B = o.B, o.A
					}
					plans[i] = append(plans[i], o)
					if (o.K == "openfile" || o.K == "create") && c.IntN(2) == 0 {
						plans[i] = append(plans[i], fsx.Op{K: "write", H: o.H, Data: []byte(fmt.Sprintf("w%d", i))})
					}
				}
			}
			linRun(c, "O05:one", m, plans)
		})
		r.CasesPar("append", r.N(250, 6000), 4, overlayAppend)
		r.CasesPar("once", r.N(800, 20000), 4, overlayOnce)
		r.CasesPar("stress", r.N(120, 2000), 2, overlayStress)
		r.Floor("overlapped histories", 1500)
		r.Floor("reordered histories", 50)
		r.Floor("append switches", 200)
		r.Floor("contests", 2000)
	}}

// overlayAppend: appenders of one lower file, some of them through other names
// and sub-overlays, while its name, mode and times change.
func overlayAppend(c *rt.Case) {
	back := pick(c.Rand, "os", "mem")
	s := &ovl.Stack{Layers: []ovl.Layer{{Canonical: true, M: ovl.NewMarks(), Ents: map[string]ovl.Ent{}}, {Ents: map[string]ovl.Ent{
		"d":     {K: 'd', Perm: 0o755, Mtime: time.Unix(1500000000, 0)},
		"d/log": {K: 'f', Perm: 0o644, Data: []byte("<base>"), Mtime: time.Unix(1500000000, 0)},
		"l":     {K: 'l', Target: "d/log"},
	}, M: ovl.NewMarks()}}}
	lv := c.IntN(3)
	for i := range s.Layers {
		s.Back = append(s.Back, ovl.NewBackend(c, back))
		if i == 0 {
			s.Stores = append(s.Stores, ovl.NewStore())
		} else {
			s.Stores = append(s.Stores, nil)
		}
	}
	if c.IntN(2) == 0 {
		s.Opt = policyless()
	}
	s.Thin = func(_ int, f fsx.FS) fsx.FS { return jit{f, lv} }
	s.Put(c)
	c.Must(s.Mount(c))
	defer s.Release()
	sub, err := s.O.OpenRoot("d")
	c.Must(err)
	gs, per := 2+c.IntN(4), 5+c.IntN(15)
	var wg sync.WaitGroup
	start := make(chan struct{})
	var moving sync.RWMutex // the mover's names are gone for a moment
	for g := range gs {
		rnd := rand.New(rand.NewPCG(c.Uint64(), uint64(g)))
		c.Go(&wg, func() {
			<-start
			for i := range per {
				moving.RLock()
				var h vroot.File
				var err error
				switch fl := os.O_WRONLY | os.O_APPEND; rnd.IntN(3) {
				case 0:
					h, err = s.O.OpenFile("d/log", fl, 0)
				case 1:
					h, err = s.O.OpenFile("l", fl|os.O_CREATE, 0o600)
				default:
					h, err = sub.OpenFile("log", fl, 0)
				}
				moving.RUnlock()
				if err != nil {
					c.Fail("O05:append:open", "open for appending: %v", err)
					return
				}
				jitter(lv)
				rec := fmt.Sprintf("<%d:%d:%s>", g, i, strings.Repeat("x", rnd.IntN(40)))
				n, err := h.Write([]byte(rec))
				cerr := h.Close()
				if n != len(rec) || err != nil || cerr != nil {
					c.Fail("O05:append:write", "append returned %d, %v, close %v", n, err, cerr)
					return
				}
			}
		})
	}
	rnd := rand.New(rand.NewPCG(c.Uint64(), 99))
	c.Go(&wg, func() {
		<-start
		for range 12 {
			switch rnd.IntN(4) {
			case 0:
				moving.Lock()
				e1 := s.O.Rename("d/log", "moved")
				jitter(lv)
				e2 := s.O.Rename("moved", "d/log")
				moving.Unlock()
				if e1 != nil || e2 != nil {
					c.Fail("O05:append:rename", "renaming away and back: %v, %v", e1, e2)
					return
				}
			case 1:
				s.O.Chmod("l", 0o664)
			case 2:
				sub.Chtimes("log", time.Unix(1600000000, 0), time.Unix(1600000000, 0))
			case 3:
				s.O.Lstat("d/log")
			}
			jitter(lv)
		}
	})
	close(start)
	wg.Wait()
	if c.Failed() {
		return
	}
	b, _, err := fsx.ReadFile(fsx.Sys{FS: s.Sys().FS}, "d/log")
	c.Must(err)
	c.R.Eval(1)
	rest, ok := strings.CutPrefix(string(b), "<base>")
	if !ok {
		c.Fail("O05:append:base", "the lower's content is not in front: %.40q", b)
		return
	}
	next, last := make([]int, gs), -1
	for rest != "" {
		var g, i int
		e := strings.IndexByte(rest, '>')
		if e < 0 {
			c.Fail("O05:append:torn", "a record is torn: %.60q", rest)
			return
		}
		if k, _ := fmt.Sscanf(rest[:e+1], "<%d:%d:", &g, &i); k != 2 || g >= gs {
			c.Fail("O05:append:torn", "a record is torn: %.60q", rest)
			return
		}
		if next[g] != i {
			c.Fail("O05:append:lost", "writer %d: record %d follows, want %d", g, i, next[g])
			return
		}
		next[g]++
		if g != last {
			c.R.Count("append switches")
		}
		last, rest = g, rest[e+1:]
	}
	for g, n := range next {
		if n != per {
			c.Fail("O05:append:lost", "writer %d: %d of %d records are in the file", g, n, per)
		}
	}
	reopened(c, "O05:append", s, fsx.Dump(s.Sys(), fsx.DumpOpt{}))
	c.R.Distinct(fmt.Sprint("append", c.Idx))
}

// overlayOnce lets goroutines compete for what only one can have.
func overlayOnce(c *rt.Case) {
	d := func() ovl.Ent { return ovl.Ent{K: 'd', Perm: 0o755, Mtime: time.Unix(1500000000, 0)} }
	f := func(s string) ovl.Ent {
		return ovl.Ent{K: 'f', Perm: 0o644, Data: []byte(s), Mtime: time.Unix(1500000000, 0)}
	}
	m := linWorld{c: c, level: c.IntN(3), s: &ovl.Stack{Layers: []ovl.Layer{
		{Canonical: true, M: ovl.Marks{W: map[string]bool{"d/masked": true}, O: map[string]bool{}}, Ents: map[string]ovl.Ent{"own": d(), "own/x": f("x"), "d": d()}},
		{M: ovl.NewMarks(), Ents: map[string]ovl.Ent{"d": d(), "d/masked": f("masked"), "gone": f("gone"), "src": f("src"), "tree": d(), "tree/x": d(), "tree/x/f": f("f"), "d/e": d()}},
	}}}
	s := m.fresh(m.level)
	o := s.O
	sub, err := o.OpenRoot("d")
	c.Must(err)
	open := func(f vroot.File, err error) error {
		if err == nil {
			err = f.Close()
		}
		return err
	}
	contests := []struct {
		what string
		do   func(g int) error
	}{
		{"exclusive-create", func(g int) error {
			if g%2 == 1 {
				return open(sub.OpenFile("e/n", os.O_RDWR|os.O_CREATE|os.O_EXCL, 0o644))
			}
			return open(o.OpenFile("d/e/n", os.O_RDWR|os.O_CREATE|os.O_EXCL, 0o644))
		}},
		{"create-over-mask", func(g int) error {
			if g%2 == 1 {
				return sub.Mkdir("masked", 0o755)
			}
			return open(o.OpenFile("d/masked", os.O_RDWR|os.O_CREATE|os.O_EXCL, 0o644))
		}},
		{"mkdir", func(g int) error { return o.Mkdir("d/e/dir", 0o755) }},
		{"link", func(g int) error { return o.Link("src", "d/l") }},
		{"symlink", func(g int) error { return o.Symlink("src", "d/s") }},
		{"remove-lower", func(g int) error { return o.Remove("gone") }},
		{"remove-top", func(g int) error { return o.Remove("own/x") }},
		{"remove-lower-dir", func(g int) error { return o.Remove("tree/x") }},
		{"take-own-dir", func(g int) error { return o.Rename("own", fmt.Sprintf("taken%d", g)) }},
		{"take-lower-file", func(g int) error { return o.Rename("src2", fmt.Sprintf("d/got%d", g)) }},
	}
	c.Must(o.Link("src", "src2"))
	c.Must(o.Remove("tree/x/f"))
	gs := 2 + c.IntN(5)
	rounds := c.Perm(len(contests))
	res := make([][]error, gs)
	var wg sync.WaitGroup
	start := make(chan struct{})
	for g := range gs {
		res[g] = make([]error, len(contests))
		c.Go(&wg, func() {
			<-start
			for _, i := range rounds {
				res[g][i] = contests[i].do(g)
				jitter(m.level)
			}
		})
	}
	close(start)
	wg.Wait()
	if c.Failed() {
		return
	}
	for i, x := range contests {
		var won []int
		for g := range gs {
			err := res[g][i]
			switch {
			case err == nil:
				won = append(won, g)
			case errors.Is(err, fs.ErrExist), errors.Is(err, fs.ErrNotExist):
			default:
				// a directory stops being empty, a parent goes: order decides
				c.R.Count("contest: other error")
			}
		}
		if x.what == "remove-top" && len(won) == 0 {
			continue // the directory was taken first
		}
		c.R.Eval(1)
		c.R.Count("contests")
		if len(won) != 1 {
			c.Fail("O05:once:"+x.what, "%s succeeded for goroutines %v of %d, want exactly one", x.what, won, gs)
		} else {
			c.R.Distinct(fmt.Sprint(x.what, gs, won))
		}
	}
	reopened(c, "O05:once", s, fsx.Dump(s.Sys(), fsx.DumpOpt{}))
}

// overlayStress runs everything against everything.
func overlayStress(c *rt.Case) {
	s := ovl.Gen(c, ovl.GenOpt{Names: []string{"a", "b", "a-"}, Depth: 3, Targets: linkTargets, Lowers: 3, Ents: 10, Top: true, SQLite: 8, Must: []string{"a", "a/b"}})
	lv := c.IntN(3)
	if c.IntN(3) == 0 {
		s.Opt = policyless()
	}
	s.Thin = func(_ int, f fsx.FS) fsx.FS { return jit{f, lv} }
	c.Logf("%s", s.Describe())
	s.Put(c)
	c.Must(s.Mount(c))
	defer s.Release()
	w := fsx.NewWorld(s.Sys())
	for i, p := range []string{"a", "a/b"} {
		if sub, err := w.Roots[0].Sub(p); err == nil {
			w.Roots[i+1] = sub
		}
	}
	for i, o := range []fsx.Op{{K: "openfile", A: "s", Flag: os.O_RDWR | os.O_CREATE | os.O_APPEND, Perm: 0o644}, {K: "open", A: "a"}, {K: "open", A: "."}, {K: "create", A: "a/shared"}} {
		o.H = i
		w.Exec(o)
	}
	aDir := false
	if f := w.Files[1]; f != nil {
		i, err := f.Stat()
		aDir = err == nil && i.IsDir()
	}
	gs := 3 + c.IntN(4)
	ws := make([]*fsx.World, gs)
	ls := make([]*rt.Case, gs)
	var wg sync.WaitGroup
	for i := range gs {
		ws[i] = share(w)
		rnd := rand.New(rand.NewPCG(c.Uint64(), uint64(i)))
		ls[i] = c.Local(rnd)
		c.Go(&wg, func() {
			l := ls[i]
			g := &fsx.Gen{Rand: rnd, Names: []string{"a", "b", "a-"}, Depth: 3, Kinds: append(without(fsx.BasicKinds), "chown", "lchown", "sync", "hrewind", "hreaddir", "openroot", "appendfile"), Handles: 8, Roots: 3, Targets: linkTargets, Modes: tameModes}
			for range 120 {
				o := g.Next()
				switch o.K {
				case "create", "open", "openfile":
					o.H = 10 + rnd.IntN(4)
				case "openroot":
					o.H = 10 + rnd.IntN(2)
				default:
					o.H = pick(rnd, 0, 1, 2, 3, 10, 11, 12, 13)
					o.R = pick(rnd, 0, 0, 1, 2, 10, 11)
				}
				listable := o.H >= 10 || o.H == 2 || o.H == 1 && aDir // an *os.File is not safe for listing and seeking at once
				if o.K == "hreaddir" && !listable {
					continue
				}
				if o.K == "close" && o.H < 10 && rnd.IntN(20) > 0 {
					continue
				}
				if _, ok := ws[i].Roots[o.R]; !ok {
					o.R = 0
				}
				out := lin.Exec(ws[i], o)
				l.R.Eval(1)
				if out.Err == "ok" || out.Err == "eof" {
					l.R.Count("stress-ok")
				}
				switch rnd.IntN(12) {
				case 0:
					if f := ws[i].Files[o.H]; f != nil {
						_ = f.Name()
						if listable {
							f.Readdir(1)
						}
					}
				case 1:
					fs.WalkDir(vroot.ToIoFsRoot[vroot.File](s.O), ".", func(p string, d fs.DirEntry, err error) error {
						if err == nil {
							d.Info()
						}
						return nil
					})
				case 2:
					if f, err := s.O.Open(path.Join("a", "b")); err == nil {
						io.Copy(io.Discard, f)
						f.Close()
					}
				}
			}
		})
	}
	wg.Wait()
	c.Merge(ls...)
	gather(w, ws)
	w.CloseAll()
	t := fsx.Dump(s.Sys(), fsx.DumpOpt{})
	for k := range t {
		if strings.HasPrefix(k, "!") {
			c.Fail("O05:stress:inconsistent", "the view contradicts itself after a concurrent run: %s", k)
			break
		}
	}
	if s.Stores[0] != nil { // two SQLite connections would be one too many
		reopened(c, "O05:stress", s, t)
	} else {
		c.Must(s.O.Close())
		s.Prepare(c)
		reopened(c, "O05:stress", s, t)
	}
	c.R.Eval(1)
	c.R.Distinct(fmt.Sprint("stress", c.Idx))
}
