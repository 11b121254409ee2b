package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"math/rand/v2"
	"os"
	"runtime"
	"strings"
	"sync"
	"testing/fstest"
	"time"

	"github.com/ngicks/go-fsys-helper/vroot"
	"github.com/ngicks/go-fsys-helper/vroot/synthfs"
	"verif/harness/fsx"
	"verif/harness/lin"
	"verif/harness/rt"
)

// jitterClock yields wherever the file system asks for the time, which is in
// the middle of its critical sections.
type jitterClock struct{ level int }

func jitter(level int) {
	n := time.Now().UnixNano() >> 6 // no state: nothing may synchronize here
	switch {
	case level == 0:
	case level > 1 && n%61 == 0:
		time.Sleep(20 * time.Microsecond)
	case n%3 == 0:
		runtime.Gosched()
	}
}

func (j jitterClock) Now() time.Time { jitter(j.level); return time.Now() }

// jitterAlloc makes views that dawdle.
type jitterAlloc struct {
	in    synthfs.FileViewAllocator
	level int
	fail  bool // every Truncate and every third Open fails
}

type jitterView struct {
	synthfs.FileView
	a jitterAlloc
}

type jitterFile struct {
	vroot.File
	a jitterAlloc
}

var errView = errors.New("view refuses")

func (a jitterAlloc) Allocate(n string, p fs.FileMode) (synthfs.FileView, error) {
	jitter(a.level)
	v, err := a.in.Allocate(n, p)
	return jitterView{v, a}, err
}

func (v jitterView) Open(flag int) (vroot.File, error) {
	jitter(v.a.level)
	f, err := v.FileView.Open(flag)
	if err != nil {
		return nil, err
	}
	return jitterFile{f, v.a}, nil
}

func (v jitterView) Stat() (fs.FileInfo, error) { jitter(v.a.level); return v.FileView.Stat() }

func (f jitterFile) Truncate(n int64) error {
	jitter(f.a.level)
	if f.a.fail {
		return errView
	}
	return f.File.Truncate(n)
}

// memWorld is one initial state that can be made again and again.
type memWorld struct {
	level   int
	protect bool
	build   []fsx.Op
	pre     []fsx.Op // opens of the shared handles
	roots   []string
}

func (m memWorld) New(level int) *fsx.World {
	um := fs.FileMode(0o022)
	opt := &synthfs.Option{Umask: &um, DisableOpenFileRemoval: m.protect}
	if level > 0 {
		opt.Clock = jitterClock{level}
		opt.Allocator = jitterAlloc{in: synthfs.NewMemAllocator(jitterClock{level}), level: level}
	}
	w := fsx.NewWorld(fsx.WrapRoot[vroot.File, *synthfs.Root](synthfs.NewRoot("m", opt)))
	for _, o := range m.build {
		w.Exec(o)
	}
	for _, o := range m.pre {
		w.Exec(o)
	}
	for i, p := range m.roots {
		if s, err := w.Roots[0].Sub(p); err == nil {
			w.Roots[i+1] = s
		}
	}
	return w
}

// share gives a goroutine a world of its own over the same systems.
func share(w *fsx.World) *fsx.World {
	n := &fsx.World{Roots: map[int]fsx.Sys{}, Files: map[int]vroot.File{}}
	for k, v := range w.Roots {
		n.Roots[k] = v
	}
	for k, v := range w.Files {
		n.Files[k] = v
	}
	return n
}

// merge collects the handles of all worlds.
func mergeWorlds(w *fsx.World, ws []*fsx.World) {
	for _, x := range ws {
		for k, f := range x.Files {
			w.Files[k] = f
		}
	}
}

// plan makes the goroutines' programs. Handles a goroutine opens get slots of
// their own, and it uses these or the shared ones.
func linPlan(c *rt.Case, g *fsx.Gen, gs, steps, sharedHandles, sharedRoots int) [][]fsx.Op {
	plans := make([][]fsx.Op, gs)
	for i := range plans {
		own := []int{}
		for len(plans[i]) < steps {
			o := g.Next()
			o.R = 0
			if sharedRoots > 0 && c.IntN(2) == 0 {
				o.R = c.IntN(sharedRoots + 1)
			}
			switch o.K {
			case "create", "open", "openfile":
				o.H = 100 + 10*i + len(own)
				own = append(own, o.H)
				if o.K == "openfile" && o.Flag&3 == os.O_WRONLY {
					o.Flag = o.Flag&^3 | os.O_RDWR // contents stay observable
				}
			default:
				// A call that meets a concurrent Close may still be served, as
				// with *os.File, so shared handles are not closed.
				switch {
				case o.K == "close" && len(own) == 0:
					continue
				case len(own) > 0 && (o.K == "close" || sharedHandles == 0 || c.IntN(3) == 0):
					o.H = own[c.IntN(len(own))]
				case sharedHandles > 0:
					o.H = c.IntN(sharedHandles)
				default:
					o.H = -1
				}
			}
			plans[i] = append(plans[i], o)
		}
	}
	return plans
}

// linRun runs one concurrent history and judges it.
func linRun(c *rt.Case, id string, m memWorld, plans [][]fsx.Op) {
	real := m.New(m.level)
	ws := make([]*fsx.World, len(plans))
	for i := range ws {
		ws[i] = share(real)
	}
	lv := m.level
	calls, ok := lin.Concurrent(c, ws, plans, func(int) { jitter(lv) })
	mergeWorlds(real, ws)
	defer real.CloseAll()
	if !ok {
		return // a panic was reported
	}
	for _, o := range append(append([]fsx.Op{}, m.build...), m.pre...) {
		c.Logf("init %v", o)
	}
	for _, x := range calls {
		c.Logf("%v", x)
	}
	final := lin.Fingerprint(real)
	c.R.Eval(1)
	if strings.Contains(final, "!") {
		if t := fsx.Dump(real.Roots[0], fsx.DumpOpt{}); strings.Contains(fmt.Sprint(t), "!") {
			c.Fail(id+":inconsistent", "the tree contradicts itself afterwards: %v", t)
			return
		}
	}
	spec := lin.Spec{New: func() *fsx.World { return m.New(0) }, Final: lin.Fingerprint, Hidden: true}
	v, order := lin.Check(calls, final, spec)
	n := lin.Overlaps(calls)
	c.R.CountN("overlapping-pairs", n)
	switch v {
	case lin.Ok:
		if n > 0 {
			c.R.Distinct(lin.Key(calls, order))
			c.R.Count("overlapped-histories")
			for i := range order {
				if order[i] != i {
					c.R.Count("reordered-histories")
					break
				}
			}
		}
	case lin.Unknown:
		c.R.Count("undecided")
	default:
		var ks []string
		for _, x := range calls {
			ks = append(ks, x.Op.K)
		}
		c.Fail(id+":not-linearizable", "no sequential order explains the outcomes and the final state %s", final)
	}
}

var linPathKinds = strings.Fields(`mkdir mkdir mkdirall mkdirall remove remove removeall removeall rename rename rename rename link symlink
 readlink stat lstat lstat chmod create openfile openfile open chtimes write read truncate fstat`)

var linHandleKinds = strings.Fields(`read read read readat write write write writeat writestring seek truncate truncate fstat fchmod close
 rename remove link openfile openfile create stat`)

func linGen(c *rt.Case, kinds []string, names ...string) *fsx.Gen {
	return &fsx.Gen{Rand: c.Rand, Names: names, Depth: 2, Kinds: kinds, Handles: 1, Targets: []string{"a", "b", "../a", "a/b", "."}, MaxData: 12}
}

// linState is an initial tree with handles on it.
func linState(c *rt.Case, handles int) memWorld {
	m := memWorld{level: c.IntN(3)}
	m.build = treeOps(c, []string{"a", "b"}, 2, 2+c.IntN(4), false)
	for i := range handles {
		f := []int{os.O_RDWR, os.O_RDWR | os.O_APPEND, os.O_RDONLY}[c.IntN(3)]
		n := pick(c.Rand, "a", "b", "f", "f", "f")
		if f != os.O_RDONLY {
			f |= os.O_CREATE
		} else {
			m.build = append(m.build, fsx.Op{K: "writefile", A: "f", Perm: 0o644, Data: []byte("0123456789")})
			n = "f"
		}
		m.pre = append(m.pre, fsx.Op{K: "openfile", A: n, Flag: f, Perm: 0o644, H: i})
	}
	return m
}

var v05 = &rt.Check{ID: "V05", Level: "exploration", CaseTimeout: 60 * time.Second,
	Rule:        "three or four goroutines run short random programs of path and handle operations on one in-memory tree under the race detector, with its clock and file storage yielding inside its critical sections; every recorded history (invocation and return times, outcomes, final tree, contents and handle positions) is explained by a sequential order replayed on a fresh tree, or reported; further parts check appends, exclusive creation, single removal and long mixed runs; non-trivial = calls of different goroutines overlapped; distinct by explained order of operations and outcomes",
	Assumptions: []string{"the sequential meaning is that of the same implementation run sequentially, which V02 compares with the kernel"},
	Run: func(r *rt.Run) {
		r.CasesPar("paths", r.N(22000, 600000), 6, func(c *rt.Case) {
			m := linState(c, 0)
			m.protect = c.IntN(6) == 0
			gs := 2 + c.IntN(3)
			linRun(c, "V05:paths", m, linPlan(c, linGen(c, linPathKinds, "a", "b"), gs, 5-gs+c.IntN(3), 0, 0))
		})
		r.CasesPar("handles", r.N(22000, 600000), 6, func(c *rt.Case) {
			m := linState(c, 2)
			gs := 2 + c.IntN(3)
			linRun(c, "V05:handles", m, linPlan(c, linGen(c, linHandleKinds, "f", "a"), gs, 5-gs+c.IntN(3), 2, 0))
		})
		r.CasesPar("roots", r.N(12000, 200000), 6, func(c *rt.Case) {
			m := linState(c, 0)
			m.build = append([]fsx.Op{{K: "mkdirall", A: "a/b", Perm: 0o755}, {K: "mkdir", A: "b", Perm: 0o755}}, m.build...)
			m.roots = []string{"a", "a/b"}
			gs := 2 + c.IntN(3)
			linRun(c, "V05:roots", m, linPlan(c, linGen(c, linPathKinds, "a", "b"), gs, 5-gs+c.IntN(3), 0, 2))
		})

		// Two renames (or links and removals) chasing each other through a
		// directory pair, the classic way to make a cycle or lose a subtree.
		r.CasesPar("rename", r.N(15000, 200000), 6, func(c *rt.Case) {
			m := memWorld{level: c.IntN(3), build: []fsx.Op{
				{K: "mkdirall", A: "a/a", Perm: 0o755}, {K: "mkdirall", A: "b/b", Perm: 0o755},
				{K: "writefile", A: "a/f", Perm: 0o644, Data: []byte("af")}, {K: "writefile", A: "b/f", Perm: 0o600, Data: []byte("bf!")}}}
			pth := func() string {
				return pick(c.Rand, "a", "b", "a/a", "a/b", "b/a", "b/b", "a/f", "b/f", "a/a/b", "b/b/a")
			}
			plans := make([][]fsx.Op, 2+c.IntN(2))
			for i := range plans {
				for range 1 + c.IntN(3) {
					o := fsx.Op{K: pick(c.Rand, "rename", "rename", "rename", "rename", "remove", "removeall", "link", "mkdirall", "lstat"), A: pth(), B: pth(), Perm: 0o755}
					plans[i] = append(plans[i], o)
				}
			}
			linRun(c, "V05:rename", m, plans)
		})

		r.CasesPar("append", r.N(150, 4000), 4, func(c *rt.Case) { v05Append(c) })
		r.CasesPar("once", r.N(4000, 60000), 4, func(c *rt.Case) { v05Once(c) })
		r.CasesPar("stress", r.N(150, 4000), 2, func(c *rt.Case) { v05Stress(c) })
		r.CasesPar("refusing", r.N(300, 6000), 4, func(c *rt.Case) { v05Refusing(c) })
		r.Floor("overlapped-histories", 2000)
		r.Floor("reordered-histories", 50)
		r.Floor("append-interleavings", 100)
	}}

// v05Append checks that nothing written through appending handles is lost,
// torn or out of its writer's order.
func v05Append(c *rt.Case) {
	lv := c.IntN(3)
	w := memWorld{level: lv}.New(lv)
	s := w.Roots[0]
	f, err := s.Create("log")
	c.Must(err)
	f.Close()
	gs, per := 2+c.IntN(4), 20+c.IntN(30)
	var shared vroot.File
	if c.IntN(3) == 0 {
		shared, err = s.OpenFile("log", os.O_RDWR|os.O_APPEND, 0)
		c.Must(err)
	}
	var wg sync.WaitGroup
	ls := make([]*rt.Case, gs)
	for g := range gs {
		rnd := rand.New(rand.NewPCG(c.Uint64(), 1))
		ls[g] = c.Local(rnd)
		c.Go(&wg, func() {
			h := shared
			if h == nil {
				var err error
				h, err = s.OpenFile("log", os.O_WRONLY|os.O_APPEND|os.O_CREATE, 0o644)
				if err != nil {
					ls[g].Fail("V05:append:open", "open for appending: %v", err)
					return
				}
				defer h.Close()
			}
			for i := range per {
				rec := fmt.Sprintf("<%d:%d:%s>", g, i, strings.Repeat("x", rnd.IntN(40)))
				var n int
				var err error
				if rnd.IntN(3) == 0 {
					n, err = h.WriteString(rec)
				} else {
					n, err = h.Write([]byte(rec))
				}
				if n != len(rec) || err != nil {
					ls[g].Fail("V05:append:write", "append returned %d, %v", n, err)
					return
				}
				jitter(lv)
			}
		})
	}
	wg.Wait()
	c.Merge(ls...)
	b, err := readFileAll(s, "log")
	c.Must(err)
	c.R.Eval(1)
	next := make([]int, gs)
	switches, last := 0, -1
	for len(b) > 0 {
		e := bytes.IndexByte(b, '>')
		var g, i int
		if e < 0 || b[0] != '<' {
			c.Fail("V05:append:torn", "a record is torn: %.60q", b)
			return
		}
		if k, _ := fmt.Sscanf(string(b[:e+1]), "<%d:%d:", &g, &i); k != 2 || g >= gs || bytes.IndexByte(b[1:e], '<') >= 0 {
			c.Fail("V05:append:torn", "a record is torn: %.60q", b[:e+1])
			return
		}
		if next[g] != i {
			c.Fail("V05:append:lost", "writer %d: record %d follows, want %d", g, i, next[g])
			return
		}
		next[g]++
		if g != last {
			switches++
			last = g
		}
		b = b[e+1:]
	}
	for g, n := range next {
		if n != per {
			c.Fail("V05:append:lost", "writer %d: %d of %d records in the file", g, n, per)
			return
		}
	}
	c.R.CountN("append-interleavings", switches)
	c.R.Distinct(fmt.Sprintf("append %d %v", c.Idx, switches))
}

func readFileAll(s fsx.Sys, n string) ([]byte, error) {
	f, err := s.Open(n)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	return io.ReadAll(f)
}

// v05Once lets goroutines compete for something only one can have.
func v05Once(c *rt.Case) {
	lv := c.IntN(3)
	w := memWorld{level: lv}.New(lv)
	s := w.Roots[0]
	c.Must(s.MkdirAll("d/e", 0o755))
	c.Must(s.MkdirAll("tree/x/y", 0o755))
	for _, n := range []string{"src", "gone", "tree/x/f"} {
		f, err := s.Create(n)
		c.Must(err)
		_, err = f.Write([]byte(n))
		c.Must(err)
		f.Close()
	}
	type contest struct {
		what string
		do   func(g int) error
	}
	sub, err := s.Sub("d")
	c.Must(err)
	open := func(f vroot.File, err error) error {
		if err == nil {
			err = f.Close()
		}
		return err
	}
	cs := []contest{
		{"exclusive-create", func(g int) error {
			if g%2 == 1 {
				return open(sub.OpenFile("e/n", os.O_RDWR|os.O_CREATE|os.O_EXCL, 0o644))
			}
			return open(s.OpenFile("d/e/n", os.O_RDWR|os.O_CREATE|os.O_EXCL, 0o644))
		}},
		{"mkdir", func(g int) error { return s.Mkdir("d/e/dir", 0o755) }},
		{"link", func(g int) error { return s.Link("src", "d/l") }},
		{"symlink", func(g int) error { return s.Symlink("src", "d/s") }},
		{"mixed-create", func(g int) error {
			switch g % 4 {
			case 0:
				return s.Mkdir("d/m", 0o755)
			case 1:
				return sub.Symlink("e", "m")
			case 2:
				return s.Link("src", "d/m")
			}
			return open(sub.OpenFile("m", os.O_WRONLY|os.O_CREATE|os.O_EXCL, 0o600))
		}},
		{"remove", func(g int) error { return s.Remove("gone") }},
		{"take-by-rename", func(g int) error { return s.Rename("tree", fmt.Sprintf("taken%d", g)) }},
	}
	gs := 2 + c.IntN(5)
	rounds := c.Perm(len(cs))
	res := make([][]error, gs)
	var wg sync.WaitGroup
	start := make(chan struct{})
	for g := range gs {
		res[g] = make([]error, len(cs))
		c.Go(&wg, func() {
			<-start
			for _, i := range rounds {
				res[g][i] = cs[i].do(g)
				jitter(lv)
			}
		})
	}
	close(start)
	wg.Wait()
	if c.Failed() {
		return
	}
	for i, x := range cs {
		won := []int{}
		for g := range gs {
			err := res[g][i]
			switch {
			case err == nil:
				won = append(won, g)
			case errors.Is(err, fs.ErrExist), errors.Is(err, fs.ErrNotExist):
			default:
				c.Fail("V05:once:"+x.what+":error", "%s by goroutine %d: %v", x.what, g, err)
			}
		}
		c.R.Eval(1)
		c.R.Count("contests")
		if len(won) != 1 {
			c.Fail("V05:once:"+x.what, "%s succeeded for goroutines %v of %d, want exactly one", x.what, won, gs)
		} else {
			c.R.Distinct(fmt.Sprint(x.what, gs, won))
			if won[0] != 0 {
				c.R.Count("contests-not-won-by-the-first")
			}
		}
	}
}

// v05Stress runs everything against everything for long, for the race
// detector, the hang watchdog and the self-consistency of the final tree.
func v05Stress(c *rt.Case) {
	m := linState(c, 3)
	m.build = append([]fsx.Op{{K: "mkdirall", A: "a/b", Perm: 0o755}}, m.build...)
	m.pre = append(m.pre, fsx.Op{K: "open", A: "a", H: 3}, fsx.Op{K: "open", A: ".", H: 4})
	m.roots = []string{"a", "a/b"}
	w := m.New(m.level)
	gs := 4 + c.IntN(4)
	steps := 400
	ws := make([]*fsx.World, gs)
	ls := make([]*rt.Case, gs)
	var wg sync.WaitGroup
	mapfs := fstest.MapFS{"x/y": {Data: []byte("xy"), Mode: 0o644}, "z": {Data: []byte("z"), Mode: 0o600}}
	for i := range gs {
		ws[i] = share(w)
		rnd := rand.New(rand.NewPCG(c.Uint64(), uint64(i)))
		ls[i] = c.Local(rnd)
		c.Go(&wg, func() {
			l := ls[i]
			g := &fsx.Gen{Rand: rnd, Names: []string{"a", "b", "f"}, Depth: 3, Kinds: append(without(fsx.BasicKinds), "chown", "lchown", "sync", "hrewind", "hreaddir", "openroot", "appendfile"),
				Handles: 8, Roots: 3, Targets: linkTargets}
			root, _ := ws[i].Roots[0].FS.(*synthfs.Root)
			for range steps {
				o := g.Next()
				switch o.K {
				case "create", "open", "openfile":
					o.H = 10 + rnd.IntN(4)
				case "openroot":
					o.H = 10 + rnd.IntN(2)
				default:
					o.H = pick(rnd, 0, 1, 2, 3, 4, 10, 11, 12, 13)
					o.R = pick(rnd, 0, 0, 1, 2, 10, 11)
				}
				if o.K == "close" && o.H < 10 && rnd.IntN(20) > 0 {
					continue
				}
				if _, ok := ws[i].Roots[o.R]; !ok {
					o.R = 0
				}
				out := lin.Exec(ws[i], o)
				l.R.Eval(1)
				if out.Err == "ok" || out.Err == "eof" {
					l.R.Count("stress-ok")
				}
				// what only hands out or describes
				switch rnd.IntN(12) {
				case 0:
					if f := ws[i].Files[o.H]; f != nil {
						_, _ = f.Name(), f.Fd()
						f.Readdir(1)
						f.Chown(1, 2)
					}
				case 1:
					if root != nil {
						root.AddFile(pick(rnd, "v", "a/v", "b/b/v"), synthfs.NewBytesView([]byte("view"), 0o644, time.Time{}), nil)
					}
				case 2:
					if root != nil && rnd.IntN(4) == 0 {
						root.AddFS(pick(rnd, "w", "a/w"), mapfs, nil)
					}
				case 3:
					fs.WalkDir(vroot.ToIoFsRoot[vroot.File](root), ".", func(p string, d fs.DirEntry, err error) error {
						if err == nil {
							d.Info()
						}
						return nil
					})
				}
			}
		})
	}
	wg.Wait()
	c.Merge(ls...)
	mergeWorlds(w, ws)
	t := fsx.Dump(w.Roots[0], fsx.DumpOpt{})
	for k := range t {
		if strings.HasPrefix(k, "!") {
			c.Fail("V05:stress:inconsistent", "the tree contradicts itself after a concurrent run: %s", k)
			break
		}
	}
	c.R.Eval(1)
	c.R.Distinct(fmt.Sprint("stress", c.Idx))
	w.CloseAll()
}

// v05Refusing lets the storage refuse truncation or opening: every call must
// return, and the tree stay usable by the others.
func v05Refusing(c *rt.Case) {
	a := jitterAlloc{in: synthfs.NewMemAllocator(nil), level: c.IntN(2), fail: true}
	root := synthfs.NewRoot("m", &synthfs.Option{Allocator: a})
	s := fsx.WrapRoot[vroot.File, *synthfs.Root](root)
	for _, n := range []string{"a", "b"} {
		f, err := root.OpenFile(n, os.O_RDWR|os.O_CREATE, 0o644)
		c.Must(err)
		f.Write([]byte("data"))
		f.Close()
	}
	var wg sync.WaitGroup
	for g := range 3 {
		rnd := rand.New(rand.NewPCG(c.Uint64(), uint64(g)))
		c.Go(&wg, func() {
			for range 10 {
				n := pick(rnd, "a", "b")
				switch rnd.IntN(4) {
				case 0:
					if f, err := root.OpenFile(n, os.O_RDWR|os.O_TRUNC, 0); err == nil {
						f.Close()
					}
				case 1:
					root.Stat(n)
				case 2:
					if f, err := root.Open(n); err == nil {
						f.Truncate(1)
						f.Close()
					}
				case 3:
					root.Chmod(n, 0o600)
				}
			}
		})
	}
	wg.Wait()
	c.R.Eval(1)
	c.R.Count("refusing-runs")
	for _, n := range []string{"a", "b"} {
		if b, err := readFileAll(s, n); err != nil || string(b) != "data" {
			c.Fail("V05:refusing:content", "%s reads %q, %v after refused truncations", n, b, err)
		}
	}
}
