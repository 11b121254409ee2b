package main

import (
	"fmt"
	"io"
	"math/rand/v2"
	"os"
	"strings"
	"sync"
	"sync/atomic"

	"github.com/ngicks/go-fsys-helper/vroot"
	"verif/harness/fsx"
	"verif/harness/lin"
	"verif/harness/ovl"
	"verif/harness/rt"
)

// guard watches the lower layers for anything that could change them.
type guard struct {
	mu    sync.Mutex
	calls int64 // reached a lower
	bad   []string
	mount atomic.Bool // the overlay is being opened or closed
}

func (g *guard) watch(s *ovl.Stack) {
	for i := 1; i < len(s.Layers); i++ {
		s.Mons[i].Before = func(st fsx.Step) error {
			atomic.AddInt64(&g.calls, 1)
			switch {
			case !st.Mut && st.Op != "openw":
				return nil
			case g.mount.Load() && strings.Contains(st.Name, "meta.sqlite3"):
				return nil // judged by content
			}
			g.mu.Lock()
			g.bad = append(g.bad, fmt.Sprintf("layer %d: %v", i, st))
			g.mu.Unlock()
			return nil
		}
		if st := s.Stores[i]; st != nil {
			st.Hook = func(op, n string) error {
				g.mu.Lock()
				g.bad = append(g.bad, fmt.Sprintf("layer %d store: %s(%q)", i, op, n))
				g.mu.Unlock()
				return nil
			}
		}
	}
}

func (g *guard) judge(c *rt.Case, what string) bool {
	g.mu.Lock()
	defer g.mu.Unlock()
	if len(g.bad) == 0 {
		return true
	}
	kind := strings.Fields(g.bad[0])[2]
	if i := strings.IndexAny(kind, ":("); i >= 0 {
		kind = strings.TrimLeft(kind, "0123456789:")
		kind, _, _ = strings.Cut(kind, "(")
	}
	c.Fail("O02:call:"+kind, "%s reached a lower layer: %v", what, g.bad)
	return false
}

// prod asks a handle on a lower file for every change there is.
func prod(c *rt.Case, f vroot.File, name string) bool {
	try := func(what string, ok bool, err error) bool {
		c.R.Eval(1)
		c.R.Count("changes refused by handles on lower files")
		if ok || err == nil {
			c.Fail("O02:handle:"+what, "%s on a handle reading %s from a lower layer succeeded", what, name)
			return false
		}
		return true
	}
	n, err := f.Write([]byte("!"))
	if !try("Write", n > 0, err) {
		return false
	}
	n, err = f.WriteAt([]byte("!"), 0)
	if !try("WriteAt", n > 0, err) {
		return false
	}
	n, err = f.WriteString("!")
	if !try("WriteString", n > 0, err) {
		return false
	}
	if r, ok := f.(io.ReaderFrom); ok {
		m, err := r.ReadFrom(strings.NewReader("!"))
		if !try("ReadFrom", m > 0, err) {
			return false
		}
	}
	return try("Truncate", false, f.Truncate(0)) && try("Chmod", false, f.Chmod(0o600)) && try("Chown", false, f.Chown(os.Getuid(), os.Getgid()))
}

var o02 = &rt.Check{ID: "O02", Level: "exploration",
	Rule:        "random stacks with in-memory and SQLite masking stores, some lowers behind read-only views; random histories of every operation and handle method, sequential and concurrent; every call reaching a lower layer observed, every handle on a lower file asked for every change, storage and stores of the lowers (times, modes, contents) compared before and after; non-trivial = at least two operations succeeded; distinct by operation and outcome sequence",
	Assumptions: []string{"opening the masking store of a lower may open its database for writing as long as the database does not change", "access times are not judged"},
	Run: func(r *rt.Run) {
		kinds := append([]string{"openroot", "openroot", "closeroot", "writefile", "appendfile", "chmod", "chtimes", "chmod", "fchmod"}, fsx.BasicKinds...)
		setup := func(c *rt.Case) (*ovl.Stack, *guard, []fsx.Tree) {
			s := ovl.Gen(c, ovl.GenOpt{Names: []string{"a", "b", "a-"}, Depth: 3, Targets: linkTargets, Lowers: 3, Ents: 12, Top: true, SQLite: 6, Big: true})
			if c.IntN(8) == 0 {
				s.Opt = policyless()
			}
			c.Logf("%s", s.Describe())
			s.Put(c)
			var was []fsx.Tree
			for i := range s.Layers {
				was = append(was, s.Raw(c, i))
			}
			g := &guard{}
			g.mount.Store(true)
			s.Prepare(c)
			g.watch(s)
			c.Must(s.MountMons())
			g.mount.Store(false)
			return s, g, was
		}
		finish := func(c *rt.Case, s *ovl.Stack, g *guard, was []fsx.Tree) {
			g.mount.Store(true)
			c.Must(s.O.Close())
			if !g.judge(c, "the history") {
				return
			}
			for i := 1; i < len(s.Layers); i++ {
				now := s.Raw(c, i)
				r.Eval(1)
				if d := fsx.Diff(now, was[i]); d != "" {
					c.Fail("O02:changed:"+fsx.DiffKind(now, was[i]), "lower layer %d: %s", i, d)
					return
				}
			}
			s.Release()
			r.CountN("calls that reached lower layers", int(g.calls))
			r.Sample("%v", c.Log())
		}
		mkGen := func(c *rt.Case, rnd *rand.Rand) *fsx.Gen {
			return &fsx.Gen{Rand: rnd, Names: []string{"a", "b", "a-"}, Depth: 3, Kinds: kinds, Handles: 4, Roots: 3, Targets: linkTargets}
		}
		r.CasesPar("history", r.N(3000, 80000), 8, func(c *rt.Case) {
			s, gd, was := setup(c)
			w := fsx.NewWorld(s.Sys())
			g := mkGen(c, c.Rand)
			key, ok := "", 0
			for range 50 {
				o := g.Next()
				before := lowerHandles(s)
				out := w.Exec(o)
				if out.Err == "" {
					continue
				}
				c.Logf("%v = %v", o, out)
				r.Count("op:" + o.K)
				r.Eval(1)
				key += o.K + out.Err
				if out.Err == "ok" {
					ok++
				}
				if !gd.judge(c, o.String()) {
					return
				}
				if (o.K == "open" || o.K == "openfile") && out.Err == "ok" && lowerHandles(s) > before {
					f := w.Files[o.H]
					if i, err := f.Stat(); err == nil && !i.IsDir() && !prod(c, f, o.A) {
						return
					}
				}
			}
			w.CloseAll()
			r.CountN("effective-ops", ok)
			if ok > 1 {
				r.Distinct(key)
			}
			finish(c, s, gd, was)
		})
		r.Cases("concurrent", r.N(250, 8000), func(c *rt.Case) {
			s, gd, was := setup(c)
			var ws []*fsx.World
			var plans [][]fsx.Op
			for range 4 {
				ws = append(ws, fsx.NewWorld(s.Sys()))
				g := mkGen(c, c.Rand)
				var p []fsx.Op
				for range 30 {
					p = append(p, g.Next())
				}
				plans = append(plans, p)
			}
			calls, all := lin.Concurrent(c, ws, plans, nil)
			if !all {
				return
			}
			for _, w := range ws {
				w.CloseAll()
			}
			r.CountN("concurrent calls", len(calls))
			r.CountN("overlapping pairs", lin.Overlaps(calls))
			finish(c, s, gd, was)
		})
		r.Floor("changes refused by handles on lower files", 500)
		r.Floor("calls that reached lower layers", 5000)
		r.Floor("effective-ops", 10000)
	}}

func lowerHandles(s *ovl.Stack) (n int) {
	for _, m := range s.Mons[1:] {
		n += len(m.OpenHandles())
	}
	return
}
