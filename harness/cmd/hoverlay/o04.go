package main

import (
	"errors"
	"fmt"
	"io/fs"
	"math/rand/v2"
	"path"
	"sort"
	"strings"
	"time"

	"verif/harness/fsx"
	"verif/harness/ovl"
	"verif/harness/rt"
)

// bomb stops the at-th change the overlay makes to its top.
type bomb struct {
	s     *ovl.Stack
	crash bool
	torn  bool
	at    int // 0: never
	kind  string
	look  bool   // at the at-th call that only looks, at any layer, instead
	only  string // of these
	as    int    // what the fault looks like

	n     int
	fired string
}

func (b *bomb) hit(what string) error {
	b.n++
	if b.fired != "" && b.crash {
		return fsx.ErrCrash
	}
	if b.at == 0 || b.n != b.at {
		return nil
	}
	b.fired = what
	if !b.crash {
		return fsx.Faulty(b.as)
	}
	b.s.Mons[0].Torn = b.torn
	return fsx.ErrCrash
}

// arm puts the bomb in place; with b.at 0 it only counts.
func (b *bomb) arm(s *ovl.Stack) {
	b.s = s
	m := s.Mons[0]
	m.Torn = false
	m.Before = func(st fsx.Step) error {
		if b.fired != "" && b.crash {
			return fsx.ErrCrash
		}
		if b.look {
			return b.glance(st)
		}
		if !st.Mut {
			return nil
		}
		if !b.crash && (st.Op == "chmod" && b.kind != "chmod" || st.Op == "chtimes" && b.kind != "chtimes") {
			return nil // attributes are copied as far as possible
		}
		return b.hit(st.Op)
	}
	for _, m := range s.Mons[1:] {
		m.Before = nil
		if b.look {
			m.Before = b.glance
		}
	}
	if st := s.Stores[0]; st != nil {
		st.Hook = nil
		if !b.look {
			st.Hook = func(op, n string) error { return b.hit(op) }
		}
	}
}

func (b *bomb) glance(st fsx.Step) error {
	switch st.Op {
	case "close", "fsclose":
		return nil
	}
	if st.Mut || b.only != "" && st.Op != b.only {
		return nil
	}
	return b.hit("look:" + st.Op)
}

// copyTree rebuilds a view on the kernel.
func copyTree(c *rt.Case, from, to fsx.Sys, dir string) {
	es, err := fsx.Names(from, dir)
	c.Must(err)
	for _, e := range es {
		p := path.Join(dir, e)
		i, err := from.Lstat(p)
		c.Must(err)
		switch {
		case i.IsDir():
			c.Must(to.Mkdir(p, 0o755))
			copyTree(c, from, to, p)
			c.Must(to.Chmod(p, i.Mode().Perm()))
		case i.Mode().IsRegular():
			b, _, err := fsx.ReadFile(from, p)
			c.Must(err)
			f, err := to.Create(p)
			c.Must(err)
			_, err = f.Write(b)
			c.Must(err)
			c.Must(f.Close())
			c.Must(to.Chmod(p, i.Mode().Perm()))
			c.Must(to.Chtimes(p, i.ModTime(), i.ModTime()))
		default:
			t, err := from.ReadLink(p)
			c.Must(err)
			c.Must(to.Symlink(t, p))
		}
	}
}

// admissible judges a view d seen after an interrupted operation that takes
// the view from d0 to d1.
func admissible(o fsx.Op, d, d0, d1 fsx.Tree) string {
	if fsx.Diff(d, d0) == "" || fsx.Diff(d, d1) == "" {
		return ""
	}
	names := map[string]bool{}
	for _, t := range []fsx.Tree{d, d0, d1} {
		for k := range t {
			names[k] = true
		}
	}
	var bad []string
	mixed := false
	for n := range names {
		v, v0, v1 := d[n], d0[n], d1[n]
		if v == v0 || v == v1 {
			mixed = mixed || v0 != v1
			continue
		}
		switch o.K {
		case "writefile", "appendfile": // three calls: open, write, close
			if f, f0, f1 := strings.Fields(v), strings.Fields(v0), strings.Fields(v1); v0 != v1 && len(f) > 1 && len(f1) > 1 && f[0] == "file" && (f[1] == f1[1] || len(f0) > 1 && f[1] == f0[1]) {
				continue
			}
		}
		bad = append(bad, fmt.Sprintf("%s: %q, before %q, after %q", n, v, v0, v1))
	}
	sort.Strings(bad)
	if len(bad) > 0 {
		return strings.Join(bad[:min(len(bad), 5)], "; ")
	}
	switch o.K {
	case "removeall", "mkdirall", "writefile", "appendfile":
		return ""
	}
	if mixed {
		return "half done: " + fsx.Diff(d, d1)
	}
	return ""
}

// aftermath is a directory of a lower losing some of its entries, an operation
// on it that gets interrupted, and what copies the directory up afterwards.
// The position of the interrupted one is told by how many are left with it.
func aftermath(r *rand.Rand, s *ovl.Stack, d0 fsx.Tree, since time.Time) (q []fsx.Op, left int) {
	var dirs []string
	for _, n := range d0.Keys() {
		if strings.HasPrefix(d0[n], "dir") && n != "." && s.LowerHas(n) {
			dirs = append(dirs, n)
		}
	}
	if len(dirs) == 0 {
		return nil, 0
	}
	t := dirs[r.IntN(len(dirs))]
	keep := r.IntN(4) == 0
	for _, n := range d0.Keys() {
		if path.Dir(n) == t && !(keep && r.IntN(2) == 0) {
			q = append(q, fsx.Op{K: "removeall", A: n})
		}
	}
	spare := path.Join(pick(r, ".", path.Dir(t)), "spare")
	switch r.IntN(7) {
	case 0:
		q = append(q, fsx.Op{K: "remove", A: t})
	case 1:
		q = append(q, fsx.Op{K: "removeall", A: t})
	case 2:
		q = append(q, fsx.Op{K: "remove", A: t}, fsx.Op{K: "mkdir", A: t, Perm: 0o755})
	case 3:
		q = append(q, fsx.Op{K: "removeall", A: t}, fsx.Op{K: "mkdir", A: spare, Perm: 0o755}, fsx.Op{K: "rename", A: spare, B: t})
	default:
		q = append(q, fsx.Op{K: "mkdir", A: spare, Perm: 0o755}, fsx.Op{K: "rename", A: spare, B: t})
	}
	main := len(q) - 1
	for range 2 + r.IntN(3) {
		n := path.Join(t, pick(r, "a", "b", "a-", "new"))
		switch r.IntN(6) {
		case 0:
			q = append(q, fsx.Op{K: "chmod", A: t, Perm: 0o750})
		case 1:
			q = append(q, fsx.Op{K: "chtimes", A: t, T: since.Add(-time.Hour).Truncate(time.Second)})
		case 2:
			q = append(q, fsx.Op{K: "mkdir", A: n, Perm: 0o755})
		case 3:
			q = append(q, fsx.Op{K: "mkdirall", A: path.Join(n, "b"), Perm: 0o755})
		case 4:
			q = append(q, fsx.Op{K: "remove", A: t})
		default:
			q = append(q, fsx.Op{K: "writefile", A: n, Perm: 0o644, Data: []byte("after")})
		}
	}
	return q, len(q) - main
}

var o04 = &rt.Check{ID: "O04", Level: "exploration",
	Rule:        "random stacks (in-memory and SQLite masking stores, kernel and in-memory tops) and histories in which operations are stopped at a random one of the changes they make to the top or its store: by an error, or by the process dying there (writes torn or not), after which the overlay is opened again; before, after and in between the whole view is compared with a kernel twin, and histories go on over what crashes leave; every interrupted operation must show its state before or after (trees being made or removed and written files: each name); non-trivial = an operation was actually interrupted; distinct by operation, precondition, stopped call and outcome",
	Assumptions: []string{"a crash is the process stopping between two calls to the storage or within a write; the storage keeps what was written", "directories are generated with modes that survive the umask: their mode is set after they appear", "attributes of copied-up directories and files are set as far as the storage allows"},
	Run: func(r *rt.Run) {
		kinds := strings.Fields(`mkdir mkdir mkdirall create openfile openfile writefile writefile appendfile remove remove remove removeall removeall removeall rename rename rename rename symlink chmod chmod chtimes`)
		run := func(part string, n int, sqlite int, kinds []string) {
			looks, after := part == "looks", part == "after"
			r.CasesPar(part, n, 8, func(c *rt.Case) {
				s := ovl.Gen(c, ovl.GenOpt{Names: []string{"a", "b", "a-"}, Depth: 3, Targets: []string{"a", "b", "../a-", "b/a-", "x", "../a/b"}, Lowers: 2, Ents: 12, Top: true, SQLite: sqlite, Tame: true, Big: c.IntN(4) == 0})
				c.Logf("%s", s.Describe())
				s.Put(c)
				c.Must(s.Mount(c))
				opt := fsx.DumpOpt{Mtime: s.Back[0].Kind == "os", Since: since}
				p := newPair(c, s)
				defer func() { p.close() }()
				twin := func() { // the reference follows the view
					p.want.CloseAll()
					p.want.Roots[0].Close()
					d := c.Dir()
					k, err := fsx.Kernel(d)
					c.Must(err)
					copyTree(c, s.Sys(), k, ".")
					p.want = fsx.NewWorld(k)
					for n, d := range fsx.Dump(k, fsx.DumpOpt{}) {
						if strings.HasPrefix(d, "dir") && s.LowerHas(n) {
							i, err := k.Lstat(n)
							c.Must(err)
							p.lowerDirs[ino(i)] = true
						}
					}
				}
				g := &fsx.Gen{Rand: c.Rand, Names: []string{"a", "b", "a-"}, Depth: 3, Kinds: kinds, Handles: 1, Targets: []string{"a", "b", "../a-", "x"}, Modes: tameModes}
				d0 := fsx.Dump(p.want.Roots[0], opt)
				g.Pth = func(g *fsx.Gen) string { // mostly names that exist, or new ones next to them
					if len(d0) > 0 && g.IntN(3) != 0 {
						ks := d0.Keys()
						n := ks[g.IntN(len(ks))]
						if g.IntN(4) == 0 {
							n = path.Join(path.Dir(n), g.Names[g.IntN(len(g.Names))])
						}
						return n
					}
					h := *g
					h.Pth = nil
					return h.Path()
				}
				if d := fsx.Diff(fsx.Dump(s.Sys(), opt), d0); d != "" {
					c.Fail("O04:union", "the fresh overlay: %s", d)
					return
				}
				script := 0
				var queue []fsx.Op // a scenario; the one at script's distance from the end gets interrupted
				n := 14
				if after {
					n = 24
				}
				for range n {
					if after && len(queue) == 0 {
						if queue, script = aftermath(c.Rand, s, d0, opt.Since); len(queue) == 0 {
							break
						}
					}
					o := fsx.Op{}
					main := false
					if after {
						o, main = queue[0], len(queue) == script
						queue = queue[1:]
					} else {
						o = g.Next()
					}
					if kindSkip(p.want, o) {
						continue
					}
					pre := fsx.Pre(p.want, o)
					b := &bomb{kind: o.K}
					switch c.IntN(7) {
					case 0, 1, 2:
						b.crash, b.torn = true, c.IntN(2) == 0
						b.at = 1
					case 3, 4:
						b.at = 1
						b.look = looks
						b.only = pick(c.Rand, "", "read", "read", "open", "readdir", "readlink", "fstat", "sync")
						b.as = c.IntN(100)
					}
					if looks && b.crash && c.IntN(2) == 0 {
						b.crash, b.at, b.look = false, 1, true
					}
					if b.only != "" {
						b.at += c.IntN(2)
					} else if b.at > 0 {
						for b.at < 60 && c.IntN(3) != 0 {
							b.at++
						}
						if s.Stores[0] == nil && c.IntN(2) == 0 {
							b.at += c.IntN(25)
						}
					}
					if after && !main {
						b = &bomb{kind: o.K}
					} else if after && b.at == 0 {
						b.at, b.as = 1+c.IntN(6), c.IntN(100)
					}
					b.arm(s)
					onto := false // rename(2) replaces empty directories, os.Root does not
					if _, dir := p.isDir(0, o.A); o.K == "rename" && dir && o.A != o.B {
						onto = fsx.Kind(p.want.Roots[0], o.B) == "emptydir" && !strings.HasSuffix(pre, ":same")
					}
					got, done := p.first(o, func() fsx.Out { return p.got.Exec(o) })
					if !done {
						if onto && b.fired != "" && p.want.Roots[0].Remove(o.B) == nil && p.want.Roots[0].Rename(o.A, o.B) != nil {
							c.Must(p.want.Roots[0].Mkdir(o.B, 0o700)) // not even so
							d := d0[path.Clean(o.B)]
							var m uint32
							fmt.Sscanf(d, "dir %o", &m)
							c.Must(p.want.Roots[0].Chmod(o.B, fs.FileMode(m)))
						} else if !onto {
							p.want.Exec(o)
						}
					}
					p.got.CloseAll()
					p.want.CloseAll()
					d1 := fsx.Dump(p.want.Roots[0], opt)
					if b.fired == "" {
						b.at = 0
						d := fsx.Dump(s.Sys(), opt)
						c.Logf("%v = %v", o, got)
						r.Eval(1)
						if x := fsx.Diff(d, d1); x != "" {
							c.Fail("O04:later:"+o.K+"["+pre+"]", "after %v: %s", o, x)
							return
						}
						d0 = d1
						continue
					}
					how := "fault"
					if b.crash {
						how = "crash"
					}
					c.Logf("%v = %v -- %s at change %d, %s", o, got, how, b.at, b.fired)
					r.Count(how + " at " + b.fired)
					r.Count("interrupted")
					r.Count("interrupted: " + o.K)
					r.Distinct(o.K + pre + b.fired + how + got.Err)
					sig := fmt.Sprintf("O04:%s:%s[%s]:%s", how, o.K, pre, b.fired)
					var live fsx.Tree
					if !b.crash {
						b.at = 0
						live = fsx.Dump(s.Sys(), opt)
						r.Eval(1)
						if x := admissible(o, live, d0, d1); x != "" {
							c.Fail(sig, "after %v (%v) failed at %s: %s", o, got, b.fired, x)
							return
						}
						if got.Err == "ok" {
							if x := fsx.Diff(live, d1); x != "" {
								c.Fail(sig+":ok", "%v reported success although %s failed: %s", o, b.fired, x)
								return
							}
						} else if !errors.Is(got.Raw, fsx.ErrFault) {
							r.Count("other error than the fault")
						}
						twin()
						d0 = live
						if c.IntN(2) == 0 || after && c.IntN(4) != 0 {
							continue
						}
						c.Must(s.O.Close())
					} else {
						s.Mons[0].Kill()
						for _, m := range s.Mons[1:] {
							m.Kill()
						}
						s.O.Close()
						for _, m := range s.Mons {
							m.Abandon()
						}
					}
					s.Release()
					if st := s.Stores[0]; st != nil {
						st.Hook = nil
					}
					if err := s.Mount(c); err != nil {
						c.Fail(sig+":open", "opening again after %v stopped at %s: %v", o, b.fired, err)
						return
					}
					p.got = fsx.NewWorld(s.Sys())
					d := fsx.Dump(s.Sys(), opt)
					r.Eval(1)
					if live != nil {
						if x := fsx.Diff(d, live); x != "" {
							c.Fail(sig+":reopened", "the view after reopening differs from the one before: %s", x)
							return
						}
						continue
					}
					if x := admissible(o, d, d0, d1); x != "" {
						c.Fail(sig, "reopened after %v died at %s: %s", o, b.fired, x)
						return
					}
					twin()
					d0 = d
				}
				c.Must(s.O.Close())
				s.Release()
				r.Sample("%v", c.Log())
			})
		}
		run("store", r.N(1600, 80000), 0, kinds)
		run("looks", r.N(900, 60000), 0, kinds)
		run("sqlite", r.N(120, 6000), 1, kinds)
		run("after", r.N(700, 60000), 0, kinds)
		run("masks", r.N(1200, 60000), 0, strings.Fields("mkdir remove remove removeall removeall rename rename rename writefile"))
		r.Floor("interrupted", 2000)
		for _, k := range []string{"crash at rename", "crash at SetWhiteout", "crash at ClearWhiteout", "crash at SetOpaque", "crash at remove", "crash at create", "crash at write", "fault at rename", "fault at SetWhiteout", "fault at create", "fault at look:lstat", "fault at look:read"} {
			r.Soft(k, 20)
		}
	}}
