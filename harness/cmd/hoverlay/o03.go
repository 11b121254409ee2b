package main

import (
	"fmt"
	"path"

	"github.com/ngicks/go-fsys-helper/vroot-adapter/overlayfs"
	"verif/harness/fsx"
	"verif/harness/ovl"
	"verif/harness/rt"
)

// policyless is an option whose policy is given explicitly.
func policyless() *overlayfs.Option {
	return &overlayfs.Option{CopyUpPolicy: overlayfs.NewCopyUpPolicyWork()}
}

// litter leaves what interrupted copy-ups leave.
func litter(c *rt.Case, s *ovl.Stack) int {
	k := s.Back[0].Sys(c)
	if s.Back[0].Dir != "" {
		defer k.Close()
	}
	n := 0
	for range c.IntN(4) {
		p := path.Join("work", fmt.Sprintf("tmp-%d", 1+c.IntN(5)))
		if c.IntN(3) == 0 {
			if k.MkdirAll(path.Join(p, "x/y"), 0o755) == nil {
				n++
			}
			p = path.Join(p, "x/y/f")
		}
		if f, err := k.Create(p); err == nil {
			f.Write([]byte("left over"))
			f.Close()
			n++
		}
	}
	return n
}

var o03 = &rt.Check{ID: "O03", Level: "exploration",
	Rule:        "random stacks, random histories; after each the overlay is closed (or abandoned like a dying process) and opened again, or its closed top stacked beneath a new empty top, writable or behind a read-only view; the whole view with modes, times and contents compared before and after, through several rounds on one stack; staging planted in between must be gone; non-trivial = at least two operations succeeded between two openings; distinct by operation and outcome sequence",
	Assumptions: []string{"the attributes of the root directory are the top layer's own"},
	Run: func(r *rt.Run) {
		kinds := without(fsx.BasicKinds, "hreaddir")
		kinds = append(kinds, "remove", "remove", "removeall", "rename", "rename", "mkdir", "mkdir", "chmod", "writefile")
		r.CasesPar("rounds", r.N(1500, 40000), 8, func(c *rt.Case) {
			s := ovl.Gen(c, ovl.GenOpt{Names: []string{"a", "b", "a-"}, Depth: 3, Targets: linkTargets, Lowers: 3, Ents: 10, Top: true, SQLite: 5, Big: true})
			c.Logf("%s", s.Describe())
			s.Put(c)
			c.Must(s.Mount(c))
			opt := fsx.DumpOpt{Mtime: true, DirMtime: true}
			for round := range 2 + c.IntN(3) {
				w := fsx.NewWorld(s.Sys())
				g := &fsx.Gen{Rand: c.Rand, Names: []string{"a", "b", "a-"}, Depth: 3, Kinds: kinds, Handles: 4, Targets: linkTargets}
				key, ok := "", 0
				for range 5 + c.IntN(25) {
					o := g.Next()
					out := w.Exec(o)
					if out.Err == "" {
						continue
					}
					c.Logf("%v = %v", o, out)
					key += o.K + out.Err
					if out.Err == "ok" {
						ok++
					}
				}
				w.CloseAll()
				was := fsx.Dump(s.Sys(), opt)
				how := "close"
				if c.IntN(3) == 0 {
					how = "abandon"
					for _, m := range s.Mons {
						m.Kill()
						m.Abandon()
					}
					s.O.Close()
				} else {
					c.Must(s.O.Close())
				}
				s.Release()
				left := litter(c, s)
				if c.IntN(3) == 0 && len(s.Layers) < 6 {
					how += "+restack"
					s.Restack(c, pick(c.Rand, "os", "mem", "prefix"), c.IntN(6) == 0)
					s.ROLow = c.IntN(2) == 0
					if s.ROLow {
						how += "-ro"
					}
				} else if c.IntN(3) == 0 {
					s.ROLow = !s.ROLow
				}
				c.Logf("-- %s", how)
				if err := s.Mount(c); err != nil {
					c.Fail("O03:open:"+how, "round %d: opening the layers again: %v", round, err)
					return
				}
				r.Count("reopened: " + how)
				r.Eval(1)
				r.CountN("effective-ops", ok)
				if ok > 1 {
					r.Distinct(key + how)
				}
				now := fsx.Dump(s.Sys(), opt)
				if d := fsx.Diff(now, was); d != "" {
					c.Fail("O03:view:"+how+":"+fsx.DiffKind(now, was), "view after %s: %s", how, d)
					return
				}
				k := s.Back[0].Sys(c)
				es, err := fsx.Names(k, "work")
				if s.Back[0].Dir != "" {
					k.Close()
				}
				c.Must(err)
				if len(es) > 0 {
					c.Fail("O03:work", "staging after opening: %v (%d planted)", es, left)
					return
				}
			}
			c.Must(s.O.Close())
			s.Release()
			r.Sample("%v", c.Log())
		})
		for _, h := range []string{"close", "abandon", "close+restack", "close+restack-ro", "abandon+restack"} {
			r.Floor("reopened: "+h, 50)
		}
		r.Floor("effective-ops", 10000)
	}}
