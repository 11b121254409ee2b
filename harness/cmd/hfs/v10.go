package main

import (
	"os"
	"path/filepath"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/ngicks/go-fsys-helper/vroot"
	"github.com/ngicks/go-fsys-helper/vroot/osfs"
	"verif/harness/fsx"
	"verif/harness/rt"
)

// probe asks the kernel through a descriptor of its own which locks are free.
func probe(c *rt.Case, p string) (shared, exclusive bool) {
	f, err := os.Open(p)
	c.Must(err)
	defer f.Close()
	shared = syscall.Flock(int(f.Fd()), syscall.LOCK_SH|syscall.LOCK_NB) == nil
	syscall.Flock(int(f.Fd()), syscall.LOCK_UN)
	exclusive = syscall.Flock(int(f.Fd()), syscall.LOCK_EX|syscall.LOCK_NB) == nil
	return
}

func lockSys(c *rt.Case, dir string) fsx.Sys {
	switch c.IntN(4) {
	case 0:
		return fsx.Wrap[*osfs.File](osFs(c, dir))
	case 1:
		return fsx.Sys{FS: vroot.Widen[*osfs.File](osRoot(c, dir))}
	case 2:
		p, err := vroot.NewPathPrefixFs[*osfs.File](osFs(c, filepath.Dir(dir)), filepath.Base(dir))
		c.Must(err)
		return fsx.Wrap[*osfs.File](p)
	}
	return fsx.WrapRoot[*osfs.File, *osfs.Root](osRoot(c, dir))
}

var v10 = &rt.Check{ID: "V10", Level: "exploration",
	Rule:        "histories of lock, convert, unlock and close over several handles of one file, each state probed through an independent descriptor, and concurrent holders with counters inside the critical sections; non-trivial = at least one conversion or contended wait",
	Assumptions: []string{"flock(2) of the running kernel is the ground truth for probes"},
	Run: func(r *rt.Run) {
		levels := []vroot.LockLevel{vroot.LockShared, vroot.LockExclusive}
		r.CasesPar("model", r.N(400, 10000), 8, func(c *rt.Case) {
			dir := subdir(c, "g")
			p := filepath.Join(dir, "f")
			c.Must(os.WriteFile(p, []byte("x"), 0o644))
			s := lockSys(c, dir)
			defer s.Close()
			held := map[int]vroot.LockLevel{}
			files := map[int]vroot.File{}
			key := ""
			check := func(what string) {
				sh, ex := probe(c, p)
				wantEx := len(held) == 0
				wantSh := true
				for _, l := range held {
					if l == vroot.LockExclusive {
						wantSh = false
					}
				}
				c.R.Eval(1)
				if sh != wantSh || ex != wantEx {
					c.Fail("V10:state:"+what, "after %s another handle can lock shared=%v exclusive=%v, want %v %v", what, sh, ex, wantSh, wantEx)
				}
			}
			for i := 0; i < 25 && !c.Failed(); i++ {
				h := c.IntN(3)
				f := files[h]
				if f == nil {
					var err error
					f, err = s.OpenFile("f", pick(c.Rand, os.O_RDONLY, os.O_RDWR, os.O_WRONLY), 0)
					c.Must(err)
					files[h] = f
				}
				l, ok := f.(vroot.Locker)
				if !ok {
					c.Fail("V10:no-locker", "%T has no Lock", f)
					return
				}
				op := c.IntN(5)
				what := ""
				switch {
				case op < 3:
					lv := pick(c.Rand, levels...)
					// blocks unless compatible with the others
					free := true
					for o, ol := range held {
						if o != h && (lv == vroot.LockExclusive || ol == vroot.LockExclusive) {
							free = false
						}
					}
					if !free {
						continue
					}
					what = "lock"
					if _, had := held[h]; had {
						what = "convert"
						c.R.Count("conversions")
					}
					err := l.Lock(lv)
					c.Logf("h%d.Lock(%d) = %v", h, lv, err)
					if err != nil {
						c.Fail("V10:"+what+"-error", "h%d.Lock(%d): %v", h, lv, err)
						return
					}
					held[h] = lv
				case op == 3:
					what = "unlock"
					err := l.Unlock()
					c.Logf("h%d.Unlock = %v", h, err)
					if err != nil {
						c.Fail("V10:unlock-error", "h%d.Unlock: %v", h, err)
						return
					}
					delete(held, h)
				default:
					what = "close"
					c.Must(f.Close())
					c.Logf("h%d.Close", h)
					if err := l.Lock(vroot.LockShared); err == nil {
						c.Fail("V10:closed", "Lock on a closed handle succeeded")
					}
					delete(held, h)
					delete(files, h)
				}
				key += what
				check(what)
			}
			for _, f := range files {
				f.Close()
			}
			held = map[int]vroot.LockLevel{}
			check("all closed")
			c.R.Distinct(key)
			for _, bad := range []vroot.LockLevel{0, -1, 3, 99} {
				f, err := s.Open("f")
				c.Must(err)
				if err := f.(vroot.Locker).Lock(bad); err == nil {
					c.Fail("V10:bad-level", "Lock(%d) succeeded", bad)
				}
				f.Close()
			}
			r.Sample("%v", c.Log())
		})
		r.CasesPar("stress", r.N(60, 1500), 4, func(c *rt.Case) {
			dir := subdir(c, "g")
			p := filepath.Join(dir, "f")
			c.Must(os.WriteFile(p, []byte("x"), 0o644))
			s := lockSys(c, dir)
			defer s.Close()
			var readers, writers atomic.Int32
			var bad atomic.Value
			in := func(l vroot.LockLevel) {
				if l == vroot.LockExclusive {
					if w, r := writers.Add(1), readers.Load(); w != 1 || r != 0 {
						bad.CompareAndSwap(nil, "exclusive holder not alone")
					}
				} else {
					readers.Add(1)
					if writers.Load() != 0 {
						bad.CompareAndSwap(nil, "shared holder beside an exclusive one")
					}
				}
				time.Sleep(time.Duration(20+int(l)*30) * time.Microsecond)
				if l == vroot.LockExclusive && readers.Load() != 0 {
					bad.CompareAndSwap(nil, "shared holder beside an exclusive one")
				}
			}
			out := func(l vroot.LockLevel) {
				if l == vroot.LockExclusive {
					writers.Add(-1)
				} else {
					readers.Add(-1)
				}
			}
			var wg sync.WaitGroup
			for gi := 0; gi < 5; gi++ {
				n := 8
				seed := c.Uint64()
				c.Go(&wg, func() {
					rr := seed
					f, err := s.OpenFile("f", os.O_RDWR, 0)
					if err != nil {
						bad.CompareAndSwap(nil, err.Error())
						return
					}
					defer func() { f.Close() }()
					for i := 0; i < n; i++ {
						rr = rr*6364136223846793005 + 1442695040888963407
						l := levels[rr>>40&1]
						if err := f.(vroot.Locker).Lock(l); err != nil {
							bad.CompareAndSwap(nil, err.Error())
							return
						}
						in(l)
						out(l)
						if l == vroot.LockShared && rr>>41&1 == 1 { // upgrade
							if err := f.(vroot.Locker).Lock(vroot.LockExclusive); err != nil {
								bad.CompareAndSwap(nil, err.Error())
								return
							}
							l = vroot.LockExclusive
							in(l)
							out(l)
							c.R.Count("upgrades")
						} else if l == vroot.LockExclusive && rr>>41&1 == 1 {
							if err := f.(vroot.Locker).Lock(vroot.LockShared); err != nil {
								bad.CompareAndSwap(nil, err.Error())
								return
							}
							l = vroot.LockShared
							in(l)
							out(l)
							c.R.Count("downgrades")
						}
						if rr>>42&3 == 0 {
							f.Close() // releases
							f, err = s.OpenFile("f", os.O_RDWR, 0)
							if err != nil {
								bad.CompareAndSwap(nil, err.Error())
								return
							}
						} else if err := f.(vroot.Locker).Unlock(); err != nil {
							bad.CompareAndSwap(nil, err.Error())
						}
						c.R.Count("critical-sections")
					}
				})
			}
			done := make(chan struct{})
			go func() { wg.Wait(); close(done) }()
			select {
			case <-done:
			case <-time.After(60 * time.Second):
				c.Fail("V10:stuck", "waiters not woken within 60 s")
				return
			}
			c.R.Eval(1)
			if b := bad.Load(); b != nil {
				c.Fail("V10:exclusion", "%v", b)
			}
			if _, ex := probe(c, p); !ex {
				c.Fail("V10:leaked", "a lock is still held after every handle let go")
			}
		})
		r.Floor("conversions", 50)
		r.Floor("critical-sections", 500)
	}}
