package main

import (
	"errors"
	"fmt"
	"io/fs"
	"os"
	"path"
	"path/filepath"
	"regexp"
	"strings"
	"sync"

	"github.com/ngicks/go-fsys-helper/fsutil"
	"github.com/ngicks/go-fsys-helper/vroot"
	"verif/harness/fsx"
	"verif/harness/rt"
)

// funnel maps the ten random digits of a name onto few values, so that
// names collide.
type funnel struct {
	fsx.FS
	n  int
	mu *sync.Mutex
	// calls counts attempts, made the names that were created.
	calls *int
	made  map[string]int
}

var digits10 = regexp.MustCompile(`[0-9]{10}`)

func (f *funnel) m(name string) string {
	d, b := path.Split(name)
	return d + digits10.ReplaceAllStringFunc(b, func(s string) string {
		v := 0
		for _, c := range s {
			v = (v*10 + int(c-'0')) % 1000003
		}
		return fmt.Sprintf("%010d", v%f.n)
	})
}

func (f *funnel) note(name string, err error) {
	f.mu.Lock()
	*f.calls++
	if err == nil {
		f.made[name]++
	}
	f.mu.Unlock()
}

func (f *funnel) OpenFile(name string, fl int, p fs.FileMode) (vroot.File, error) {
	name = f.m(name)
	h, err := f.FS.OpenFile(name, fl, p)
	if fl&os.O_CREATE != 0 {
		f.note(name, err)
	}
	return h, err
}

func (f *funnel) Mkdir(name string, p fs.FileMode) error {
	name = f.m(name)
	err := f.FS.Mkdir(name, p)
	f.note(name, err)
	return err
}

func (f *funnel) RemoveAll(name string) error { return f.FS.RemoveAll(f.m(name)) }

var (
	reRandom = regexp.MustCompile(`(?s)^.+\.[0-9]{10}\.tmp$`)
	reDir    = regexp.MustCompile(`^[0-9]{10}\.tmp$`)
)

var u04 = &rt.Check{ID: "U04", Level: "exploration",
	Rule: "random creation on file systems whose names collide (digits funnelled onto few values, entries planted under the very name asked for) sequentially and by concurrent callers, and failing with different errors; Match against an independent grammar on created, derived and random names; trees with planted temporary entries and look-alikes cleaned by both policies; distinct by name, tree and policy",
	Run: func(r *rt.Run) {
		r.CasesPar("collide", r.N(600, 8000), 8, func(c *rt.Case) {
			kind := backends[c.IntN(len(backends))]
			f := backend(c, kind)
			defer f.Close()
			dir := []string{"", ".", "d", "d/e", "./d//e"}[c.IntN(5)]
			c.Must(f.MkdirAll("d/e", 0o755))
			mkdir := c.IntN(2) == 0
			pat := []string{"*", "x", "x*", "*.tmp", "a*b*.tmp", "é.*.tmp", "**", ".*", "*x*y", "p*.0123456789.tmp"}[c.IntN(10)]
			planted := 0
			budget := c.IntN(30)
			mon := fsx.NewMon(f)
			var asked []string
			precious := fsx.Tree{}
			mon.Before = func(s fsx.Step) error {
				if s.Op != "create" && s.Op != "mkdir" {
					return nil
				}
				asked = append(asked, s.Name)
				if planted >= budget {
					return nil
				}
				planted++
				switch c.IntN(5) {
				case 0:
					c.Must(f.Mkdir(s.Name, 0o755))
				case 1:
					c.Must(f.Symlink("nowhere", s.Name))
				case 2:
					c.Must(f.Symlink("d", s.Name))
				default:
					c.Must(vroot.WriteFile(f, s.Name, []byte("precious"), 0o644))
				}
				precious = fsx.Dump(fsx.Sys{FS: f}, fsx.DumpOpt{})
				return nil
			}
			perm := []fs.FileMode{0o644, 0o600, 0o400, 0o755}[c.IntN(4)]
			if mkdir {
				perm |= 0o700
			}
			var h vroot.File
			var err error
			if mkdir {
				h, err = fsutil.MkdirRandom(mon, dir, pat, perm)
			} else {
				h, err = fsutil.OpenFileRandom(mon, dir, pat, perm)
			}
			c.Logf("%s dir=%q pattern=%q mkdir=%v planted=%d asked=%v err=%v", kind, dir, pat, mkdir, planted, asked, err)
			c.R.Eval(1)
			c.R.CountN("collisions", planted)
			if err != nil {
				c.Fail("U04:collide:error", "gave up after %d collisions: %v", planted, err)
				return
			}
			last := filepath.Clean(asked[len(asked)-1])
			i := strings.LastIndex(pat, "*")
			pre, suf := pat, ""
			if i >= 0 {
				pre, suf = pat[:i], pat[i+1:]
			}
			base := path.Base(last)
			if path.Dir(last) != path.Clean("./"+dir) || !strings.HasPrefix(base, pre) || !strings.HasSuffix(base, suf) ||
				!regexp.MustCompile(`^[0-9]{10}$`).MatchString(base[len(pre):len(base)-len(suf)]) {
				c.Fail("U04:collide:name", "created %q for %q in %q", last, pat, dir)
			}
			if filepath.Base(h.Name()) != base {
				c.Fail("U04:collide:handle-name", "handle of %q is named %q", last, h.Name())
			}
			if !mkdir {
				if _, err := h.Write([]byte("mine")); err != nil {
					c.Fail("U04:collide:write", "the new file is not writable: %v", err)
				}
			}
			h.Close()
			t := fsx.Dump(fsx.Sys{FS: f}, fsx.DumpOpt{})
			got := t[last]
			delete(t, last)
			if planted == 0 {
				precious = fsx.Tree{"d": t["d"], "d/e": t["d/e"]}
			}
			if d := fsx.Diff(t, precious); d != "" {
				c.Fail("U04:collide:existing", "existing entries changed: %s", d)
			}
			want := fmt.Sprintf("file %o size=4 %08x", (perm|0o200)&^0o022, fsx.Sum([]byte("mine")))
			if mkdir {
				want = fmt.Sprintf("dir %o", perm&^0o022)
			}
			if got != want {
				c.Fail("U04:collide:new", "created %q is %q, want %q", last, got, want)
			}
			c.R.Distinct(fmt.Sprint(kind, dir, pat, mkdir, planted))
		})
		r.CasesPar("racing", r.N(60, 600), 4, func(c *rt.Case) {
			f := backend(c, backends[c.IntN(len(backends))])
			defer f.Close()
			n := 8 + c.IntN(30)
			calls := 0
			fun := &funnel{FS: f, n: n, mu: &sync.Mutex{}, calls: &calls, made: map[string]int{}}
			c.Must(vroot.WriteFile(f, "t.0000000003.tmp", []byte("precious"), 0o644))
			total := n - 1
			jobs := make(chan int, total+3)
			for i := range total + c.IntN(3) {
				jobs <- i
			}
			close(jobs)
			var wg sync.WaitGroup
			var mu sync.Mutex
			ok, exhausted := 0, 0
			for range 6 {
				c.Go(&wg, func() {
					for i := range jobs {
						if i%4 == 0 {
							h, err := fsutil.MkdirRandom(fun, "", "t.*.tmp", 0o755)
							mu.Lock()
							if err == nil {
								ok++
								h.Close()
							} else if errors.Is(err, fsutil.ErrMaxRetry) {
								exhausted++
							} else {
								c.Fail("U04:racing:error", "%v", err)
							}
							mu.Unlock()
							continue
						}
						h, err := fsutil.OpenFileRandom(fun, "", "t.*.tmp", 0o600)
						if err == nil {
							if st, err := h.Stat(); err != nil || st.Size() != 0 {
								c.Fail("U04:racing:shared", "a new file already has %v (%v)", st, err)
							}
							fmt.Fprintf(h, "owner %d", i)
							h.Close()
						}
						mu.Lock()
						if err == nil {
							ok++
						} else if errors.Is(err, fsutil.ErrMaxRetry) {
							exhausted++
						} else {
							c.Fail("U04:racing:error", "%v", err)
						}
						mu.Unlock()
					}
				})
			}
			wg.Wait()
			c.R.Eval(ok + exhausted)
			c.R.CountN("racing creations", ok)
			c.R.CountN("exhausted", exhausted)
			for name, k := range fun.made {
				if k != 1 {
					c.Fail("U04:racing:twice", "%s was created %d times", name, k)
				}
			}
			if len(fun.made) != ok {
				c.Fail("U04:racing:count", "%d names for %d successes", len(fun.made), ok)
			}
			if exhausted > 0 && len(fun.made) < n-1 {
				// each attempt is uniform: 10000 tries miss a free one of <40 names with p < e^-250
				c.Fail("U04:racing:gave-up", "gave up with %d of %d names taken", len(fun.made), n-1)
			}
			if b, err := vroot.ReadFile(f, "t.0000000003.tmp"); string(b) != "precious" {
				c.Fail("U04:racing:existing", "existing file now %q, %v", b, err)
			}
		})
		r.CasesPar("errors", r.N(60, 300), 4, func(c *rt.Case) {
			f := mem()
			defer f.Close()
			mon := fsx.NewMon(f)
			n := 0
			c.Must(f.Mkdir("d", 0o755))
			switch c.IntN(4) {
			case 0: // separators are refused without a call
				for _, p := range []string{"a/*", "/", "*/b", "../*", "a*/../b"} {
					_, err := fsutil.OpenFileRandom(mon, "d", p, 0o600)
					_, err2 := fsutil.MkdirRandom(mon, "d", p, 0o700)
					if !errors.Is(err, fsutil.ErrBadPattern) || !errors.Is(err2, fsutil.ErrBadPattern) || mon.Steps() != 0 {
						c.Fail("U04:errors:pattern", "%q: %v, %v after %d calls", p, err, err2, mon.Steps())
					}
				}
			case 1: // any other error is returned at once
				mon.Before = func(fsx.Step) error { n++; return fsx.ErrFault }
				_, err := fsutil.OpenFileRandom(mon, "d", "x", 0o600)
				if !errors.Is(err, fsx.ErrFault) || n != 1 {
					c.Fail("U04:errors:fault", "%v after %d calls", err, n)
				}
			case 2: // endless collisions end
				mon.Before = func(fsx.Step) error { n++; return fs.ErrExist }
				_, err := fsutil.OpenFileRandom(mon, "d", "x", 0o600)
				if !errors.Is(err, fsutil.ErrMaxRetry) || n < 2 {
					c.Fail("U04:errors:retry", "%v after %d calls", err, n)
				}
			case 3: // a directory that can not be opened does not stay
				kind := c.IntN(16)
				mon.Before = func(s fsx.Step) error {
					if s.Op == "open" {
						return fsx.Faulty(kind)
					}
					return nil
				}
				_, err := fsutil.MkdirRandom(mon, "d", "x", 0o700)
				if t := fsx.Dump(fsx.Sys{FS: f}, fsx.DumpOpt{}); !errors.Is(err, fsx.ErrFault) || len(t) != 1 {
					c.Fail("U04:errors:mkdir", "%v leaves %v", err, t)
				}
			}
			c.R.Eval(1)
			c.R.Count("errors")
		})
		r.CasesPar("match", r.N(300, 5000), 8, func(c *rt.Case) {
			rp := fsutil.NewTempFilePolicyRandom[*fsx.Mon, vroot.File]()
			tds := []string{"tmp", "a/tmp", ".", "a", "tmp.x", "./tmp/", "a/../tmp"}
			td := tds[c.IntN(len(tds))]
			dp := fsutil.NewTempFilePolicyDir[*fsx.Mon, vroot.File](td)
			ctd := filepath.Clean(td)
			check := func(p string, created int) {
				wr := reRandom.MatchString(filepath.Base(p))
				cp := filepath.Clean(p)
				in := strings.HasPrefix(cp, ctd+"/") || ctd == "." && filepath.IsLocal(cp)
				wd := in && reDir.MatchString(filepath.Base(cp))
				if created == 1 {
					wr = true
				} else if created == 2 {
					wd = true
				}
				c.R.Eval(2)
				if g := rp.Match(p); g != wr {
					c.Fail("U04:match:random", "Match(%q) = %v", p, g)
				}
				if g := dp.Match(p); g != wd {
					c.Fail("U04:match:dir", "Match(%q) with %q = %v", p, td, g)
				}
				if wr {
					c.R.Count("matched random")
				}
				if wd {
					c.R.Count("matched dir")
				}
				c.R.Distinct(fmt.Sprint(td, p))
			}
			// names the policies make themselves
			f := mem()
			defer f.Close()
			c.Must(f.MkdirAll(ctd, 0o755))
			c.Must(f.MkdirAll("d", 0o755))
			mon := fsx.NewMon(f)
			tgt := func() string {
				al := []string{"a", ".", "..", "x.tmp", "é", "\xff", "*", " ", "0123456789", ".tmp", strings.Repeat("長", 100), strings.Repeat("y", 260)}
				s := ""
				for range 1 + c.IntN(3) {
					s += al[c.IntN(len(al))]
				}
				return "d/" + s
			}
			for range 6 {
				tg := tgt()
				var h vroot.File
				var dir string
				var err error
				mk := c.IntN(2) == 0
				if mk {
					h, dir, err = rp.Mkdir(mon, tg, 0o755)
				} else {
					h, dir, err = rp.Create(mon, tg, 0o644)
				}
				if err != nil {
					c.Fail("U04:match:create", "Create for %q: %v", tg, err)
					continue
				}
				p := path.Join(dir, path.Base(h.Name()))
				h.Close()
				if len(path.Base(p)) > 255 {
					c.Fail("U04:match:length", "name of %d bytes for %q", len(path.Base(p)), tg)
				}
				check(p, 1)
				if ctd == "." {
					continue // rooted file systems refuse to make "."
				}
				if mk {
					h, dir, err = dp.Mkdir(mon, tg, 0o755)
				} else {
					h, dir, err = dp.Create(mon, tg, 0o644)
				}
				if err != nil {
					c.Fail("U04:match:create", "Create for %q: %v", tg, err)
					continue
				}
				p = path.Join(dir, path.Base(h.Name()))
				h.Close()
				check(p, 2)
				check("./"+p, 2)
			}
			parts := []string{"a", "tmp", "tmp2", "d", "x.0123456789.tmp", "0123456789.tmp", "012345678.tmp", "01234567890.tmp",
				"x.012345678a.tmp", ".0123456789.tmp", "..0123456789.tmp", "x.0123456789.tmp.bak", "x.0123456789", "x0123456789.tmp",
				"0123456789.tmpx", "x..0123456789.tmp", "x.０123456789.tmp", "x.0123456789.TMP", "tmp.x", "..", ".", "x. 123456789.tmp",
				"x.-123456789.tmp", "x.+123456789.tmp", "x.1e34567890.tmp", "x.\u0661\u0662\u0663\u0664\u0665.tmp", "\u0661\u0662\u0663\u0664\u0665.tmp", "x.\u0967\u0968\u09691.tmp", "\u0967\u0968\u09691.tmp", "x.\uff10\uff11\uff121.tmp", "\uff10\uff11\uff121.tmp", "x.\u00b2\u00b3\u00b9\u00b2\u00b3.tmp", "x.\u00bd\u00bc\u00be\u00bd\u00bc.tmp", "x.\u2167\u2167\u21671.tmp", ".tmp", "x.0123456789.tmp.tmp", "x.0123456789.0123456789.tmp"}
			for range 60 {
				var s []string
				for range 1 + c.IntN(3) {
					s = append(s, parts[c.IntN(len(parts))])
				}
				p := strings.Join(s, "/")
				if c.IntN(8) == 0 { // flip a byte
					b := []byte(p)
					b[c.IntN(len(b))] = byte("0a./\x00é"[c.IntN(7)])
					p = string(b)
				}
				check(p, 0)
			}
		})
		r.CasesPar("clean", r.N(400, 6000), 8, func(c *rt.Case) {
			kind := backends[c.IntN(len(backends))]
			f := backend(c, kind)
			defer f.Close()
			names := []string{"a", "tmp", "tmp2", "x.0123456789.tmp", "0123456789.tmp", "9876543210.tmp", "y.012345678.tmp", ".1234567890.tmp", "z.1234567890.tmp.bak", "x.\u0661\u0662\u0663\u0664\u0665.tmp", "\u0661\u0662\u0663\u0664\u0665.tmp", "b"}
			g := &fsx.Gen{Rand: c.Rand, Names: names, Depth: 4, Targets: []string{"a", "tmp", "../tmp", "x.0123456789.tmp", "nowhere"},
				Kinds: []string{"mkdirall", "mkdirall", "writefile", "writefile", "mkdir", "symlink"}}
			var ops []fsx.Op
			for range 30 {
				ops = append(ops, g.Next())
			}
			apply(fsx.Sys{FS: f}, ops)
			before := fsx.Dump(fsx.Sys{FS: f}, fsx.DumpOpt{})
			mon := fsx.NewMon(f)
			var policy fsutil.TempFilePolicy[*fsx.Mon, vroot.File]
			ctd := ""
			if c.IntN(2) == 0 {
				policy = fsutil.NewTempFilePolicyRandom[*fsx.Mon, vroot.File]()
			} else {
				td := []string{"tmp", "a/tmp", "a", ".", "b/tmp/a", "tmp2/", "a/./tmp"}[c.IntN(7)]
				policy = fsutil.NewTempFilePolicyDir[*fsx.Mon, vroot.File](td)
				ctd = filepath.Clean(td)
				if f.MkdirAll(ctd, 0o755) == nil && c.IntN(4) > 0 {
					// temporary entries of its own, as an interrupted writer leaves them
					for k := range 3 {
						if k == 0 {
							h, _, err := policy.Mkdir(mon, "a/b", 0o755)
							if err == nil {
								vroot.WriteFile(f, path.Join(ctd, path.Base(h.Name()), "x"), []byte("x"), 0o644)
								h.Close()
							}
						} else if h, _, err := policy.Create(mon, "a/b", 0o644); err == nil {
							h.Close()
						}
					}
				}
				before = fsx.Dump(fsx.Sys{FS: f}, fsx.DumpOpt{})
			}
			isTemp := func(p string) bool {
				if ctd == "" {
					return reRandom.MatchString(path.Base(p))
				}
				return path.Dir(p) == ctd && reDir.MatchString(path.Base(p))
			}
			want := fsx.Tree{}
			gone := 0
			for p, v := range before {
				del := false
				for q := p; q != "."; q = path.Dir(q) {
					del = del || isTemp(q)
				}
				if del {
					gone++
				} else {
					want[p] = v
				}
			}
			var fault string
			mode := c.IntN(6)
			mon.Before = func(s fsx.Step) error {
				if strings.HasPrefix(s.Op, "remove") {
					if !isTemp(filepath.Clean(s.Name)) {
						c.Fail("U04:clean:foreign", "%v of what is not temporary", s)
					}
					if mode == 0 && fault == "" {
						fault = s.Name
						return fsx.ErrFault
					}
				}
				return nil
			}
			err := fs.WalkDir(vroot.ToIoFs(vroot.Fs[vroot.File](f)), ".", func(p string, d fs.DirEntry, err error) error {
				return policy.WalkFunc(mon, p, d, err)
			})
			c.R.Eval(1)
			c.Logf("%s %T %q", kind, policy, ctd)
			after := fsx.Dump(fsx.Sys{FS: f}, fsx.DumpOpt{})
			if fault != "" {
				if !errors.Is(err, fsx.ErrFault) {
					c.Fail("U04:clean:swallowed", "removing %q failed, the walk returned %v", fault, err)
				}
				for p, v := range want {
					if after[p] != v {
						c.Fail("U04:clean:lost", "%s was %q, is %q", p, v, after[p])
					}
				}
				c.R.Count("failed cleaning")
				return
			}
			if err != nil {
				c.Fail("U04:clean:error", "%v", err)
			}
			if d := fsx.Diff(after, want); d != "" {
				c.Fail("U04:clean:tree", "%s\nbefore:\n%v", d, before)
			}
			c.R.CountN("temporary entries cleaned", gone)
			c.R.CountN("entries kept", len(want))
			c.R.Distinct(fmt.Sprint(ctd, before))
			if c.Idx < 2 {
				c.R.Sample("%q: %v", ctd, before)
			}
		})
		r.Floor("collisions", 3000)
		r.Floor("racing creations", 500)
		r.Floor("exhausted", 5)
		r.Floor("matched random", 1000)
		r.Floor("matched dir", 1000)
		r.Floor("temporary entries cleaned", 300)
		r.Floor("entries kept", 1000)
		r.Floor("failed cleaning", 10)
	}}
