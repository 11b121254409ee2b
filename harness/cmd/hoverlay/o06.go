package main

import (
	"fmt"
	"math/rand/v2"
	"os"
	"sort"
	"strings"
	"sync"

	"github.com/ngicks/go-fsys-helper/vroot"
	"github.com/ngicks/go-fsys-helper/vroot-adapter/overlayfs"
	"verif/harness/fsx"
	"verif/harness/ovl"
	"verif/harness/rt"
)

// markNames are names with everything a query or a range could trip over.
var markNames = []string{"a", "a/b", "a/b/c", "a!", "a-b", "a.b", "a0", "a00", "ab", "a b", "A", "A/b", "a%", "a_b", "a%b/c", "b", "b/a", "é/ü", "é", "日本/語", "日本", "a/é", "\\", "a\\b", "'", "''; DROP TABLE node; --", "\"x\"", "a/'", "?1", "a\nb", "a\tb", "...", "a/...", "..a", "a..", "-", "0", "1e3", "1.0", "01", "1", "NULL", "x\xff", "x", "x/y", "x\xff/y", "a/0", "a/b0", "a/b!", "~", "a/b/c/d/e/f/g", strings.Repeat("l", 255), strings.Repeat("d/", 60) + "e", "merged", "work/x", ":memory:", "file:x?mode=ro", "\u0301a", "á/b", "á/b"}

func markName(r *rand.Rand) string {
	if r.IntN(30) == 0 {
		return ""
	}
	n := markNames[r.IntN(len(markNames))]
	if r.IntN(3) == 0 {
		n = markNames[r.IntN(8)]
	}
	if r.IntN(5) == 0 {
		n += "/" + markNames[r.IntN(len(markNames))]
	}
	return n
}

// spell writes a name in another way for the same node.
func spell(r *rand.Rand, n string) string {
	for r.IntN(3) == 0 {
		switch r.IntN(7) {
		case 0:
			n = "/" + n
		case 1:
			n = "./" + n
		case 2:
			n += "/"
		case 3:
			n = "q/../" + n
		case 4:
			n = strings.Replace(n, "/", "//", 1)
		case 5:
			n = "../" + n
		case 6:
			n += "/."
		}
	}
	return n
}

type markOp struct{ kind, name string }

func (m markOp) String() string { return fmt.Sprintf("%s(%q)", m.kind, m.name) }

func (m markOp) do(s overlayfs.MetadataStore) error {
	switch m.kind {
	case "SetWhiteout":
		return s.SetWhiteout(m.name)
	case "ClearWhiteout":
		return s.ClearWhiteout(m.name)
	case "SetOpaque":
		return s.SetOpaque(m.name)
	}
	return s.ClearOpaque(m.name)
}

func genMark(r *rand.Rand, m ovl.Marks) markOp {
	o := markOp{pick(r, "SetWhiteout", "SetWhiteout", "SetOpaque", "SetOpaque", "SetOpaque", "ClearWhiteout", "ClearOpaque"), markName(r)}
	if r.IntN(3) == 0 { // something that is marked, or next to it
		var l []string
		for k := range m.W {
			l = append(l, k)
		}
		for k := range m.O {
			l = append(l, k)
		}
		if len(l) > 0 {
			sort.Strings(l)
			o.name = l[r.IntN(len(l))]
			if r.IntN(4) == 0 {
				o.name, _, _ = strings.Cut(o.name, "/")
			}
		}
	}
	if strings.HasPrefix(o.kind, "Set") && ovl.Clean(o.name) == "" && r.IntN(3) != 0 {
		o.name = "a"
	}
	o.name = spell(r, o.name)
	return o
}

func (m markOp) model(s ovl.Marks) ovl.Marks {
	s = s.Clone()
	switch m.kind {
	case "SetWhiteout":
		s.SetWhiteout(m.name)
	case "ClearWhiteout":
		delete(s.W, ovl.Clean(m.name))
	case "SetOpaque":
		s.O[ovl.Clean(m.name)] = true
	default:
		delete(s.O, ovl.Clean(m.name))
	}
	return s
}

// loaded is what a store holds; a name twice is a fault of its own.
func loaded(s overlayfs.MetadataStore) (string, error) {
	w, o, err := s.Load()
	if err != nil {
		return "", err
	}
	q := func(l []string) string {
		sort.Strings(l)
		var b []string
		for i, n := range l {
			b = append(b, fmt.Sprintf("%q", n))
			if i > 0 && l[i-1] == n {
				b = append(b, "(twice)")
			}
		}
		return strings.Join(b, " ")
	}
	return "whiteouts " + q(w) + "; opaques " + q(o), nil
}

func quoted(m ovl.Marks) string {
	q := func(s map[string]bool) string {
		var l, b []string
		for k := range s {
			l = append(l, k)
		}
		sort.Strings(l)
		for _, n := range l {
			b = append(b, fmt.Sprintf("%q", n))
		}
		return strings.Join(b, " ")
	}
	return "whiteouts " + q(m.W) + "; opaques " + q(m.O)
}

var o06 = &rt.Check{ID: "O06", Level: "exploration",
	Rule:        "random sequences of mark and unmark calls with hostile and equivalent spellings on the SQLite store over kernel directories, the in-memory file system and prefixed views, reopened at random; the loaded marks compared with a model after every few calls and reopening; every kind of call to the backing file system failing once or being the last before the process dies (writes torn or not), also while opening and while recovering; concurrent markers; foreign files and stores of another version are refused and left as they are; non-trivial = the marks were compared; distinct by sequence of calls, mark sets and stops",
	Assumptions: []string{"a crash is the process stopping between two calls to the backing file system or within a write; what was written is kept", "names are valid for the database as far as the operating system allows them as file names"},
	Run: func(r *rt.Run) {
		open := func(c *rt.Case, b *ovl.Backend, hook func(fsx.Step) error) (*overlayfs.MetadataStoreSQLite, *fsx.Mon, func(), error) {
			m := fsx.NewMon(b.FS(c))
			m.Before = hook
			s, err := overlayfs.NewMetadataStoreSQLite[vroot.File](m, "meta.sqlite3")
			return s, m, func() {
				m.Abandon()
				if b.Dir != "" {
					m.In.Close()
				}
			}, err
		}
		r.CasesPar("marks", r.N(1000, 15000), 8, func(c *rt.Case) {
			b := ovl.NewBackend(c, pick(c.Rand, "os", "mem", "prefix"))
			s, _, rel, err := open(c, b, nil)
			c.Must(err)
			m := ovl.NewMarks()
			cmp := func(when string) bool {
				got, err := loaded(s)
				if err != nil {
					c.Fail("O06:load:error", "%s: %v", when, err)
					return false
				}
				r.Eval(1)
				r.Distinct(got)
				if want := quoted(m); got != want {
					c.Fail("O06:marks:"+when, "%s: got %s, want %s", when, got, want)
					return false
				}
				return true
			}
			for range 10 + c.IntN(40) {
				o := genMark(c.Rand, m)
				if err := o.do(s); err != nil {
					c.Fail("O06:error:"+o.kind, "%v: %v", o, err)
					return
				}
				c.Logf("%v", o)
				r.Count(o.kind)
				before := len(m.W) + len(m.O)
				m = o.model(m)
				if n := len(m.W) + len(m.O); n < before-1 {
					r.Count("subtrees dropped")
				}
				if (c.IntN(4) == 0 || strings.HasPrefix(o.kind, "SetW")) && !cmp("after "+o.kind) {
					return
				}
				if c.IntN(15) == 0 {
					if c.IntN(2) == 0 {
						c.Must(s.Close())
						rel()
					} else {
						rel()
						s.Close()
					}
					s, _, rel, err = open(c, b, nil)
					if err != nil {
						c.Fail("O06:reopen", "%v", err)
						return
					}
					r.Count("reopened")
					if !cmp("reopened") {
						return
					}
				}
			}
			cmp("end")
			c.Must(s.Close())
			rel()
			r.Sample("%v", c.Log())
		})
		r.CasesPar("stops", r.N(1500, 20000), 8, func(c *rt.Case) {
			b := ovl.NewBackend(c, pick(c.Rand, "os", "mem", "prefix"))
			m := ovl.NewMarks()
			// the stop of the current session
			var mon *fsx.Mon
			var n, at int
			var crash, torn, fired bool
			what := ""
			hook := func(st fsx.Step) error {
				if fired && crash {
					return fsx.ErrCrash
				}
				if !st.Mut && st.Op != "sync" && st.Op != "close" && st.Op != "openw" && !(st.Op == "readat" || st.Op == "stat" || st.Op == "fstat") {
					return nil
				}
				n++
				if at == 0 || n != at || fired {
					return nil
				}
				fired, what = true, st.Op
				if crash {
					mon.Torn = torn
					return fsx.ErrCrash
				}
				return fsx.ErrFault
			}
			arm := func() {
				n, fired, what = 0, false, ""
				crash, torn = c.IntN(2) == 0, c.IntN(2) == 0
				at = 0
				if c.IntN(3) != 0 {
					at = 1 + c.IntN(40)
				}
			}
			var s *overlayfs.MetadataStoreSQLite
			rel := func() {}
			mount := func() bool {
				for try := 0; ; try++ {
					arm()
					if try > 3 {
						at = 0
					}
					mn := fsx.NewMon(b.FS(c))
					mn.Before = hook
					mon = mn
					st, err := overlayfs.NewMetadataStoreSQLite[vroot.File](mn, "meta.sqlite3")
					release := func() {
						if st != nil {
							st.Close()
						}
						mn.Kill()
						mn.Abandon()
						if b.Dir != "" {
							mn.In.Close()
						}
					}
					if err == nil && !(fired && crash) {
						at = 0
						s, rel = st, release
						return true
					}
					release()
					if !fired {
						c.Fail("O06:open:"+what, "opening: %v", err)
						return false
					}
					r.Count("stopped while opening")
				}
			}
			if !mount() {
				return
			}
			for range 12 {
				arm()
				o := genMark(c.Rand, m)
				err := o.do(s)
				if !fired {
					at = 0
				}
				next := o.model(m)
				c.Logf("%v = %v (stop at %d: %v %s crash=%v)", o, err, at, fired, what, crash)
				r.Eval(1)
				if !fired {
					if err != nil {
						c.Fail("O06:error:"+o.kind, "%v: %v", o, err)
						return
					}
					m = next
					if c.IntN(3) != 0 {
						continue
					}
				}
				hows := map[bool]string{true: "crash", false: "fault"}
				sig := "O06:" + hows[crash] + ":" + what
				if !fired {
					sig = "O06:reopen"
				} else {
					r.Count(hows[crash] + " at " + what)
					r.Count("stopped")
				}
				live := ""
				if fired && !crash {
					at = 0
					l, lerr := loaded(s)
					if lerr != nil {
						// the connection may have gone bad; reopening decides
						r.Count("load fails after a fault")
					}
					live = l
				}
				if fired && crash || c.IntN(2) == 0 || live == "" {
					if c.IntN(2) == 0 && !(fired && crash) {
						at = 0
						s.Close()
					}
					rel()
					if !mount() {
						return
					}
					live = ""
				}
				got, lerr := loaded(s)
				if lerr != nil {
					c.Fail(sig+":load", "after %v: loading: %v", o, lerr)
					return
				}
				if live != "" && live != got {
					c.Fail(sig+":unstable", "after %v: two loads differ: %s and %s", o, live, got)
					return
				}
				was, now := quoted(m), quoted(next)
				r.Distinct(o.kind + sig + got)
				switch {
				case fired && err == nil && got != now:
					c.Fail(sig+":lost", "%v returned success, reopened marks are %s, want %s", o, got, now)
					return
				case got != was && got != now:
					c.Fail(sig+":marks", "%v: marks are %s, before %s, after %s", o, got, was, now)
					return
				case got == now:
					m = next
				}
			}
			rel()
			r.Sample("%v", c.Log())
		})
		r.Cases("concurrent", r.N(60, 1500), func(c *rt.Case) {
			b := ovl.NewBackend(c, pick(c.Rand, "os", "mem"))
			s, _, rel, err := open(c, b, nil)
			c.Must(err)
			var wg sync.WaitGroup
			models := make([]ovl.Marks, 4)
			for g := range models {
				rnd := rand.New(rand.NewPCG(uint64(c.Idx), uint64(g)))
				models[g] = ovl.NewMarks()
				pre := fmt.Sprintf("g%d", g)
				c.Go(&wg, func() {
					for range 15 {
						o := genMark(rnd, ovl.NewMarks())
						o.name = pre + "/" + ovl.Clean(o.name)
						if err := o.do(s); err != nil {
							c.Fail("O06:concurrent:error", "%v: %v", o, err)
							return
						}
						models[g] = o.model(models[g])
						if rnd.IntN(5) == 0 {
							if _, _, err := s.Load(); err != nil {
								c.Fail("O06:concurrent:load", "%v", err)
							}
						}
					}
				})
			}
			wg.Wait()
			all := ovl.NewMarks()
			for _, m := range models {
				for k := range m.W {
					all.W[k] = true
				}
				for k := range m.O {
					all.O[k] = true
				}
			}
			got, err := loaded(s)
			c.Must(err)
			r.Eval(1)
			if want := quoted(all); got != want {
				c.Fail("O06:concurrent:marks", "got %s, want %s", got, want)
			}
			c.Must(s.Close())
			rel()
		})
		r.Cases("foreign", r.N(20, 200), func(c *rt.Case) {
			// something else in place of the database is refused, and left alone
			b := ovl.NewBackend(c, pick(c.Rand, "os", "mem"))
			f := b.FS(c)
			junk := make([]byte, 1+c.IntN(9000))
			for i := range junk {
				junk[i] = byte(c.IntN(256))
			}
			h, err := f.Create("meta.sqlite3")
			c.Must(err)
			h.Write(junk)
			h.Close()
			s, err := overlayfs.NewMetadataStoreSQLite[vroot.File](f, "meta.sqlite3")
			r.Eval(1)
			if err == nil {
				s.Close()
				c.Fail("O06:foreign:accepted", "%d bytes of junk are accepted as a database", len(junk))
				return
			}
			got, _, err := fsx.ReadFile(fsx.Sys{FS: f}, "meta.sqlite3")
			if err != nil || string(got) != string(junk) {
				c.Fail("O06:foreign:changed", "a foreign file was changed: %v", err)
			}
		})
		r.Cases("version", r.N(20, 100), func(c *rt.Case) {
			// nor is a store of another version taken for one's own
			b := ovl.NewBackend(c, pick(c.Rand, "os", "mem"))
			f := b.FS(c)
			c.Must(f.Mkdir("merged", 0o755))
			c.Must(f.Mkdir("work", 0o755))
			open := func() (overlayfs.MetadataStore, error) {
				return overlayfs.NewMetadataStoreSQLite[vroot.File](f, "meta.sqlite3")
			}
			s, err := open()
			c.Must(err)
			for i := range c.IntN(5) {
				c.Must(s.SetWhiteout(fmt.Sprintf("w%d", i)))
			}
			c.Must(s.Close())
			sys := fsx.Sys{FS: f}
			db, _, err := fsx.ReadFile(sys, "meta.sqlite3")
			c.Must(err)
			write := func(b []byte) {
				h, err := f.OpenFile("meta.sqlite3", os.O_WRONLY, 0)
				c.Must(err)
				_, err = h.WriteAt(b, 0)
				c.Must(err)
				c.Must(h.Close())
			}
			if strings.Count(string(db), "version1") != 1 {
				r.Count("version not found in the store")
				return
			}
			ro := func() (*overlayfs.DataSource, error) {
				return overlayfs.NewDataSourceCanonical(vroot.Fs[*vroot.ReadOnlyFile](vroot.NewReadOnlyFs[vroot.File](f)))
			}
			other := []byte(strings.Replace(string(db), "version1", "version"+pick(c.Rand, "2", "0", "9", "x"), 1))
			write(other)
			r.Eval(2)
			if s, err := open(); err == nil {
				s.Close()
				c.Fail("O06:version:accepted", "a store of another version is opened")
			}
			if _, err := ro(); err == nil {
				c.Fail("O06:version:accepted-ro", "a read-only store of another version is opened")
			}
			if now, _, err := fsx.ReadFile(sys, "meta.sqlite3"); err != nil || string(now) != string(other) {
				c.Fail("O06:version:changed", "a store of another version was changed (%v)", err)
			}
			es, err := fsx.Names(sys, ".")
			if err != nil || strings.Join(es, " ") != "merged meta.sqlite3 work" && strings.Join(es, " ") != "merged work meta.sqlite3" {
				r.Count("names beside the store afterwards")
			}
			write(db)
			s, err = open()
			if err != nil {
				c.Fail("O06:version:own", "the own version is refused: %v", err)
				return
			}
			c.Must(s.Close())
			if _, err := ro(); err != nil {
				c.Fail("O06:version:own-ro", "the own version is refused read-only: %v", err)
			}
			r.Count("stores of another version refused")
		})
		r.Floor("stores of another version refused", 10)
		r.Floor("subtrees dropped", 40)
		r.Floor("reopened", 100)
		r.Floor("stopped", 100)
		for _, k := range []string{"crash at writeat", "fault at writeat", "crash at sync", "fault at sync", "crash at create", "stopped while opening"} {
			r.Soft(k, 5)
		}
	}}
