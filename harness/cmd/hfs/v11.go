package main

import (
	"errors"
	"fmt"
	"io/fs"
	"math/rand/v2"
	"os"
	"path"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing/fstest"
	"time"

	"github.com/ngicks/go-fsys-helper/fsutil"
	"github.com/ngicks/go-fsys-helper/vroot"
	"github.com/ngicks/go-fsys-helper/vroot/synthfs"
	"verif/harness/fsx"
	"verif/harness/rt"
)

// tickClock never tells the same time twice.
type tickClock struct{ n atomic.Int64 }

var tickBase = time.Date(1999, 1, 2, 3, 4, 5, 0, time.UTC)

func (k *tickClock) Now() time.Time {
	return tickBase.Add(time.Duration(k.n.Add(1)) * time.Minute)
}

// within tells whether t was told after the clock stood at from.
func (k *tickClock) within(t time.Time, from int64) bool {
	d := t.Sub(tickBase)
	n := int64(d / time.Minute)
	return d%time.Minute == 0 && n > from && n <= k.n.Load()
}

// optAlloc logs what it is asked for and fails when told to.
type optAlloc struct {
	logAlloc
	asked []string
	fail  bool
}

func (a *optAlloc) Allocate(n string, p fs.FileMode) (synthfs.FileView, error) {
	a.asked = append(a.asked, fmt.Sprintf("%s %o", n, p))
	if a.fail {
		return nil, errUser
	}
	return a.logAlloc.Allocate(n, p)
}

// optEnt is an entry of the model.
type optEnt struct {
	kind byte // d, f or l
	perm fs.FileMode
	mod  time.Time
	from int64 // contents changed since: the clock then; -1: not
	view *logView
	open int
}

type optHandle struct {
	f    vroot.File
	e    *optEnt
	name string
	flag int
	done bool
}

// optWorld is a configured file system with its model.
type optWorld struct {
	c     *rt.Case
	root  *synthfs.Root
	clk   *tickClock
	alloc *optAlloc
	umask fs.FileMode
	chmod func(fs.FileMode) fs.FileMode
	pins  bool
	ents  map[string]*optEnt
	views map[*logView]bool
	hs    []*optHandle
	key   []string
}

func newOptWorld(c *rt.Case) *optWorld {
	w := &optWorld{c: c, clk: &tickClock{}, ents: map[string]*optEnt{}, views: map[*logView]bool{}, umask: 0o022, chmod: func(m fs.FileMode) fs.FileMode { return m & fs.ModePerm }}
	w.alloc = &optAlloc{logAlloc: logAlloc{in: synthfs.NewMemAllocator(w.clk)}}
	opt := &synthfs.Option{Clock: w.clk, Allocator: w.alloc}
	if c.IntN(4) > 0 {
		w.umask = pick(c.Rand, fs.FileMode(0), 0o077, 0o027, 0o002, 0o777, fs.FileMode(c.IntN(0o1000)))
		u := w.umask
		opt.Umask = &u
	}
	if c.IntN(3) > 0 {
		or, and := fs.FileMode(c.IntN(0o1000)), fs.FileMode(c.IntN(0o1000))
		w.chmod = pick(c.Rand, func(m fs.FileMode) fs.FileMode { return m&fs.ModePerm&and | or }, func(m fs.FileMode) fs.FileMode { return fsutil.MaskChmodModeWindows(m) & fs.ModePerm })
		opt.MaskChmodMode = w.chmod
	}
	w.pins = c.IntN(3) > 0
	opt.DisableOpenFileRemoval = w.pins
	w.root = synthfs.NewRoot("opt", opt)
	c.Logf("umask %o, pins %v", w.umask, w.pins)
	return w
}

func (w *optWorld) fail(sig, format string, a ...any) {
	w.c.Fail("V11:"+sig, format, a...)
}

// at picks the root or a sub-root to reach p through.
func (w *optWorld) at(p string) (*synthfs.Root, string) {
	i := strings.IndexByte(p, '/')
	if i < 0 || w.c.IntN(4) > 0 || w.ents[p[:i]] == nil || w.ents[p[:i]].kind != 'd' {
		return w.root, p
	}
	s, err := w.root.OpenRoot(p[:i])
	w.c.Must(err)
	return s, p[i+1:]
}

// dirs tells whether all ancestors of p are directories (or missing, too).
func (w *optWorld) dirs(p string, missing bool) bool {
	for d := path.Dir(p); d != "."; d = path.Dir(d) {
		if e := w.ents[d]; e == nil && !missing || e != nil && e.kind != 'd' {
			return false
		}
	}
	return true
}

func (w *optWorld) beneath(p string) (l []string) {
	for q := range w.ents {
		if strings.HasPrefix(q, p+"/") {
			l = append(l, q)
		}
	}
	sort.Strings(l)
	return
}

// shared tells whether other names share e's contents.
func (w *optWorld) shared(e *optEnt) bool {
	n := 0
	for _, o := range w.ents {
		if e.view != nil && o.view == e.view {
			n++
		}
	}
	return n > 1
}

// made notes a new entry, whose time the clock told since from.
func (w *optWorld) made(op, p string, kind byte, perm fs.FileMode, from int64) *optEnt {
	i, err := w.root.Lstat(p)
	if err != nil {
		w.fail(op+":missing", "%s(%q) succeeded, Lstat: %v", op, p, err)
		return nil
	}
	if !w.clk.within(i.ModTime(), from) {
		w.fail(op+":clock", "%s(%q): the modification time %v is not one the configured clock told meanwhile", op, p, i.ModTime())
	}
	e := &optEnt{kind: kind, perm: perm, mod: i.ModTime(), from: -1}
	w.ents[p] = e
	w.touched(path.Dir(p), from)
	return e
}

// touched lets the modification time of a directory or file follow the clock.
func (w *optWorld) touched(p string, from int64) {
	if e := w.ents[p]; e != nil {
		e.from = from
	}
}

// check compares every entry with the model.
func (w *optWorld) check(op string) bool {
	w.c.R.Eval(1)
	seen := 0
	var walk func(d string) bool
	walk = func(d string) bool {
		f, err := w.root.Open(d)
		if err != nil {
			w.fail(op+":open", "after %s: Open(%q): %v", op, d, err)
			return false
		}
		l, err := f.ReadDir(-1)
		f.Close()
		if err != nil {
			w.fail(op+":list", "after %s: %q: %v", op, d, err)
			return false
		}
		for _, de := range l {
			p := path.Join(d, de.Name())
			e := w.ents[p]
			if e == nil {
				w.fail(op+":appeared", "after %s: %q is there", op, p)
				return false
			}
			seen++
			i, err := w.root.Lstat(p)
			if err != nil {
				w.fail(op+":lstat", "after %s: Lstat(%q): %v", op, p, err)
				return false
			}
			want := map[byte]fs.FileMode{'d': fs.ModeDir, 'f': 0, 'l': fs.ModeSymlink}[e.kind]
			if i.Mode().Type() != want {
				w.fail(op+":kind", "after %s: %q is %v, want %v", op, p, i.Mode(), want)
				return false
			}
			if e.kind != 'l' && i.Mode()&^fs.ModeType != e.perm {
				w.fail(op+":mode", "after %s: %q has mode %v, want %v (umask %o)", op, p, i.Mode(), e.perm, w.umask)
				return false
			}
			if t := i.ModTime(); !t.Equal(e.mod) {
				if e.from < 0 || !w.clk.within(t, e.from) {
					w.fail(op+":modtime", "after %s: %q has modification time %v, want %v", op, p, t, e.mod)
					return false
				}
				e.mod = t
			}
			if e.kind == 'd' && !walk(p) {
				return false
			}
		}
		return true
	}
	if !walk(".") {
		return false
	}
	if seen != len(w.ents) {
		w.fail(op+":vanished", "after %s: %d entries, want %d", op, seen, len(w.ents))
		return false
	}
	for _, e := range w.ents {
		if e.from >= 0 && e.open == 0 {
			e.from = -1
		}
	}
	used := map[*logView]bool{}
	for _, e := range w.ents {
		if e.view != nil {
			used[e.view] = true
		}
	}
	for v := range w.views {
		if n := v.closes.Load(); n > 1 || (n == 0) != used[v] {
			w.fail(op+":view", "after %s: a view in use (%v) was released %d times", op, used[v], n)
			return false
		}
	}
	return !w.c.Failed()
}

func (w *optWorld) step() bool {
	c := w.c
	p := pick(c.Rand, "a", "b", "c")
	for range c.IntN(3) {
		p += "/" + pick(c.Rand, "a", "b", "c")
	}
	if l := w.names(); len(l) > 0 && c.IntN(2) == 0 {
		p = l[c.IntN(len(l))]
	}
	e := w.ents[p]
	perm := fs.FileMode(c.IntN(0o1000))
	from := w.clk.n.Load()
	op := pick(c.Rand, "mkdir", "mkdirall", "create", "openfile", "openfile", "openfile", "open", "symlink", "link", "chmod", "fchmod", "chtimes", "remove", "remove", "remove", "remove", "removeall", "rename", "addfile", "addfs", "write", "close", "close", "close", "reopen")
	r, rel := w.at(p)
	var err error
	c.Logf("%s %q %o", op, p, perm)
	switch op {
	case "mkdir":
		if !w.dirs(p, false) {
			return true
		}
		if err = r.Mkdir(rel, perm); err == nil {
			if e != nil {
				w.fail(op+":exists", "Mkdir(%q) succeeded", p)
				return false
			}
			w.made(op, p, 'd', perm&^w.umask, from)
		}
	case "mkdirall":
		if !w.dirs(p, true) || e != nil && e.kind != 'd' {
			return true
		}
		if err = r.MkdirAll(rel, perm); err != nil {
			w.fail(op+":refused", "MkdirAll(%q): %v", p, err)
			return false
		}
		var l []string
		for d := p; d != "."; d = path.Dir(d) {
			l = append([]string{d}, l...)
		}
		for _, d := range l {
			if w.ents[d] == nil {
				if w.made(op, d, 'd', perm&^w.umask, from) == nil {
					return false
				}
			}
		}
	case "create", "openfile", "open", "reopen":
		if !w.dirs(p, false) || e != nil && e.kind == 'l' {
			return true
		}
		flag := os.O_RDWR | os.O_CREATE | os.O_TRUNC
		switch op {
		case "openfile", "reopen":
			flag = pick(c.Rand, os.O_RDONLY, os.O_WRONLY, os.O_RDWR, os.O_RDWR|os.O_CREATE, os.O_WRONLY|os.O_CREATE|os.O_EXCL, os.O_RDWR|os.O_TRUNC, os.O_WRONLY|os.O_APPEND|os.O_CREATE)
		case "open":
			flag = os.O_RDONLY
		case "create":
			perm = 0o666
		}
		w.alloc.fail = c.IntN(8) == 0
		asked := len(w.alloc.asked)
		var f vroot.File
		switch op {
		case "create":
			f, err = r.Create(rel)
		case "open":
			f, err = r.Open(rel)
		default:
			f, err = r.OpenFile(rel, flag, perm)
		}
		failed := w.alloc.fail
		w.alloc.fail = false
		news := w.alloc.asked[asked:]
		if e != nil || flag&os.O_CREATE == 0 {
			if len(news) > 0 {
				w.fail(op+":allocated", "opening the existing or unwanted %q allocated %q", p, news)
				return false
			}
		} else if len(news) != 1 || news[0] != fmt.Sprintf("%s %o", path.Base(p), perm&^w.umask) {
			w.fail(op+":allocation", "creating %q allocated %q, want %o", p, news, perm&^w.umask)
			return false
		}
		if e == nil && flag&os.O_CREATE != 0 {
			if failed {
				if !errors.Is(err, errUser) {
					w.fail(op+":alloc-error", "creating %q: the allocator failed, the creation told %v", p, err)
					return false
				}
				c.R.Count("failed allocations")
				break
			}
			if err != nil {
				w.fail(op+":create", "creating %q: %v", p, err)
				return false
			}
			if e = w.made(op, p, 'f', perm&^w.umask, from); e == nil {
				return false
			}
			e.view = w.alloc.made[len(w.alloc.made)-1]
			w.views[e.view] = true
			c.R.Count("created")
		}
		if err != nil {
			break
		}
		if e == nil || flag&os.O_EXCL != 0 && flag&os.O_CREATE != 0 && len(news) == 0 {
			w.fail(op+":opened", "opening %q succeeded", p)
			return false
		}
		if flag&os.O_TRUNC != 0 {
			w.wrote(e, from)
		}
		e.open++
		w.hs = append(w.hs, &optHandle{f: f, e: e, name: p, flag: flag})
	case "symlink":
		if !w.dirs(p, false) {
			return true
		}
		if err = r.Symlink("no/where", rel); err == nil {
			if e != nil {
				w.fail(op+":exists", "Symlink to %q succeeded", p)
				return false
			}
			w.made(op, p, 'l', 0, from)
		}
	case "link":
		q := pick(c.Rand, "a", "b", "c", "a/a", "b/b", "c/x")
		if e == nil || e.kind != 'f' || !w.dirs(q, false) {
			return true
		}
		if err = w.root.Link(p, q); err == nil {
			if w.ents[q] != nil {
				w.fail(op+":exists", "Link to %q succeeded", q)
				return false
			}
			n := *e
			n.open = 0
			w.ents[q] = &n
			w.touched(path.Dir(q), from)
		}
	case "chmod":
		if e == nil || e.kind == 'l' {
			return true
		}
		if err = r.Chmod(rel, perm); err != nil {
			w.fail(op+":refused", "Chmod(%q): %v", p, err)
			return false
		}
		e.perm = w.chmod(perm)
		c.R.Count("chmod")
	case "fchmod":
		h := w.handle()
		if h == nil {
			return true
		}
		if err = h.f.Chmod(perm); err != nil {
			w.fail(op+":refused", "Chmod through a handle on %q: %v", h.name, err)
			return false
		}
		h.e.perm = w.chmod(perm)
		c.R.Count("chmod")
	case "chtimes":
		if e == nil || e.kind == 'l' {
			return true
		}
		t := time.Unix(int64(c.IntN(1<<30)), int64(c.IntN(1e9)))
		if c.IntN(5) == 0 {
			t = time.Time{}
		}
		if err = r.Chtimes(rel, time.Unix(1, 0), t); err != nil {
			w.fail(op+":refused", "Chtimes(%q): %v", p, err)
			return false
		}
		if !t.IsZero() {
			e.mod, e.from = t, -1
		}
	case "remove":
		if e == nil || len(w.beneath(p)) > 0 {
			return true
		}
		err = r.Remove(rel)
		w.key = append(w.key, fmt.Sprint("r", e.open > 0, err == nil))
		switch {
		case w.pins && e.open > 0:
			if err == nil {
				w.fail("pin:removed", "%q was removed with %d open handles", p, e.open)
				return false
			}
			if !errors.Is(err, syscall.EINVAL) {
				w.fail("pin:error", "removing the open %q: %v", p, err)
				return false
			}
			c.R.Count("refused removals")
		case err != nil && w.pins && w.shared(e):
		case err != nil:
			w.fail("pin:refused", "removing %q with no open handle: %v", p, err)
			return false
		}
		if err == nil {
			delete(w.ents, p)
			w.touched(path.Dir(p), from)
			if e.open > 0 {
				c.R.Count("removed while open")
			}
			c.R.Count("removed")
		}
	case "removeall":
		if !w.dirs(p, false) {
			return true
		}
		if err = r.RemoveAll(rel); err != nil {
			if !w.pins {
				w.fail(op+":refused", "RemoveAll(%q): %v", p, err)
				return false
			}
			break
		}
		for _, q := range w.beneath(p) {
			delete(w.ents, q)
		}
		delete(w.ents, p)
		w.touched(path.Dir(p), from)
	case "rename":
		q := pick(c.Rand, "a", "b", "c", "a/a", "b/c", "c/x")
		if e == nil || !w.dirs(q, false) || p == q || strings.HasPrefix(q, p+"/") {
			return true
		}
		t := w.ents[q]
		if err = w.root.Rename(p, q); err != nil {
			break
		}
		if t != nil && t.kind != 'f' && t.kind != 'l' {
			w.fail(op+":replaced", "Rename(%q,%q) replaced a directory", p, q)
			return false
		}
		if t != nil && t.view != nil && t.view == e.view {
			break // two names of one file
		}
		below := w.beneath(p)
		for _, b := range below {
			w.ents[q+b[len(p):]] = w.ents[b]
		}
		for _, b := range below {
			delete(w.ents, b)
		}
		delete(w.ents, p)
		w.ents[q] = e
		w.touched(path.Dir(p), from)
		w.touched(path.Dir(q), from)
	case "addfile":
		if e != nil || !w.dirs(p, true) {
			return true
		}
		t := time.Unix(int64(c.IntN(1<<30)), 0)
		v := &logView{FileView: synthfs.NewBytesView([]byte("view"), perm, t)}
		if err = r.AddFile(rel, v, nil); err != nil {
			w.fail(op+":refused", "AddFile(%q): %v", p, err)
			return false
		}
		if !w.scaffold(op, p, from) {
			return false
		}
		w.views[v] = true
		w.ents[p] = &optEnt{kind: 'f', perm: perm, mod: t, from: -1, view: v}
		c.R.Count("views with a mode of their own")
	case "addfs":
		if e != nil || !w.dirs(p, true) {
			return true
		}
		t := time.Unix(int64(c.IntN(1<<30)), 0)
		dm := fs.FileMode(c.IntN(0o1000))
		if err = r.AddFS(rel, fstest.MapFS{".": {Mode: fs.ModeDir | dm, ModTime: t}, "x": {Data: []byte("x"), Mode: perm, ModTime: t.Add(time.Hour)}, "y": {Mode: fs.ModeDir | perm, ModTime: t.Add(2 * time.Hour)}}, nil); err != nil {
			w.fail(op+":refused", "AddFS(%q): %v", p, err)
			return false
		}
		if !w.scaffold(op, p, from) {
			return false
		}
		i, err := w.root.Lstat(p)
		c.Must(err)
		w.ents[p] = &optEnt{kind: 'd', perm: i.Mode().Perm(), mod: i.ModTime(), from: -1} // MapFS has its own idea of "."
		w.ents[p+"/x"] = &optEnt{kind: 'f', perm: perm, mod: t.Add(time.Hour), from: -1, view: &logView{}}
		w.ents[p+"/y"] = &optEnt{kind: 'd', perm: perm, mod: t.Add(2 * time.Hour), from: -1}
	case "write":
		h := w.handle()
		if h == nil || h.e.kind != 'f' {
			return true
		}
		if c.IntN(2) == 0 {
			_, err = h.f.Write([]byte("some"))
		} else {
			err = h.f.Truncate(int64(c.IntN(9)))
		}
		w.wrote(h.e, from)
	case "close":
		if len(w.hs) == 0 {
			return true
		}
		h := w.hs[c.IntN(len(w.hs))]
		h.f.Close()
		if !h.done {
			h.done = true
			h.e.open--
		} else {
			c.R.Count("closed twice")
		}
	}
	w.key = append(w.key, fmt.Sprint(op[:2], err == nil))
	return w.check(op)
}

// scaffold notes the directories made on the way to p.
func (w *optWorld) scaffold(op, p string, from int64) bool {
	var l []string
	for d := path.Dir(p); d != "."; d = path.Dir(d) {
		l = append([]string{d}, l...)
	}
	for _, d := range l {
		if w.ents[d] == nil {
			if w.made(op, d, 'd', 0o755&^w.umask, from) == nil {
				return false
			}
			w.c.R.Count("scaffolding")
		}
	}
	w.touched(path.Dir(p), from)
	return true
}

// wrote lets the modification time of every name of a file follow the clock.
func (w *optWorld) wrote(e *optEnt, from int64) {
	e.from = from
	for _, o := range w.ents {
		if e.view != nil && o.view == e.view {
			o.from = from
		}
	}
}

func (w *optWorld) handle() *optHandle {
	var l []*optHandle
	for _, h := range w.hs {
		if !h.done {
			l = append(l, h)
		}
	}
	if len(l) == 0 {
		return nil
	}
	return l[w.c.IntN(len(l))]
}

func (w *optWorld) names() (l []string) {
	for p := range w.ents {
		l = append(l, p)
	}
	sort.Strings(l)
	return
}

var v11 = &rt.Check{ID: "V11", Level: "exploration",
	Rule:        "random histories on synthetic file systems with random umasks, chmod masks, a clock that never tells a time twice, an allocator that logs and fails, and open-file protection; after each operation every entry's kind, mode and modification time and every view's releases compared with a model, removals judged by independently counted handles; finally all handles are closed and every entry removed one by one; opens, closes and removals in parallel judged by their intervals under the race detector; non-trivial = a removal was refused or an entry created; distinct by operation and outcome sequence",
	Assumptions: []string{"only Remove is documented to respect open handles; RemoveAll and renames may or may not", "handles on another hard link of a file may or may not protect a name", "whether changing a file or directory moves its modification time is left open; if it does, the clock tells where to"},
	Run: func(r *rt.Run) {
		r.CasesPar("options", r.N(2000, 60000), 8, func(c *rt.Case) {
			w := newOptWorld(c)
			for range 50 {
				if !w.step() {
					return
				}
			}
			for _, h := range w.hs {
				h.f.Close()
				if !h.done {
					h.done = true
					h.e.open--
				}
			}
			l := w.names()
			for i := len(l) - 1; i >= 0; i-- {
				if err := w.root.Remove(l[i]); err != nil {
					w.fail("pin:kept", "with every handle closed, Remove(%q): %v", l[i], err)
					return
				}
				delete(w.ents, l[i])
				for _, e := range w.ents {
					e.from = 0
				}
				if !w.check("last-remove") {
					return
				}
			}
			c.R.Distinct(strings.Join(w.key, ","))
			c.R.Sample("%v", c.Log())
		})
		r.CasesPar("parallel", r.N(150, 4000), 4, func(c *rt.Case) { synthPins(c) })
		r.Floor("refused removals", 800)
		r.Floor("removed", 5000)
		r.Floor("removed while open", 300)
		r.Floor("created", 5000)
		r.Floor("failed allocations", 300)
		r.Floor("closed twice", 500)
		r.Floor("chmod", 2000)
		r.Floor("scaffolding", 300)
		r.Floor("parallel: refused", 50)
		r.Floor("parallel: removed", 200)
	}}

// synthPins judges removals by the intervals handles were open in.
func synthPins(c *rt.Case) {
	root := synthfs.NewRoot("pins", &synthfs.Option{DisableOpenFileRemoval: true})
	c.Must(root.Mkdir("d", 0o755))
	sub, err := root.OpenRoot("d")
	c.Must(err)
	names := []string{"a", "b", "d/a", "d/b", "e", "d/e"}
	var clock atomic.Int64
	type span struct {
		name                        string
		call, opened, close, closed int64
	}
	type rem struct {
		name     string
		from, to int64
		err      error
	}
	var mu sync.Mutex
	var spans []span
	var rems []rem
	var wg sync.WaitGroup
	at := func(rnd *rand.Rand, n string) (*synthfs.Root, string) {
		if strings.HasPrefix(n, "d/") && rnd.IntN(2) == 0 {
			return sub, n[2:]
		}
		return root, n
	}
	for g := range 4 {
		rnd := rand.New(rand.NewPCG(c.Uint64(), uint64(g)))
		c.Go(&wg, func() {
			for range 60 {
				n := names[rnd.IntN(len(names))]
				sp := span{name: n, call: clock.Add(1)}
				r, rel := at(rnd, n)
				var f vroot.File
				var err error
				switch {
				case path.Base(n) == "e":
					r.Mkdir(rel, 0o755)
					f, err = r.Open(rel)
				case rnd.IntN(2) == 0:
					f, err = r.OpenFile(rel, os.O_RDWR|os.O_CREATE, 0o644)
				default:
					f, err = r.OpenFile(rel, pick(rnd, os.O_RDONLY, os.O_WRONLY, os.O_RDWR|os.O_TRUNC), 0)
				}
				if err != nil {
					continue
				}
				sp.opened = clock.Add(1)
				for range rnd.IntN(4) {
					f.Stat()
				}
				sp.close = clock.Add(1)
				f.Close()
				sp.closed = clock.Add(1)
				if rnd.IntN(2) == 0 {
					f.Close()
				}
				mu.Lock()
				spans = append(spans, sp)
				mu.Unlock()
			}
		})
	}
	for g := range 2 {
		rnd := rand.New(rand.NewPCG(c.Uint64(), uint64(100+g)))
		c.Go(&wg, func() {
			for range 80 {
				rm := rem{name: names[rnd.IntN(len(names))], from: clock.Add(1)}
				r, rel := at(rnd, rm.name)
				rm.err = r.Remove(rel)
				rm.to = clock.Add(1)
				if rm.err != nil && fsx.Class(rm.err) == "notexist" {
					continue
				}
				mu.Lock()
				rems = append(rems, rm)
				mu.Unlock()
			}
		})
	}
	wg.Wait()
	for _, rm := range rems {
		may := false
		for _, sp := range spans {
			if sp.name != rm.name {
				continue
			}
			may = may || sp.call < rm.to && sp.closed > rm.from
			if rm.err == nil && sp.opened < rm.from && sp.close > rm.to {
				c.Fail("V11:parallel:removed", "%q removed during [%d,%d] although a handle was open during [%d,%d]", rm.name, rm.from, rm.to, sp.opened, sp.close)
			}
		}
		c.R.Eval(1)
		if rm.err == nil {
			c.R.Count("parallel: removed")
		} else {
			c.R.Count("parallel: refused")
			if !may {
				c.Fail("V11:parallel:refused", "removing %q during [%d,%d]: %v, no handle was open", rm.name, rm.from, rm.to, rm.err)
			}
		}
	}
	for _, n := range names {
		if err := root.Remove(n); err != nil && fsx.Class(err) != "notexist" {
			c.Fail("V11:parallel:kept", "with every handle closed, Remove(%q): %v", n, err)
		}
	}
	c.R.Distinct(fmt.Sprint(len(rems), spans))
}
