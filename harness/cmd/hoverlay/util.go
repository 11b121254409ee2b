package main

import (
	"errors"
	"io/fs"
	"math/rand/v2"
	"os"
	"path"
	"strings"
	"syscall"
	"time"

	"verif/harness/fsx"
	"verif/harness/ovl"
	"verif/harness/rt"
)

func pick[T any](r *rand.Rand, xs ...T) T { return xs[r.IntN(len(xs))] }

func without(kinds []string, drop ...string) (l []string) {
	for _, k := range kinds {
		keep := true
		for _, d := range drop {
			keep = keep && k != d
		}
		if keep {
			l = append(l, k)
		}
	}
	return
}

var linkTargets = []string{"a", "b", "a/b", "b/a-", "../a", "../b", "../a-", ".", "..", "./a", "a/..", "../a/b", "x", "a-", "a/.", "b/../a-"}

// since is later than every time a generator makes up.
var since = time.Now().Add(-time.Hour)

func genStack(c *rt.Case) *ovl.Stack {
	return ovl.Gen(c, ovl.GenOpt{Names: []string{"a", "b", "a-"}, Depth: 3, Targets: linkTargets, Lowers: 3, Ents: 9, Top: true, SQLite: 12})
}

// mount opens the stack and logs it.
func mount(c *rt.Case, s *ovl.Stack) {
	c.Logf("%s", s.Describe())
	s.Put(c)
	c.Must(s.Mount(c))
}

// pair runs a history on an overlay against a kernel directory holding the
// union.
type pair struct {
	c         *rt.Case
	s         *ovl.Stack
	got, want *fsx.World
	dir       string
	lowerDirs map[uint64]bool // reference directories lowers contribute to
	refused   int
}

func ino(i fs.FileInfo) uint64 {
	if st, ok := i.Sys().(*syscall.Stat_t); ok {
		return st.Ino
	}
	return 0
}

func newPair(c *rt.Case, s *ovl.Stack) *pair {
	p := &pair{c: c, s: s, lowerDirs: map[uint64]bool{}}
	k, dir := s.Reference(c)
	p.dir = dir
	p.want = fsx.NewWorld(k)
	p.got = fsx.NewWorld(s.Sys())
	for n, e := range ovl.Union(s.Layers) {
		if e.K == 'd' && s.LowerHas(n) {
			i, err := k.Lstat(n)
			c.Must(err)
			p.lowerDirs[ino(i)] = true
		}
	}
	return p
}

func (p *pair) close() {
	p.got.CloseAll()
	p.want.CloseAll()
	p.want.Roots[0].Close()
}

// isDir tells whether a name of the reference is a directory itself.
func (p *pair) isDir(r int, n string) (fs.FileInfo, bool) {
	i, err := p.want.Roots[r].Lstat(n)
	return i, err == nil && i.IsDir()
}

// first settles what the overlay documents to do differently.
func (p *pair) first(o fsx.Op, got func() fsx.Out) (fsx.Out, bool) {
	if _, ok := p.got.Roots[o.R]; !ok {
		return fsx.Out{}, true
	}
	if o.K != "rename" {
		return got(), false
	}
	src, dir := p.isDir(o.R, o.A)
	dst, onto := p.isDir(o.R, o.B)
	out := got()
	if dir && onto && fsx.SameFile(src, dst) && out.Err == "ok" {
		return out, true // as rename(2); os.Root refuses
	}
	if dir && errors.Is(out.Raw, syscall.EXDEV) && p.lowerDirs[ino(src)] {
		p.refused++
		p.c.R.Count("renames refused: lower directory")
		return out, true
	}
	if dir && onto && out.Err == "ok" && o.A != o.B {
		// rename(2) allows it, os.Root does not
		w := p.want.Roots[o.R]
		if err := w.Remove(o.B); err != nil {
			p.c.Fail(p.c.R.ID+":rename:onto-dir", "%v succeeded although the target cannot go: %v", o, err)
		} else if err := w.Rename(o.A, o.B); err != nil {
			p.c.Fail(p.c.R.ID+":rename:onto-dir", "%v succeeded, want %v", o, err)
		}
		p.c.R.Count("renames onto empty directories")
		return out, true
	}
	return out, false
}

// after lets go of handles whose behaviour differs from a kernel handle's:
// those on lower files (they keep the old content) and directories.
func (p *pair) after(o fsx.Op, got, want fsx.Out) bool {
	if (o.K == "open" || o.K == "openfile") && got.Err == "ok" {
		f := p.got.Files[o.H]
		drop := false
		if i, err := f.Stat(); err == nil && i.IsDir() {
			drop = true
		}
		for _, m := range p.s.Mons[1:] {
			drop = drop || len(m.OpenHandles()) > 0
		}
		if drop {
			f.Close()
			p.want.Files[o.H].Close()
			delete(p.got.Files, o.H)
			delete(p.want.Files, o.H)
		}
	}
	return true
}

// underSub tells whether an operation would take an open sub-root's directory
// away: overlays keep sub-roots by name.
func underSub(w *fsx.World, o fsx.Op) bool {
	switch o.K {
	case "remove", "removeall", "rename":
	default:
		return false
	}
	s, ok := w.Roots[o.R]
	if !ok {
		return false
	}
	for r, sub := range w.Roots {
		if r == 0 {
			continue
		}
		si, err := sub.Stat(".")
		if err != nil {
			continue
		}
		for _, n := range []string{o.A, o.B} {
			if n == "" {
				continue
			}
			hit := false
			var walk func(n string)
			walk = func(n string) {
				i, err := s.Lstat(n)
				if err != nil || !i.IsDir() {
					return
				}
				if os.SameFile(i, si) {
					hit = true
					return
				}
				if f, err := s.Open(n); err == nil {
					es, _ := f.Readdirnames(-1)
					f.Close()
					for _, e := range es {
						walk(path.Join(n, e))
					}
				}
			}
			walk(n)
			if hit {
				return true
			}
		}
	}
	return false
}

func kindSkip(w *fsx.World, o fsx.Op) bool {
	s, ok := w.Roots[o.R]
	if !ok {
		return false
	}
	switch o.K {
	case "rename": // two names of one symlink: no content tells them apart
		i, err := s.Lstat(o.A)
		j, err2 := s.Lstat(o.B)
		return err == nil && err2 == nil && o.A != o.B && i.Mode()&fs.ModeSymlink != 0 && fsx.SameFile(i, j)
	case "mkdirall": // os.Root creates what dangling links lead to
		p := strings.Split(o.A, "/")
		for i := range p {
			if k := fsx.Kind(s, strings.Join(p[:i+1], "/")); strings.HasPrefix(k, "link-") && k != "link-dir" && k != "link-file" {
				return true
			}
		}
	}
	return false
}

// tolerated are uninteresting differences from the kernel.
func tolerated(o fsx.Op, got, want fsx.Out) bool {
	// names beneath a non-directory: absent one way or another
	if errors.Is(want.Raw, syscall.ENOTDIR) && (got.Err == "notexist" || o.K == "removeall" && got.Err == "ok") {
		return true
	}
	switch o.K {
	case "close": // a second Close may succeed
		return want.Err == "closed" && got.Err == "ok"
	case "create", "openfile", "writefile", "mkdirall", "appendfile":
		return want.Err == "error" && got.Err == "notexist" && strings.Contains(want.Raw.Error(), "too many levels")
	}
	return false
}

var looseOps = map[string]bool{"link": true, "rename": true, "mkdirall": true, "close": true, "writeat": true}

var tameModes = []fs.FileMode{0o755, 0o700, 0o750, 0o711}
