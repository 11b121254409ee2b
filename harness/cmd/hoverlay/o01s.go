package main

import (
	"errors"
	"io/fs"
	"os"
	"path"
	"path/filepath"
	"syscall"
	"time"

	"github.com/ngicks/go-fsys-helper/vroot-adapter/overlayfs"
	"verif/harness/fsx"
	"verif/harness/ovl"
	"verif/harness/rt"
)

// special has a pipe and a socket in a lower layer: they show, can be masked
// and replaced, and whatever had to copy them up is refused and changes
// nothing. None may be opened for that: it would block or connect.
func special(c *rt.Case) {
	r := c.R
	s := ovl.Gen(c, ovl.GenOpt{Names: []string{"a", "b"}, Depth: 2, Targets: []string{"a"}, Lowers: 2, Ents: 5, Backs: []string{"os"}, Must: []string{"d/e"}})
	s.Put(c)
	dir := pick(c.Rand, "d", "d/e")
	type sp struct {
		n string
		m fs.FileMode
	}
	sps := []sp{{path.Join(dir, "pipe"), fs.ModeNamedPipe}, {path.Join(dir, "sock"), fs.ModeSocket}}
	host := func(n string) string { return filepath.Join(s.Back[1].Dir, s.Path(1, n)) }
	for i, k := range []uint32{syscall.S_IFIFO, syscall.S_IFSOCK} {
		if err := syscall.Mknod(host(sps[i].n), k|0o640, 0); err != nil {
			c.Fail("O01:special:setup", "%v", err)
			return
		}
	}
	c.Must(s.Mount(c))
	defer s.Release()
	w := s.Sys()
	look := func(when string) bool {
		es, err := fsx.Names(w, dir)
		if err != nil {
			c.Fail("O01:special:list", "%s: listing %s: %v", when, dir, err)
			return false
		}
		for _, x := range sps {
			i, err := w.Lstat(x.n)
			found := false
			for _, e := range es {
				found = found || e == path.Base(x.n)
			}
			if err != nil || i.Mode() != x.m|0o640 || !found {
				c.Fail("O01:special:view", "%s: %s is %v (%v), in the listing: %v", when, x.n, i, err, found)
				return false
			}
		}
		return true
	}
	if !look("at first") {
		return
	}
	for range 8 {
		x := sps[c.IntN(2)]
		var err error
		k := pick(c.Rand, "chmod", "chtimes", "chown", "lchown", "rename", "link", "write", "append", "truncate", "excl", "dir", "chmod dir", "new")
		refused := true
		switch k {
		case "chmod":
			err = w.Chmod(x.n, 0o600)
		case "chtimes":
			err = w.Chtimes(x.n, time.Unix(1, 0), time.Unix(2, 0))
		case "chown":
			err = w.Chown(x.n, os.Getuid(), os.Getgid())
		case "lchown":
			err = w.Lchown(x.n, os.Getuid(), os.Getgid())
		case "rename":
			err = w.Rename(x.n, pick(c.Rand, "moved", dir+"/moved"))
		case "link":
			err = w.Link(x.n, pick(c.Rand, "linked", dir+"/linked"))
		case "write", "append", "truncate":
			fl := map[string]int{"write": os.O_WRONLY, "append": os.O_RDWR | os.O_APPEND, "truncate": os.O_WRONLY | os.O_TRUNC | os.O_CREATE}[k]
			var f interface{ Close() error }
			if f, err = w.OpenFile(x.n, fl, 0o644); err == nil {
				f.Close()
			}
		case "excl", "dir":
			refused = false
			if k == "excl" {
				if _, err = w.OpenFile(x.n, os.O_WRONLY|os.O_CREATE|os.O_EXCL, 0o644); err == nil || !errors.Is(err, fs.ErrExist) {
					c.Fail("O01:special:excl", "creating %s, which exists: %v", x.n, err)
				}
			} else if err = w.Mkdir(x.n, 0o755); err == nil || !errors.Is(err, fs.ErrExist) {
				c.Fail("O01:special:mkdir", "making %s, which exists: %v", x.n, err)
			}
		case "chmod dir":
			refused = false
			c.Must(w.Chmod(dir, 0o755))
		case "new":
			refused = false
			f, err := w.Create(path.Join(dir, "new"))
			c.Must(err)
			c.Must(f.Close())
		}
		c.Logf("%s %s = %v", k, x.n, err)
		r.Eval(1)
		if refused {
			r.Count("special files not copied up")
			if !errors.Is(err, overlayfs.ErrTypeNotSupported) {
				c.Fail("O01:special:"+k, "%s of %s, which a lower holds: %v, want ErrTypeNotSupported", k, x.n, err)
				return
			}
		}
		if c.Failed() || !look("after "+k) {
			return
		}
		for _, n := range []string{"moved", "linked", dir + "/moved", dir + "/linked"} {
			if _, err := w.Lstat(n); !errors.Is(err, fs.ErrNotExist) {
				c.Fail("O01:special:litter", "after a refused %s there is %s (%v)", k, n, err)
				return
			}
		}
		if i, err := os.Lstat(host(x.n)); err != nil || i.Mode() != x.m|0o640 {
			c.Fail("O01:special:lower", "after %s the lower's %s is %v (%v)", k, x.n, i, err)
			return
		}
	}
	// Masking and replacing need no copy.
	x := sps[c.IntN(2)]
	switch k := c.IntN(4); k {
	case 0:
		c.Must(w.Remove(x.n))
	case 1:
		c.Must(w.RemoveAll(x.n))
	case 2:
		f, err := w.Create("over")
		c.Must(err)
		c.Must(f.Close())
		c.Must(w.Rename("over", x.n))
		if i, err := w.Lstat(x.n); err != nil || !i.Mode().IsRegular() {
			c.Fail("O01:special:replaced", "a file renamed onto %s: %v (%v)", x.n, i, err)
		}
		c.Must(w.Remove(x.n))
	case 3:
		c.Must(w.RemoveAll(dir))
		c.Must(w.MkdirAll(dir, 0o755))
		if es, err := fsx.Names(w, dir); err != nil || len(es) != 0 {
			c.Fail("O01:special:removed", "%s removed and made again holds %v (%v)", dir, es, err)
		}
	}
	if _, err := w.Lstat(x.n); !errors.Is(err, fs.ErrNotExist) {
		c.Fail("O01:special:gone", "%s was removed: %v", x.n, err)
		return
	}
	f, err := w.Create(x.n)
	c.Must(err)
	_, err = f.Write([]byte("plain"))
	c.Must(err)
	c.Must(f.Close())
	if b, _, err := fsx.ReadFile(w, x.n); err != nil || string(b) != "plain" {
		c.Fail("O01:special:made", "a file made where %s was reads %q (%v)", x.n, b, err)
	}
	if i, err := os.Lstat(host(x.n)); err != nil || i.Mode() != x.m|0o640 {
		c.Fail("O01:special:lower", "in the end the lower's %s is %v (%v)", x.n, i, err)
	}
	r.Distinct(dir + x.n)
	c.Must(s.O.Close())
}
