package main

import (
	"fmt"
	"io/fs"
	"os"
	"path/filepath"
	"strings"
	"time"

	"github.com/ngicks/go-fsys-helper/vroot"
	"github.com/ngicks/go-fsys-helper/vroot/memfs"
	"github.com/ngicks/go-fsys-helper/vroot/osfs"
	"verif/harness/fsx"
	"verif/harness/rt"
)

// osSys applies operations to dir+"/"+name through package os.
type osSys struct{ dir string }

func (o osSys) p(n string) string { return filepath.Join(o.dir, n) }

func (o osSys) Chmod(n string, m fs.FileMode) error    { return os.Chmod(o.p(n), m) }
func (o osSys) Chown(n string, u, g int) error         { return os.Chown(o.p(n), u, g) }
func (o osSys) Chtimes(n string, a, m time.Time) error { return os.Chtimes(o.p(n), a, m) }
func (o osSys) Close() error                           { return nil }
func (o osSys) Lchown(n string, u, g int) error        { return os.Lchown(o.p(n), u, g) }
func (o osSys) Link(a, b string) error                 { return os.Link(o.p(a), o.p(b)) }
func (o osSys) Lstat(n string) (fs.FileInfo, error)    { return os.Lstat(o.p(n)) }
func (o osSys) Mkdir(n string, p fs.FileMode) error    { return os.Mkdir(o.p(n), p) }
func (o osSys) MkdirAll(n string, p fs.FileMode) error { return os.MkdirAll(o.p(n), p) }
func (o osSys) Name() string                           { return o.dir }
func (o osSys) ReadLink(n string) (string, error)      { return os.Readlink(o.p(n)) }
func (o osSys) Remove(n string) error                  { return os.Remove(o.p(n)) }
func (o osSys) RemoveAll(n string) error               { return os.RemoveAll(o.p(n)) }
func (o osSys) Rename(a, b string) error               { return os.Rename(o.p(a), o.p(b)) }
func (o osSys) Stat(n string) (fs.FileInfo, error)     { return os.Stat(o.p(n)) }
func (o osSys) Symlink(a, b string) error              { return os.Symlink(a, o.p(b)) }
func (o osSys) Create(n string) (vroot.File, error) {
	return o.OpenFile(n, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0o666)
}
func (o osSys) Open(n string) (vroot.File, error) { return o.OpenFile(n, os.O_RDONLY, 0) }
func (o osSys) OpenFile(n string, f int, p fs.FileMode) (vroot.File, error) {
	h, err := os.OpenFile(o.p(n), f, p)
	if err != nil {
		return nil, err
	}
	return h, nil
}

func osDirSys(dir string) fsx.Sys { return fsx.Sys{FS: osSys{dir}} }

func osRoot(c *rt.Case, dir string) *osfs.Root {
	r, err := osfs.NewRoot(dir)
	c.Must(err)
	return r
}

func osFs(c *rt.Case, dir string) *osfs.Fs {
	r, err := osfs.NewFs(dir)
	c.Must(err)
	return r
}

func mem() *memRoot { return memfs.New("mem") }

// treeOps generates a history that builds a small tree.
func treeOps(c *rt.Case, names []string, depth, n int, hostile bool) []fsx.Op {
	g := &fsx.Gen{Rand: c.Rand, Names: names, Depth: depth, Targets: linkTargets,
		Kinds: []string{"mkdir", "mkdirall", "mkdirall", "mkdirall", "writefile", "writefile", "writefile", "writefile", "symlink", "symlink"}}
	var ops []fsx.Op
	for i := 0; i < n; i++ {
		ops = append(ops, g.Next())
	}
	return ops
}

// apply runs ops, ignoring outcomes.
func apply(s fsx.Sys, ops []fsx.Op) {
	w := fsx.NewWorld(s)
	for _, o := range ops {
		w.Exec(o)
	}
	w.CloseAll()
}

// subdir makes a directory of the case. Its first element is put deep, so that
// twins look alike from inside through any "..".
func subdir(c *rt.Case, name string) string {
	first, rest, _ := strings.Cut(name, "/")
	d := filepath.Join(c.Base(), first, "u/u/u/u/u", rest)
	c.Must(os.MkdirAll(d, 0o755))
	return d
}

func errStr(err error) string {
	if err == nil {
		return "nil"
	}
	return fmt.Sprintf("%s (%v)", fsx.Class(err), err)
}
