package main

import (
	"io/fs"
	"os"
	"path"
	"strings"
	"syscall"
	"time"

	"github.com/ngicks/go-fsys-helper/vroot"
	"verif/harness/fsx"
)

// direct applies operations to a directory by way of package os, with paths
// cleaned as strings like the remote's client does.
type direct struct{ base string }

var _ fsx.FS = direct{}

func escapes(n string) bool {
	n = path.Clean(n)
	return strings.HasPrefix(n, "/") || n == ".." || strings.HasPrefix(n, "../")
}

func (d direct) p(n string) string {
	if escapes(n) {
		return ""
	}
	return path.Join(d.base, n)
}

func perr(op, n string, err error) error { return &fs.PathError{Op: op, Path: n, Err: err} }

func (d direct) one(n string, f func(string) error) error {
	p := d.p(n)
	if p == "" {
		return perr("path", n, vroot.ErrPathEscapes)
	}
	return f(p)
}

func (d direct) two(a, b string, f func(a, b string) error) error {
	p, q := d.p(a), d.p(b)
	if p == "" || q == "" {
		return perr("path", a, vroot.ErrPathEscapes)
	}
	return f(p, q)
}

func (d direct) Chmod(n string, m fs.FileMode) error {
	return d.one(n, func(p string) error { return os.Chmod(p, m) })
}
func (d direct) Chown(n string, u, g int) error {
	return d.one(n, func(p string) error { return os.Chown(p, u, g) })
}
func (d direct) Lchown(n string, u, g int) error {
	return d.one(n, func(p string) error { return os.Lchown(p, u, g) })
}
func (d direct) Chtimes(n string, a, m time.Time) error {
	return d.one(n, func(p string) error { return os.Chtimes(p, a, m) })
}
func (d direct) Close() error { return nil }
func (d direct) Name() string { return d.base }
func (d direct) Link(a, b string) error {
	return d.two(a, b, os.Link)
}
func (d direct) Rename(a, b string) error { return d.two(a, b, os.Rename) }
func (d direct) Symlink(a, b string) error {
	return d.one(b, func(p string) error { return os.Symlink(a, p) })
}
func (d direct) Mkdir(n string, m fs.FileMode) error {
	return d.one(n, func(p string) error { return os.Mkdir(p, m) })
}
func (d direct) MkdirAll(n string, m fs.FileMode) error {
	return d.one(n, func(p string) error { return os.MkdirAll(p, m) })
}
func (d direct) Remove(n string) error {
	return d.one(n, func(p string) error {
		if p == d.base {
			return perr("remove", n, syscall.EINVAL)
		}
		return os.Remove(p)
	})
}
func (d direct) RemoveAll(n string) error {
	return d.one(n, func(p string) error {
		if p == d.base || strings.HasSuffix(n, "/.") {
			return perr("removeall", n, syscall.EINVAL)
		}
		return os.RemoveAll(p)
	})
}
func (d direct) Lstat(n string) (i fs.FileInfo, err error) {
	err = d.one(n, func(p string) error { i, err = os.Lstat(p); return err })
	return
}
func (d direct) Stat(n string) (i fs.FileInfo, err error) {
	err = d.one(n, func(p string) error { i, err = os.Stat(p); return err })
	return
}
func (d direct) ReadLink(n string) (t string, err error) {
	err = d.one(n, func(p string) error { t, err = os.Readlink(p); return err })
	return
}
func (d direct) Create(n string) (vroot.File, error) {
	return d.OpenFile(n, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0o666)
}
func (d direct) Open(n string) (vroot.File, error) { return d.OpenFile(n, os.O_RDONLY, 0) }
func (d direct) OpenFile(n string, fl int, m fs.FileMode) (vroot.File, error) {
	var f *os.File
	err := d.one(n, func(p string) (err error) { f, err = os.OpenFile(p, fl, m); return })
	if err != nil {
		return nil, err
	}
	return f, nil
}
