// Package fsx holds what the file-system monitors share: a kernel-backed
// reference file system, an operation language with an executor, tree dumps,
// and a wrapper that records, fails and crashes at chosen steps.
package fsx

import (
	"errors"
	"io"
	"io/fs"
	"os"
	"time"

	"github.com/ngicks/go-fsys-helper/vroot"
)

// FS is the file system interface the monitors work on.
type FS = vroot.Fs[vroot.File]

// Sys is a file system with a way to open a sub-root (nil: none).
type Sys struct {
	FS
	Sub  func(name string) (Sys, error)
	IoFs func() fs.FS // as a root's io/fs file system (nil: none)
}

// wide erases the file type without relying on the code under test.
type wide[F vroot.File] struct{ i vroot.Fs[F] }

func (w wide[F]) Chmod(n string, m fs.FileMode) error    { return w.i.Chmod(n, m) }
func (w wide[F]) Chown(n string, u, g int) error         { return w.i.Chown(n, u, g) }
func (w wide[F]) Chtimes(n string, a, m time.Time) error { return w.i.Chtimes(n, a, m) }
func (w wide[F]) Close() error                           { return w.i.Close() }
func (w wide[F]) Lchown(n string, u, g int) error        { return w.i.Lchown(n, u, g) }
func (w wide[F]) Link(o, n string) error                 { return w.i.Link(o, n) }
func (w wide[F]) Lstat(n string) (fs.FileInfo, error)    { return w.i.Lstat(n) }
func (w wide[F]) Mkdir(n string, p fs.FileMode) error    { return w.i.Mkdir(n, p) }
func (w wide[F]) MkdirAll(n string, p fs.FileMode) error { return w.i.MkdirAll(n, p) }
func (w wide[F]) Name() string                           { return w.i.Name() }
func (w wide[F]) ReadLink(n string) (string, error)      { return w.i.ReadLink(n) }
func (w wide[F]) Remove(n string) error                  { return w.i.Remove(n) }
func (w wide[F]) RemoveAll(n string) error               { return w.i.RemoveAll(n) }
func (w wide[F]) Rename(o, n string) error               { return w.i.Rename(o, n) }
func (w wide[F]) Stat(n string) (fs.FileInfo, error)     { return w.i.Stat(n) }
func (w wide[F]) Symlink(o, n string) error              { return w.i.Symlink(o, n) }
func (w wide[F]) Create(n string) (vroot.File, error)    { return wfile(w.i.Create(n)) }
func (w wide[F]) Open(n string) (vroot.File, error)      { return wfile(w.i.Open(n)) }
func (w wide[F]) OpenFile(n string, fl int, p fs.FileMode) (vroot.File, error) {
	return wfile(w.i.OpenFile(n, fl, p))
}

func wfile[F vroot.File](f F, err error) (vroot.File, error) {
	if err != nil {
		return nil, err
	}
	return f, nil
}

// Wrap erases the file type of a file system.
func Wrap[F vroot.File](f vroot.Fs[F]) Sys {
	if w, ok := any(f).(FS); ok {
		return Sys{FS: w}
	}
	return Sys{FS: wide[F]{f}}
}

// WrapRoot erases the types of a root.
func WrapRoot[F vroot.File, R vroot.Root[F, R]](r R) Sys {
	s := Wrap[F](r)
	s.IoFs = func() fs.FS { return vroot.ToIoFsRoot[F, R](r) }
	s.Sub = func(name string) (Sys, error) {
		sub, err := r.OpenRoot(name)
		if err != nil {
			return Sys{}, err
		}
		return WrapRoot[F, R](sub), nil
	}
	return s
}

// kroot is the reference: os.Root itself.
type kroot struct{ *os.Root }

func (k kroot) ReadLink(n string) (string, error) { return k.Readlink(n) }
func (k kroot) Create(n string) (vroot.File, error) {
	return kf(k.Root.Create(n))
}
func (k kroot) Open(n string) (vroot.File, error) { return kf(k.Root.Open(n)) }
func (k kroot) OpenFile(n string, fl int, p fs.FileMode) (vroot.File, error) {
	return kf(k.Root.OpenFile(n, fl, p))
}

func kf(f *os.File, err error) (vroot.File, error) {
	if err != nil {
		return nil, err
	}
	return f, nil
}

// Kernel opens dir as the reference file system.
func Kernel(dir string) (Sys, error) {
	r, err := os.OpenRoot(dir)
	if err != nil {
		return Sys{}, err
	}
	return kernel(r), nil
}

func kernel(r *os.Root) Sys {
	return Sys{FS: kroot{r}, Sub: func(n string) (Sys, error) {
		s, err := r.OpenRoot(n)
		if err != nil {
			return Sys{}, err
		}
		return kernel(s), nil
	}}
}

// Class names the kind of an error.
func Class(err error) string {
	if err == nil {
		return "ok"
	}
	if err == io.EOF {
		return "eof"
	}
	leaf := err
	for {
		n := errors.Unwrap(leaf)
		if n == nil {
			break
		}
		leaf = n
	}
	switch {
	case errors.Is(err, vroot.ErrPathEscapes) || leaf.Error() == "path escapes from parent":
		return "escape"
	case errors.Is(err, fs.ErrNotExist):
		return "notexist"
	case errors.Is(err, fs.ErrExist):
		return "exist"
	case errors.Is(err, fs.ErrClosed) || leaf.Error() == "use of closed file":
		return "closed"
	}
	return "error"
}
