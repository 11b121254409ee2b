package fsx

import (
	"context"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"os"
	"sync"
	"syscall"
	"time"

	"github.com/ngicks/go-fsys-helper/vroot"
)

var (
	ErrFault = errors.New("injected fault")
	ErrCrash = errors.New("crashed")
)

type fault struct{ as error }

func (f *fault) Error() string   { return ErrFault.Error() + " (" + f.as.Error() + ")" }
func (f *fault) Unwrap() []error { return []error{ErrFault, f.as} }

var faults = []error{syscall.EIO, syscall.ENOSPC, syscall.EROFS, syscall.EINTR, syscall.EACCES, io.ErrUnexpectedEOF, io.ErrShortWrite, os.ErrDeadlineExceeded, context.Canceled}

// Faulty is ErrFault, mostly looking like some error met in practice.
func Faulty(n int) error {
	n %= len(faults) + 2
	if n >= len(faults) {
		return ErrFault
	}
	return &fault{faults[n]}
}

// Step is one call that reached a monitored file system.
type Step struct {
	I    int // 1..
	Op   string
	Name string
	Mut  bool // can change the tree
	File vroot.File
	Len  int
}

func (s Step) String() string { return fmt.Sprintf("%d:%s(%s)", s.I, s.Op, s.Name) }

// Mon wraps a file system: every call is reported to Before, which may veto
// it with an error. Torn makes a vetoed write apply its first half.
type Mon struct {
	In     FS
	Before func(Step) (err error)
	After  func(Step, error)
	Torn   bool

	mu   sync.Mutex
	n    int
	open map[*MonFile]string
	dead bool
}

func NewMon(in FS) *Mon { return &Mon{In: in, open: map[*MonFile]string{}} }

// Kill makes every later call fail without effect: the process is dead.
func (m *Mon) Kill() { m.mu.Lock(); m.dead = true; m.mu.Unlock() }

// OpenHandles lists the handles not closed.
func (m *Mon) OpenHandles() []string {
	m.mu.Lock()
	defer m.mu.Unlock()
	var l []string
	for _, n := range m.open {
		l = append(l, n)
	}
	return l
}

// Abandon closes the inner handles still open, as the end of a process does.
func (m *Mon) Abandon() {
	m.mu.Lock()
	l := m.open
	m.open = map[*MonFile]string{}
	m.mu.Unlock()
	for f := range l {
		f.f.Close()
	}
}

func (m *Mon) Steps() int { m.mu.Lock(); defer m.mu.Unlock(); return m.n }

func (m *Mon) step(op, name string, mut bool, f vroot.File, l int) (Step, error) {
	m.mu.Lock()
	if m.dead {
		m.mu.Unlock()
		return Step{}, ErrCrash
	}
	m.n++
	s := Step{m.n, op, name, mut, f, l}
	m.mu.Unlock()
	if m.Before != nil {
		if err := m.Before(s); err != nil {
			return s, err
		}
		m.mu.Lock()
		defer m.mu.Unlock()
		if m.dead {
			return s, ErrCrash
		}
	}
	return s, nil
}

func (m *Mon) do(op, name string, mut bool, fn func() error) error {
	s, err := m.step(op, name, mut, nil, 0)
	if err != nil {
		return &fs.PathError{Op: op, Path: name, Err: err}
	}
	err = fn()
	if m.After != nil {
		m.After(s, err)
	}
	return err
}

func (m *Mon) Chmod(n string, p fs.FileMode) error {
	return m.do("chmod", n, true, func() error { return m.In.Chmod(n, p) })
}
func (m *Mon) Chown(n string, u, g int) error {
	return m.do("chown", n, true, func() error { return m.In.Chown(n, u, g) })
}
func (m *Mon) Lchown(n string, u, g int) error {
	return m.do("lchown", n, true, func() error { return m.In.Lchown(n, u, g) })
}
func (m *Mon) Chtimes(n string, a, t time.Time) error {
	return m.do("chtimes", n, true, func() error { return m.In.Chtimes(n, a, t) })
}
func (m *Mon) Close() error { return m.do("fsclose", "", false, func() error { return nil }) }
func (m *Mon) Link(o, n string) error {
	return m.do("link", o+" "+n, true, func() error { return m.In.Link(o, n) })
}
func (m *Mon) Symlink(o, n string) error {
	return m.do("symlink", o+" "+n, true, func() error { return m.In.Symlink(o, n) })
}
func (m *Mon) Rename(o, n string) error {
	return m.do("rename", o+" "+n, true, func() error { return m.In.Rename(o, n) })
}
func (m *Mon) Mkdir(n string, p fs.FileMode) error {
	return m.do("mkdir", n, true, func() error { return m.In.Mkdir(n, p) })
}
func (m *Mon) MkdirAll(n string, p fs.FileMode) error {
	return m.do("mkdirall", n, true, func() error { return m.In.MkdirAll(n, p) })
}
func (m *Mon) Remove(n string) error {
	return m.do("remove", n, true, func() error { return m.In.Remove(n) })
}
func (m *Mon) RemoveAll(n string) error {
	return m.do("removeall", n, true, func() error { return m.In.RemoveAll(n) })
}
func (m *Mon) Name() string { return m.In.Name() }
func (m *Mon) Lstat(n string) (i fs.FileInfo, err error) {
	err = m.do("lstat", n, false, func() (e error) { i, e = m.In.Lstat(n); return })
	return
}
func (m *Mon) Stat(n string) (i fs.FileInfo, err error) {
	err = m.do("stat", n, false, func() (e error) { i, e = m.In.Stat(n); return })
	return
}
func (m *Mon) ReadLink(n string) (t string, err error) {
	err = m.do("readlink", n, false, func() (e error) { t, e = m.In.ReadLink(n); return })
	return
}
func (m *Mon) Create(n string) (vroot.File, error) {
	return m.OpenFile(n, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0o666)
}
func (m *Mon) Open(n string) (vroot.File, error) { return m.OpenFile(n, os.O_RDONLY, 0) }
func (m *Mon) OpenFile(n string, fl int, p fs.FileMode) (f vroot.File, err error) {
	op := "open"
	mut := fl&(os.O_CREATE|os.O_TRUNC) != 0
	if fl&3 != os.O_RDONLY {
		op = "openw"
	}
	if fl&os.O_CREATE != 0 {
		op = "create"
	}
	err = m.do(op, n, mut, func() error {
		in, e := m.In.OpenFile(n, fl, p)
		if e != nil {
			return e
		}
		mf := &MonFile{m: m, f: in, n: n}
		m.mu.Lock()
		m.open[mf] = n
		m.mu.Unlock()
		f = mf
		if _, ok := in.(vroot.Locker); ok {
			f = lockFile{mf}
		}
		return nil
	})
	return
}

// MonFile is a monitored handle.
type MonFile struct {
	m *Mon
	f vroot.File
	n string
}

func (f *MonFile) do(op string, mut bool, l int, fn func() error) error {
	s, err := f.m.step(op, f.n, mut, f.f, l)
	if err != nil {
		if mut && (op == "write" || op == "writeat") && f.m.Torn && errors.Is(err, ErrCrash) && s.I != 0 {
			return &torn{&fs.PathError{Op: op, Path: f.n, Err: err}}
		}
		return &fs.PathError{Op: op, Path: f.n, Err: err}
	}
	err = fn()
	if f.m.After != nil {
		f.m.After(s, err)
	}
	return err
}

type torn struct{ error }

func (t *torn) Unwrap() error { return t.error }

func (f *MonFile) Chmod(p fs.FileMode) error {
	return f.do("fchmod", true, 0, func() error { return f.f.Chmod(p) })
}
func (f *MonFile) Chown(u, g int) error {
	return f.do("fchown", true, 0, func() error { return f.f.Chown(u, g) })
}
func (f *MonFile) Close() error {
	f.m.mu.Lock()
	delete(f.m.open, f)
	dead := f.m.dead
	f.m.mu.Unlock()
	if dead {
		f.f.Close()
		return ErrCrash
	}
	err := f.do("close", false, 0, func() error { return f.f.Close() })
	if err != nil {
		f.f.Close() // a failing close releases the descriptor all the same
	}
	return err
}
func (f *MonFile) Fd() uintptr  { return f.f.Fd() }
func (f *MonFile) Name() string { return f.f.Name() }
func (f *MonFile) Read(b []byte) (n int, err error) {
	err = f.do("read", false, len(b), func() (e error) { n, e = f.f.Read(b); return })
	return
}
func (f *MonFile) ReadAt(b []byte, o int64) (n int, err error) {
	err = f.do("readat", false, len(b), func() (e error) { n, e = f.f.ReadAt(b, o); return })
	return
}
func (f *MonFile) ReadDir(k int) (l []fs.DirEntry, err error) {
	err = f.do("readdir", false, 0, func() (e error) { l, e = f.f.ReadDir(k); return })
	return
}
func (f *MonFile) Readdir(k int) (l []fs.FileInfo, err error) {
	err = f.do("readdir", false, 0, func() (e error) { l, e = f.f.Readdir(k); return })
	return
}
func (f *MonFile) Readdirnames(k int) (l []string, err error) {
	err = f.do("readdir", false, 0, func() (e error) { l, e = f.f.Readdirnames(k); return })
	return
}
func (f *MonFile) Seek(o int64, w int) (r int64, err error) {
	err = f.do("seek", false, 0, func() (e error) { r, e = f.f.Seek(o, w); return })
	return
}
func (f *MonFile) Stat() (i fs.FileInfo, err error) {
	err = f.do("fstat", false, 0, func() (e error) { i, e = f.f.Stat(); return })
	return
}
func (f *MonFile) Sync() error { return f.do("sync", false, 0, func() error { return f.f.Sync() }) }
func (f *MonFile) Truncate(s int64) error {
	return f.do("truncate", true, 0, func() error { return f.f.Truncate(s) })
}
func (f *MonFile) Write(b []byte) (n int, err error) {
	err = f.do("write", true, len(b), func() (e error) { n, e = f.f.Write(b); return })
	var t *torn
	if errors.As(err, &t) && len(b) > 1 {
		n, _ = f.f.Write(b[:len(b)/2])
	}
	return
}
func (f *MonFile) WriteAt(b []byte, o int64) (n int, err error) {
	err = f.do("writeat", true, len(b), func() (e error) { n, e = f.f.WriteAt(b, o); return })
	var t *torn
	if errors.As(err, &t) && len(b) > 1 {
		n, _ = f.f.WriteAt(b[:len(b)/2], o)
	}
	return
}
func (f *MonFile) WriteString(s string) (int, error) { return f.Write([]byte(s)) }

// lockFile is a MonFile whose inner file has advisory locks.
type lockFile struct{ *MonFile }

func (f lockFile) Lock(l vroot.LockLevel) error { return f.f.(vroot.Locker).Lock(l) }
func (f lockFile) Unlock() error                { return f.f.(vroot.Locker).Unlock() }
