package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"net"
	"os"
	"runtime"
	"runtime/debug"
	"slices"
	"strings"
	"sync"
	"time"

	"github.com/ngicks/go-fsys-helper/fsutil"
	"github.com/ngicks/go-fsys-helper/vroot"
	"github.com/ngicks/go-fsys-helper/vroot-adapter/overlayfs"
	"github.com/ngicks/go-fsys-helper/vroot-adapter/sftpfs"
	"github.com/ngicks/go-fsys-helper/vroot/memfs"
	"github.com/ngicks/go-fsys-helper/vroot/osfs"
	"github.com/ngicks/go-fsys-helper/vroot/synthfs"
	"github.com/pkg/sftp"
	"verif/harness/fsx"
	"verif/harness/ovl"
	"verif/harness/rt"
)

var errUser = errors.New("user's own error")

// ward watches a file system: what is open, who closed it, and the one call
// that fails.
type ward struct {
	*fsx.Mon
	mu     sync.Mutex
	at     int // the call that fails; 0: none
	rate   int // or one in so many
	rnd    func(int) int
	fault  int
	failed string
	fsc    int // times the file system itself was closed
}

func newWard(in fsx.FS) *ward {
	return wardOn(fsx.NewMon(in))
}

func wardOn(m *fsx.Mon) *ward {
	w := &ward{Mon: m}
	m.Before = func(s fsx.Step) error {
		w.mu.Lock()
		defer w.mu.Unlock()
		if s.Op == "fsclose" {
			w.fsc++
		}
		if s.I == w.at || w.rate > 0 && w.rnd(w.rate) == 0 {
			w.failed = s.Op
			return fsx.Faulty(w.fault)
		}
		return nil
	}
	return w
}

func (w *ward) closes() int { w.mu.Lock(); defer w.mu.Unlock(); return w.fsc }

// plain is the ward as plain io/fs.
type plain struct{ w *ward }

func (p plain) Open(n string) (fs.File, error) {
	f, err := p.w.Open(n)
	if err != nil {
		return nil, err
	}
	return f, nil
}
func (p plain) Lstat(n string) (fs.FileInfo, error) { return p.w.Lstat(n) }
func (p plain) ReadLink(n string) (string, error)   { return p.w.ReadLink(n) }

// seedTree puts a small tree into a file system.
func seedTree(c *rt.Case, f fsx.FS) {
	c.Must(f.MkdirAll("d/e", 0o755))
	c.Must(f.MkdirAll("d/empty", 0o755))
	for _, n := range []string{"a", "d/b", "d/e/c", "d/e/big"} {
		b := make([]byte, c.IntN(60))
		if strings.HasSuffix(n, "big") {
			b = make([]byte, 40000+c.IntN(60000))
		}
		c.Must(vroot.WriteFile(f, n, b, 0o644))
	}
	for _, n := range []string{"l", "d/up", "d/dangling", "d/loop"} {
		t := map[string]string{"l": "a", "d/up": "../a", "d/dangling": "nowhere", "d/loop": "loop"}[n]
		c.Must(f.Symlink(t, n))
	}
}

func backend(c *rt.Case, kind string) fsx.FS {
	if kind == "mem" {
		return vroot.Widen[vroot.File](memfs.New("mem"))
	}
	r, err := osfs.NewRoot(c.Dir())
	c.Must(err)
	return vroot.Widen[*osfs.File](r)
}

// env is what an operation may use. It counts on keep being closed.
type env struct {
	c    *rt.Case
	a, b *ward // file systems the caller owns
	keep []io.Closer
	ctx  context.Context
	stop func()
	v    int // variant
}

func (e *env) hold(f vroot.File, err error) error {
	if err == nil && f != nil {
		e.keep = append(e.keep, f)
	}
	return err
}

type (
	swOpt = fsutil.SafeWriteOption[*ward, vroot.File]
	cpOpt = fsutil.CopyFsOption[*ward, vroot.File]
	rcOpt = fsutil.ResumableCopyOption[*ward, vroot.File]
)

func (e *env) policy() fsutil.TempFilePolicy[*ward, vroot.File] {
	switch e.v % 3 {
	case 0:
		return fsutil.NewTempFilePolicyDir[*ward, vroot.File]("tmp")
	case 1:
		return fsutil.NewTempFilePolicyRandom[*ward, vroot.File]()
	}
	return nil
}

var targets = []string{"a", "new", "d/new", "d/empty", "nodir/x", "l", "d/e"}

// failing hook or not, by variant
func (e *env) hooks(n int) []func(vroot.File, string) error {
	return []func(vroot.File, string) error{func(vroot.File, string) error {
		if e.v/3%5 == n {
			return errUser
		}
		return nil
	}}
}

type slow struct {
	r   io.Reader
	at  int
	err error
	do  func()
}

func (s *slow) Read(b []byte) (int, error) {
	if s.at--; s.at < 0 {
		if s.do != nil {
			s.do()
		}
		if s.err != nil {
			return 0, s.err
		}
	}
	return s.r.Read(b[:min(len(b), 700)])
}

func (e *env) reader() io.Reader {
	s := &slow{r: bytes.NewReader(make([]byte, 3000)), at: e.v % 7}
	if e.v%4 == 0 {
		s.err = errUser
	}
	return s
}

// source hands out bodies which it counts.
type source struct {
	e    *env
	open int
	n    int
}

type body struct {
	io.Reader
	s    *source
	done bool
}

func (b *body) Close() error {
	if !b.done {
		b.done = true
		b.s.open--
	}
	return nil
}

func (s *source) Open(_ context.Context, off int64) (io.ReadCloser, fsutil.ContentInfo, error) {
	s.n++
	if s.e.v%11 == 0 {
		return nil, fsutil.ContentInfo{}, errUser
	}
	data := bytes.Repeat([]byte("0123456789"), 500)
	r := &slow{r: bytes.NewReader(data[min(int(off), len(data)):]), at: s.e.v % 9}
	switch s.e.v % 5 {
	case 0:
		r.err = errUser
	case 1:
		r.do, r.err = s.e.stop, nil
	}
	info := fsutil.ContentInfo{ETag: "e", Size: int64(len(data))}
	if s.e.v%7 == 0 {
		info.ETag = "other"
	}
	if s.n > 1 && s.e.v%3 > 0 {
		info.ETag = "newer"
	}
	if s.e.v%13 == 0 {
		info.Size++
	}
	s.open++
	return &body{Reader: r, s: s}, info, nil
}

type helper struct {
	name string
	run  func(e *env) (leak string, err error)
}

// begun leaves parts of earlier transfers, with and without their tags.
func (e *env) begun(w *ward) {
	for i, n := range []string{"d/new", "new"} {
		k := (e.v / 17 >> (2 * i)) & 3
		if k == 0 {
			continue
		}
		e.c.Must(vroot.WriteFile(w.Mon.In, n+".part", bytes.Repeat([]byte("0123456789"), 10), 0o644))
		if k > 1 {
			e.c.Must(vroot.WriteFile(w.Mon.In, n+".part.etag", []byte([]string{"e", "x"}[k-2]), 0o644))
		}
	}
}

func plainly(f func(e *env) error) func(e *env) (string, error) {
	return func(e *env) (string, error) { return "", f(e) }
}

var helpers = []helper{
	{"SafeWrite.Write", plainly(func(e *env) error {
		return swOpt{TempFilePolicy: e.policy(), IgnoreCloseErr: e.v%2 == 0}.Write(e.a, targets[e.v%len(targets)], func(w io.Writer) error {
			if _, err := w.Write(make([]byte, 100)); err != nil {
				return err
			}
			if e.v%8 == 1 {
				return errUser
			}
			return nil
		}, 0o644, e.hooks(0), e.hooks(1))
	})},
	{"SafeWrite.Copy", plainly(func(e *env) error {
		return swOpt{TempFilePolicy: e.policy(), PreHooks: e.hooks(0), PostHooks: e.hooks(1)}.Copy(e.a, targets[e.v%len(targets)], e.reader(), 0o600, e.hooks(2), e.hooks(3))
	})},
	{"SafeWrite.CopyFs", plainly(func(e *env) error {
		return swOpt{TempFilePolicy: e.policy()}.CopyFs(e.a, targets[e.v%len(targets)], plain{e.b}, 0o755, e.hooks(0), e.hooks(1))
	})},
	{"TempFilePolicy", plainly(func(e *env) error {
		p := e.policy()
		if p == nil {
			p = fsutil.TempFilePolicyRandom[*ward, vroot.File]{}
		}
		f, _, err := p.Create(e.a, targets[e.v%len(targets)], 0o644)
		if err := e.hold(f, err); err != nil {
			return err
		}
		f, _, err = p.Mkdir(e.a, targets[e.v%len(targets)], 0o755)
		if err := e.hold(f, err); err != nil {
			return err
		}
		return vroot.WalkDir[vroot.File](e.a, ".", nil, func(pa, real string, d fs.FileInfo, err error) error {
			if err != nil {
				return err
			}
			return p.WalkFunc(e.a, pa, fs.FileInfoToDirEntry(d), err)
		})
	})},
	{"OpenFileRandom", plainly(func(e *env) error {
		f, err := fsutil.OpenFileRandom[*ward, vroot.File](e.a, []string{"d", ".", "nodir", "a"}[e.v%4], "x*y", 0o600)
		return e.hold(f, err)
	})},
	{"MkdirRandom", plainly(func(e *env) error {
		f, err := fsutil.MkdirRandom[*ward, vroot.File](e.a, []string{"d", ".", "nodir", "a"}[e.v%4], "x*y", 0o700)
		return e.hold(f, err)
	})},
	{"CopyAll", plainly(func(e *env) error {
		o := cpOpt{}
		if e.v%5 == 0 {
			o.IgnoreErr = func(error) bool { return true }
		}
		return o.CopyAll(e.a, plain{e.b}, []string{"copy", ".", "d"}[e.v%3])
	})},
	{"CopyPath", plainly(func(e *env) error {
		return cpOpt{}.CopyPath(e.a, plain{e.b}, []string{".", "d", "copy"}[e.v%3], "d/b", "d/e/big", "d/e/c", "l", []string{"a", "nowhere"}[e.v%2])
	})},
	{"Pull", func(e *env) (string, error) {
		s := &source{e: e}
		e.begun(e.a)
		o := rcOpt{}
		if e.v%4 == 0 {
			o.PreCommitHooks = append(o.PreCommitHooks, func(vroot.File, string) error {
				if e.v%8 == 0 {
					return errUser
				}
				return nil
			})
		}
		err := o.Pull(e.ctx, e.a, []string{"d/new", "nodir/x", "a", "new"}[e.v%4], s, fsutil.ContentInfo{ETag: "e", Size: 5000}, 0o644)
		if s.open != 0 {
			return fmt.Sprintf("%d of %d source bodies", s.open, s.n), err
		}
		return "", err
	}},
	{"Pull again", func(e *env) (string, error) {
		s := &source{e: e}
		e.c.Must(vroot.WriteFile(e.a.Mon.In, "new.part", bytes.Repeat([]byte("0123456789"), 10+e.v/100%2*590), 0o644))
		e.c.Must(vroot.WriteFile(e.a.Mon.In, "new.part.etag", []byte([]string{"x", "e", "e"}[e.v/200%3]), 0o644))
		err := rcOpt{}.Pull(e.ctx, e.a, "new", s, fsutil.ContentInfo{ETag: []string{"e", "e", ""}[e.v/600%3], Size: -1}, 0o644)
		if s.open != 0 {
			return fmt.Sprintf("%d of %d source bodies", s.open, s.n), err
		}
		return "", err
	}},
	{"Pull from FsSource", plainly(func(e *env) error {
		e.begun(e.a)
		s := fsutil.NewFsSource[*ward, vroot.File](e.b, []string{"d/e/big", "a", "nowhere", "d"}[e.v%4], "e")
		return rcOpt{}.Pull(e.ctx, e.a, "d/new", s, fsutil.ContentInfo{ETag: "e", Size: -1}, 0o644)
	})},
	{"Push to FsSink", plainly(func(e *env) error {
		e.begun(e.b)
		s := fsutil.NewFsSink[*ward, vroot.File](e.b, []string{"d/new", "nodir/x", "new"}[e.v%3], 0o644)
		return rcOpt{}.Push(e.ctx, e.a, []string{"d/e/big", "a", "nowhere", "d"}[e.v%4], s, fsutil.ContentInfo{ETag: "e", Size: -1})
	})},
	{"FsSink", plainly(func(e *env) error {
		e.begun(e.b)
		s := fsutil.NewFsSink[*ward, vroot.File](e.b, []string{"d/new", "nodir/x", "a"}[e.v%3], 0o644)
		_, err := s.State(e.ctx)
		if err == nil {
			err = s.Append(e.ctx, fsutil.ContentInfo{ETag: "e", Size: -1}, int64(e.v%2*5), e.reader())
		}
		if err == nil {
			err = s.Commit(e.ctx)
		}
		return err
	})},
	{"ReadFile", plainly(func(e *env) error {
		_, err := vroot.ReadFile[vroot.File](e.a, append(targets, "d/e/big", "d/loop")[e.v%(len(targets)+2)])
		return err
	})},
	{"WriteFile", plainly(func(e *env) error {
		return vroot.WriteFile[vroot.File](e.a, targets[e.v%len(targets)], make([]byte, e.v%100), 0o644)
	})},
	{"ReadDir", plainly(func(e *env) error {
		_, err := vroot.ReadDir[vroot.File](e.a, []string{".", "d", "d/e", "a", "nowhere", "d/loop"}[e.v%6])
		return err
	})},
	{"WalkDir", plainly(func(e *env) error {
		n := 0
		return vroot.WalkDir[vroot.File](e.a, []string{".", "d", "l", "nowhere"}[e.v%4], &vroot.WalkOption{ResolveSymlink: e.v%2 == 0}, func(p, _ string, i fs.FileInfo, err error) error {
			n++
			switch {
			case e.v%6 == 1 && n == 3:
				return errUser
			case e.v%6 == 2 && n == 3:
				return fs.SkipAll
			case e.v%6 == 3 && n == 3:
				return fs.SkipDir
			case e.v%6 == 4:
				return nil
			}
			return err
		})
	})},
	{"Sub", plainly(func(e *env) error {
		s, err := vroot.Sub[vroot.File](e.a, []string{"d", "a", "nowhere", "d/e", "../x", "."}[e.v%6])
		if err != nil {
			return err
		}
		if _, err = vroot.ReadDir(s, "."); err == nil {
			f, e2 := s.Open("c")
			err = e.hold(f, e2)
		}
		return err
	})},
	{"io/fs", plainly(func(e *env) error {
		f := vroot.ToIoFs[vroot.File](e.a)
		switch e.v % 9 {
		case 0:
			_, err := fs.ReadFile(f, "d/e/big")
			return err
		case 1:
			_, err := fs.ReadDir(f, "d")
			return err
		case 2:
			_, err := fs.Stat(f, "d/e")
			return err
		case 3:
			_, err := fs.Glob(f, "d/*/c")
			return err
		case 4:
			return fs.WalkDir(f, ".", func(_ string, _ fs.DirEntry, err error) error { return err })
		case 5:
			_, err := fs.ReadFile(f, "d")
			return err
		case 6:
			s, err := fs.Sub(f, "d")
			if err == nil {
				_, err = fs.ReadFile(s, "e/c")
			}
			return err
		case 7:
			s, err := fs.Sub(f, "a")
			if err == nil {
				_, err = fs.ReadDir(s, ".")
			}
			return err
		}
		h, err := f.Open("d")
		if err != nil {
			return err
		}
		e.keep = append(e.keep, h)
		_, err = h.(fs.ReadDirFile).ReadDir(1)
		return err
	})},
	{"FromIoFs", plainly(func(e *env) error {
		f := vroot.FromIoFs(plain{e.a}, "x")
		var err error
		switch e.v % 6 {
		case 0:
			_, err = vroot.ReadFile(f, "d/e/big")
		case 1:
			_, err = vroot.ReadDir(f, "d")
		case 2:
			_, err = f.Stat("l")
		case 3:
			_, err = f.Lstat("d/up")
		case 4:
			h, e2 := f.OpenFile("d/e/big", []int{os.O_RDONLY, os.O_RDWR, os.O_RDONLY | os.O_CREATE}[e.v/6%3], 0)
			err = e.hold(h, e2)
			if err == nil {
				_, err = h.Readdirnames(-1)
			}
		default:
			err = vroot.WalkDir(f, ".", nil, func(_, _ string, _ fs.FileInfo, err error) error { return err })
		}
		f.Close()
		return err
	})},
	{"AddFS", plainly(func(e *env) error {
		r := memfs.New("m")
		r.MkdirAll("x/d", 0o755)
		cb := []synthfs.AddFunc{nil, synthfs.MergeKeep, synthfs.MergeOverwrite, synthfs.FailOnConflict}[e.v%4]
		if err := r.AddFS("x", plain{e.a}, cb); err != nil {
			return err
		}
		if _, err := vroot.ReadFile[vroot.File](r, "x/d/e/big"); err != nil {
			return err
		}
		f, err := r.Open("x/d/b")
		if e.hold(f, err) == nil {
			f.Stat()
			r.RemoveAll("x")
		}
		_, err = r.Stat("x")
		return err
	})},
	{"NewFsView", plainly(func(e *env) error {
		r := memfs.New("m")
		v, err := synthfs.NewFsView(plain{e.a}, []string{"d/e/big", "l", "d", "nowhere"}[e.v%4])
		if err != nil {
			return err
		}
		if e.v/4%2 == 0 {
			if v, err = synthfs.NewRangedView(v, 3, 5); err != nil {
				return err
			}
		}
		if err := r.AddFile("f", v, nil); err != nil {
			return err
		}
		if _, err = vroot.ReadFile[vroot.File](r, "f"); err != nil {
			return err
		}
		f, err := r.Open("f")
		if err = e.hold(f, err); err != nil {
			return err
		}
		if _, err = r.OpenFile("f", os.O_RDWR, 0); err == nil {
			return errors.New("opened for writing")
		}
		return r.Remove("f")
	})},
}

// strays lists the library's goroutines that are running.
func strays() []string {
	buf := make([]byte, 4<<20)
	buf = buf[:runtime.Stack(buf, true)]
	var l []string
	for i, g := range strings.Split(string(buf), "\n\n") {
		if i > 0 && strings.Contains(g, "ngicks/go-fsys-helper") {
			l = append(l, g)
		}
	}
	return l
}

func openUnder(dir string) []string {
	es, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		return []string{"?" + err.Error()}
	}
	var l []string
	for _, e := range es {
		if t, err := os.Readlink("/proc/self/fd/" + e.Name()); err == nil && (t == dir || strings.HasPrefix(t, dir+"/") || strings.HasPrefix(t, dir+" ")) {
			l = append(l, strings.TrimPrefix(t, dir))
		}
	}
	return l
}

// view counts its handles and closings.
type view struct {
	synthfs.FileView
	t *views
}

type views struct {
	mu    sync.Mutex
	open  map[*vfile]bool
	rate  int
	rnd   func(int) int
	nfail int
	opens int
}

func (t *views) fail() error {
	if t.rate > 0 && t.rnd(t.rate) == 0 {
		t.nfail++
		return errUser
	}
	return nil
}

func (v *view) Open(flag int) (vroot.File, error) {
	if err := v.t.fail(); err != nil {
		return nil, err
	}
	f, err := v.FileView.Open(flag)
	if err != nil {
		return nil, err
	}
	h := &vfile{f, v.t}
	v.t.mu.Lock()
	defer v.t.mu.Unlock()
	v.t.open[h] = true
	v.t.opens++
	return h, nil
}

func (v *view) Stat() (fs.FileInfo, error) {
	if err := v.t.fail(); err != nil {
		return nil, err
	}
	return v.FileView.Stat()
}

type vfile struct {
	vroot.File
	t *views
}

func (f *vfile) Close() error {
	f.t.mu.Lock()
	delete(f.t.open, f)
	f.t.mu.Unlock()
	err := f.File.Close()
	if e := f.t.fail(); e != nil {
		return e
	}
	return err
}

func (f *vfile) Truncate(n int64) error {
	if err := f.t.fail(); err != nil {
		return err
	}
	return f.File.Truncate(n)
}

func (f *vfile) Stat() (fs.FileInfo, error) {
	if err := f.t.fail(); err != nil {
		return nil, err
	}
	return f.File.Stat()
}

type valloc struct {
	in synthfs.FileViewAllocator
	t  *views
}

func (a valloc) Allocate(n string, p fs.FileMode) (synthfs.FileView, error) {
	if err := a.t.fail(); err != nil {
		return nil, err
	}
	v, err := a.in.Allocate(n, p)
	if err != nil {
		return nil, err
	}
	return &view{v, a.t}, nil
}

// exec runs an operation; a closed handle is forgotten.
func exec(c *rt.Case, w *fsx.World, o fsx.Op) {
	out := w.Exec(o)
	c.Logf("%v = %v", o, out)
	c.R.Eval(1)
	if o.K == "close" {
		delete(w.Files, o.H)
	}
}

func gen(c *rt.Case, roots int) *fsx.Gen {
	k := slices.Clone(fsx.BasicKinds)
	k = slices.DeleteFunc(k, func(o string) bool {
		return o == "removeall" || (o == "close" || o == "rename" || o == "remove" || o == "chmod") && c.IntN(3) > 0
	})
	k = append(k, strings.Fields("close open open open open open openfile openfile create create list readfile")...)
	if c.IntN(3) == 0 {
		k = append(k, "removeall")
	}
	if roots > 1 {
		k = append(k, strings.Fields("openroot openroot openroot openroot openroot openroot closeroot")...)
	}
	return &fsx.Gen{Rand: c.Rand, Names: []string{"a", "b", "d", "d", "e", "l", "up", "loop"}, Depth: 3, Kinds: k, Handles: 4, Roots: roots,
		Targets: []string{"a", "../a", "d", "loop", "b", "/x", "../../y"}, Modes: []fs.FileMode{0o755, 0o700, 0o644}, MaxData: 100}
}

// chain wraps a file system into others that show one handle per handle.
func chain(c *rt.Case, cur fsx.FS) (fsx.FS, string, bool) {
	desc, forwards := "", true
	for range 1 + c.IntN(4) {
		switch k := c.IntN(7); k {
		case 0:
			p, err := vroot.NewPathPrefixFs(cur, []string{".", "d", "d/e"}[c.IntN(3)])
			if err != nil {
				desc += " prefix-failed"
				continue
			}
			cur, desc = p, desc+" prefix"
		case 1:
			cur, desc = vroot.Widen[*vroot.ReadOnlyFile](vroot.NewReadOnlyFs(cur)), desc+" readonly"
		case 2:
			cur, desc = vroot.NewPathNormalizerFs(cur), desc+" normalize"
		case 3:
			cur, desc = vroot.NewPathLocalizerFs(cur), desc+" localize"
		case 4:
			s, err := vroot.Sub(cur, []string{".", "d", "d/e"}[c.IntN(3)])
			if err != nil {
				desc += " sub-failed"
				continue
			}
			cur, desc = s, desc+" sub"
		case 5:
			i, ok := vroot.ToIoFs(cur).(fs.ReadLinkFS)
			if !ok {
				continue
			}
			cur, desc, forwards = vroot.FromIoFs(i, "io"), desc+" iofs", false
		case 6:
			cur, desc = vroot.Widen(cur), desc+" widen"
		}
	}
	return cur, desc, forwards
}

var r01 = &rt.Check{ID: "R01", Level: "fault_enumeration",
	Rule: "every helper run over watched file systems with each of its calls failing once, with failing callers' hooks, readers and sources and with cancellation; random histories with random faults through chains of wrapping file systems, synthetic files and overlays (mounting included); scripts of operations that move data between layers with every call to a layer failing once; remote readers, chunked transfers and joined streams against an origin that answers badly, every response body counted; real descriptors under OS-backed, SFTP and SQLite-backed file systems counted after histories; at the end no goroutine of the library runs; distinct by helper, variant and failing call",
	Run: func(r *rt.Run) {
		r.CasesPar("helpers", r.N(400, 8000), 8, func(c *rt.Case) {
			h := helpers[c.Idx%len(helpers)]
			kind := "mem"
			if c.IntN(4) == 0 {
				kind = "os"
			}
			v, fault, seed := c.IntN(10000), c.IntN(20), c.IntN(1<<30)
			steps := 0
			for at := 0; at <= steps && !c.Failed(); at++ {
				if at > 120 && at < steps-10 {
					at += c.IntN(steps / 40)
				}
				fa, fb := backend(c, kind), backend(c, kind)
				seedTree(c, fa)
				seedTree(c, fb)
				e := &env{c: c, a: newWard(fa), b: newWard(fb), v: v}
				var on *ward
				if at > 0 {
					// calls of both count: a's first, then b's
					on = e.a
					n := at
					if c.Idx/len(helpers)%2 == 1 {
						on = e.b
					}
					on.at, on.fault = n, fault
				}
				_ = seed
				e.ctx, e.stop = context.WithCancel(context.Background())
				leak, err := h.run(e)
				e.stop()
				r.Eval(1)
				where := fmt.Sprintf("%s (variant %d, call %d failing, returned %v)", h.name, v, at, err)
				fsClosed := e.a.closes() + e.b.closes()
				if fsClosed > 0 {
					c.Fail("R01:helpers:fs-closed:"+h.name, "%s closed a file system its caller still owns", where)
				}
				for _, k := range e.keep {
					k.Close()
				}
				if l := append(e.a.OpenHandles(), e.b.OpenHandles()...); len(l) > 0 {
					c.Fail("R01:helpers:handle:"+h.name, "%s left open: %q", where, l)
				}
				if leak != "" {
					c.Fail("R01:helpers:body:"+h.name, "%s left open: %s", where, leak)
				}
				e.a.Abandon()
				e.b.Abandon()
				fa.Close()
				fb.Close()
				if at == 0 {
					steps = e.a.Steps()
					if c.Idx/len(helpers)%2 == 1 {
						steps = e.b.Steps()
					}
					r.Count("helpers/clean run")
				} else if on.failed != "" {
					r.Count("helpers/fault at " + on.failed)
				}
				r.Distinct(fmt.Sprint(h.name, v, at, kind))
			}
		})
		r.CasesPar("wrappers", r.N(600, 12000), 8, func(c *rt.Case) {
			in := backend(c, []string{"mem", "mem", "os"}[c.IntN(3)])
			defer in.Close()
			seedTree(c, in)
			w := newWard(in)
			defer w.Abandon()
			f, desc, forwards := chain(c, w)
			c.Logf("chain:%s", desc)
			w.rate, w.rnd, w.fault = []int{0, 5, 9}[c.IntN(3)], c.IntN, c.IntN(20)
			wo := fsx.NewWorld(fsx.Sys{FS: f})
			g := gen(c, 1)
			for range 60 {
				o := g.Next()
				exec(c, wo, o)
				if n, l := len(wo.Files), w.OpenHandles(); n != len(l) {
					c.Fail("R01:wrappers:handle:"+o.K, "through%s: after %v %d handles are open and beneath %d: %q", desc, o, n, len(l), l)
					return
				}
				if w.closes() > 0 {
					c.Fail("R01:wrappers:fs-closed:"+o.K, "through%s: %v closed the file system beneath", desc, o)
					return
				}
			}
			r.CountN("wrappers/handles at the end", len(wo.Files))
			wo.CloseAll()
			w.rate = 0
			if l := w.OpenHandles(); len(l) > 0 {
				c.Fail("R01:wrappers:handle:end", "through%s: open after all were closed: %q", desc, l)
			}
			f.Close()
			if n := w.closes(); forwards && n != 1 {
				c.Fail("R01:wrappers:fs-open", "through%s: closing closed the file system beneath %d times", desc, n)
			}
			r.Count("wrappers/chains")
			r.Distinct("wrappers" + desc + fmt.Sprint(w.Steps()))
		})
		r.CasesPar("views", r.N(600, 12000), 8, func(c *rt.Case) {
			t := &views{open: map[*vfile]bool{}, rate: []int{0, 4, 8, 15}[c.IntN(4)], rnd: c.IntN}
			umask := fs.FileMode(0)
			root := synthfs.NewRoot("s", &synthfs.Option{Allocator: valloc{synthfs.NewMemAllocator(nil), t}, Umask: &umask, DisableOpenFileRemoval: c.IntN(2) == 0})
			wo := fsx.NewWorld(fsx.WrapRoot[vroot.File, *synthfs.Root](root))
			g := gen(c, 3)
			for range 80 {
				what := ""
				if c.IntN(12) == 0 {
					var v synthfs.FileView = &view{synthfs.NewBytesView(make([]byte, 30), 0o644, time.Unix(1e9, 0)), t}
					n := g.Path()
					if c.IntN(2) == 0 {
						rv, err := synthfs.NewRangedView(v, 2, 9)
						if err == nil {
							v = rv
						}
					}
					err := root.AddFile(n, v, []synthfs.AddFunc{nil, synthfs.MergeOverwrite, synthfs.MergeKeep}[c.IntN(3)])
					what = "addfile"
					c.Logf("add %q: %v", n, err)
				} else {
					o := g.Next()
					what = o.K
					exec(c, wo, o)
				}
				files := 0
				for _, f := range wo.Files {
					if t.dirHandle(f) {
						continue
					}
					files++
				}
				if n := len(t.open); n != files {
					c.Fail("R01:views:handle:"+what, "%d file handles are open, of views %d", files, n)
					return
				}
			}
			r.CountN("views/handles opened", t.opens)
			r.CountN("views/calls failed", t.nfail)
			wo.CloseAll()
			if n := len(t.open); n > 0 {
				c.Fail("R01:views:handle:end", "%d handles of views are open after all were closed", n)
			}
			r.Distinct(fmt.Sprint("views", c.Idx, t.opens))
		})
		r.CasesPar("overlay", r.N(400, 8000), 8, func(c *rt.Case) { overlay(c) })
		r.CasesPar("copyups", r.N(80, 800), 8, func(c *rt.Case) { copyups(c) })
		gc := debug.SetGCPercent(-1) // the collector would close spools left open
		r.CasesPar("streams", r.N(300, 3000), 8, func(c *rt.Case) { streams(c) })
		r.CasesPar("spools", 1, 1, func(c *rt.Case) { spools(c) })
		debug.SetGCPercent(gc)
		r.CasesPar("descriptors", r.N(60, 800), 1, func(c *rt.Case) { descriptors(c) })
		{
			r.CasesPar("goroutines", 1, 1, func(c *rt.Case) {
				var l []string
				for range 100 {
					if l = strays(); len(l) == 0 {
						return
					}
					time.Sleep(50 * time.Millisecond)
				}
				c.Fail("R01:goroutine", "%d goroutines are left running, as\n%s", len(l), l[0])
			})
		}
	},
}

func (t *views) dirHandle(f vroot.File) bool {
	rate := t.rate
	t.rate = 0
	defer func() { t.rate = rate }()
	i, err := f.Stat()
	return err == nil && i.IsDir()
}

var ovlNames = []string{"a", "b", "d", "e"}

func overlay(c *rt.Case) {
	r := c.R
	s := ovl.Gen(c, ovl.GenOpt{Names: ovlNames, Depth: 3, Targets: []string{"a", "../b", "d", "nowhere"}, Lowers: 3, Ents: 8, SQLite: 2, Top: true, Big: true, Tame: true})
	s.Put(c)
	s.Prepare(c)
	defer s.Release()
	var ws []*ward
	for _, m := range s.Mons {
		ws = append(ws, wardOn(m))
		defer m.Abandon()
	}
	sql := func(n string) bool { return strings.Contains(n, "sqlite") }
	data := func() (l []string) {
		for i, w := range ws {
			for _, n := range w.OpenHandles() {
				if !sql(n) {
					l = append(l, fmt.Sprintf("%d:%s", i, n))
				}
			}
		}
		return
	}
	mountFault := c.IntN(2) == 0
	if mountFault {
		w := ws[c.IntN(len(ws))]
		w.at, w.fault = 1+c.IntN([]int{4, 15, 60}[c.IntN(3)]), c.IntN(20)
	}
	var ds []*overlayfs.DataSource
	for i, l := range s.Layers {
		d, err := ovl.Source(l, fsx.FS(s.Mons[i]), s.Stores[i])
		if err != nil {
			if l := ws[i].OpenHandles(); len(l) > 0 {
				c.Fail("R01:overlay:mount", "making data source %d failed (%v) and left open %q", i, err, l)
			}
			if ws[i].closes() > 0 {
				c.Fail("R01:overlay:fs-closed", "making data source %d failed (%v) and closed the file system", i, err)
			}
			r.Count("overlay/mount failed")
			for j, d := range ds {
				d.Close()
				if l := ws[j].OpenHandles(); len(l) > 0 {
					c.Fail("R01:overlay:source", "closing data source %d left open %q", j, l)
				}
			}
			return
		}
		ds = append(ds, d)
	}
	o, err := overlayfs.New(ds[0], ds[1:], s.Opt)
	if err != nil {
		r.Count("overlay/mount failed")
		for j, d := range ds {
			d.Close()
			if l := ws[j].OpenHandles(); len(l) > 0 {
				c.Fail("R01:overlay:source", "after New failed (%v) closing data source %d left open %q", err, j, l)
			}
		}
		return
	}
	for _, w := range ws {
		w.at = 0
		w.rnd, w.fault = c.IntN, c.IntN(20)
	}
	if c.IntN(3) > 0 {
		rate := 4 + c.IntN(20)
		for _, w := range ws {
			w.rate = rate
		}
	}
	wo := fsx.NewWorld(fsx.WrapRoot[vroot.File, *overlayfs.Fs](o))
	g := gen(c, 3)
	g.Names = ovlNames
	for range 50 {
		op := g.Next()
		if c.IntN(3) == 0 && len(wo.Files) > 0 {
			for h := range 4 {
				if wo.Files[h] != nil {
					exec(c, wo, fsx.Op{K: "close", H: h})
				}
			}
			op.K = "lstat"
		}
		exec(c, wo, op)
		if l := data(); len(wo.Files) == 0 {
			r.Count("overlay/looks with nothing open")
			if len(l) > 0 {
				c.Fail("R01:overlay:handle:"+op.K, "nothing of the overlay is open, of its layers: %q", l)
				return
			}
		}
		for i, w := range ws {
			if w.closes() > 0 {
				c.Fail("R01:overlay:fs-closed:"+op.K, "%v closed layer %d", op, i)
				return
			}
		}
	}
	wo.CloseAll()
	if l := data(); len(l) > 0 {
		c.Fail("R01:overlay:handle:end", "open in the layers after all was closed: %q", l)
	}
	for _, w := range ws {
		w.rate = 0
	}
	if c.IntN(2) == 0 { // one layer will not close
		w := ws[c.IntN(len(ws))]
		w.rate, w.rnd = 1, func(int) int { return 0 }
	}
	err = o.Close()
	for i, w := range ws {
		if l := w.OpenHandles(); len(l) > 0 {
			c.Fail("R01:overlay:handle:close", "closing the overlay (%v) left open in layer %d: %q", err, i, l)
		}
		if n := w.closes(); n != 1 {
			c.Fail("R01:overlay:layer", "closing the overlay (%v) closed layer %d %d times", err, i, n)
		}
	}
	n := 0
	for _, w := range ws {
		n += w.Steps()
	}
	r.Distinct(fmt.Sprint("overlay", len(ws), n))
	r.Count("overlay/sessions")
}

func descriptors(c *rt.Case) {
	r := c.R
	if c.Idx%10 == 0 {
		runtime.GC() // the collector would close what was left open
	}
	defer debug.SetGCPercent(debug.SetGCPercent(-1))
	dir := c.Dir()
	kr, err := osfs.NewRoot(dir)
	c.Must(err)
	seedTree(c, vroot.Widen[*osfs.File](kr))
	c.Must(kr.Close())
	base := c.Base()
	check := func(when string) bool {
		if l := openUnder(base); len(l) > 0 {
			c.Fail("R01:descriptors:"+strings.Fields(when)[0], "%s: descriptors open on %q", when, l)
			return false
		}
		return true
	}
	if !check("clean start") {
		return
	}
	var sys fsx.Sys
	after := func() {}
	kind := []string{"root", "root", "readonly", "normalize", "iofs", "sftp", "overlay", "fs"}[c.Idx%8]
	kids := 3
	switch kind {
	case "overlay":
		var ds []*overlayfs.DataSource
		for i := range 3 {
			d := c.Dir()
			k, err := osfs.NewRoot(d)
			c.Must(err)
			w := vroot.Widen[*osfs.File](k)
			if i == 2 {
				seedTree(c, w)
				ds = append(ds, overlayfs.NewDataSource(w))
				continue
			}
			c.Must(k.Mkdir("merged", 0o755))
			c.Must(k.Mkdir("work", 0o755))
			s, err := overlayfs.NewDataSourceCanonical(w)
			c.Must(err)
			ds = append(ds, s)
		}
		o, err := overlayfs.New(ds[0], ds[1:], nil)
		c.Must(err)
		sys = fsx.WrapRoot[vroot.File, *overlayfs.Fs](o)
	case "sftp":
		a, b := net.Pipe()
		srv, err := sftp.NewServer(b)
		c.Must(err)
		done := make(chan struct{})
		go func() { srv.Serve(); srv.Close(); close(done) }()
		cl, err := sftp.NewClientPipe(a, a)
		c.Must(err)
		sys, kids = fsx.Wrap(sftpfs.New(cl, c.IntN(2) == 0, dir)), 1
		after = func() { a.Close(); cl.Close(); <-done }
	case "fs":
		f, err := osfs.NewFs(dir)
		c.Must(err)
		sys, kids = fsx.Wrap(f), 1
	default:
		k, err := osfs.NewRoot(dir)
		c.Must(err)
		switch kind {
		case "readonly":
			sys = fsx.WrapRoot[*vroot.ReadOnlyFile](vroot.NewReadOnlyRoot[*osfs.File](k))
		case "normalize":
			sys = fsx.WrapRoot[*osfs.File](vroot.NewPathNormalizerRoot[*osfs.File](k))
		case "iofs":
			ioRoot(c, vroot.ToIoFsRoot[*osfs.File](k))
			check(kind + ": closed")
			r.Count("descriptors/" + kind)
			return
		default:
			sys = fsx.WrapRoot[*osfs.File](k)
		}
	}
	wo := fsx.NewWorld(sys)
	g := gen(c, kids)
	if kids == 1 { // links may lead out of the directory
		g.Kinds = slices.DeleteFunc(g.Kinds, func(k string) bool { return k == "symlink" })
	}
	most := 0
	for range 60 {
		exec(c, wo, g.Next())
		most = max(most, len(wo.Files)+len(wo.Roots))
	}
	if kind != "overlay" {
		files := len(wo.Files)
		n := 0
		for _, l := range openUnder(base) {
			_ = l
			n++
		}
		want := files
		if kind != "sftp" && kind != "fs" {
			want += len(wo.Roots)
		}
		if n != want {
			c.Fail("R01:descriptors:"+kind+":count", "%d files and %d roots are open, descriptors %d", files, len(wo.Roots), n)
		}
	}
	wo.CloseAll()
	if kind == "sftp" {
		check(kind + " handles closed")
		sys.Close()
		after()
	} else {
		sys.Close()
	}
	check(kind + " closed")
	r.Count("descriptors/" + kind)
	r.CountN("descriptors/open at once, sum of maxima", most)
	r.Distinct(fmt.Sprint("descriptors", kind, c.Idx))
}

// ioRoot uses a root as io/fs, subs of subs included, and closes it all.
func ioRoot(c *rt.Case, f fs.FS) {
	open := []fs.FS{f}
	var files []fs.File
	for range 40 {
		f := open[c.IntN(len(open))]
		n := []string{".", "d", "e", "d/e", "a", "d/b", "l", "d/up", "d/loop", "nowhere", "../x", "d/e/big"}[c.IntN(12)]
		switch c.IntN(6) {
		case 0:
			fs.ReadFile(f, n)
		case 1:
			fs.ReadDir(f, n)
		case 2:
			fs.Stat(f, n)
		case 3:
			if s, err := fs.Sub(f, n); err == nil {
				open = append(open, s)
			}
		case 4:
			if h, err := f.Open(n); err == nil {
				files = append(files, h)
				if d, ok := h.(fs.ReadDirFile); ok {
					d.ReadDir(1)
				}
			}
		case 5:
			fs.WalkDir(f, n, func(string, fs.DirEntry, error) error { return nil })
		}
		c.R.Eval(1)
	}
	for _, h := range files {
		h.Close()
	}
	slices.Reverse(open)
	for _, f := range open {
		if k, ok := f.(io.Closer); ok {
			k.Close()
		}
	}
}
