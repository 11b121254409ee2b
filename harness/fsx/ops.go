package fsx

import (
	"errors"
	"fmt"
	"io"
	"io/fs"
	"math/rand/v2"
	"os"
	"sort"
	"strings"
	"time"

	"github.com/ngicks/go-fsys-helper/vroot"
)

// Op is one operation of a history.
type Op struct {
	K    string
	R    int // root slot
	A, B string
	Flag int
	Perm fs.FileMode
	H    int // handle slot
	Off  int64
	N    int
	Data []byte
	T    time.Time
}

func flagStr(f int) string {
	s := []string{"RDONLY", "WRONLY", "RDWR", "?"}[f&3]
	for _, x := range []struct {
		f int
		n string
	}{{os.O_CREATE, "CREATE"}, {os.O_EXCL, "EXCL"}, {os.O_TRUNC, "TRUNC"}, {os.O_APPEND, "APPEND"}} {
		if f&x.f != 0 {
			s += "|" + x.n
		}
	}
	return s
}

func (o Op) String() string {
	r := ""
	if o.R > 0 {
		r = fmt.Sprintf("r%d.", o.R)
	}
	switch o.K {
	case "openfile":
		return fmt.Sprintf("%sopenfile(%q,%s,%o)->h%d", r, o.A, flagStr(o.Flag), o.Perm, o.H)
	case "open", "create":
		return fmt.Sprintf("%s%s(%q)->h%d", r, o.K, o.A, o.H)
	case "mkdir", "mkdirall", "chmod":
		return fmt.Sprintf("%s%s(%q,%o)", r, o.K, o.A, o.Perm)
	case "rename", "link", "symlink":
		return fmt.Sprintf("%s%s(%q,%q)", r, o.K, o.A, o.B)
	case "openroot":
		return fmt.Sprintf("%sopenroot(%q)->r%d", r, o.A, o.H)
	case "closeroot":
		return fmt.Sprintf("r%d.closeroot", o.R)
	case "chtimes":
		return fmt.Sprintf("%schtimes(%q,%v)%s", r, o.A, o.T.Unix(), []string{"", " atime left", " mtime left", " both left"}[o.N&3])
	case "write", "writestring":
		return fmt.Sprintf("h%d.%s(%d bytes %x)", o.H, o.K, len(o.Data), head(o.Data))
	case "writeat":
		return fmt.Sprintf("h%d.writeat(%d bytes %x,%d)", o.H, len(o.Data), head(o.Data), o.Off)
	case "read", "hreaddir":
		return fmt.Sprintf("h%d.%s(%d)", o.H, o.K, o.N)
	case "readat":
		return fmt.Sprintf("h%d.readat(%d,%d)", o.H, o.N, o.Off)
	case "seek":
		return fmt.Sprintf("h%d.seek(%d,%d)", o.H, o.Off, o.N)
	case "truncate":
		return fmt.Sprintf("h%d.truncate(%d)", o.H, o.Off)
	case "fchmod":
		return fmt.Sprintf("h%d.chmod(%o)", o.H, o.Perm)
	case "fstat", "close", "sync", "hname":
		return fmt.Sprintf("h%d.%s", o.H, o.K)
	}
	return fmt.Sprintf("%s%s(%q)", r, o.K, o.A)
}

func head(b []byte) []byte { return b[:min(len(b), 4)] }

// Out is what an operation was observed to do.
type Out struct {
	Err string
	Val string
	Raw error
	Pth string // path(s) the error carries
}

func (o Out) String() string {
	s := o.Err
	if o.Val != "" {
		s += " " + o.Val
	}
	if o.Raw != nil {
		s += fmt.Sprintf(" [%v]", o.Raw)
	}
	return s
}

// World is a system under a history: roots and open handles.
type World struct {
	Roots map[int]Sys
	Files map[int]vroot.File
}

func NewWorld(s Sys) *World {
	return &World{Roots: map[int]Sys{0: s}, Files: map[int]vroot.File{}}
}

// CloseAll closes the handles.
func (w *World) CloseAll() {
	for _, f := range w.Files {
		f.Close()
	}
	w.Files = map[int]vroot.File{}
	for i, r := range w.Roots {
		if i != 0 {
			r.Close()
		}
	}
}

// Info renders the comparable part of a FileInfo. Directory sizes are left
// out: they are up to the file system.
func Info(i fs.FileInfo, err error) (string, error) {
	if err != nil {
		return "", err
	}
	s := fmt.Sprintf("%s %v", i.Name(), i.Mode())
	if i.Mode().IsRegular() {
		s += fmt.Sprintf(" %d", i.Size())
	}
	if i.IsDir() != i.Mode().IsDir() {
		s += " isdir-mismatch"
	}
	return s, nil
}

func ReadN(rd func([]byte) (int, error), n int) ([]byte, error) {
	buf := make([]byte, n)
	got := 0
	for {
		k, err := rd(buf[got:])
		if k < 0 || k > len(buf)-got {
			return nil, fmt.Errorf("Read returned n=%d for a buffer of %d", k, len(buf)-got)
		}
		got += k
		if err != nil || got == n {
			if got == n && err == io.EOF && n > 0 {
				err = nil
			}
			return buf[:got], err
		}
		if k == 0 {
			return buf[:got], errors.New("Read returned 0, nil")
		}
	}
}

func listing(es []fs.DirEntry, err error) (string, error) {
	var s []string
	for _, e := range es {
		i, ierr := Info(e.Info())
		s = append(s, fmt.Sprintf("%s:%v:%s%s", e.Name(), e.Type(), i, Class(ierr)))
	}
	sort.Strings(s)
	return strings.Join(s, ","), err
}

// Exec performs one operation.
func (w *World) Exec(o Op) (out Out) {
	var err error
	set := func(v string, e error) { out.Val, err = v, e }
	ran := true
	defer func() {
		if !ran {
			out = Out{}
			return
		}
		out.Raw = err
		out.Err = Class(err)
		if err != nil && err != io.EOF {
			var pe *fs.PathError
			var le *os.LinkError
			if errors.As(err, &pe) {
				out.Pth = pe.Path
			} else if errors.As(err, &le) {
				out.Pth = le.Old + " -> " + le.New
			} else {
				out.Pth = "(no path error)"
			}
		}
	}()
	s, ok := w.Roots[o.R]
	if !ok {
		ran = false
		return
	}
	openH := func(f vroot.File, e error) {
		err = e
		if e == nil {
			if f == nil {
				out.Val = "nil file"
				return
			}
			if old := w.Files[o.H]; old != nil {
				old.Close()
			}
			w.Files[o.H] = f
		} else if f != nil {
			// a typed nil is as bad
			out.Val = "non-nil file with an error"
		}
	}
	switch o.K {
	case "mkdir":
		err = s.Mkdir(o.A, o.Perm)
	case "mkdirall":
		err = s.MkdirAll(o.A, o.Perm)
	case "remove":
		err = s.Remove(o.A)
	case "removeall":
		err = s.RemoveAll(o.A)
	case "rename":
		err = s.Rename(o.A, o.B)
	case "link":
		err = s.Link(o.A, o.B)
	case "symlink":
		err = s.Symlink(o.A, o.B)
	case "readlink":
		set(s.ReadLink(o.A))
	case "stat":
		set(Info(s.Stat(o.A)))
	case "lstat":
		set(Info(s.Lstat(o.A)))
	case "chmod":
		err = s.Chmod(o.A, o.Perm)
	case "chown":
		err = s.Chown(o.A, -1, -1)
	case "lchown":
		err = s.Lchown(o.A, -1, -1)
	case "chtimes":
		at, mt := o.T, o.T
		if o.N&1 != 0 {
			at = time.Time{}
		}
		if o.N&2 != 0 {
			mt = time.Time{}
		}
		err = s.Chtimes(o.A, at, mt)
		if err == nil && o.N&2 == 0 {
			if i, e := s.Stat(o.A); e != nil || !i.ModTime().Equal(o.T) {
				out.Val = fmt.Sprintf("mtime afterwards: %v %v", i, e)
			}
		}
	case "list":
		var f vroot.File
		f, err = s.Open(o.A)
		if err == nil {
			set(listing(f.ReadDir(-1)))
			f.Close()
		}
	case "readfile":
		var f vroot.File
		f, err = s.Open(o.A)
		if err == nil {
			var b []byte
			b, err = io.ReadAll(onlyReader{f})
			out.Val = fmt.Sprintf("%d:%x", len(b), Sum(b))
			f.Close()
		}
	case "writefile":
		var f vroot.File
		f, err = s.OpenFile(o.A, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, o.Perm)
		if err == nil {
			_, err = f.Write(o.Data)
			if e := f.Close(); err == nil {
				err = e
			}
		}
	case "appendfile":
		var f vroot.File
		f, err = s.OpenFile(o.A, os.O_WRONLY|os.O_CREATE|os.O_APPEND, o.Perm)
		if err == nil {
			_, err = f.Write(o.Data)
			if e := f.Close(); err == nil {
				err = e
			}
		}
	case "create":
		openH(s.Create(o.A))
	case "open":
		openH(s.Open(o.A))
	case "openfile":
		openH(s.OpenFile(o.A, o.Flag, o.Perm))
	case "openroot":
		if s.Sub == nil {
			ran = false
			return
		}
		var sub Sys
		sub, err = s.Sub(o.A)
		if err == nil {
			if old, ok := w.Roots[o.H]; ok {
				old.Close()
			}
			w.Roots[o.H] = sub
		}
	case "closeroot":
		if o.R != 0 {
			err = s.Close()
			delete(w.Roots, o.R)
		}
	default:
		f := w.Files[o.H]
		if f == nil {
			ran = false
			return
		}
		var n int
		switch o.K {
		case "close":
			err = f.Close()
		case "read":
			var b []byte
			b, err = ReadN(f.Read, o.N)
			out.Val = fmt.Sprintf("%d:%x", len(b), Sum(b))
		case "readat":
			var b = make([]byte, o.N)
			n, err = f.ReadAt(b, o.Off)
			if n < 0 || n > o.N {
				out.Val = fmt.Sprintf("n=%d of %d", n, o.N)
				break
			}
			if n == o.N && err == io.EOF {
				err = nil
			}
			out.Val = fmt.Sprintf("%d:%x", n, Sum(b[:n]))
		case "write":
			n, err = f.Write(o.Data)
			out.Val = fmt.Sprint(n)
		case "writestring":
			n, err = f.WriteString(string(o.Data))
			out.Val = fmt.Sprint(n)
		case "writeat":
			n, err = f.WriteAt(o.Data, o.Off)
			out.Val = fmt.Sprint(n)
		case "seek":
			var p int64
			if i, e := f.Stat(); e == nil && i.IsDir() {
				o.Off, o.N = 0, 0 // the rest is up to the file system
			}
			p, err = f.Seek(o.Off, o.N)
			if err == nil {
				out.Val = fmt.Sprint(p)
			}
		case "truncate":
			err = f.Truncate(o.Off)
		case "fstat":
			set(Info(f.Stat()))
		case "fchmod":
			err = f.Chmod(o.Perm)
		case "sync":
			err = f.Sync()
		case "hreaddir":
			set(listing(f.ReadDir(-1)))
		case "hrewind":
			_, err = f.Seek(0, io.SeekStart)
		default:
			panic("unknown op " + o.K)
		}
	}
	return out
}

type onlyReader struct{ r io.Reader }

func (o onlyReader) Read(p []byte) (int, error) { return o.r.Read(p) }

// Sum is a short content hash.
func Sum(b []byte) uint32 {
	h := uint32(2166136261)
	for _, c := range b {
		h = (h ^ uint32(c)) * 16777619
	}
	return h
}

// Gen generates operations.
type Gen struct {
	*rand.Rand
	Names   []string // path components
	Depth   int
	Kinds   []string // drawn uniformly (repeat to weight)
	Handles int
	Roots   int // root slots
	Targets []string
	Modes   []fs.FileMode
	MaxData int
	Seconds bool                // whole seconds only
	Omit    bool                // chtimes leaves either time as it is
	Pth     func(g *Gen) string // overrides path generation
}

// BasicKinds is the ordinary mix.
var BasicKinds = strings.Fields(`mkdir mkdir mkdir mkdirall mkdirall create create open open openfile openfile openfile openfile
 remove remove removeall rename rename rename rename link link symlink symlink symlink readlink stat stat lstat lstat
 chmod chtimes list list readfile readfile writefile writefile writefile
 read read readat write write writeat writestring seek seek truncate fstat fstat fchmod close close hreaddir`)

func (g *Gen) Path() string {
	if g.Pth != nil {
		return g.Pth(g)
	}
	d := 1 + g.IntN(g.Depth)
	if d > 2 && g.IntN(2) == 0 {
		d--
	}
	var s []string
	for i := 0; i < d; i++ {
		s = append(s, g.Names[g.IntN(len(g.Names))])
	}
	return strings.Join(s, "/")
}

func (g *Gen) target() string {
	if len(g.Targets) > 0 && g.IntN(2) == 0 {
		return g.Targets[g.IntN(len(g.Targets))]
	}
	t := g.Path()
	for i := 0; i < 4 && g.IntN(3) == 0; i++ {
		t = "../" + t
	}
	return t
}

func (g *Gen) Bytes() []byte {
	m := g.MaxData
	if m == 0 {
		m = 40
	}
	n := g.IntN(m)
	if g.IntN(6) == 0 {
		n = 0
	}
	b := make([]byte, n)
	for i := range b {
		b[i] = byte('a' + g.IntN(26))
	}
	return b
}

func (g *Gen) mode(dir bool) fs.FileMode {
	if len(g.Modes) > 0 {
		return g.Modes[g.IntN(len(g.Modes))]
	}
	return []fs.FileMode{0o755, 0o777, 0o700, 0o750, 0o711}[g.IntN(5)]
}

func (g *Gen) Next() Op {
	o := Op{K: g.Kinds[g.IntN(len(g.Kinds))]}
	if g.Roots > 1 {
		o.R = g.IntN(g.Roots)
	}
	if g.Handles > 0 {
		o.H = g.IntN(g.Handles)
	}
	o.A = g.Path()
	switch o.K {
	case "close", "read", "readat", "write", "writeat", "writestring", "seek", "truncate", "fstat", "fchmod", "sync", "hreaddir", "hrewind":
		o.R = 0
	}
	switch o.K {
	case "rename", "link":
		o.B = g.Path()
		if g.IntN(12) == 0 {
			o.B = o.A
		}
		if g.IntN(8) == 0 {
			o.B = o.A + "/" + g.Names[0]
		}
	case "symlink":
		o.A, o.B = g.target(), o.A
	case "mkdir", "mkdirall":
		o.Perm = g.mode(true)
	case "chmod", "fchmod":
		o.Perm = g.mode(false)
	case "writefile", "appendfile":
		o.Perm = 0o644 | g.mode(false)&0o111
		o.Data = g.Bytes()
	case "openfile":
		o.Flag = g.IntN(3)
		for _, f := range []int{os.O_CREATE, os.O_EXCL, os.O_TRUNC, os.O_APPEND} {
			if g.IntN(3) == 0 || f == os.O_CREATE && g.IntN(2) == 0 {
				o.Flag |= f
			}
		}
		if o.Flag&3 == os.O_RDONLY {
			o.Flag &^= os.O_TRUNC | os.O_APPEND // unspecified
		}
		if o.Flag&os.O_CREATE == 0 {
			o.Flag &^= os.O_EXCL
		}
		o.Perm = 0o600 | g.mode(false)
	case "read", "hreaddir":
		o.N = 1 + g.IntN(30)
	case "readat":
		o.N, o.Off = 1+g.IntN(30), int64(g.IntN(50))
	case "write", "writestring":
		o.Data = g.Bytes()
	case "writeat":
		o.Data, o.Off = append(g.Bytes(), 'x'), int64(g.IntN(60))
	case "seek":
		o.N, o.Off = g.IntN(3), int64(g.IntN(60)-20)
	case "truncate":
		o.Off = int64(g.IntN(60))
		if g.IntN(15) == 0 {
			o.Off = -1
		}
	case "chtimes":
		o.T = time.Unix(1600000000+int64(g.IntN(1000000)), int64(g.IntN(1000))*1000000)
		if g.Seconds {
			o.T = o.T.Truncate(time.Second)
		}
		if g.Omit && g.IntN(3) == 0 {
			o.N = g.IntN(3)
		}
	case "openroot":
		o.H = 1 + g.IntN(max(1, g.Roots-1))
	}
	return o
}

// Precondition classes a path in a system for signatures: what the operation
// met there.
func Kind(s Sys, name string) string {
	i, err := s.Lstat(name)
	switch {
	case err != nil:
		return Class(err)
	case i.Mode()&fs.ModeSymlink != 0:
		t, err := s.Stat(name)
		if err != nil {
			return "link-" + Class(err)
		}
		if t.IsDir() {
			return "link-dir"
		}
		return "link-file"
	case i.IsDir():
		f, err := s.Open(name)
		if err != nil {
			return "dir"
		}
		defer f.Close()
		if l, _ := f.Readdirnames(-1); len(l) == 0 {
			return "emptydir"
		}
		return "dir"
	}
	return "file"
}

// NewGenBytes is up to max random letters.
func NewGenBytes(r *rand.Rand, max int) []byte { return (&Gen{Rand: r, MaxData: max}).Bytes() }
