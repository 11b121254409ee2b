package main

import (
	"bytes"
	"fmt"
	"io"
	"io/fs"
	"math/rand/v2"
	"net"
	"os"
	"path"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/ngicks/go-fsys-helper/vroot"
	"github.com/ngicks/go-fsys-helper/vroot-adapter/sftpfs"
	"github.com/pkg/sftp"
	"verif/harness/fsx"
	"verif/harness/rt"
)

// link is a connection to a server of its own that can be cut.
type link struct {
	client *sftp.Client
	conn   net.Conn
	left   atomic.Int64 // bytes the client may still send or receive; <0: no limit
	limit  atomic.Bool
	cut    atomic.Bool
	done   chan struct{}
}

type limited struct {
	net.Conn
	l *link
}

func (c limited) take(n int) int {
	if !c.l.limit.Load() {
		return n
	}
	left := c.l.left.Add(-int64(n))
	if left >= 0 {
		return n
	}
	c.l.cut.Store(true)
	c.Conn.Close()
	return max(0, n+int(left))
}

func (c limited) Write(p []byte) (int, error) {
	if !c.l.limit.Load() {
		return c.Conn.Write(p)
	}
	left := c.l.left.Add(-int64(len(p)))
	if left >= 0 {
		return c.Conn.Write(p)
	}
	if k := len(p) + int(left); k > 0 && !c.l.cut.Load() {
		c.Conn.Write(p[:k])
	}
	c.l.cut.Store(true)
	c.Conn.Close()
	return 0, io.ErrClosedPipe
}

func (c limited) Read(p []byte) (int, error) {
	n, err := c.Conn.Read(p)
	if n > 0 {
		if k := c.take(n); k < n {
			return k, io.ErrUnexpectedEOF
		}
	}
	return n, err
}

func dial(c *rt.Case) *link {
	a, b := net.Pipe()
	srv, err := sftp.NewServer(b)
	c.Must(err)
	l := &link{conn: a, done: make(chan struct{})}
	go func() {
		srv.Serve()
		srv.Close()
		close(l.done)
	}()
	var opts []sftp.ClientOption
	if c.IntN(2) == 0 {
		opts = append(opts, sftp.UseConcurrentWrites(true))
	}
	if c.IntN(3) == 0 {
		opts = append(opts, sftp.UseConcurrentReads(false))
	}
	if c.IntN(3) == 0 {
		opts = append(opts, sftp.MaxPacketUnchecked(1<<c.IntN(10)+300))
	}
	cl, err := sftp.NewClientPipe(limited{a, l}, limited{a, l}, opts...)
	c.Must(err)
	l.client = cl
	return l
}

func (l *link) close() {
	l.conn.Close()
	l.client.Close()
	<-l.done
}

// site is a case's two trees: the remote one and the reference.
type site struct {
	l          *link
	fs         *sftpfs.SftpFs
	far, near  string // bases
	outA, outB string
	got, want  *fsx.World
}

func newSite(c *rt.Case) *site {
	s := &site{}
	mk := func(n string) string {
		d := filepath.Join(c.Dir(), n, "t/t/t/t/t/t/t/t") // links climb
		c.Must(os.MkdirAll(filepath.Join(d, "base"), 0o755))
		c.Must(os.MkdirAll(filepath.Join(d, "out"), 0o755))
		c.Must(os.WriteFile(filepath.Join(d, "out", "secret"), []byte("secret"), 0o644))
		c.Must(os.WriteFile(filepath.Join(d, "x"), []byte("outer x"), 0o644))
		return d
	}
	a, b := mk("far"), mk("near")
	s.far, s.near = filepath.Join(a, "base"), filepath.Join(b, "base")
	s.outA, s.outB = a, b
	s.l = dial(c)
	s.fs = sftpfs.New(s.l.client, c.IntN(2) == 0, s.far)
	s.got = fsx.NewWorld(fsx.Wrap[vroot.File](s.fs))
	s.want = fsx.NewWorld(fsx.Sys{FS: direct{s.near}})
	return s
}

func (s *site) close() {
	s.got.CloseAll()
	s.want.CloseAll()
	s.l.close()
}

// paths of all sorts, hostile ones among them.
func hostile(g *fsx.Gen) string {
	n := func() string { return g.Names[g.IntN(len(g.Names))] }
	d := n()
	for g.IntN(3) == 0 {
		d += "/" + n()
	}
	switch g.IntN(24) {
	case 0:
		return "../" + d
	case 1:
		return "/" + d
	case 2:
		return d + "/../../x"
	case 3:
		return d + "/../" + n()
	case 4:
		return d + "/."
	case 5:
		return "./" + d
	case 6:
		return d + "//" + n()
	case 7:
		return d + "/"
	case 8:
		return []string{".", "..", "/", "./", "a/..", "../base", "../base/" + d, "..a", "a/...", "../out/secret", "/etc/hostname", "//" + d}[g.IntN(12)]
	}
	return d
}

var targets = []string{"a", "b", "a/b", "../a", "../b", ".", "..", "../out", "../out/secret", "../x", "x", "a-", "./a", "../../out", "a/../b"}

// tolerances: what the protocol cannot tell.
func same(o fsx.Op, got, want fsx.Out) bool {
	g, w := got.Err, want.Err
	if g == w && (g == "ok" || g == "eof") {
		return true
	}
	fail := func(s string) bool { return s != "ok" && s != "eof" }
	if !fail(g) || !fail(w) {
		return false
	}
	// escapes are found before anything is asked
	if (g == "escape") != (w == "escape") {
		return false
	}
	// a missing name is told as such and nothing else is; one below a file is
	// not always told apart
	if g == "notexist" && w != "notexist" {
		return false
	}
	if w == "notexist" && g != "notexist" {
		return false
	}
	if w == "exist" && g != "exist" {
		switch o.K {
		case "mkdir", "create", "openfile", "symlink":
			return false
		}
	}
	return true
}

var p01 = &rt.Check{ID: "P01", Level: "exploration",
	Rule:        "random histories through sftpfs against an in-process SFTP server on a scratch directory, every outcome compared with package os on a twin directory and the trees compared as seen through the adapter, on disk, and around the base; listings in pages, rewound and shared between goroutines; transfers of many packets; connections cut after a random number of bytes; clients side by side; non-trivial = at least two operations succeeded (histories) or the cut hit an operation (cuts); distinct by outcome sequence, cut position and page pattern",
	Assumptions: []string{"the server is pkg/sftp's own, on the kernel", "symbolic links are the remote's to contain (documented), so targets leading out of the base are followed on both sides", "append handles write at the end they found (documented): only single appends are compared", "the process umask is zero, as the protocol has none"},
	CaseTimeout: 60 * time.Second,
	Run:         runP01}

func runP01(r *rt.Run) {
	syscall.Umask(0) // the protocol has none
	kinds := []string{}
	for _, k := range fsx.BasicKinds {
		if k != "hreaddir" {
			kinds = append(kinds, k)
		}
	}
	kinds = append(kinds, "appendfile", "removeall", "rename", "mkdirall", "openfile", "openfile")
	looseOps := map[string]bool{"rename": true, "link": true, "seek": true, "readlink": false}
	diff := func(part string, n, steps int, ks []string, modes []fs.FileMode, pth func(*fsx.Gen) string) {
		r.CasesPar(part, n, 8, func(c *rt.Case) {
			s := newSite(c)
			defer s.close()
			g := &fsx.Gen{Rand: c.Rand, Names: []string{"a", "b", "a-"}, Depth: 3, Kinds: ks, Handles: 4, Targets: targets, Modes: modes, Pth: pth, MaxData: 1 << c.IntN(14), Seconds: true}
			ok := fsx.Differential(c, s.got, s.want, g, fsx.DiffOpt{ID: "P01", Steps: steps, Every: 8, LooseOps: looseOps,
				Skip: func(w *fsx.World, o fsx.Op) bool {
					if f := w.Files[o.H]; f != nil {
						if i, err := f.Stat(); err == nil && i.IsDir() && (o.K == "seek" || o.K == "read" || o.K == "readat" || o.K == "truncate" || o.K == "sync" || o.K == "fchmod") {
							return true
						}
					}
					if o.K == "openfile" && (o.Flag&os.O_APPEND != 0 || o.Flag&os.O_CREATE == 0 && o.Flag&(os.O_EXCL|os.O_TRUNC) != 0) {
						return true
					}
					if o.K == "removeall" && cuttingItsWay(s.near, o.A) {
						r.Count("skipped: a removal of the links it goes through")
						return true
					}
					if o.K == "symlink" && o.A == "" {
						return true
					}
					if (o.K == "lchown") && fsx.Kind(w.Roots[0], o.A) == "link" {
						return true // documented: no such request
					}
					if (o.K == "write" || o.K == "writeat" || o.K == "writestring") && len(o.Data) == 0 {
						return true
					}
					if (o.K == "read" || o.K == "readat") && o.N == 0 {
						return true
					}
					return o.A == "" && o.K != "close" && w.Files[o.H] == nil
				},
				Continue: func(o fsx.Op, got, want fsx.Out) bool {
					return same(o, got, want) && (got.Val == want.Val || got.Err != "ok")
				}})
			if ok {
				// the disk itself, around the base too
				ga, gb := disk(c, s.outA), disk(c, s.outB)
				if d := fsx.Diff(ga, gb); d != "" {
					c.Fail("P01:"+part+":disk:"+fsx.DiffKind(ga, gb), "on disk: %s", d)
				}
			}
			r.Sample("%v", c.Log())
		})
	}
	fileModes := []fs.FileMode{0o755, 0o700, 0o711, 0o775, 0o777, 0o750}
	diff("ops", r.N(900, 20000), 40, kinds, fileModes, nil)
	diff("hostile", r.N(900, 20000), 30, kinds, fileModes, hostile)
	tree := strings.Fields(`mkdir mkdir mkdirall mkdirall remove removeall removeall rename rename writefile symlink symlink list lstat stat readfile`)
	diff("tree", r.N(600, 15000), 60, tree, fileModes, nil)
	r.CasesPar("locked", r.N(500, 10000), 8, func(c *rt.Case) { locked(r, c) })
	r.CasesPar("listing", r.N(300, 6000), 8, func(c *rt.Case) { listings(r, c) })
	r.CasesPar("bulk", r.N(150, 3000), 8, func(c *rt.Case) { bulk(r, c) })
	r.CasesPar("cut", r.N(700, 20000), 8, func(c *rt.Case) { cuts(r, c) })
	r.CasesPar("parallel", r.N(60, 1500), 4, func(c *rt.Case) { parallel(r, c) })
	r.Floor("effective-ops", 15000)
	r.Floor("cut:hit", 200)
	r.Floor("locked:left", 50)
	r.Floor("listing:pages", 500)
	r.Floor("listing:of what is gone", 500)
	r.Floor("appends", 500)
	r.Floor("bulk:bytes", 1<<20)
}

// cuttingItsWay tells whether the tree a name denotes holds a symbolic link the
// name goes through.
func cuttingItsWay(base, n string) bool {
	n = path.Clean(n)
	real := func(p string) string {
		q, err := filepath.EvalSymlinks(filepath.Join(base, p))
		if err != nil {
			return "?"
		}
		return q
	}
	t := path.Join(real(path.Dir(n)), path.Base(n))
	for d := path.Dir(n); d != "." && d != "/"; d = path.Dir(d) {
		if i, err := os.Lstat(filepath.Join(base, d)); err == nil && i.Mode()&fs.ModeSymlink != 0 {
			at := real(path.Dir(d))
			if at == t || strings.HasPrefix(at, t+"/") {
				return true
			}
		}
	}
	return false
}

// unlock makes a tree removable again.
func unlock(dir string) {
	filepath.WalkDir(dir, func(p string, d fs.DirEntry, err error) error {
		if d != nil && d.IsDir() {
			os.Chmod(p, 0o755)
			if err != nil {
				es, _ := os.ReadDir(p)
				for _, e := range es {
					if e.IsDir() {
						unlock(filepath.Join(p, e.Name()))
					}
				}
			}
		}
		return nil
	})
}

func disk(c *rt.Case, dir string) fsx.Tree {
	k, err := fsx.Kernel(dir)
	c.Must(err)
	defer k.Close()
	return fsx.Dump(k, fsx.DumpOpt{})
}

// locked: RemoveAll of trees parts of which may not be removed. What it says
// is gone is gone; what it leaves could not go.
func locked(r *rt.Run, c *rt.Case) {
	s := newSite(c)
	defer s.close()
	defer unlock(s.far)
	var dirs, all []string
	var fill func(d string, depth int)
	fill = func(d string, depth int) {
		c.Must(os.Mkdir(filepath.Join(s.far, d), 0o755))
		dirs = append(dirs, d)
		for i := range c.IntN(5) {
			p := path.Join(d, fmt.Sprintf("e%d", i))
			all = append(all, p)
			switch k := c.IntN(5); {
			case k < 2 && depth < 4:
				fill(p, depth+1)
			case k == 2:
				c.Must(os.Symlink(pick(c.Rand, "../../out", "../out/secret", "nowhere", ".", ".."), filepath.Join(s.far, p)))
			default:
				c.Must(os.WriteFile(filepath.Join(s.far, p), []byte(p), pick[fs.FileMode](c.Rand, 0o644, 0o444, 0)))
			}
		}
	}
	fill("t", 0)
	mode := map[string]fs.FileMode{}
	for i := len(dirs) - 1; i >= 0; i-- {
		mode[dirs[i]] = 0o755
		if c.IntN(6) == 0 {
			mode[dirs[i]] = pick[fs.FileMode](c.Rand, 0o555, 0o444, 0o311, 0o111, 0o700, 0o333)
		}
		c.Must(os.Chmod(filepath.Join(s.far, dirs[i]), mode[dirs[i]]))
	}
	err := s.fs.RemoveAll("t")
	// how many are left is settled with everything opened up
	unlock(s.far)
	_, lerr := os.Lstat(filepath.Join(s.far, "t"))
	gone := os.IsNotExist(lerr)
	c.Logf("%d entries, modes %v: %v, gone=%v", len(all), mode, err, gone)
	r.Eval(1)
	r.Distinct(fmt.Sprint("locked", mode))
	if (err == nil) != gone {
		c.Fail("P01:locked:result", "RemoveAll = %v, but gone=%v", err, gone)
		return
	}
	if !gone {
		r.Count("locked:left")
	}
	// an entry may stay only for a reason
	reason := map[string]bool{}
	for i := len(all) - 1; i >= -1; i-- {
		p := "t"
		if i >= 0 {
			p = all[i]
		}
		if _, err := os.Lstat(filepath.Join(s.far, p)); err != nil {
			continue
		}
		ok := reason[p]
		for d := path.Dir(p); d != "."; d = path.Dir(d) {
			// no way in, no way to change it, or no way to see what is in it
			ok = ok || mode[d]&0o100 == 0 || d == path.Dir(p) && mode[d]&0o300 != 0o300 || mode[d]&0o400 == 0
		}
		if !ok {
			c.Fail("P01:locked:left", "RemoveAll (%v) left %s, which could be removed", err, p)
			return
		}
		for d := path.Dir(p); d != "."; d = path.Dir(d) {
			reason[d] = true
		}
	}
	for _, p := range []string{"out/secret", "x"} {
		if _, err := os.Stat(filepath.Join(s.outA, p)); err != nil {
			c.Fail("P01:locked:outside", "%v", err)
		}
	}
}

func pick[T any](r *rand.Rand, xs ...T) T { return xs[r.IntN(len(xs))] }

// listings: every entry exactly once, in pages, again after a rewind, sorted
// by the helpers, and shared between goroutines.
func listings(r *rt.Run, c *rt.Case) {
	s := newSite(c)
	defer s.close()
	n := c.IntN(40)
	if c.IntN(4) == 0 {
		n = 100 + c.IntN(300)
	}
	var want []string
	for i := range n {
		nm := fmt.Sprintf("%c%x", 'a'+rune(c.IntN(26)), i)
		want = append(want, nm)
		p := filepath.Join(s.far, "d", nm)
		c.Must(os.MkdirAll(filepath.Join(s.far, "d"), 0o755))
		switch c.IntN(3) {
		case 0:
			c.Must(os.Mkdir(p, 0o755))
		case 1:
			c.Must(os.WriteFile(p, []byte(nm), 0o644))
		case 2:
			c.Must(os.Symlink("elsewhere", p))
		}
	}
	c.Must(os.MkdirAll(filepath.Join(s.far, "d"), 0o755))
	sort.Strings(want)
	check := func(what string, got []string, sorted bool) bool {
		r.Eval(1)
		if !sorted {
			got = append([]string{}, got...)
			sort.Strings(got)
		}
		if strings.Join(got, ",") != strings.Join(want, ",") {
			c.Fail("P01:listing:"+what, "%s lists %d entries %.200v, want %d", what, len(got), got, len(want))
			return false
		}
		return true
	}
	names := func(es []fs.DirEntry) (l []string) {
		for _, e := range es {
			l = append(l, e.Name())
			i, err := e.Info()
			w, werr := os.Lstat(filepath.Join(s.far, "d", e.Name()))
			if err != nil || werr == nil && (i.Mode() != w.Mode() || e.Type() != w.Mode().Type() || e.IsDir() != w.IsDir() || i.Name() != e.Name() || w.Mode().IsRegular() && i.Size() != w.Size() || i.ModTime().Unix() != w.ModTime().Unix()) {
				c.Fail("P01:listing:info", "entry %s: %v %v, want %v", e.Name(), i, err, w)
			}
		}
		return
	}
	es, err := vroot.ReadDir[vroot.File](s.fs, "d")
	if err != nil {
		c.Fail("P01:listing:readdir", "vroot.ReadDir: %v", err)
		return
	}
	if !check("vroot.ReadDir", names(es), true) {
		return
	}
	es, err = s.fs.ReadDir("d")
	if err != nil {
		c.Fail("P01:listing:readdir", "ReadDir: %v", err)
		return
	}
	if !check("ReadDir", names(es), true) {
		return
	}
	var walked []string
	err = vroot.WalkDir[vroot.File](s.fs, "d", nil, func(p, _ string, d fs.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if p != "d" {
			walked = append(walked, path.Base(p))
		}
		return nil
	})
	if err != nil || !check("WalkDir", walked, false) {
		c.Fail("P01:listing:walk", "%v", err)
		return
	}
	f, err := s.fs.Open("d")
	c.Must(err)
	defer f.Close()
	for round := range 3 {
		var got []string
		pat := ""
		for steps := 0; ; steps++ {
			k := 1 + c.IntN(10)
			if c.IntN(6) == 0 {
				k = c.IntN(2) - 1
			}
			var page []string
			var err error
			switch c.IntN(3) {
			case 0:
				var es []fs.DirEntry
				es, err = f.ReadDir(k)
				page = names(es)
			case 1:
				page, err = f.Readdirnames(k)
			case 2:
				var is []fs.FileInfo
				is, err = f.Readdir(k)
				for _, i := range is {
					page = append(page, i.Name())
				}
			}
			r.Count("listing:pages")
			pat += fmt.Sprint(k, len(page), err, ";")
			got = append(got, page...)
			left := n - len(got)
			if k > 0 && (len(page) > k || len(page) == 0 && err != io.EOF || len(page) > 0 && err != nil) || k <= 0 && (err != nil || left != 0) || left < 0 || err == io.EOF && left != 0 {
				c.Fail("P01:listing:page", "page of %d: %d entries, %v; %d of %d so far (round %d)", k, len(page), err, len(got), n, round)
				return
			}
			if err == io.EOF || k <= 0 && c.IntN(2) == 0 {
				break
			}
			if steps > 5*n+100 {
				c.Fail("P01:listing:endless", "no end after %d pages", steps)
				return
			}
		}
		if !check("pages", got, false) {
			return
		}
		r.Distinct("listing" + pat)
		if p, err := f.Seek(0, io.SeekStart); p != 0 || err != nil {
			c.Fail("P01:listing:rewind", "Seek(0,0) of a directory: %d, %v", p, err)
			return
		}
		if c.IntN(2) == 0 { // rewound means afresh
			nm := fmt.Sprintf("new%d", round)
			c.Must(os.WriteFile(filepath.Join(s.far, "d", nm), nil, 0o644))
			want = append(want, nm)
			sort.Strings(want)
			n++
		}
	}
	// several goroutines share the handle
	h, err := s.fs.Open("d")
	c.Must(err)
	var wg sync.WaitGroup
	parts := make([][]string, 4)
	for i := range parts {
		rnd := rand.New(rand.NewPCG(c.Uint64(), 1))
		c.Go(&wg, func() {
			for {
				l, err := h.Readdirnames(1 + rnd.IntN(5))
				parts[i] = append(parts[i], l...)
				if err != nil {
					return
				}
			}
		})
	}
	wg.Wait()
	var all []string
	for _, p := range parts {
		all = append(all, p...)
	}
	check("shared handle", all, false)
	// a closed handle lists nothing
	h, err = s.fs.Open("d")
	c.Must(err)
	c.Must(h.Close())
	if l, err := h.ReadDir(-1); err == nil {
		c.Fail("P01:listing:closed", "a closed handle lists %d entries", len(l))
	}
	// what cannot be listed stays so
	c.Must(os.Mkdir(filepath.Join(s.far, "gone"), 0o755))
	h, err = s.fs.Open("gone")
	c.Must(err)
	c.Must(os.Remove(filepath.Join(s.far, "gone")))
	failed := false
	for i := range 4 {
		var l int
		var err error
		switch c.IntN(3) {
		case 0:
			var es []fs.DirEntry
			es, err = h.ReadDir(c.IntN(3) - 1)
			l = len(es)
		case 1:
			var es []string
			es, err = h.Readdirnames(c.IntN(3) - 1)
			l = len(es)
		default:
			var es []fs.FileInfo
			es, err = h.Readdir(c.IntN(3) - 1)
			l = len(es)
		}
		r.Eval(1)
		r.Count("listing:of what is gone")
		if err != nil && err != io.EOF {
			failed = true
		} else if failed || l > 0 {
			c.Fail("P01:listing:gone", "a directory which could not be listed lists %d entries, %v (call %d)", l, err, i)
			break
		}
	}
	h.Close()
	appends(r, c, s)
	// neither does a file
	c.Must(os.WriteFile(filepath.Join(s.far, "file"), []byte("x"), 0o644))
	h, err = s.fs.Open("file")
	c.Must(err)
	if l, err := h.ReadDir(-1); err == nil {
		c.Fail("P01:listing:file", "a file lists %d entries", len(l))
	}
	h.Close()
}

// appends: a handle opened for appending writes at the end there is, whatever
// else it was opened for.
func appends(r *rt.Run, c *rt.Case, s *site) {
	var want []byte
	exists := c.IntN(3) > 0
	if exists {
		want = make([]byte, c.IntN(100))
		fill(c.Rand, want)
		c.Must(os.WriteFile(filepath.Join(s.far, "log"), want, 0o644))
	}
	for i := range 2 + c.IntN(4) {
		flag := os.O_APPEND | pick(c.Rand, os.O_WRONLY, os.O_RDWR) | pick(c.Rand, 0, os.O_CREATE, os.O_CREATE)
		if !exists {
			flag |= os.O_CREATE
		}
		if c.IntN(8) == 0 {
			flag |= os.O_TRUNC | os.O_CREATE
			want = nil
		}
		f, err := s.fs.OpenFile("log", flag, 0o644)
		r.Eval(1)
		r.Count("appends")
		if err != nil {
			c.Fail("P01:append:open", "OpenFile with flags %#x: %v", flag, err)
			return
		}
		exists = true
		for range 1 + c.IntN(3) {
			b := make([]byte, c.IntN(70)+1)
			fill(c.Rand, b)
			if n, err := f.Write(b); n != len(b) || err != nil {
				c.Fail("P01:append:write", "Write of %d: %d, %v", len(b), n, err)
				return
			}
			want = append(want, b...)
		}
		if err := f.Close(); err != nil {
			c.Fail("P01:append:close", "%v", err)
			return
		}
		if got, err := os.ReadFile(filepath.Join(s.far, "log")); err != nil || !bytes.Equal(got, want) {
			c.Fail("P01:append:content", "after appending with flags %#x (round %d): %d bytes %.20q, %v; want %d %.20q", flag, i, len(got), got, err, len(want), want)
			return
		}
	}
}

// bulk: transfers of many packets against a byte model.
func bulk(r *rt.Run, c *rt.Case) {
	s := newSite(c)
	defer s.close()
	f, err := s.fs.OpenFile("f", os.O_RDWR|os.O_CREATE, 0o644)
	c.Must(err)
	defer f.Close()
	var m []byte
	pos := 0
	rnd := func(n int) []byte {
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(c.Uint32())
		}
		return b
	}
	size := func() int { return 1 + c.IntN(1<<(4+c.IntN(14))) }
	for i := range 25 {
		r.Eval(1)
		switch k := c.IntN(8); k {
		case 0, 1:
			b := rnd(size())
			off := pos
			var n int
			var err error
			if k == 0 {
				n, err = f.Write(b)
				pos += len(b)
			} else {
				off = c.IntN(len(m) + 2000)
				n, err = f.WriteAt(b, int64(off))
			}
			if n != len(b) || err != nil {
				c.Fail("P01:bulk:write", "step %d: %d of %d, %v", i, n, len(b), err)
				return
			}
			if off+n > len(m) {
				m = append(m, make([]byte, off+n-len(m))...)
			}
			copy(m[off:], b)
			r.CountN("bulk:bytes", n)
		case 2, 3, 4:
			off := c.IntN(len(m) + 100)
			buf := make([]byte, size())
			var n int
			var err error
			if k == 2 {
				off = pos
				n, err = io.ReadFull(f, buf)
				if err == io.ErrUnexpectedEOF {
					err = io.EOF
				}
				pos += n
			} else {
				n, err = f.ReadAt(buf, int64(off))
			}
			var w []byte
			if off < len(m) {
				w = m[off:min(len(m), off+len(buf))]
			}
			if n != len(w) || !bytes.Equal(buf[:n], w) || n < len(buf) && err != io.EOF || n == len(buf) && err != nil && err != io.EOF {
				c.Fail("P01:bulk:read", "step %d: read of %d at %d of %d: %d, %v, equal=%v", i, len(buf), off, len(m), n, err, n == len(w) && bytes.Equal(buf[:n], w))
				return
			}
			r.CountN("bulk:bytes", n)
		case 5:
			n := c.IntN(len(m) + 5000)
			if err := f.Truncate(int64(n)); err != nil {
				c.Fail("P01:bulk:truncate", "%v", err)
				return
			}
			m = append(m[:min(n, len(m)):min(n, len(m))], make([]byte, max(0, n-len(m)))...)
		case 6:
			w := c.IntN(3)
			to := c.IntN(len(m) + 100)
			off := int64(to)
			if w == 1 {
				off -= int64(pos)
			} else if w == 2 {
				off -= int64(len(m))
			}
			p, err := f.Seek(off, w)
			if err != nil || int(p) != to {
				c.Fail("P01:bulk:seek", "Seek(%d,%d) at %d of %d: %d, %v", off, w, pos, len(m), p, err)
				return
			}
			pos = to
		case 7:
			if err := f.Sync(); err != nil {
				c.Fail("P01:bulk:sync", "%v", err)
				return
			}
			if i, err := f.Stat(); err != nil || i.Size() != int64(len(m)) {
				c.Fail("P01:bulk:stat", "%v %v, want size %d", i, err, len(m))
				return
			}
		}
	}
	b, err := os.ReadFile(filepath.Join(s.far, "f"))
	if err != nil || !bytes.Equal(b, m) {
		c.Fail("P01:bulk:content", "on disk %d bytes, want %d (%v)", len(b), len(m), err)
	}
	g, err := vroot.ReadFile[vroot.File](s.fs, "f")
	if err != nil || !bytes.Equal(g, m) {
		c.Fail("P01:bulk:readfile", "ReadFile: %d bytes, want %d (%v)", len(g), len(m), err)
	}
}

// cuts: the connection breaks somewhere; what succeeded has happened, what
// comes later fails and says nothing about names.
func cuts(r *rt.Run, c *rt.Case) {
	s := newSite(c)
	defer s.close()
	g := &fsx.Gen{Rand: c.Rand, Names: []string{"a", "b", "a-"}, Depth: 3, Handles: 0, Modes: []fs.FileMode{0o755, 0o777, 0o700}, MaxData: 200,
		Kinds: strings.Fields(`mkdir mkdirall mkdirall writefile writefile appendfile remove removeall removeall rename chmod stat lstat list readfile`)}
	pre := g.IntN(25)
	var broken *fsx.Op
	for i := range pre + 30 {
		o := g.Next()
		if i == pre {
			s.l.left.Store(int64(c.IntN(1 + c.IntN(3000))))
			s.l.limit.Store(true)
			c.Logf("cut after %d bytes", s.l.left.Load())
		}
		before := s.l.cut.Load()
		got := s.got.Exec(o)
		after := s.l.cut.Load()
		c.Logf("%v = %v", o, got)
		r.Eval(1)
		if before {
			if got.Err == "ok" || got.Err == "eof" || got.Err == "notexist" || got.Err == "exist" {
				c.Fail("P01:cut:"+o.K+":"+got.Err, "%v = %v on a dead connection", o, got)
				return
			}
			continue
		}
		ok := got.Err == "ok"
		if after && broken == nil {
			broken = &o
			r.Count("cut:hit")
			r.Distinct(fmt.Sprint("cut", o.K, got.Err, s.l.left.Load()))
			if got.Err == "notexist" {
				// the answer may have arrived before the cut
				if w := s.want.Exec(o); w.Err != "notexist" {
					c.Fail("P01:cut:"+o.K+":notexist", "%v = %v as the connection broke, but %v", o, got, w)
					return
				}
				continue
			}
			if !ok {
				continue // in doubt
			}
		}
		w := s.want.Exec(o)
		if (w.Err == "ok") != ok || ok && w.Val != got.Val {
			c.Fail("P01:cut:"+o.K+":"+got.Err+"/"+w.Err, "%v = %v, want %v", o, got, w)
			return
		}
	}
	s.l.conn.Close()
	<-s.l.done // the server has stopped working
	ta, tb := disk(c, s.far), disk(c, s.near)
	if broken != nil {
		for _, t := range []fsx.Tree{ta, tb} {
			for k := range t {
				for _, p := range []string{broken.A, broken.B} {
					// MkdirAll may have made any of the parents
					if p != "" && (k == p || strings.HasPrefix(k, p+"/") || broken.K == "mkdirall" && strings.HasPrefix(p, k+"/")) {
						delete(t, k)
					}
				}
			}
		}
	}
	r.Eval(1)
	if d := fsx.Diff(ta, tb); d != "" {
		c.Fail("P01:cut:tree", "after the cut (%v in doubt): %s", broken, d)
	}
}

// parallel: clients side by side, each in a directory of its own, over one
// adapter.
func parallel(r *rt.Run, c *rt.Case) {
	s := newSite(c)
	defer s.close()
	var wg sync.WaitGroup
	kinds := strings.Fields(`mkdir mkdirall writefile appendfile remove removeall rename chmod stat lstat list readfile create open read write writeat readat seek close truncate fstat`)
	for i := range 3 {
		d := fmt.Sprintf("w%d", i)
		c.Must(os.Mkdir(filepath.Join(s.far, d), 0o755))
		c.Must(os.Mkdir(filepath.Join(s.near, d), 0o755))
		rnd := rand.New(rand.NewPCG(c.Uint64(), uint64(i)))
		lc := c.Local(rnd)
		got, want := fsx.NewWorld(s.got.Roots[0]), fsx.NewWorld(s.want.Roots[0])
		g := &fsx.Gen{Rand: rnd, Names: []string{"a", "b"}, Depth: 2, Kinds: kinds, Handles: 3, Modes: []fs.FileMode{0o755, 0o777}, MaxData: 3000}
		defer func() { c.Merge(lc) }()
		c.Go(&wg, func() {
			defer got.CloseAll()
			defer want.CloseAll()
			for range 40 {
				o := g.Next()
				if o.A != "" {
					o.A = path.Join(d, o.A)
				}
				if o.B != "" {
					o.B = path.Join(d, o.B)
				}
				if f := want.Files[o.H]; f != nil {
					if i, err := f.Stat(); err == nil && i.IsDir() {
						f.Close()
						got.Files[o.H].Close()
						delete(want.Files, o.H)
						delete(got.Files, o.H)
					}
				}
				if (o.K == "write" || o.K == "writeat") && len(o.Data) == 0 || (o.K == "read" || o.K == "readat") && o.N == 0 {
					continue
				}
				w := want.Exec(o)
				if w.Err == "" {
					continue
				}
				gt := got.Exec(o)
				lc.Logf("%v = %v", o, gt)
				r.Eval(1)
				if (gt.Err == "ok") != (w.Err == "ok") || w.Err == "ok" && gt.Val != w.Val {
					lc.Fail("P01:parallel:"+o.K, "worker %d: %v = %v, want %v", i, o, gt, w)
					return
				}
			}
		})
	}
	wg.Wait()
	ta, tb := disk(c, s.far), disk(c, s.near)
	if d := fsx.Diff(ta, tb); d != "" {
		c.Fail("P01:parallel:tree", "%s", d)
	}
}

func fill(r *rand.Rand, b []byte) {
	for i := range b {
		b[i] = byte('a' + r.IntN(26))
	}
}
