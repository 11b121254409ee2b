package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"math/rand/v2"
	"os"
	"path"
	"path/filepath"
	"strings"
	"sync"

	"github.com/ngicks/go-fsys-helper/fsutil"
	"github.com/ngicks/go-fsys-helper/vroot"
	"github.com/ngicks/go-fsys-helper/vroot/osfs"
	"verif/harness/fsx"
	"verif/harness/rt"
)

type (
	swOpt  = fsutil.SafeWriteOption[*fsx.Mon, vroot.File]
	swHook = func(f vroot.File, path string) error
)

var errUser = errors.New("user error")

// backend makes a fresh file system; osDir is its directory when OS-backed.
func backend(c *rt.Case, kind string) fsx.FS {
	switch kind {
	case "mem":
		return mem()
	case "osroot":
		return vroot.Widen[*osfs.File](osRoot(c, c.Dir()))
	default:
		return vroot.Widen[*osfs.File](osFs(c, c.Dir()))
	}
}

var backends = []string{"mem", "mem", "osroot", "osfs"}

// stateOf describes what a name holds.
func stateOf(f fsx.FS, name string) string {
	i, err := f.Lstat(name)
	if err != nil {
		return fsx.Class(err)
	}
	switch {
	case i.Mode()&fs.ModeSymlink != 0:
		l, _ := f.ReadLink(name)
		return "link " + l
	case i.IsDir():
		return fmt.Sprintf("dir %o\n%v", i.Mode().Perm(), fsx.DumpAt(fsx.Sys{FS: f}, filepath.Clean(name), fsx.DumpOpt{}))
	}
	b, i, err := fsx.ReadFile(f, name)
	if err != nil {
		return "unreadable " + err.Error()
	}
	return fmt.Sprintf("file %o len=%d %08x", i.Mode().Perm(), len(b), fsx.Sum(b))
}

type swCase struct {
	kind, name, old, policy, op string
	data                        []byte
	perm                        fs.FileMode
	chunk                       int
	ignoreClose, sync           bool
	hooks                       [4]int // pre, arg pre, arg post, post
	src                         string // of CopyFs
	seed                        uint64
	natural                     bool
}

func (w *swCase) String() string {
	return fmt.Sprintf("%s %s over %s at %q, policy %s, %d bytes by %d, perm %o, hooks %v, ignoreClose %v sync %v",
		w.op, w.kind, w.old, w.name, w.policy, len(w.data), w.chunk, w.perm, w.hooks, w.ignoreClose, w.sync)
}

var longName = strings.Repeat("あ", 80) + "name.txt" // 248 bytes

// run performs the safe write once. fault decides about every step; user
// names the hook ("hook:1") or reader that fails.
type swRun struct {
	f         fsx.FS
	mon       *fsx.Mon
	old, want string
	others    fsx.Tree
	err       error
	hooks     []string
	wantHooks []string
	steps     []fsx.Step
	bad       string
}

func (w *swCase) tempDir() string {
	if w.policy == "dir" {
		if w.seed%3 == 0 { // beside the target
			return path.Join(path.Dir(filepath.Clean(w.name)), "tmpdir")
		}
		return "tmpdir"
	}
	return path.Dir(filepath.Clean(w.name))
}

// others dumps all but the target, and but the (empty) temporary directory.
func (w *swCase) others(f fsx.FS) fsx.Tree {
	name := filepath.Clean(w.name)
	t := fsx.Dump(fsx.Sys{FS: f}, fsx.DumpOpt{Skip: func(p string) bool { return p == name }})
	if w.policy == "dir" {
		delete(t, w.tempDir())
	}
	return t
}

func (w *swCase) run(c *rt.Case, src fs.FS, before func(*swRun, fsx.Step) error, user string) *swRun {
	r := &swRun{f: backend(c, w.kind)}
	must := func(err error) { c.Must(err) }
	must(r.f.MkdirAll("d/e", 0o755))
	for _, n := range []string{"sib", "d/sib", "d/x.1234567890.tmp"} {
		must(vroot.WriteFile(r.f, n, []byte("sibling"), 0o644))
	}
	if w.policy == "dir" && w.seed%2 == 0 {
		must(r.f.Mkdir(w.tempDir(), 0o755))
		must(vroot.WriteFile(r.f, w.tempDir()+"/0000000001.tmp", []byte("other"), 0o644))
	}
	switch w.old {
	case "file":
		must(vroot.WriteFile(r.f, w.name, []byte("the previous content"), 0o640))
	case "big":
		must(vroot.WriteFile(r.f, w.name, bytes.Repeat([]byte("prev"), 30000), 0o600))
	case "link":
		must(r.f.Symlink("sib", filepath.Clean(w.name)))
	case "emptydir":
		must(r.f.Mkdir(filepath.Clean(w.name), 0o755))
	case "dir":
		must(r.f.Mkdir(filepath.Clean(w.name), 0o755))
		must(vroot.WriteFile(r.f, filepath.Clean(w.name)+"/x", []byte("x"), 0o644))
	}
	r.old = stateOf(r.f, w.name)
	r.others = w.others(r.f)
	if w.op == "copyfs" {
		r.want = w.src
	} else {
		r.want = fmt.Sprintf("file %o len=%d %08x", (w.perm.Perm()|0o200)&^0o022, len(w.data), fsx.Sum(w.data))
	}
	r.mon = fsx.NewMon(r.f)
	r.mon.Before = func(s fsx.Step) error {
		r.steps = append(r.steps, s)
		if before != nil {
			return before(r, s)
		}
		return nil
	}
	look := func(when string) {
		if r.bad != "" {
			return
		}
		if st := stateOf(r.f, w.name); st != r.old && st != r.want {
			r.bad = fmt.Sprintf("after %s the target holds %q, neither the old %q nor the new %q", when, st, r.old, r.want)
		}
		c.R.Count("instants observed")
	}
	r.mon.After = func(s fsx.Step, err error) {
		if s.Mut {
			look(s.String())
		}
	}

	var opt swOpt
	opt.IgnoreCloseErr = w.ignoreClose
	switch w.policy {
	case "dir":
		opt.TempFilePolicy = fsutil.NewTempFilePolicyDir[*fsx.Mon, vroot.File](w.tempDir())
	case "random":
		opt.TempFilePolicy = fsutil.NewTempFilePolicyRandom[*fsx.Mon, vroot.File]()
	}
	var args [2][]swHook
	for k := range 4 {
		for i := range w.hooks[k] {
			id := fmt.Sprintf("%d.%d", k, i)
			r.wantHooks = append(r.wantHooks, id)
			h := func(f vroot.File, name string) error {
				r.hooks = append(r.hooks, id)
				look("hook " + id)
				if name != w.name {
					r.bad = fmt.Sprintf("hook %s got path %q", id, name)
				}
				tmp := path.Join(w.tempDir(), filepath.Base(f.Name()))
				if k >= 2 && w.op != "copyfs" {
					if b, err := vroot.ReadFile(r.f, tmp); err != nil || !bytes.Equal(b, w.data) {
						r.bad = fmt.Sprintf("post hook %s sees %d bytes (%v) in %s, want %d", id, len(b), err, tmp, len(w.data))
					}
				}
				if user == "hook:"+id {
					return errUser
				}
				return nil
			}
			switch k {
			case 0:
				opt.PreHooks = append(opt.PreHooks, h)
			case 1:
				args[0] = append(args[0], h)
			case 2:
				args[1] = append(args[1], h)
			case 3:
				opt.PostHooks = append(opt.PostHooks, h)
			}
		}
	}
	if w.sync {
		opt.PostHooks = append(opt.PostHooks, fsutil.SyncHook[vroot.File])
	}
	switch w.op {
	case "write":
		r.err = opt.Write(r.mon, w.name, func(wr io.Writer) error {
			for o := 0; o < len(w.data); o += w.chunk {
				if user == "data" && o > len(w.data)/2 {
					return errUser
				}
				if _, err := wr.Write(w.data[o:min(len(w.data), o+w.chunk)]); err != nil {
					return err
				}
			}
			if user == "data" {
				return errUser
			}
			return nil
		}, w.perm, args[0], args[1])
	case "copy":
		var rd io.Reader = &chunkReader{b: w.data, n: w.chunk}
		if user == "data" {
			rd = io.MultiReader(&chunkReader{b: w.data[:len(w.data)/2], n: w.chunk}, errReader{})
		}
		r.err = opt.Copy(r.mon, w.name, rd, w.perm, args[0], args[1])
	case "copyfs":
		if user == "data" {
			src = failFS{src}
		}
		r.err = opt.CopyFs(r.mon, w.name, src, w.perm, args[0], args[1])
	}
	return r
}

type chunkReader struct {
	b []byte
	n int
}

func (r *chunkReader) Read(p []byte) (int, error) {
	if len(r.b) == 0 {
		return 0, io.EOF
	}
	n := copy(p[:min(len(p), r.n)], r.b)
	r.b = r.b[n:]
	return n, nil
}

type errReader struct{}

func (errReader) Read([]byte) (int, error) { return 0, errUser }

// failFS fails to open one regular file.
type failFS struct{ fs.FS }

func (f failFS) Open(n string) (fs.File, error) {
	if path.Base(n) == "last" {
		return nil, &fs.PathError{Op: "open", Path: n, Err: errUser}
	}
	return f.FS.Open(n)
}
func (f failFS) ReadLink(n string) (string, error)   { return fs.ReadLink(f.FS, n) }
func (f failFS) Lstat(n string) (fs.FileInfo, error) { return fs.Lstat(f.FS, n) }

// litter lists entries that were not there before.
func litter(got, want fsx.Tree) []string {
	var l []string
	for k := range got {
		if _, ok := want[k]; !ok {
			l = append(l, k)
		}
	}
	return l
}

// judge checks one finished run. injected: the step that failed (nil: none).
func (w *swCase) judge(c *rt.Case, r *swRun, injected *fsx.Step, mode, user string) {
	c.R.Eval(1)
	inj := "none"
	if injected != nil {
		inj = injected.Op
	}
	sig := func(k string) string { return "U01:" + k + ":" + w.op + ":" + mode + ":" + inj }
	det := func() string {
		return fmt.Sprintf("%v; %s injected at %v user %q; err=%v", w, mode, injected, user, r.err)
	}
	if r.bad != "" {
		c.Fail(sig("instant"), "%s; %s", r.bad, det())
		return
	}
	now := stateOf(r.f, w.name)
	oth := w.others(r.f)
	if mode == "crash" || mode == "torn" || mode == "dead" {
		if now != r.old && now != r.want {
			c.Fail(sig("crash"), "target holds %q, old %q new %q; %s", now, r.old, r.want, det())
		}
		for k, v := range r.others {
			if oth[k] != v {
				c.Fail(sig("crash-others"), "%s was %q, now %q; %s", k, v, oth[k], det())
			}
		}
		if mode == "dead" && r.err == nil {
			c.Fail(sig("swallowed"), "succeeded on a failing file system; %s", det())
		}
		return
	}
	benignClose := injected != nil && injected.Op == "close" && w.ignoreClose &&
		strings.HasSuffix(injected.Name, ".tmp")
	if r.err == nil {
		if injected != nil && !benignClose || user != "" {
			c.Fail(sig("swallowed"), "the failure was swallowed; %s", det())
		}
		if now != r.want {
			c.Fail(sig("success-state"), "target holds %q, want %q; %s", now, r.want, det())
		}
		if d := fsx.Diff(oth, r.others); d != "" {
			c.Fail(sig("success-others"), "other entries: %s; %s", d, det())
		}
		if fmt.Sprint(r.hooks) != fmt.Sprint(r.wantHooks) {
			c.Fail(sig("hooks"), "hooks ran %v, want %v; %s", r.hooks, r.wantHooks, det())
		}
		c.R.Count("succeeded")
		return
	}
	// it failed
	if now != r.old {
		c.Fail(sig("fail-target"), "failed, yet the target holds %q, was %q; %s", now, r.old, det())
	}
	d := fsx.Diff(oth, r.others)
	if injected != nil && injected.Op == "removeall" || mode == "noremove" {
		d = ""
		for k, v := range r.others {
			if oth[k] != v {
				d = k
			}
		}
	}
	if d != "" {
		k := "fail-others"
		if l := litter(oth, r.others); len(l) > 0 {
			k = "litter"
		}
		c.Fail(sig(k), "failed and left: %s; %s", d, det())
	}
	switch {
	case user != "":
		if !errors.Is(r.err, errUser) {
			c.Fail(sig("cause"), "the error lost its cause; %s", det())
		}
	case injected != nil:
		if !errors.Is(r.err, fsx.ErrFault) && !w.natural {
			c.Fail(sig("cause"), "the error lost its cause; %s", det())
		}
	default:
		if w.old != "dir" && w.old != "emptydir" && !(w.op == "copyfs" && r.old != "notexist") {
			c.Fail(sig("spurious"), "failed on a healthy file system; %s", det())
		}
	}
	c.R.Count("failed:" + mode + ":" + inj)
}

var u01 = &rt.Check{ID: "U01", Level: "fault_enumeration",
	Rule: "safe writes (Write, Copy, CopyFs) over absent, existing, linked and directory targets with both temp policies (temporary directories beside the target too) on in-memory and OS-backed file systems; the target is inspected after every mutating call and in every hook; each call of the history in turn fails in one of ten ways, fails together with the clean-up, kills the process (whole or torn writes) or starts a dead file system, as does each hook and the data source; racing writers with readers; distinct by configuration, mode and failing call",
	Run: func(r *rt.Run) {
		r.CasesPar("faults", r.N(130, 6000), 8, func(c *rt.Case) {
			w := &swCase{kind: backends[c.IntN(len(backends))], seed: c.Uint64()}
			w.name = []string{"t", "d/t", "d/e/t", "./d//t", "d/e/../t", longName, "d/" + longName, "t*x", "d/.hid", "x.1234567890.tmp", "a b\n", "t\xff"}[c.IntN(12)]
			w.old = []string{"absent", "absent", "file", "file", "big", "link", "emptydir", "dir"}[c.IntN(8)]
			w.policy = []string{"", "random", "dir", "dir"}[c.IntN(4)]
			w.op = []string{"write", "copy", "copyfs"}[c.IntN(3)]
			w.data = make([]byte, []int{0, 1, 100, 5000, 40000, 300000}[c.IntN(6)])
			for i := range w.data {
				w.data[i] = byte(c.Uint32())
			}
			w.chunk = max(1, len(w.data)/(1+c.IntN(4)))
			w.perm = []fs.FileMode{0o644, 0o600, 0o755, 0o444, 0o666, 0o400}[c.IntN(6)]
			w.ignoreClose, w.sync = c.IntN(2) == 0, c.IntN(2) == 0
			for k := range w.hooks {
				w.hooks[k] = c.IntN(3)
			}
			var src fs.FS
			if w.op == "copyfs" {
				w.perm = 0o755
				sd := c.Dir()
				ops := treeOps(c, []string{"a", "b"}, 2, 6, false)
				apply(osDirSys(sd), ops)
				os.Mkdir(sd+"/z", 0o755)
				c.Must(os.WriteFile(sd+"/z/last", w.data, 0o644))
				// writable, for else neither can it be moved to another parent
				// nor can a failed copy be removed
				c.Must(os.Chmod(sd, []fs.FileMode{0o755, 0o700, 0o775}[c.IntN(3)]))
				src = os.DirFS(sd)
				k, err := osfs.NewFs(filepath.Dir(sd))
				c.Must(err)
				w.src = stateOf(vroot.Widen[*osfs.File](k), filepath.Base(sd))
			}
			c.Logf("%v", w)
			base := w.run(c, src, nil, "")
			w.judge(c, base, nil, "none", "")
			c.R.Distinct(fmt.Sprint(w.kind, w.old, w.policy, w.op, w.hooks, len(base.steps)))
			if c.Failed() {
				return
			}
			base.f.Close()
			w.natural = base.err != nil // fails anyway: the target can not be replaced
			for k := 1; k <= len(base.steps); k++ {
				for _, mode := range []string{"fault", "noremove", "crash", "torn", "dead"} {
					var hit *fsx.Step
					kind := c.IntN(16)
					if mode == "torn" && base.steps[k-1].Op != "write" {
						continue
					}
					one := w.run(c, src, func(sr *swRun, s fsx.Step) error {
						switch {
						case s.I == k:
							hit = &s
							switch mode {
							case "crash", "torn":
								sr.mon.Torn = mode == "torn"
								sr.mon.Kill()
								return fsx.ErrCrash
							}
							return fsx.Faulty(kind)
						case s.I > k && mode == "dead":
							return fsx.ErrFault
						case s.I > k && mode == "noremove" && strings.HasPrefix(s.Op, "remove"):
							return fsx.ErrFault
						}
						return nil
					}, "")
					if hit == nil {
						one.f.Close()
						continue // shorter history this time (random collision)
					}
					w.judge(c, one, hit, mode, "")
					one.f.Close()
					c.R.Distinct(fmt.Sprint(w.kind, w.old, w.policy, w.op, mode, k, hit.Op))
				}
			}
			users := []string{"data"}
			for _, h := range base.wantHooks {
				users = append(users, "hook:"+h)
			}
			for _, u := range users {
				if u == "data" && w.op == "copyfs" && len(base.steps) == 0 {
					continue
				}
				one := w.run(c, src, nil, u)
				w.judge(c, one, nil, "user", u)
				one.f.Close()
			}
			if c.Idx < 2 {
				c.R.Sample("%v: %v", w, base.steps)
			}
		})
		r.CasesPar("racing", r.N(40, 500), 4, func(c *rt.Case) {
			f := backend(c, backends[c.IntN(len(backends))])
			defer f.Close()
			c.Must(f.Mkdir("d", 0o755))
			var opt fsutil.SafeWriteOption[fsx.FS, vroot.File]
			if c.IntN(2) == 0 {
				opt.TempFilePolicy = fsutil.NewTempFilePolicyDir[fsx.FS, vroot.File]("tmp")
				c.Must(f.Mkdir("tmp", 0o755))
			}
			content := func(id, n int) []byte {
				b := bytes.Repeat([]byte{byte(id), byte(n)}, 200+id*97+n)
				return fmt.Appendf(b, "%08x", fsx.Sum(b))
			}
			valid := func(b []byte) bool {
				if len(b) < 8 {
					return false
				}
				k := len(b) - 8
				return fmt.Sprintf("%08x", fsx.Sum(b[:k])) == string(b[k:])
			}
			var wg, rg sync.WaitGroup
			stop := make(chan struct{})
			c.Must(vroot.WriteFile(f, "d/t", content(99, 0), 0o644))
			for range 3 {
				c.Go(&rg, func() {
					for n := 0; ; n++ {
						select {
						case <-stop:
							return
						default:
						}
						b, _, err := fsx.ReadFile(f, "d/t")
						c.R.Eval(1)
						if err != nil || !valid(b) {
							c.Fail("U01:racing:read", "a reader saw %d bytes, %v", len(b), err)
							return
						}
						c.R.Count("racing reads")
					}
				})
			}
			for id := range 4 {
				seed := c.Uint64()
				c.Go(&wg, func() {
					rnd := rand.New(rand.NewPCG(seed, 1))
					for n := range 12 {
						data := content(id, n)
						err := opt.Copy(f, "d/t", &chunkReader{b: data, n: 1 + rnd.IntN(len(data))}, 0o644, nil, nil)
						if err != nil {
							c.Fail("U01:racing:write", "%v", err)
						}
					}
				})
			}
			wg.Wait()
			close(stop)
			rg.Wait()
			t := fsx.Dump(fsx.Sys{FS: f}, fsx.DumpOpt{})
			delete(t, "tmp")
			delete(t, "d")
			delete(t, "d/t")
			if len(t) > 0 {
				c.Fail("U01:racing:litter", "%v", t)
			}
		})
		r.Floor("instants observed", 8000)
		r.Floor("succeeded", 70)
		r.Soft("failed:fault:close", 20)
		r.Soft("failed:fault:write", 20)
		r.Soft("failed:fault:rename", 20)
		r.Soft("failed:fault:create", 20)
		r.Soft("failed:fault:mkdir", 20)
		r.Soft("failed:fault:chmod", 20)
		r.Floor("failed:user:none", 100)
		r.Floor("racing reads", 500)
	}}
