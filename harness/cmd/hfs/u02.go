package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"math/rand/v2"
	"path"
	"syscall"

	"github.com/ngicks/go-fsys-helper/fsutil"
	"github.com/ngicks/go-fsys-helper/vroot"
	"verif/harness/fsx"
	"verif/harness/rt"
)

type rcOpt = fsutil.ResumableCopyOption[*fsx.Mon, vroot.File]

// version is one state of a remote object.
type version struct {
	etag string
	data []byte
}

func (v version) String() string {
	return fmt.Sprintf("%q len=%d %08x", v.etag, len(v.data), fsx.Sum(v.data))
}

var etags = []string{`"e0"`, `W/"e1"`, "sha256:00ff", `"e0"x`, "a b", `"é"`, "e0"}

// versions makes related contents: equal lengths, shared prefixes, empty ones.
func versions(c *rt.Case, n int, tagged bool) []version {
	var l []version
	for i := range n {
		var d []byte
		size := []int{0, 1, 7, 64, 200, 1000, 5000}[c.IntN(7)]
		if i > 0 && c.IntN(3) > 0 { // derived from an earlier one
			d = bytes.Clone(l[c.IntN(i)].data)
			switch c.IntN(3) {
			case 0: // longer
				d = append(d, bytes.Repeat([]byte{byte(i)}, 1+c.IntN(300))...)
			case 1: // shorter
				if len(d) > 0 {
					d = d[:c.IntN(len(d))]
				}
			}
			if len(d) > 0 {
				d[c.IntN(len(d))] ^= 0x55
			}
		} else {
			d = make([]byte, size)
			for k := range d {
				d[k] = byte(c.Uint32())
			}
		}
		v := version{data: d}
		if tagged {
			v.etag = etags[i]
		}
		l = append(l, v)
	}
	return l
}

// flaky is a source (or reader) which misbehaves as told.
type flaky struct {
	cur    func() version
	sized  bool
	behave []string // per open; healthy afterwards
	rnd    *rand.Rand
	hide   bool // does not tell the tag
	ctl    func(string)
	cancel func()
	opens  int
	open   int // not yet closed
}

type flakyBody struct {
	s      *flaky
	b      []byte
	limit  int // bytes until end, -1 none
	end    error
	style  int
	closed bool
}

func (f *flaky) Open(ctx context.Context, off int64) (io.ReadCloser, fsutil.ContentInfo, error) {
	if err := ctx.Err(); err != nil {
		return nil, fsutil.ContentInfo{}, err
	}
	b := "ok"
	if f.opens < len(f.behave) {
		b = f.behave[f.opens]
	}
	f.opens++
	if b == "next" { // the object changes before this open
		f.ctl("next")
		b = []string{"ok", "cut"}[f.rnd.IntN(2)]
	}
	if b == "openerr" {
		return nil, fsutil.ContentInfo{}, errUser
	}
	v := f.cur()
	info := fsutil.ContentInfo{ETag: v.etag, Size: -1}
	if f.hide {
		info.ETag = ""
	}
	if f.sized {
		info.Size = int64(len(v.data))
	}
	rest := v.data[min(int(off), len(v.data)):]
	body := &flakyBody{s: f, b: rest, end: io.EOF, style: f.rnd.IntN(4)}
	switch b {
	case "cut":
		body.b = rest[:f.rnd.IntN(len(rest)+1)]
		body.end = []error{errUser, io.ErrUnexpectedEOF, fmt.Errorf("broken: %w", io.EOF), syscall.ECONNRESET}[f.rnd.IntN(4)]
	case "eof":
		body.b = rest[:f.rnd.IntN(len(rest)+1)]
	case "over":
		body.b = append(bytes.Clone(rest), bytes.Repeat([]byte("!"), 1+f.rnd.IntN(50))...)
	case "cancel":
		body.b = rest[:f.rnd.IntN(len(rest)+1)]
		body.end = nil
	}
	f.open++
	return body, info, nil
}

func (b *flakyBody) Read(p []byte) (int, error) {
	if b.closed {
		return 0, errors.New("read after close")
	}
	if len(b.b) == 0 {
		if b.end == nil {
			b.s.cancel()
			return 0, context.Canceled
		}
		return 0, b.end
	}
	n := len(p)
	switch b.style {
	case 1:
		n = 1 + b.s.rnd.IntN(n)
	case 2:
		if b.s.rnd.IntN(4) == 0 {
			n = 0
		}
	}
	n = copy(p[:n], b.b)
	b.b = b.b[n:]
	if b.style == 3 && len(b.b) == 0 && b.end != nil {
		return n, b.end
	}
	return n, nil
}

func (b *flakyBody) Close() error {
	if !b.closed {
		b.closed = true
		b.s.open--
	}
	return nil
}

// faulty arms one fault (mode fault, dead, crash or torn) at step k of a Mon.
func faulty(m *fsx.Mon, mode string, k, kind int) (hit *string) {
	hit = new(string)
	if mode == "none" {
		return
	}
	m.Before = func(s fsx.Step) error {
		if s.I < k || s.I > k && mode != "dead" {
			return nil
		}
		*hit = s.Op
		switch mode {
		case "crash", "torn":
			m.Torn = mode == "torn"
			m.Kill()
			return fsx.ErrCrash
		}
		if s.Op == "close" { // what was not flushed is lost
			if st, err := s.File.Stat(); err == nil {
				_ = s.File.Truncate(st.Size() / 2)
			}
		}
		return fsx.Faulty(kind)
	}
	return
}

func rawFile(f fsx.FS, name string) (b []byte, ok bool, err error) {
	b, _, err = fsx.ReadFile(f, name)
	if errors.Is(err, fs.ErrNotExist) {
		return nil, false, nil
	}
	return b, err == nil, err
}

func pullCase(c *rt.Case, viaFs bool) {
	f := backend(c, backends[c.IntN(len(backends))])
	defer f.Close()
	c.Must(f.MkdirAll("d/e", 0o755))
	name := []string{"t", "d/t", "d/e/../t", "d/.part"}[c.IntN(4)]
	real := path.Clean(name)
	suffix := []string{"", "", ".tmp", "~"}[c.IntN(4)]
	sfx := suffix
	if sfx == "" {
		sfx = ".part"
	}
	part, side := real+sfx, real+sfx+".etag"
	c.Must(vroot.WriteFile(f, "d/sib", []byte("sibling"), 0o600))

	tagged := c.IntN(4) > 0
	vs := versions(c, 2+c.IntN(3), tagged)
	if !tagged {
		vs = vs[:1]
	}
	cur := 0
	sized := c.IntN(3) > 0
	src := &flaky{cur: func() version { return vs[cur] }, sized: sized, rnd: c.Rand}
	src.ctl = func(string) {
		if !src.hide {
			cur = c.IntN(len(vs))
		}
	}
	// a source which does not always tell the tag, nor is one asked for then
	hides := tagged && c.IntN(3) == 0
	if tagged && (hides && c.IntN(2) == 0 || c.IntN(6) == 0) { // died between removing the part and its tag
		c.Must(vroot.WriteFile(f, side, []byte(vs[c.IntN(len(vs))].etag), 0o644))
		c.R.Count("stale tags")
	}
	// the same for a source which is a file of a file system
	srcFS := mem()
	store := func() { c.Must(vroot.WriteFile(srcFS, "o", vs[cur].data, 0o644)) }
	c.Logf("pull %s versions %v sized %v tagged %v viaFs %v", name, vs, sized, tagged, viaFs)
	c.R.Distinct(fmt.Sprint(viaFs, tagged, sized, suffix, len(vs[0].data)))

	others := func() fsx.Tree {
		return fsx.Dump(fsx.Sys{FS: f}, fsx.DumpOpt{Skip: func(p string) bool { return p == real || p == part || p == side }})
	}
	before := others()
	n := 1 + c.IntN(8)
	const patience = 0
	for a := 0; a < n+3; a++ {
		healthy := a >= n
		if a == n { // from here on nothing fails; the destination must come
			if _, ok, _ := rawFile(f, real); ok {
				c.Must(f.Remove(real))
			}
		}
		old, had, err := rawFile(f, real)
		c.Must(err)
		ctx, cancel := context.WithCancel(context.Background())
		src.cancel = cancel
		src.opens, src.behave, src.open = 0, nil, 0
		mode, at := "none", 0
		exp := fsutil.ContentInfo{Size: -1}
		if hides {
			if src.hide {
				src.hide = c.IntN(2) == 0
			} else if _, ok, _ := rawFile(f, part); !ok {
				src.hide = c.IntN(2) == 0
			}
			if src.hide {
				c.R.Count("attempts without a tag")
			}
		}
		if !healthy && c.IntN(3) == 0 && !src.hide {
			cur = c.IntN(len(vs))
		}
		// a part which cannot be one: it is discarded, with what is known of it
		if b, ok, _ := rawFile(f, part); ok && !had && (sized || viaFs) && !hides && c.IntN(6) == 0 {
			most := 0
			for _, v := range vs {
				most = max(most, len(v.data))
			}
			c.Must(vroot.WriteFile(f, part, append(b, bytes.Repeat([]byte("#"), most+1)...), 0o644))
			c.R.Count("oversized parts")
		}
		want := vs[cur]
		if !healthy && c.IntN(8) == 0 {
			want = vs[c.IntN(len(vs))]
		}
		switch c.IntN(4) {
		case 0:
			exp = fsutil.ContentInfo{ETag: want.etag, Size: int64(len(want.data))}
		case 1:
			exp.ETag = want.etag
		case 2:
			exp.Size = int64(len(want.data))
		}
		if !tagged && exp.ETag == "" && c.IntN(3) == 0 {
			exp.ETag = "constant"
		}
		if hides {
			exp.ETag = ""
		}
		var hookFail bool
		if !healthy {
			for range c.IntN(4) {
				kinds := []string{"ok", "openerr", "cut", "cut", "next", "cancel"}
				if sized || viaFs || exp.Size >= 0 {
					kinds = append(kinds, "eof")
				}
				if sized {
					kinds = append(kinds, "over")
				}
				if viaFs {
					kinds = []string{"next"}
				}
				src.behave = append(src.behave, kinds[c.IntN(len(kinds))])
			}
			if c.IntN(2) == 0 {
				mode = []string{"fault", "dead", "crash", "torn"}[c.IntN(4)]
				at = 1 + c.IntN(14)
			}
			hookFail = c.IntN(8) == 0
			if c.IntN(12) == 0 {
				cancel()
			}
		}
		mon := fsx.NewMon(f)
		hit := faulty(mon, mode, at, c.IntN(16))
		acceptable := func(b []byte) bool {
			for _, v := range vs {
				if bytes.Equal(b, v.data) && (exp.Size < 0 || int64(len(v.data)) == exp.Size) &&
					(!tagged || exp.ETag == "" || exp.ETag == v.etag) {
					return true
				}
			}
			return false
		}
		bad := ""
		mon.After = func(s fsx.Step, _ error) {
			if !s.Mut || bad != "" {
				return
			}
			c.R.Count("instants observed")
			b, ok, err := rawFile(f, real)
			if err != nil || ok != had || !bytes.Equal(b, old) {
				if had || !ok || !acceptable(b) {
					bad = fmt.Sprintf("after %v the destination holds %d bytes (%v %v), had %v %d", s, len(b), ok, err, had, len(old))
				}
			}
		}
		opt := rcOpt{PartSuffix: suffix, BufSize: []int{0, 1, 16, 100}[c.IntN(4)]}
		hooks := 0
		for range c.IntN(3) {
			opt.PreCommitHooks = append(opt.PreCommitHooks, func(h vroot.File, p string) error {
				hooks++
				if path.Clean(p) != part {
					bad = fmt.Sprintf("hook got path %q", p)
				}
				b, err := io.ReadAll(io.NewSectionReader(h, 0, 1<<20))
				if err == nil && !acceptable(b) {
					bad = fmt.Sprintf("hook sees %d bytes which are no version", len(b))
				}
				if pos, err := h.Seek(0, io.SeekCurrent); err == nil && pos != 0 {
					bad = fmt.Sprintf("hook called at position %d", pos)
				}
				_, _ = h.Seek(int64(c.IntN(50)), io.SeekStart)
				if hookFail {
					return errUser
				}
				return nil
			})
		}
		hookFail = hookFail && len(opt.PreCommitHooks) > 0
		var s fsutil.ResumableSource = src
		var srcHit *string = new(string)
		var srcMon *fsx.Mon
		if viaFs {
			if len(src.behave) > 0 && !src.hide {
				cur = c.IntN(len(vs))
			}
			store()
			srcMon = fsx.NewMon(srcFS)
			if !healthy && c.IntN(3) == 0 {
				srcHit = faulty(srcMon, "fault", 1+c.IntN(6), c.IntN(16))
			}
			s = fsutil.NewFsSource[*fsx.Mon, vroot.File](srcMon, "o", map[bool]string{false: vs[cur].etag}[src.hide])
		}
		err = opt.Pull(ctx, mon, name, s, exp, []fs.FileMode{0o644, 0o600}[c.IntN(2)])
		cancel()
		c.R.Eval(1)
		c.Logf("attempt %d healthy %v: cur %v expect %+v behave %v %s@%d hit %q src %q hookFail %v -> %v", a, healthy, vs[cur], exp, src.behave, mode, at, *hit, *srcHit, hookFail, err)
		sig := func(k string) string { return "U02:" + k }
		if bad != "" {
			c.Fail(sig("instant"), "%s", bad)
			return
		}
		if src.open != 0 {
			c.Fail(sig("leak"), "%d source bodies not closed", src.open)
		}
		if l := mon.OpenHandles(); len(l) > 0 {
			c.Fail(sig("leak"), "handles not closed: %v", l)
		}
		if srcMon != nil {
			if l := srcMon.OpenHandles(); len(l) > 0 {
				c.Fail(sig("leak"), "source handles not closed: %v", l)
			}
		}
		now, has, rerr := rawFile(f, real)
		c.Must(rerr)
		crash := (mode == "crash" || mode == "torn") && *hit != ""
		if d := fsx.Diff(others(), before); d != "" {
			c.Fail(sig("others"), "other entries: %s", d)
			return
		}
		switch {
		case crash:
			c.R.Count("crashed in " + *hit)
			c.R.Count("crashed")
			if has != had || !bytes.Equal(now, old) {
				if had || !acceptable(now) {
					c.Fail(sig("crash"), "destination holds %d bytes after a crash", len(now))
				}
			}
		case err == nil:
			if !has {
				c.Fail(sig("success-absent"), "reported success, but there is no destination")
				return
			}
			if had {
				if !bytes.Equal(now, old) {
					c.Fail(sig("replaced"), "an existing destination was replaced")
				}
				if exp.Size >= 0 && int64(len(old)) != exp.Size {
					c.Fail(sig("size"), "existing destination of %d bytes taken for %d", len(old), exp.Size)
				}
				c.R.Count("already there")
				break
			}
			if !acceptable(now) {
				c.Fail(sig("mixed"), "destination holds %d bytes %08x which are no acceptable version", len(now), fsx.Sum(now))
				return
			}
			if hookFail {
				c.Fail(sig("hook"), "a failing hook was ignored")
			}
			if hooks != len(opt.PreCommitHooks) {
				c.Fail(sig("hook"), "%d of %d hooks ran", hooks, len(opt.PreCommitHooks))
			}
			if _, ok, _ := rawFile(f, part); ok {
				c.Fail(sig("part-left"), "the part file is still there")
			}
			if _, ok, _ := rawFile(f, side); ok && *hit != "remove" && mode != "dead" {
				c.Fail(sig("sidecar-left"), "the sidecar is still there")
			}
			c.R.Count("committed")
			if a > 0 {
				c.R.Count("committed after failures")
			}
		default:
			if has != had || !bytes.Equal(now, old) {
				c.Fail(sig("fail-touched"), "failed (%v), yet the destination changed", err)
				return
			}
			if _, ok, _ := rawFile(f, part); ok {
				c.R.Count("part left")
				if hookFail && errors.Is(err, errUser) && hooks > 0 && *hit == "" {
					c.Fail(sig("hook-part"), "a failing hook leaves the part")
				}
			}
			c.R.Count("failed")
		}
		if c.Failed() {
			return
		}
		if healthy {
			if err == nil {
				c.R.Count("healthy success")
				return
			}
			if a == n+patience {
				c.Fail(sig("stuck"), "%d attempts against a healthy source failed: %v", patience+1, err)
			}
			continue
		}
		if has && c.IntN(2) == 0 {
			c.Must(f.Remove(real))
		}
	}
}

var u02 = &rt.Check{ID: "U02", Level: "fault_enumeration",
	Rule: "histories of up to eight pulls into one destination on in-memory and OS-backed file systems, each with its own source behaviour (open error, cut with one of several errors, early and late end, hidden tag, cancellation, change to one of up to four versions before the first or second open), expectation (ETag, size, both, none, stale), failing or killing file-system call (torn writes too) and failing hooks; parts grown beyond any version; the destination is inspected after every mutating call; then a healthy source must succeed, at once if nothing failed; distinct by configuration",
	Run: func(r *rt.Run) {
		r.CasesPar("source", r.N(2500, 150000), 8, func(c *rt.Case) { pullCase(c, false) })
		r.CasesPar("fssource", r.N(700, 40000), 8, func(c *rt.Case) { pullCase(c, true) })
		r.Floor("instants observed", 10000)
		r.Floor("committed", 1000)
		r.Floor("committed after failures", 500)
		r.Floor("part left", 500)
		r.Floor("failed", 1000)
		r.Floor("stale tags", 300)
		r.Floor("attempts without a tag", 300)
		r.Floor("healthy success", 1500)
		r.Floor("crashed", 60)
		r.Soft("crashed in write", 30)
		r.Soft("crashed in create", 30)
		r.Soft("crashed in rename", 10)
	}}
