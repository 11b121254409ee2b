package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"path"

	"github.com/ngicks/go-fsys-helper/fsutil"
	"github.com/ngicks/go-fsys-helper/vroot"
	"verif/harness/fsx"
	"verif/harness/rt"
)

// modelSink is a sink in memory that checks what it is told.
type modelSink struct {
	c         *rt.Case
	part      []byte
	etag      string
	has, done bool
	final     []byte

	behave map[string]string
	bad    string
	log    []string
}

func (m *modelSink) State(context.Context) (fsutil.SinkState, error) {
	m.log = append(m.log, "state")
	if m.behave["state"] == "err" {
		return fsutil.SinkState{}, errUser
	}
	if m.done {
		return fsutil.SinkState{Offset: int64(len(m.final)), Complete: true}, nil
	}
	return fsutil.SinkState{Offset: int64(len(m.part)), ETag: m.etag}, nil
}

func (m *modelSink) Append(ctx context.Context, info fsutil.ContentInfo, off int64, r io.Reader) error {
	m.log = append(m.log, fmt.Sprintf("append@%d of %d", off, info.Size))
	if m.done {
		m.bad = "append to a committed sink"
	}
	if off < 0 || off > int64(len(m.part)) {
		m.bad = fmt.Sprintf("append at %d onto %d bytes", off, len(m.part))
		return errUser
	}
	if m.behave["append"] == "early" {
		return errUser
	}
	m.part, m.etag, m.has = m.part[:off:off], info.ETag, true
	limit := -1
	if m.behave["append"] == "cut" {
		limit = m.c.IntN(int(info.Size-off) + 1)
	}
	buf := make([]byte, 1+m.c.IntN(200))
	for {
		p := buf
		if limit >= 0 {
			p = p[:min(len(p), limit)]
		}
		if len(p) == 0 {
			return errUser
		}
		n, err := r.Read(p)
		m.part = append(m.part, p[:n]...)
		if limit >= 0 {
			limit -= n
		}
		if err == io.EOF {
			break
		}
		if err != nil {
			return err
		}
		if int64(len(m.part)) > info.Size {
			m.bad = fmt.Sprintf("%d bytes for a declared size of %d", len(m.part), info.Size)
			return errUser
		}
	}
	if m.behave["append"] == "late" {
		return errUser
	}
	return nil
}

func (m *modelSink) Commit(context.Context) error {
	m.log = append(m.log, "commit")
	if m.behave["commit"] == "before" {
		return errUser
	}
	if !m.done {
		if !m.has {
			m.bad = "commit of nothing"
			return errUser
		}
		m.final, m.done, m.part, m.etag, m.has = m.part, true, nil, "", false
	}
	if m.behave["commit"] == "after" {
		return errUser
	}
	return nil
}

func pushCase(c *rt.Case, model bool) {
	f := backend(c, backends[c.IntN(len(backends))])
	defer f.Close()
	c.Must(f.MkdirAll("d/e", 0o755))
	name := []string{"t", "d/t", "d/e/../t", "d/.part"}[c.IntN(4)]
	real := path.Clean(name)
	suffix := []string{"", "", ".tmp", "~"}[c.IntN(4)]
	sfx := suffix
	if sfx == "" {
		sfx = ".part"
	}
	part, side := real+sfx, real+sfx+".etag"
	c.Must(vroot.WriteFile(f, "d/sib", []byte("sibling"), 0o600))
	tagged := c.IntN(4) > 0
	vs := versions(c, 4, tagged)
	if !tagged {
		vs = vs[:1]
	}
	cur := 0
	local := mem()
	put := func(v version) {
		c.Must(vroot.WriteFile(local, "new", v.data, 0o644))
		c.Must(local.Rename("new", "o"))
	}
	ms := &modelSink{c: c}
	final := func() ([]byte, bool) {
		if model {
			return ms.final, ms.done
		}
		b, ok, err := rawFile(f, real)
		c.Must(err)
		return b, ok
	}
	drop := func() {
		if model {
			ms.final, ms.done = nil, false
			return
		}
		c.Must(f.Remove(real))
	}
	others := func() fsx.Tree {
		return fsx.Dump(fsx.Sys{FS: f}, fsx.DumpOpt{Skip: func(p string) bool { return p == real || p == part || p == side }})
	}
	if junk := len(vs[0].data) + 1 + c.IntN(300); !tagged && c.IntN(3) == 0 {
		// leftovers of something longer, of which nothing is known
		ms.part, ms.has = bytes.Repeat([]byte("J"), junk), true
		c.Must(vroot.WriteFile(f, part, ms.part, 0o644))
		c.R.Count("oversized parts")
	} else if tagged && c.IntN(3) == 0 {
		// the tag was lost, or is of another version
		v := vs[c.IntN(len(vs))]
		ms.part, ms.has, ms.etag = bytes.Clone(v.data), true, v.etag
		c.Must(vroot.WriteFile(f, part, ms.part, 0o644))
		c.Must(vroot.WriteFile(f, side, []byte(v.etag), 0o644))
	}
	before := others()
	c.Logf("push to %s (model %v) versions %v tagged %v", name, model, vs, tagged)
	c.R.Distinct(fmt.Sprint(model, tagged, suffix, len(vs[0].data)))
	n := 1 + c.IntN(8)
	for a := 0; a < n+3; a++ {
		healthy := a >= n
		old, had := final()
		if a == n && had {
			drop()
			old, had = nil, false
		}
		if !healthy && c.IntN(2) == 0 {
			cur = c.IntN(len(vs))
		}
		v := vs[cur]
		put(v)
		info := fsutil.ContentInfo{ETag: v.etag, Size: -1}
		if c.IntN(2) == 0 {
			info.Size = int64(len(v.data))
		}
		wrong := !healthy && c.IntN(15) == 0
		if wrong {
			info.Size = int64(len(v.data)) + int64([]int{1, 9}[c.IntN(2)])
		}
		ctx, cancel := context.WithCancel(context.Background())
		lm := fsx.NewMon(local)
		lmode, lat, lhit := "none", 0, ""
		shrunk := false
		if !healthy && c.IntN(3) == 0 {
			lmode = []string{"fault", "shrink", "replace", "grow", "cancel"}[c.IntN(5)]
			if !tagged && lmode != "fault" && lmode != "cancel" {
				lmode = "fault"
			}
			lat = 1 + c.IntN(8)
		}
		lm.Before = func(s fsx.Step) error {
			if lmode == "none" || lhit != "" || s.I < lat {
				return nil
			}
			// what is pushed is settled with the first read only
			if (lmode == "shrink" || lmode == "grow") && s.Op != "read" {
				return nil
			}
			lhit = s.Op
			switch lmode {
			case "fault":
				return fsx.ErrFault
			case "cancel":
				cancel()
			case "replace": // by another version, atomically
				if lat > 1 {
					put(vs[(cur+1)%len(vs)])
				}
			case "grow":
				if h, err := local.OpenFile("o", 1|1024, 0); err == nil {
					_, _ = h.Write([]byte("tail"))
					h.Close()
				}
			case "shrink":
				if len(v.data) > 0 {
					h, err := local.OpenFile("o", 1, 0)
					c.Must(err)
					c.Must(h.Truncate(int64(c.IntN(len(v.data)))))
					h.Close()
					shrunk = true
				}
			}
			return nil
		}
		mode, at := "none", 0
		ms.behave, ms.bad, ms.log = map[string]string{}, "", nil
		var sink fsutil.ResumableSink = ms
		mon := fsx.NewMon(f)
		bad := ""
		hit := new(string)
		if model {
			if !healthy {
				if c.IntN(6) == 0 {
					ms.behave["state"] = "err"
				}
				ms.behave["append"] = []string{"", "", "cut", "cut", "early", "late"}[c.IntN(6)]
				ms.behave["commit"] = []string{"", "", "", "before", "after"}[c.IntN(5)]
			}
		} else {
			if !healthy && c.IntN(2) == 0 {
				mode = []string{"fault", "dead", "crash", "torn"}[c.IntN(4)]
				at = 1 + c.IntN(14)
			}
			hit = faulty(mon, mode, at, c.IntN(16))
			mon.After = func(s fsx.Step, _ error) {
				if !s.Mut || bad != "" {
					return
				}
				c.R.Count("instants observed")
				b, ok := final()
				if ok != had || !bytes.Equal(b, old) {
					if had || !ok || !bytes.Equal(b, v.data) {
						bad = fmt.Sprintf("after %v the sink holds %d bytes (%v), had %v %d", s, len(b), ok, had, len(old))
					}
				}
			}
			k := fsutil.NewFsSink[*fsx.Mon, vroot.File](mon, name, 0o644)
			k.PartSuffix = suffix
			sink = k
		}
		opt := fsutil.ResumableCopyOption[*fsx.Mon, vroot.File]{}
		err := opt.Push(ctx, lm, "o", sink, info)
		cancel()
		c.R.Eval(1)
		c.Logf("attempt %d healthy %v: %v info %+v local %s@%d hit %q; sink %s@%d hit %q %v %v -> %v", a, healthy, v, info, lmode, lat, lhit, mode, at, *hit, ms.behave, ms.log, err)
		sig := func(k string) string { return fmt.Sprintf("U03:%s", k) }
		if bad == "" {
			bad = ms.bad
		}
		if bad != "" {
			c.Fail(sig("instant"), "%s", bad)
			return
		}
		if l := append(mon.OpenHandles(), lm.OpenHandles()...); len(l) > 0 {
			c.Fail(sig("leak"), "handles not closed: %v", l)
		}
		if d := fsx.Diff(others(), before); d != "" {
			c.Fail(sig("others"), "other entries: %s", d)
			return
		}
		now, has := final()
		crash := (mode == "crash" || mode == "torn") && *hit != ""
		late := ms.behave["commit"] == "after"
		switch {
		case crash:
			c.R.Count("crashed in " + *hit)
			c.R.Count("crashed")
			if (has != had || !bytes.Equal(now, old)) && (had || !bytes.Equal(now, v.data)) {
				c.Fail(sig("crash"), "%d bytes committed after a crash, which are not what was pushed", len(now))
			}
		case err == nil:
			if wrong {
				c.Fail(sig("wrong-size"), "pushed a file of %d bytes as one of %d", len(v.data), info.Size)
			}
			if !has {
				c.Fail(sig("success-absent"), "reported success, but nothing is committed")
				return
			}
			if had {
				if !bytes.Equal(now, old) {
					c.Fail(sig("replaced"), "committed content was replaced")
				}
				c.R.Count("already there")
				break
			}
			ok := bytes.Equal(now, v.data)
			if lmode == "replace" && lhit == "open" { // not yet opened
				ok = ok || bytes.Equal(now, vs[(cur+1)%len(vs)].data)
			}
			if !ok {
				c.Fail(sig("mixed"), "%d bytes %08x committed, pushed %v (local %s at %s, shrunk %v)", len(now), fsx.Sum(now), v, lmode, lhit, shrunk)
				return
			}
			if !model {
				if _, ok, _ := rawFile(f, part); ok {
					c.Fail(sig("part-left"), "the part file is still there")
				}
			}
			c.R.Count("committed")
			if a > 0 {
				c.R.Count("committed after failures")
			}
			if len(v.data) == 0 {
				c.R.Count("committed empty")
			}
		default:
			if (has != had || !bytes.Equal(now, old)) && !(model && late && !had && bytes.Equal(now, v.data)) {
				c.Fail(sig("fail-touched"), "failed (%v), yet the committed content changed to %d bytes", err, len(now))
				return
			}
			if shrunk {
				c.R.Count("shrunk reported")
			}
			c.R.Count("failed")
		}
		if c.Failed() {
			return
		}
		if healthy {
			if err == nil {
				c.R.Count("healthy success")
				return
			}
			if *hit == "" || a == n+2 {
				c.Fail(sig("stuck"), "pushing to a healthy sink failed: %v", err)
			}
			continue
		}
		if shrunk || lmode == "grow" {
			// what is there now is no version of ours
			c.Must(local.Remove("o"))
		}
		if has && c.IntN(2) == 0 {
			drop()
		}
	}
}

// sinkDirect drives an FsSink by hand and compares it with a model.
func sinkDirect(c *rt.Case) {
	f := backend(c, backends[c.IntN(len(backends))])
	defer f.Close()
	k := fsutil.NewFsSink[fsx.FS, vroot.File](f, "t", 0o644)
	var part, final []byte
	hasPart, hasFinal, etag := false, false, ""
	ctx := context.Background()
	for range 3 + c.IntN(12) {
		c.R.Eval(1)
		switch c.IntN(5) {
		case 0, 1:
			data := bytes.Repeat([]byte{byte('a' + c.IntN(20))}, c.IntN(30))
			off := []int{0, len(part), c.IntN(len(part) + 3)}[c.IntN(3)]
			tag := []string{"", "x", "y"}[c.IntN(3)]
			fail := c.IntN(4) == 0
			var rd io.Reader = &chunkReader{b: data, n: 1 + c.IntN(10)}
			if fail {
				rd = io.MultiReader(rd, errReader{})
			}
			err := k.Append(ctx, fsutil.ContentInfo{ETag: tag, Size: int64(off + len(data))}, int64(off), rd)
			c.Logf("append %d bytes at %d of %d tag %q fail %v -> %v", len(data), off, len(part), tag, fail, err)
			if off > len(part) {
				if !errors.Is(err, fsutil.ErrSizeMismatch) {
					c.Fail("U03:direct:gap", "append at %d onto %d bytes: %v", off, len(part), err)
					return
				}
				if !hasPart { // documented shape: the empty part may have been made
					if i, err := f.Stat("t.part"); err == nil {
						hasPart = true
						if i.Size() != 0 {
							c.Fail("U03:direct:gap", "refused append left %d bytes", i.Size())
						}
					}
				}
				break
			}
			if fail != errors.Is(err, errUser) || !fail && err != nil {
				c.Fail("U03:direct:append", "append: %v, failing reader %v", err, fail)
				return
			}
			part = append(part[:off:off], data...)
			hasPart = true
			if tag != "" || off == 0 {
				etag = tag
			}
			c.R.Count("direct appends")
		case 2, 3:
			st, err := k.State(ctx)
			want := fsutil.SinkState{}
			switch {
			case hasFinal:
				want = fsutil.SinkState{Offset: int64(len(final)), Complete: true}
			case hasPart:
				want = fsutil.SinkState{Offset: int64(len(part)), ETag: etag}
			}
			if err != nil || st != want {
				c.Fail("U03:direct:state", "State = %+v, %v; want %+v", st, err, want)
				return
			}
			c.R.Count("direct states")
		case 4:
			err := k.Commit(ctx)
			c.Logf("commit -> %v", err)
			switch {
			case hasFinal, hasPart:
				if err != nil {
					c.Fail("U03:direct:commit", "%v", err)
					return
				}
				if !hasFinal {
					final, hasFinal = part, true
				}
				part, hasPart, etag = nil, false, ""
			case err == nil || !errors.Is(err, fs.ErrNotExist):
				c.Fail("U03:direct:commit", "commit of nothing: %v", err)
				return
			}
			b, ok, _ := rawFile(f, "t")
			if ok != hasFinal || !bytes.Equal(b, final) {
				c.Fail("U03:direct:final", "%d bytes committed (%v), want %d", len(b), ok, len(final))
				return
			}
			for _, n := range []string{"t.part", "t.part.etag"} {
				if _, ok, _ := rawFile(f, n); ok && hasFinal {
					c.Fail("U03:direct:left", "%s is left after commit", n)
				}
			}
			if c.IntN(3) == 0 && hasFinal {
				c.Must(f.Remove("t"))
				final, hasFinal = nil, false
			}
			c.R.Count("direct commits")
		}
	}
}

var u03 = &rt.Check{ID: "U03", Level: "fault_enumeration",
	Rule: "histories of up to eight pushes of changing versions (empty ones too) to one name, into FsSink on in-memory and OS-backed file systems and into a checking model sink, with failing or killing sink file-system calls, partly applied appends, commits failing before and after the fact, failing local reads, cancellation and local files replaced, shrunk or grown meanwhile; the committed name is inspected after every mutating call; then a healthy push must succeed, at once if nothing failed; oversized, untagged and differently tagged parts; FsSink driven directly against a model; distinct by configuration",
	Run: func(r *rt.Run) {
		r.CasesPar("fssink", r.N(2000, 120000), 8, func(c *rt.Case) { pushCase(c, false) })
		r.CasesPar("model", r.N(1500, 100000), 8, func(c *rt.Case) { pushCase(c, true) })
		r.CasesPar("direct", r.N(1500, 60000), 8, sinkDirect)
		r.Floor("instants observed", 8000)
		r.Floor("committed", 1000)
		r.Floor("committed after failures", 500)
		r.Floor("committed empty", 100)
		r.Floor("failed", 1000)
		r.Floor("shrunk reported", 20)
		r.Floor("healthy success", 1500)
		r.Floor("crashed", 60)
		r.Soft("crashed in write", 30)
		r.Soft("crashed in rename", 10)
		r.Floor("direct commits", 500)
	}}
