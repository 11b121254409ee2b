package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"math/rand/v2"
	"net/http"
	"net/http/httptest"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/ngicks/go-fsys-helper/stream/httprange"
	"verif/harness/rt"
)

// countDoer counts requests and open bodies of a real client.
type countDoer struct {
	cl   *http.Client
	reqs atomic.Int64
	open atomic.Int64
	onDo func()
}

type countBody struct {
	io.ReadCloser
	d    *countDoer
	once sync.Once
}

func (b *countBody) Close() error {
	b.once.Do(func() { b.d.open.Add(-1) })
	return b.ReadCloser.Close()
}

func (d *countDoer) Do(req *http.Request) (*http.Response, error) {
	d.reqs.Add(1)
	if d.onDo != nil {
		d.onDo()
	}
	resp, err := d.cl.Do(req)
	if err == nil {
		d.open.Add(1)
		resp.Body = &countBody{ReadCloser: resp.Body, d: d}
	}
	return resp, err
}

// object serves one immutable object; gate, when set, stalls bodies.
type object struct {
	data  []byte
	etag  string
	chunk bool
	gate  chan struct{} // closed: go on
	stall atomic.Int64  // bodies waiting at the gate
}

func (o *object) ServeHTTP(w http.ResponseWriter, req *http.Request) {
	if o.etag != "" {
		w.Header().Set("ETag", o.etag)
	}
	w.Header().Set("Content-Type", "application/octet-stream")
	var rs io.ReadSeeker = bytes.NewReader(o.data)
	if o.gate != nil {
		rs = &gated{bytes.NewReader(o.data), o, req.Context()}
	}
	http.ServeContent(w, req, "", time.Unix(1700000000, 0), rs)
}

type gated struct {
	*bytes.Reader
	o   *object
	ctx context.Context
}

// WriteTo hides bytes.Reader's, so that Read is used.
func (g *gated) WriteTo(w io.Writer) (int64, error) {
	return io.Copy(w, struct{ io.Reader }{g})
}

func (g *gated) Read(p []byte) (int, error) {
	g.o.stall.Add(1)
	defer g.o.stall.Add(-1)
	select {
	case <-g.o.gate:
	case <-g.ctx.Done():
		return 0, g.ctx.Err()
	case <-time.After(100 * time.Second):
	}
	return g.Reader.Read(p)
}

// section is what the reader must equal.
func expectAt(data []byte, base, n int64, p []byte, off int64) (want []byte, end bool) {
	lim := int64(len(data))
	if n >= 0 && base+n >= base {
		lim = min(lim, base+n)
	}
	if off < 0 {
		return nil, false
	}
	abs := base + off
	if abs >= lim {
		return nil, true
	}
	stop := min(abs+int64(len(p)), lim)
	return data[abs:stop], stop == lim
}

func checkRange(c *rt.Case, ra io.ReaderAt, data []byte, base, n int64, p []byte, off int64) bool {
	want, end := expectAt(data, base, n, p, off)
	nn, err := ra.ReadAt(p, off)
	c.R.Eval(1)
	c.R.Count("readat")
	c.Logf("ReadAt(%d,%d) = %d, %v", len(p), off, nn, err)
	if off < 0 {
		if err == nil || err == io.EOF || nn != 0 {
			c.Fail("H02:negative", "ReadAt(%d,%d) = %d, %v", len(p), off, nn, err)
		}
		return true
	}
	if err != nil && err != io.EOF {
		c.Fail("H02:error", "ReadAt(%d,%d) = %d, %v against an honest server", len(p), off, nn, err)
		return false
	}
	if nn != len(want) || !bytes.Equal(p[:nn], want) {
		c.Fail("H02:bytes", "ReadAt(%d,%d) = %d, %v; want %d bytes", len(p), off, nn, err, len(want))
		return false
	}
	if nn < len(p) && err == nil {
		c.Fail("H02:no-eof", "ReadAt(%d,%d) = %d, nil", len(p), off, nn)
	}
	if err == io.EOF && !end {
		c.Fail("H02:early-eof", "ReadAt(%d,%d) = %d, EOF before the end", len(p), off, nn)
	}
	return true
}

// leaked counts what settle gave up on: later ones are waited for less.
var leaked atomic.Int32

// patience is how long what must be prompt is waited for.
func patience() time.Duration {
	if leaked.Load() > 3 {
		return 2 * time.Second
	}
	return 40 * time.Second
}

func settle(c *rt.Case, what string, ok func() bool) {
	limit := 3000
	if leaked.Load() > 3 {
		limit = 100
	}
	for i := 0; i < limit; i++ {
		if ok() {
			return
		}
		time.Sleep(10 * time.Millisecond)
	}
	buf := make([]byte, 1<<20)
	buf = buf[:runtime.Stack(buf, true)]
	leaked.Add(1)
	c.Fail("H02:leak:"+what, "%s not released within 30s after Close\n%s", what, buf)
}

func newReader(c *rt.Case, ctx context.Context, rng *rand.Rand, u string, cl httprange.Doer, size int) (ra *httprange.ReaderAt, base, n int64, ranged bool) {
	cfg := &httprange.Config{Client: cl}
	var err error
	if rng.IntN(3) == 0 {
		ra, err = httprange.New(ctx, u, cfg)
		n = -1
	} else {
		ranged = true
		base = pick(rng, 0, 0, rng.Int64N(int64(size)+3))
		n = pick(rng, 0, 1, int64(size), int64(size)-base, int64(size)+100, 1<<62, -1, rng.Int64N(int64(size)+1))
		if base == 0 && rng.IntN(2) == 0 {
			n = int64(size)
		}
		n = max(n, -1)
		ra, err = httprange.NewRange(ctx, u, base, n, cfg)
	}
	c.Must(err)
	return
}

var h02 = &rt.Check{ID: "H02", Level: "exploration",
	Rule: "real net/http client and server on loopback; random positioned, sequential and seeking histories by 1..6 goroutines on whole-object and sub-range readers; Close and context cancellation at random moments, also while bodies stall; readers without a configuration, with headers and answered by refusals; request, body and goroutine accounting; non-trivial = at least two reads; distinct by history",
	Run: func(r *rt.Run) {
		r.Cases("single", r.N(1200, 20000), func(c *rt.Case) {
			size := pick(c.Rand, 0, 1, 2, 50, 1000, 70000, 200000)
			o := &object{data: randBytes(c.Rand, size)}
			if c.IntN(2) == 0 {
				o.etag = `"x"`
			}
			srv := httptest.NewServer(o)
			defer srv.Close()
			tr := &http.Transport{}
			defer tr.CloseIdleConnections()
			d := &countDoer{cl: &http.Client{Transport: tr}}
			ra, base, n, ranged := newReader(c, context.Background(), c.Rand, srv.URL, d, size)
			c.Logf("size %d view %d+%d", size, base, n)
			key := fmt.Sprint(size, base, n)
			if c.IntN(2) == 0 { // front to back
				probed := c.IntN(4) == 0
				if probed {
					if err := ra.Probe(context.Background()); err != nil {
						c.Fail("H02:probe", "Probe: %v", err)
					}
				}
				before := d.reqs.Load()
				var pos int64
				for !c.Failed() {
					p := make([]byte, 1+c.IntN(1+size/3))
					want, end := expectAt(o.data, base, n, p, pos)
					if !checkRange(c, ra, o.data, base, n, p, pos) {
						break
					}
					key += fmt.Sprint("+", len(p))
					pos += int64(len(want))
					if end {
						break
					}
				}
				if made := d.reqs.Load() - before; ranged && made > 1 {
					c.Fail("H02:front-to-back-requests", "front-to-back reading made %d requests", made)
				}
				r.Count("front-to-back")
				r.Distinct(key)
			} else {
				rd := io.NewSectionReader(ra, 0, max(0, int64(size)-base))
				_ = rd
				for i, k := 0, 2+c.IntN(10); i < k && !c.Failed(); i++ {
					off := c.Int64N(int64(size)+4) - 1
					p := make([]byte, bufLen(c.Rand, min(size, 5000)))
					checkRange(c, ra, o.data, base, n, p, off)
					key += fmt.Sprint(",", off, "+", len(p))
				}
				r.Count("random")
				r.Distinct(key)
			}
			if m, ok := ra.Metadata(); ok && m.Size != int64(size) {
				c.Fail("H02:metadata", "Metadata size %d, object %d", m.Size, size)
			}
			if err := ra.Close(); err != nil {
				c.Fail("H02:close", "%v", err)
			}
			ra.Close()
			if _, err := ra.ReadAt(make([]byte, 1), 0); err == nil && size > int(base) && n != 0 {
				c.Fail("H02:read-after-close", "ReadAt after Close succeeded")
			}
			settle(c, "response body", func() bool { return d.open.Load() == 0 })
			r.Sample("%v", c.Log())
		})
		r.Cases("conc", r.N(250, 5000), func(c *rt.Case) {
			size := pick(c.Rand, 1, 50, 3000, 100000)
			o := &object{data: randBytes(c.Rand, size), etag: `"x"`}
			srv := httptest.NewServer(o)
			defer srv.Close()
			tr := &http.Transport{}
			defer tr.CloseIdleConnections()
			d := &countDoer{cl: &http.Client{Transport: tr}}
			ra, base, n, _ := newReader(c, context.Background(), c.Rand, srv.URL, d, size)
			c.Logf("size %d view %d+%d", size, base, n)
			closing := c.IntN(2) == 0
			inOrder := 3 + 2*c.IntN(2)
			var closed atomic.Bool
			var wg sync.WaitGroup
			key := ""
			for g := 0; g < 5; g++ {
				rng := rand.New(rand.NewPCG(c.Uint64(), 3))
				seq := g < inOrder // several readers in order: they race for the lane
				key += fmt.Sprint(rng.Uint64())
				c.Go(&wg, func() {
					var pos int64
					for i := 0; i < 12 && !c.Failed(); i++ {
						p := make([]byte, 1+rng.IntN(1+size/8))
						off := pos
						if !seq {
							off = rng.Int64N(int64(size) + 2)
						}
						want, _ := expectAt(o.data, base, n, p, off)
						if !closing {
							checkRange(c, ra, o.data, base, n, p, off)
						} else {
							was := closed.Load()
							nn, err := ra.ReadAt(p, off)
							r.Eval(1)
							if nn > len(want) || nn > 0 && !bytes.Equal(p[:nn], want[:nn]) {
								c.Fail("H02:bytes-under-close", "ReadAt(%d,%d) = %d, %v", len(p), off, nn, err)
							}
							if err == nil && nn != len(p) || err == io.EOF && nn != len(want) {
								c.Fail("H02:short-under-close", "ReadAt(%d,%d) = %d, %v; want %d", len(p), off, nn, err, len(want))
							}
							if was && err == nil && nn > 0 {
								c.Fail("H02:read-after-close", "a read begun after Close succeeded")
							}
						}
						pos = off + int64(len(want))
					}
				})
			}
			if closing {
				spin := c.IntN(2000)
				c.Go(&wg, func() {
					time.Sleep(time.Duration(spin) * time.Microsecond)
					ra.Close()
					closed.Store(true)
				})
				r.Count("concurrent-close")
			}
			wg.Wait()
			ra.Close()
			r.Count("concurrent")
			r.Distinct(key)
			settle(c, "response body", func() bool { return d.open.Load() == 0 })
		})
		r.Cases("stall", r.N(120, 2000), func(c *rt.Case) {
			// bodies stall: Close and cancelled contexts unblock the reads,
			// and a read elsewhere does not wait for a stalled in-order one
			size := 1 + c.IntN(5000)
			o := &object{data: randBytes(c.Rand, size), gate: make(chan struct{})}
			srv := httptest.NewServer(o)
			defer srv.Close()
			tr := &http.Transport{}
			defer tr.CloseIdleConnections()
			d := &countDoer{cl: &http.Client{Transport: tr}}
			ctx, cancel := context.WithCancel(context.Background())
			defer cancel()
			ra, err := httprange.NewRange(ctx, srv.URL, 0, int64(size), &httprange.Config{Client: d})
			c.Must(err)
			mode := c.IntN(3)
			type res struct {
				n   int
				err error
			}
			ch := make(chan res, 8)
			k := 1 + c.IntN(4)
			for g := 0; g < k; g++ {
				off := int64(0)
				if g > 0 && c.IntN(2) == 0 {
					off = c.Int64N(int64(size))
				}
				probe := g > 0 && c.IntN(3) == 0
				go func() {
					if probe {
						err := ra.Probe(context.Background())
						ch <- res{0, err}
						return
					}
					n, err := ra.ReadAt(make([]byte, 10), off)
					ch <- res{n, err}
				}()
			}
			for i := 0; i < 2000 && o.stall.Load() == 0; i++ {
				time.Sleep(time.Millisecond)
			}
			if o.stall.Load() == 0 {
				close(o.gate)
				r.Count("stall-missed")
			} else {
				switch mode {
				case 0:
					ra.Close()
				case 1:
					cancel()
				case 2:
					close(o.gate)
				}
				r.Count("stalled")
			}
			for g := 0; g < k; g++ {
				select {
				case x := <-ch:
					r.Eval(1)
					if mode < 2 && x.err == nil && o.stall.Load() > 0 {
						c.Fail("H02:stalled-read-succeeded", "%d bytes from a stalled body", x.n)
					}
					if mode == 2 && x.err != nil && x.err != io.EOF {
						c.Fail("H02:stalled-read-failed", "%v", x.err)
					}
				case <-time.After(patience()):
					leaked.Add(1)
					if mode < 2 {
						close(o.gate)
					}
					buf := make([]byte, 1<<20)
					buf = buf[:runtime.Stack(buf, true)]
					c.Fail("H02:blocked-after-close", "a read is still blocked 40s after mode %d\n%s", mode, buf)
					return
				}
			}
			if mode < 2 {
				if n, err := ra.ReadAt(make([]byte, 1), 0); err == nil {
					c.Fail("H02:read-after-close", "read after close/cancel = %d, nil", n)
				}
				if err := ra.Probe(context.Background()); err == nil {
					c.Fail("H02:probe-after-close", "Probe after close/cancel succeeded")
				}
			}
			ra.Close()
			r.Distinct(fmt.Sprint("stall", mode, k, size))
			settle(c, "response body", func() bool { return d.open.Load() == 0 })
		})
		r.Cases("probe-cancel", r.N(60, 600), func(c *rt.Case) {
			o := &object{data: randBytes(c.Rand, 100), gate: make(chan struct{})}
			srv := httptest.NewServer(o)
			defer srv.Close()
			tr := &http.Transport{}
			defer tr.CloseIdleConnections()
			d := &countDoer{cl: &http.Client{Transport: tr}}
			ra, err := httprange.New(context.Background(), srv.URL, &httprange.Config{Client: d})
			c.Must(err)
			ctx, cancel := context.WithCancel(context.Background())
			if c.IntN(2) == 0 {
				cancel()
			} else {
				d.onDo = func() { cancel() }
			}
			if err := ra.Probe(ctx); !errors.Is(err, context.Canceled) {
				c.Fail("H02:probe-cancel", "Probe with a cancelled context = %v", err)
			}
			cancel()
			d.onDo = nil
			r.Eval(1)
			close(o.gate)
			// the reader itself is not bound by the probe's context
			checkRange(c, ra, o.data, 0, -1, make([]byte, 50), 10)
			ra.Close()
			r.Distinct(fmt.Sprint("probe", c.Idx%2))
			settle(c, "response body", func() bool { return d.open.Load() == 0 })
		})
		// without a configuration, with headers of one's own, refused
		r.CasesPar("plain", r.N(300, 6000), 1, func(c *rt.Case) {
			size := pick(c.Rand, 1, 2, 50, 1000, 70000)
			o := &object{data: randBytes(c.Rand, size), etag: `"x"`}
			var bad atomic.Int64
			key := ""
			code := pick(c.Rand, 0, 0, 0, 404, 410, 403, 500, 503, 401, 599)
			srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) {
				if key != "" && (len(q.Header["X-Key"]) != 1 || q.Header["X-Key"][0] != key) {
					bad.Add(1)
				}
				if code != 0 {
					w.WriteHeader(code)
					return
				}
				o.ServeHTTP(w, q)
			}))
			defer srv.Close()
			defer http.DefaultClient.CloseIdleConnections()
			var cfg *httprange.Config
			if c.IntN(2) == 0 {
				key = fmt.Sprint("k", c.IntN(1000))
				cfg = &httprange.Config{Header: http.Header{"X-Key": {key}}}
			}
			base, n := int64(0), int64(-1)
			var ra *httprange.ReaderAt
			var err error
			if c.IntN(2) == 0 {
				ra, err = httprange.New(context.Background(), srv.URL, cfg)
			} else {
				base, n = c.Int64N(int64(size)), 1+c.Int64N(int64(size))
				ra, err = httprange.NewRange(context.Background(), srv.URL, base, n, cfg)
			}
			c.Must(err)
			if cfg != nil { // the reader has headers of its own
				cfg.Header.Set("X-Key", "other")
				cfg.Header.Add("X-Key", "more")
				cfg.Header = nil
			}
			c.Logf("size %d view %d+%d code %d key %q", size, base, n, code, key)
			for i, k := 0, 1+c.IntN(5); i < k && !c.Failed(); i++ {
				off := c.Int64N(int64(size))
				p := make([]byte, 1+c.IntN(min(size, 5000)))
				if code == 0 {
					checkRange(c, ra, o.data, base, n, p, off)
					continue
				}
				if n >= 0 && off >= n {
					continue
				}
				m, err := ra.ReadAt(p, off)
				var st *httprange.StatusCodeError
				if m != 0 || !errors.As(err, &st) || st.Code != code || st.NotFound() != (code == 404 || code == 410) {
					c.Fail("H02:plain:status", "ReadAt(%d bytes, %d) of what is answered with %d: %d, %v", len(p), off, code, m, err)
				} else if !strings.Contains(err.Error(), fmt.Sprint(code)) {
					c.Fail("H02:plain:message", "the error for status %d says %q", code, err)
				}
				r.Count("refused by status")
			}
			if bad.Load() != 0 {
				c.Fail("H02:plain:header", "%d requests without the configured header", bad.Load())
			}
			if m, err := ra.ReadAt(make([]byte, 1), -1-c.Int64N(100)); m != 0 || err == nil || err == io.EOF {
				c.Fail("H02:plain:negative", "a read before the beginning: %d, %v", m, err)
			}
			ra.Close()
			if x, err := httprange.NewRange(context.Background(), srv.URL, -1-c.Int64N(10), 5, nil); err == nil {
				x.Close()
				c.Fail("H02:plain:range", "a range from before the beginning is taken")
			}
			for _, u := range []string{"", "://", "ftp://127.0.0.1/x", "/x", "http://", "mailto:x"} {
				if x, err := httprange.New(context.Background(), u, nil); err == nil {
					x.Close()
					c.Fail("H02:plain:url", "%q is taken for the URL of an object", u)
				}
			}
			c.R.Eval(1)
			r.Distinct(fmt.Sprint("plain", size, base, n, code, key))
		})
		r.Floor("refused by status", 200)
		// everything is closed now: nothing of the package may still run
		r.CasesPar("leak", 1, 1, func(c *rt.Case) {
			settle(c, "goroutine", func() bool {
				buf := make([]byte, 4<<20)
				buf = buf[:runtime.Stack(buf, true)]
				return !strings.Contains(string(buf), rt.RepoPrefix)
			})
		})
		r.Floor("front-to-back", 300)
		r.Floor("concurrent-close", 50)
		r.Floor("stalled", 60)
	}}
