package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"math/rand/v2"
	"net/http"
	"net/http/httptest"
	"net/url"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/ngicks/go-fsys-helper/stream/fileserver"
	"verif/harness/rt"
)

var errFault = errors.New("injected fault")

// memStore is an object store with injected faults.
type memStore struct {
	mu    sync.Mutex
	objs  map[string][]byte
	rng   *rand.Rand
	fault float64
	gets  map[string]int
	open  atomic.Int64
	puts  int
	sizes []string // puts whose body did not have the declared size
	ended bool     // the context was cancelled during a call
	stop  func()
}

func (m *memStore) roll() bool { return m.fault > 0 && m.rng.Float64() < m.fault }

func (m *memStore) Put(ctx context.Context, name string, size int64, r io.Reader) error {
	m.mu.Lock()
	defer m.mu.Unlock()
	m.puts++
	if err := ctx.Err(); err != nil {
		return err
	}
	if m.roll() {
		switch m.rng.IntN(4) {
		case 0: // refused
			return errFault
		case 1: // died half way, nothing visible
			io.CopyN(io.Discard, r, size/2)
			return errFault
		case 2: // a store without atomic puts: a torn object is visible
			b, _ := io.ReadAll(io.LimitReader(r, size/2))
			if int64(len(b)) != size {
				m.objs[name] = b
			}
			return errFault
		case 3:
			m.stop()
			return ctx.Err()
		}
	}
	b, err := io.ReadAll(r)
	if err != nil {
		return err
	}
	if int64(len(b)) != size {
		m.sizes = append(m.sizes, fmt.Sprintf("Put(%s) declared %d, body %d", name, size, len(b)))
	}
	m.objs[name] = b
	if m.roll() { // stored, but the answer is lost
		return errFault
	}
	return nil
}

func (m *memStore) Stat(ctx context.Context, name string) (int64, error) {
	m.mu.Lock()
	defer m.mu.Unlock()
	if err := ctx.Err(); err != nil {
		return 0, err
	}
	if m.roll() && m.rng.IntN(2) == 0 {
		return 0, errFault
	}
	b, ok := m.objs[name]
	if !ok {
		return 0, fmt.Errorf("stat %s: %w", name, fs.ErrNotExist)
	}
	return int64(len(b)), nil
}

type storeBody struct {
	io.Reader
	m    *memStore
	once sync.Once
}

func (b *storeBody) Close() error { b.once.Do(func() { b.m.open.Add(-1) }); return nil }

func (m *memStore) Get(ctx context.Context, name string, off int64) (io.ReadCloser, int64, error) {
	m.mu.Lock()
	defer m.mu.Unlock()
	if err := ctx.Err(); err != nil {
		return nil, 0, err
	}
	m.gets[name]++
	b, ok := m.objs[name]
	if !ok {
		return nil, 0, fmt.Errorf("get %s: %w", name, fs.ErrNotExist)
	}
	if off > int64(len(b)) {
		return nil, 0, errors.New("range not satisfiable")
	}
	var rd io.Reader = bytes.NewReader(b[off:])
	if m.roll() {
		switch m.rng.IntN(3) {
		case 0:
			return nil, 0, errFault
		case 1: // body breaks
			rd = io.MultiReader(io.LimitReader(rd, m.rng.Int64N(int64(len(b))-off+1)), &failBody{err: errFault})
		case 2: // body cut without an error
			if int64(len(b)) > off {
				rd = io.LimitReader(rd, m.rng.Int64N(int64(len(b))-off))
			}
		}
	}
	m.open.Add(1)
	return &storeBody{Reader: rd, m: m}, int64(len(b)), nil
}

// upSource delivers content from off in odd pieces, with a fate.
type upSource struct {
	r    io.Reader
	rng  *rand.Rand
	left int64 // deliver this much, then err
	err  error
}

func (s *upSource) Read(p []byte) (int, error) {
	if s.left <= 0 {
		return 0, s.err
	}
	if len(p) == 0 {
		return 0, nil
	}
	k := min(int64(len(p)), s.left, 1+s.rng.Int64N(1+s.left))
	n, err := s.r.Read(p[:k])
	s.left -= int64(n)
	if err == nil && s.left <= 0 && s.rng.IntN(2) == 0 {
		err = s.err
	}
	return n, err
}

func chunkBounds(i int, total, size int64) (int64, int64) {
	return int64(i) * size, min(int64(i+1)*size, total)
}

func nChunks(total, size int64) int {
	if total == 0 {
		return 1
	}
	return int((total + size - 1) / size)
}

var f01 = &rt.Check{ID: "F01", Level: "fault_enumeration",
	Rule: "random sizes and chunk sizes; uploads through a faulting store (refused, torn, lost answer, cancelled), sources that end early or fail, resumed from the reported state until done, beside stale objects of other sizes; read back from random offsets with healthy and faulting stores; the HTTP client against a real server with dropped connections; store content, state, get counts, temp files and open bodies monitored; non-trivial = at least one chunk stored; distinct by history",
	Run: func(r *rt.Run) {
		litter := func(part string) {
			r.CasesPar(part, 1, 1, func(c *rt.Case) {
				l, _ := filepath.Glob(filepath.Join(os.TempDir(), "chunkedsink-*"))
				if len(l) > 0 {
					c.Fail("F01:temp-litter", "temporary files left: %d, e.g. %v", len(l), l[0])
				}
				es, _ := os.ReadDir("/proc/self/fd")
				for _, e := range es {
					if t, err := os.Readlink("/proc/self/fd/" + e.Name()); err == nil && strings.Contains(t, "chunkedsink-") {
						c.Fail("F01:temp-open", "temporary file still open: %s", t)
					}
				}
			})
		}
		r.Cases("faults", r.N(2500, 60000), func(c *rt.Case) {
			chunk := pick(c.Rand, 1, 2, 7, 64, 1000, 1+c.Int64N(5000))
			total := pick(c.Rand, 0, 1, chunk-1, chunk, chunk+1, 3*chunk, 3*chunk+1, c.Int64N(6*chunk+1))
			if chunk == 1 {
				total = c.Int64N(9)
			}
			data := randBytes(c.Rand, int(total))
			ctx, cancel := context.WithCancel(context.Background())
			m := &memStore{objs: map[string][]byte{}, rng: rand.New(rand.NewPCG(c.Uint64(), 1)), gets: map[string]int{}, stop: func() { cancel() }}
			m.fault = pick(c.Rand, 0, 0.1, 0.4)
			name := func(i int) string { return fmt.Sprintf("o/%d", i) }
			n := nChunks(total, chunk)
			// objects of an older upload with another size
			for i := 0; i < n+1; i++ {
				if c.IntN(4) == 0 {
					s, e := chunkBounds(min(i, n-1), total, chunk)
					m.objs[name(i)] = make([]byte, e-s+1+c.Int64N(3))
				}
			}
			sink := fileserver.NewChunkedSink(m, name, total, chunk)
			good := func(i int) bool {
				s, e := chunkBounds(i, total, chunk)
				b, ok := m.objs[name(i)]
				return ok && bytes.Equal(b, data[s:e])
			}
			key := fmt.Sprint(chunk, total, m.fault)
			done := false
			for try := 0; try < 60 && !c.Failed(); try++ {
				if ctx.Err() != nil {
					ctx, cancel = context.WithCancel(context.Background())
				}
				if try > 40 {
					m.fault = 0
				}
				off, complete, err := sink.State(ctx)
				r.Eval(1)
				c.Logf("State = %d %v %v", off, complete, err)
				if err != nil {
					if !errors.Is(err, errFault) && !errors.Is(err, context.Canceled) {
						c.Fail("F01:state-error", "State: %v", err)
					}
					continue
				}
				prefix := 0
				for prefix < n && good(prefix) {
					prefix++
				}
				want := min(int64(prefix)*chunk, total)
				if off != want || complete != (prefix == n) {
					c.Fail("F01:state", "State = %d, %v; stored prefix is %d of %d bytes (complete %v)", off, complete, want, total, prefix == n)
					break
				}
				if complete {
					done = true
					if err := sink.Commit(ctx); err != nil {
						c.Fail("F01:commit", "%v", err)
					}
					break
				}
				if c.IntN(12) == 0 && chunk > 1 {
					before := m.puts
					if err := sink.Append(ctx, off+1+c.Int64N(chunk-1), bytes.NewReader(data)); err == nil || m.puts != before {
						c.Fail("F01:misaligned", "misaligned Append = %v", err)
					}
				}
				fate := c.IntN(6)
				if try > 40 {
					fate = 9
				}
				src := &upSource{r: bytes.NewReader(data[off:]), rng: m.rng, left: total - off, err: io.EOF}
				switch fate {
				case 0:
					src.left = c.Int64N(total - off + 1)
				case 1:
					src.left, src.err = c.Int64N(total-off+1), errFault
				case 2:
					src.left, src.err = c.Int64N(total-off+1), io.ErrUnexpectedEOF
				}
				full := src.left == total-off
				cut := src.left
				old := map[string][]byte{}
				for k, v := range m.objs {
					old[k] = v
				}
				err = sink.Append(ctx, off, src)
				r.Eval(1)
				c.Logf("Append(%d) with %d of %d then %v = %v", off, cut, total-off, src.err, err)
				key += fmt.Sprint(",", off, cut, err == nil)
				stored := 0
				for i := 0; i < n+1; i++ {
					b, ok := m.objs[name(i)]
					ob, ook := old[name(i)]
					if ok == ook && bytes.Equal(b, ob) {
						continue
					}
					stored++
					if i >= n || int64(i)*chunk < off {
						c.Fail("F01:foreign-chunk", "Append(%d) changed chunk %d", off, i)
						continue
					}
					s, e := chunkBounds(i, total, chunk)
					if ok && int64(len(b)) == e-s && !bytes.Equal(b, data[s:e]) {
						c.Fail("F01:wrong-chunk", "Append(%d) stored other bytes in chunk %d", off, i)
					}
					if ok && int64(len(b)) != e-s && m.fault == 0 {
						c.Fail("F01:short-chunk", "Append(%d) stored %d bytes in chunk %d of %d", off, len(b), i, e-s)
					}
				}
				r.CountN("chunks-stored", stored)
				if err == nil {
					for i := int(off / chunk); i < n; i++ {
						if !good(i) {
							c.Fail("F01:append-lost", "Append(%d) = nil but chunk %d of %d is not stored (source gave %d of %d)", off, i, n, cut, total-off)
							break
						}
					}
					if !full && !c.Failed() {
						c.Fail("F01:append-short", "Append(%d) = nil from a short source", off)
					}
				} else {
					r.Count("interrupted")
				}
			}
			if !done && !c.Failed() {
				c.Fail("F01:no-progress", "the upload did not finish in 60 attempts (last 20 healthy)")
			}
			if len(m.sizes) > 0 {
				c.Fail("F01:declared-size", "%v", m.sizes)
			}
			if c.Failed() {
				return
			}
			r.Distinct(key)
			// read back
			m.fault = pick(c.Rand, 0, 0, 0.3)
			ctx, cancel = context.WithCancel(context.Background())
			defer cancel()
			src := fileserver.NewChunkedSource(m, name, total, chunk)
			for k := 0; k < 6; k++ {
				off := c.Int64N(total + 1)
				if k == 0 {
					off = 0
				}
				damage := -1
				var saved []byte
				if c.IntN(5) == 0 && total > 0 { // one chunk has another size
					damage = c.IntN(n)
					saved = m.objs[name(damage)]
					if c.IntN(2) == 0 {
						m.objs[name(damage)] = append(append([]byte(nil), saved...), 1, 2)
					} else if len(saved) > 0 {
						m.objs[name(damage)] = saved[:len(saved)-1]
					}
				}
				clear(m.gets)
				rc, err := src.Open(ctx, off)
				r.Eval(1)
				if err != nil {
					c.Fail("F01:open", "Open(%d) of %d: %v", off, total, err)
					break
				}
				var got []byte
				for err == nil {
					p := make([]byte, 1+c.IntN(int(chunk)*2+1))
					var nn int
					nn, err = rc.Read(p)
					got = append(got, p[:nn]...)
					if int64(len(got)) > total-off {
						break
					}
				}
				want := data[off:]
				if !bytes.HasPrefix(want, got) {
					c.Fail("F01:readback", "read from %d gives other bytes", off)
				}
				if err == io.EOF && len(got) != len(want) {
					c.Fail("F01:readback-short", "read from %d ends after %d of %d bytes", off, len(got), len(want))
				}
				hit := damage >= 0 && len(m.objs[name(damage)]) < len(saved) && (int64(damage) >= off/chunk) && off < total
				if hit && err == io.EOF {
					c.Fail("F01:bad-chunk-accepted", "chunk %d has %d bytes instead of %d, read from %d reports nothing", damage, len(m.objs[name(damage)]), len(saved), off)
				}
				if err != io.EOF && damage < 0 && m.fault == 0 {
					c.Fail("F01:readback-error", "read from %d: %v", off, err)
				}
				if damage < 0 && m.fault == 0 {
					for nm, g := range m.gets {
						if g > 1 {
							c.Fail("F01:gets", "%s fetched %d times by one sequential read", nm, g)
						}
					}
					r.Count("sequential-reads")
				}
				if err != io.EOF {
					r.Count("read-failures")
				}
				if err := rc.Close(); err != nil {
					c.Fail("F01:close", "%v", err)
				}
				if m.open.Load() != 0 {
					c.Fail("F01:body-open", "%d bodies open after Close", m.open.Load())
				}
				if damage >= 0 {
					m.objs[name(damage)] = saved
				}
			}
			for _, off := range []int64{-1, total + 1} {
				if rc, err := src.Open(ctx, off); err == nil {
					c.Fail("F01:open-outside", "Open(%d) of %d succeeded", off, total)
					rc.Close()
				}
			}
			cancel()
			if total > 0 {
				rc, err := src.Open(ctx, 0)
				if err == nil {
					var b []byte
					b, err = io.ReadAll(rc)
					rc.Close()
					if len(b) > 0 {
						c.Fail("F01:cancelled-read", "read %d bytes with a cancelled context", len(b))
					}
				}
				if !errors.Is(err, context.Canceled) && err != nil && m.fault == 0 {
					c.Fail("F01:cancelled-error", "%v", err)
				} else if err == nil {
					c.Fail("F01:cancelled-read", "cancelled read reports nothing")
				}
			}
			r.Sample("%v", c.Log())
		})
		litter("litter")
		r.Cases("http", r.N(250, 4000), func(c *rt.Case) {
			type obj struct{ b []byte }
			var mu sync.Mutex
			store := map[string][]byte{}
			frng := rand.New(rand.NewPCG(c.Uint64(), 1))
			faulty := c.IntN(2) == 0
			noRange := false
			prefix := pick(c.Rand, "", "/", "/a/b", "/a%20b/", "?tok=a/b", "/a/?tok=x%2Fy&z", "#f")
			shift := int64(0) // how far off the ranges served are
			srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, req *http.Request) {
				mu.Lock()
				f := -1
				if faulty && frng.IntN(10) == 0 {
					f = frng.IntN(4)
				}
				mu.Unlock()
				if f == 0 {
					io.Copy(io.Discard, req.Body)
					w.WriteHeader(500 + frng0(req)%4)
					return
				}
				if _, q, _ := strings.Cut(prefix, "?"); q != req.URL.RawQuery {
					w.WriteHeader(403)
					return
				}
				key := req.URL.EscapedPath()
				switch req.Method {
				case http.MethodPut:
					b, err := io.ReadAll(req.Body)
					if req.ContentLength < 0 {
						w.WriteHeader(411) // as object stores do
						return
					}
					if err != nil || int64(len(b)) != req.ContentLength {
						w.WriteHeader(400)
						return
					}
					if f == 1 {
						panic(http.ErrAbortHandler)
					}
					mu.Lock()
					store[key] = b
					mu.Unlock()
					if f == 2 {
						panic(http.ErrAbortHandler)
					}
					w.WriteHeader(201)
				default:
					mu.Lock()
					b, ok := store[key]
					mu.Unlock()
					if !ok {
						w.WriteHeader([]int{404, 410}[len(key)%2])
						return
					}
					if f == 1 {
						panic(http.ErrAbortHandler)
					}
					if noRange {
						req.Header.Del("Range")
					}
					if rg := req.Header.Get("Range"); shift != 0 && rg != "" {
						var from int64
						fmt.Sscanf(rg, "bytes=%d-", &from)
						req.Header.Set("Range", fmt.Sprintf("bytes=%d-", from+shift))
					}
					if f == 2 && req.Method == http.MethodGet && len(b) > 2 && req.Header.Get("Range") == "" {
						w.Header().Set("Content-Length", fmt.Sprint(len(b)))
						w.WriteHeader(200)
						w.Write(b[:len(b)/2])
						panic(http.ErrAbortHandler)
					}
					http.ServeContent(w, req, "", time.Time{}, bytes.NewReader(b))
				}
			}))
			srv.Config.ErrorLog = nil
			defer srv.Close()
			tr := &http.Transport{}
			defer tr.CloseIdleConnections()
			bu, err := url.Parse(srv.URL + prefix)
			c.Must(err)
			d := &countDoer{cl: &http.Client{Transport: tr}}
			cl := &fileserver.HTTPClient{BaseURL: bu, Client: d}
			ctx := context.Background()
			chunk := 1 + c.Int64N(3000)
			var wg sync.WaitGroup
			type up struct {
				base string
				data []byte
			}
			var ups []up
			for i, b := range []string{"n", "n/0", "n?x", "n%2F0", "ü n#", "..%", "n+ &=;"} {
				if i > 0 && c.IntN(2) == 0 {
					continue
				}
				ups = append(ups, up{b, randBytes(c.Rand, pick(c.Rand, 0, c.IntN(4*int(chunk)), c.IntN(4*int(chunk)), 2*int(chunk)))})
			}
			for _, u := range ups {
				name := func(i int) string { return fmt.Sprintf("%s-%d", u.base, i) }
				total := int64(len(u.data))
				rng := rand.New(rand.NewPCG(c.Uint64(), 4))
				c.Go(&wg, func() { // one shared client, several uploads
					sink := fileserver.NewChunkedSink(cl, name, total, chunk)
					for try := 0; ; try++ {
						if try > 600 {
							c.Fail("F01:http-no-progress", "no progress")
							return
						}
						off, complete, err := sink.State(ctx)
						r.Eval(1)
						c.Logf("%s State = %d %v %v", u.base, off, complete, err)
						if err != nil {
							if !faulty {
								c.Fail("F01:http-state", "%v", err)
								return
							}
							continue
						}
						if complete {
							break
						}
						if off < 0 || off > total {
							c.Fail("F01:http-state", "State = %d of %d", off, total)
							return
						}
						err = sink.Append(ctx, off, bytes.NewReader(u.data[off:]))
						c.Logf("%s Append = %v", u.base, err)
						if err != nil && !faulty {
							c.Fail("F01:http-append", "%v", err)
							return
						}
					}
					r.Count("http-uploads")
					src := fileserver.NewChunkedSource(cl, name, total, chunk)
					for k := 0; k < 4; k++ {
						off := rng.Int64N(total + 1)
						rc, err := src.Open(ctx, off)
						if err != nil {
							c.Fail("F01:http-open", "%v", err)
							return
						}
						got, err := io.ReadAll(rc)
						rc.Close()
						r.Eval(1)
						if !bytes.HasPrefix(u.data[off:], got) || err == nil && len(got) != len(u.data)-int(off) {
							c.Fail("F01:http-readback", "from %d: %d bytes of %d, %v", off, len(got), len(u.data)-int(off), err)
						}
						if err != nil && !faulty {
							c.Fail("F01:http-read", "%v", err)
						}
					}
					if _, err := cl.Stat(ctx, u.base+"-absent"); !faulty && !errors.Is(err, fs.ErrNotExist) {
						c.Fail("F01:http-notexist", "Stat of an absent object: %v", err)
					}
					if _, _, err := cl.Get(ctx, u.base+"-absent", 0); !faulty && !errors.Is(err, fs.ErrNotExist) {
						c.Fail("F01:http-notexist", "Get of an absent object: %v", err)
					}
				})
			}
			wg.Wait()
			faulty = false
			noRange = true
			for _, u := range ups {
				if len(u.data) > 1 && chunk > 1 && !c.Failed() {
					rc, _, err := cl.Get(ctx, u.base+"-0", 1)
					r.Eval(1)
					if err == nil {
						rc.Close()
						c.Fail("F01:range-ignored", "a server that ignores ranges was accepted")
					}
				}
			}
			noRange = false
			for _, u := range ups {
				if n := min(len(u.data), int(chunk)); n > 3 && !c.Failed() {
					shift = pick(c.Rand, -1, int64(1))
					at := 1 + c.Int64N(int64(n-2))
					rc, _, err := cl.Get(ctx, u.base+"-0", at)
					r.Eval(1)
					if err == nil {
						got, err := io.ReadAll(rc)
						rc.Close()
						if err == nil || len(got) > 0 && got[0] != u.data[at] {
							c.Fail("F01:range-shifted", "asked from %d, a range from %d was accepted", at, at+shift)
						}
					}
					shift = 0
				}
			}
			settleF(c, func() bool { return d.open.Load() == 0 })
			r.Distinct(fmt.Sprint("http", chunk, len(ups), prefix, c.Uint64()))
		})
		litter("litter-http")
		r.Floor("chunks-stored", 2000)
		r.Floor("interrupted", 500)
		r.Floor("read-failures", 200)
		r.Floor("sequential-reads", 1000)
		r.Floor("http-uploads", 200)
	}}

func frng0(req *http.Request) int { return len(req.URL.Path) }

func settleF(c *rt.Case, ok func() bool) {
	for i := 0; i < 3000; i++ {
		if ok() {
			return
		}
		time.Sleep(10 * time.Millisecond)
	}
	c.Fail("F01:http-body-open", "a response body was not closed")
}
