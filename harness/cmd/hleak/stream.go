package main

import (
	"bytes"
	"context"
	"fmt"
	"io"
	"math/rand/v2"
	"net/http"
	"net/url"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"time"

	"github.com/ngicks/go-fsys-helper/stream"
	"github.com/ngicks/go-fsys-helper/stream/fileserver"
	"github.com/ngicks/go-fsys-helper/stream/httprange"
	"verif/harness/rt"
)

// origin answers requests in process, well or badly, and counts the bodies
// nobody closed.
type origin struct {
	mu   sync.Mutex
	rnd  *rand.Rand
	bad  float64
	data []byte
	objs map[string][]byte
	open map[*respBody]string
	n    int
	kind map[string]int
}

type respBody struct {
	o    *origin
	r    io.Reader
	ctx  context.Context
	fail bool // at the end
}

func (b *respBody) Read(p []byte) (int, error) {
	if err := b.ctx.Err(); err != nil {
		return 0, err
	}
	n, err := b.r.Read(p)
	if err == io.EOF && b.fail {
		err = io.ErrUnexpectedEOF
	}
	return n, err
}

func (b *respBody) Close() error {
	b.o.mu.Lock()
	defer b.o.mu.Unlock()
	delete(b.o.open, b)
	return nil
}

func (o *origin) left() (l []string) {
	o.mu.Lock()
	defer o.mu.Unlock()
	for _, s := range o.open {
		l = append(l, s)
	}
	return
}

// settled waits for the bodies to be closed.
func (o *origin) settled() []string {
	for i := 0; ; i++ {
		l := o.left()
		if len(l) == 0 || i == 400 {
			return l
		}
		time.Sleep(time.Duration(1+i/10) * time.Millisecond)
	}
}

func (o *origin) RoundTrip(req *http.Request) (*http.Response, error) {
	if req.Body != nil {
		defer req.Body.Close()
	}
	var put []byte
	if req.Method == http.MethodPut && req.Body != nil {
		b, err := io.ReadAll(req.Body)
		if err != nil {
			return nil, err
		}
		put = b
	}
	o.mu.Lock()
	defer o.mu.Unlock()
	if err := req.Context().Err(); err != nil {
		return nil, err
	}
	o.n++
	h := http.Header{"Etag": {`"v1"`}, "Last-Modified": {"Mon, 02 Jan 2006 15:04:05 GMT"}}
	data := o.data
	name := strings.TrimPrefix(req.URL.Path, "/")
	code, reason := 200, "ok"
	if req.Method == http.MethodPut {
		o.objs[name] = put
		data = nil
	} else if b, ok := o.objs[name]; ok {
		data = b
	} else if name != "obj" {
		code, data = 404, []byte("none")
	}
	size := int64(len(data))
	off, end := int64(0), size-1
	if rg := req.Header.Get("Range"); rg != "" && code == 200 {
		if n, _ := fmt.Sscanf(rg, "bytes=%d-%d", &off, &end); n == 1 || end >= size {
			end = size - 1
		}
		code = 206
		if off >= size {
			code = 416
			h.Set("Content-Range", fmt.Sprintf("bytes */%d", size))
			data = []byte("unsatisfiable")
		} else {
			h.Set("Content-Range", fmt.Sprintf("bytes %d-%d/%d", off, end, size))
			data = data[off : end+1]
		}
	}
	length := int64(len(data))
	fail := false
	if o.rnd.Float64() < o.bad {
		k := o.rnd.IntN(13)
		reason = fmt.Sprint("bad ", k)
		switch k {
		case 0:
			return nil, errUser
		case 1, 2:
			code = []int{200, 204, 302, 404, 410, 412, 416, 429, 500, 503}[o.rnd.IntN(10)]
		case 3:
			fail = true
			data = data[:o.rnd.IntN(len(data)+1)]
		case 4:
			data = data[:o.rnd.IntN(len(data)+1)]
		case 5:
			data = append(bytes.Clone(data), make([]byte, 1+o.rnd.IntN(500))...)
		case 6:
			h.Set("Etag", `"v2"`)
		case 7:
			h.Set("Content-Encoding", "gzip")
		case 8:
			h.Set("Content-Range", []string{"bytes 0-1/2", "bytes */9", "nonsense", "bytes 5-4/3", fmt.Sprintf("bytes %d-%d/*", off, end)}[o.rnd.IntN(5)])
		case 9:
			length = -1
		case 10:
			h.Set("Content-Type", "multipart/byteranges; boundary=x")
		case 11:
			h.Del("Etag")
			h.Del("Last-Modified")
		case 12:
			h.Del("Content-Range")
		}
	}
	o.kind[fmt.Sprint(req.Method, " ", code)]++
	b := &respBody{o: o, r: bytes.NewReader(data), ctx: req.Context(), fail: fail}
	if req.Method == http.MethodHead {
		b.r = bytes.NewReader(nil)
	}
	o.open[b] = fmt.Sprintf("%s %s %s: %d, %s", req.Method, req.URL.Path, req.Header.Get("Range"), code, reason)
	return &http.Response{StatusCode: code, Status: fmt.Sprint(code), Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: h, Body: b, ContentLength: length, Request: req}, nil
}

// Do makes the origin usable without net/http's client.
func (o *origin) Do(req *http.Request) (*http.Response, error) { return o.RoundTrip(req) }

// part counts closings of what it stands for.
type part struct {
	*bytes.Reader
	closed int
	err    error
}

func (p *part) Close() error { p.closed++; return p.err }

func streams(c *rt.Case) {
	r := c.R
	o := &origin{rnd: rand.New(rand.NewPCG(c.Uint64(), 2)), data: make([]byte, c.IntN(4000)), objs: map[string][]byte{}, open: map[*respBody]string{}, kind: map[string]int{}}
	o.bad = []float64{0, 0.1, 0.3, 0.7}[c.IntN(4)]
	doer := fileserver.Doer(o)
	if c.IntN(2) == 0 {
		doer = &http.Client{Transport: o}
	}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	what := ""
	none := func(when string) {
		if l := o.settled(); len(l) > 0 {
			c.Fail("R01:streams:body:"+what, "%s: after %s %d of %d response bodies are open: %q", what, when, len(l), o.n, l[0])
		}
	}
	rd := func(ra io.ReaderAt, size int64) {
		buf := make([]byte, 1+c.IntN(900))
		off := c.Int64N(size + 10)
		n, err := ra.ReadAt(buf, off)
		c.Logf("ReadAt(%d, %d) = %d, %v", len(buf), off, n, err)
		r.Eval(1)
	}
	switch k := c.Idx % 6; k {
	case 0, 1:
		what = "httprange.New"
		cfg := &httprange.Config{Client: doer}
		var ra *httprange.ReaderAt
		var err error
		if k == 0 {
			ra, err = httprange.New(ctx, "http://h/obj", cfg)
		} else {
			what = "httprange.NewRange"
			ra, err = httprange.NewRange(ctx, "http://h/obj", int64(c.IntN(100)), int64(c.IntN(5000)), cfg)
		}
		c.Must(err)
		pos := int64(0)
		for range c.IntN(8) {
			switch c.IntN(5) {
			case 0:
				ra.Probe(ctx)
			case 1, 2:
				rd(ra, int64(len(o.data)))
			case 3:
				var wg sync.WaitGroup
				for g := range 3 {
					c.Go(&wg, func() {
						b := make([]byte, 100)
						ra.ReadAt(b, int64(g*90))
					})
				}
				wg.Wait()
			default:
				b := make([]byte, 1+c.IntN(300))
				n, _ := ra.ReadAt(b, pos)
				pos += int64(n)
			}
			if k == 0 {
				none("a read")
			}
		}
		if c.IntN(3) == 0 {
			cancel()
		}
		ra.Close()
		none("Close")
	case 2:
		what = "fileserver.HTTPClient"
		cl := &fileserver.HTTPClient{BaseURL: &url.URL{Scheme: "http", Host: "h"}, Client: doer}
		for range 6 {
			name := []string{"obj", "none", "p"}[c.IntN(3)]
			switch c.IntN(3) {
			case 0:
				body, n, err := cl.Get(ctx, name, int64(c.IntN(2)*c.IntN(4000)))
				c.Logf("Get %s = %d, %v", name, n, err)
				if err == nil {
					if c.IntN(2) == 0 {
						io.Copy(io.Discard, body)
					}
					body.Close()
				}
			case 1:
				n, err := cl.Stat(ctx, name)
				c.Logf("Stat %s = %d, %v", name, n, err)
			case 2:
				err := cl.Put(ctx, name, 50, bytes.NewReader(make([]byte, 50)))
				c.Logf("Put %s = %v", name, err)
			}
			r.Eval(1)
			none("a call")
			if c.IntN(12) == 0 {
				cancel()
			}
		}
	case 3:
		what = "fileserver.ChunkedSource"
		cl := &fileserver.HTTPClient{BaseURL: &url.URL{Scheme: "http", Host: "h"}, Client: doer}
		total, chunk := int64(1+c.IntN(900)), int64(1+c.IntN(300))
		name := func(i int) string { return fmt.Sprint("c", i) }
		for i := int64(0); i*chunk < total; i++ {
			o.objs[name(int(i))] = make([]byte, min(chunk, total-i*chunk))
		}
		s := fileserver.NewChunkedSource(cl, name, total, chunk)
		for range 4 {
			body, err := s.Open(ctx, int64(c.IntN(int(total)+3)))
			r.Eval(1)
			if err != nil {
				none("a failing Open")
				continue
			}
			n, err := io.CopyN(io.Discard, body, int64(c.IntN(int(total)+5)))
			c.Logf("read %d, %v", n, err)
			if c.IntN(8) == 0 {
				cancel()
			}
			body.Close()
			none("Close")
		}
	case 4:
		what = "fileserver.ChunkedSink"
		cl := &fileserver.HTTPClient{BaseURL: &url.URL{Scheme: "http", Host: "h"}, Client: doer}
		total, chunk := int64(c.IntN(900)), int64(1+c.IntN(300))
		s := fileserver.NewChunkedSink(cl, func(i int) string { return fmt.Sprint("c", i) }, total, chunk)
		for range 4 {
			off, done, err := s.State(ctx)
			c.Logf("State = %d %v %v", off, done, err)
			none("State")
			src := &slow{r: bytes.NewReader(make([]byte, max(0, total-off-int64(c.IntN(3)*c.IntN(100))))), at: 1 << 30}
			if c.IntN(3) == 0 {
				src.at, src.err = c.IntN(3), errUser
			}
			if c.IntN(6) == 0 {
				src.at, src.do = c.IntN(3), cancel
			}
			err = s.Append(ctx, off/chunk*chunk, src)
			c.Logf("Append = %v", err)
			none("Append")
			r.Eval(2)
		}
	case 5:
		what = "stream"
		var rs []io.ReadCloser
		var ps []*part
		var sized []stream.SizedReaderAt
		for range 1 + c.IntN(5) {
			p := &part{Reader: bytes.NewReader(make([]byte, c.IntN(50)))}
			if c.IntN(4) == 0 {
				p.err = errUser
			}
			ps, rs = append(ps, p), append(rs, p)
			sized = append(sized, stream.SizedReaderAt{R: p, Size: p.Size()})
		}
		var m io.ReadCloser
		if c.IntN(2) == 0 {
			what = "stream.NewMultiReadCloser"
			m = stream.NewMultiReadCloser(rs...)
		} else {
			what = "stream.NewMultiReadAtSeekCloser"
			m = stream.NewMultiReadAtSeekCloser(sized)
		}
		io.CopyN(io.Discard, m, int64(c.IntN(120)))
		for _, p := range ps {
			if p.closed > 0 {
				c.Fail("R01:streams:early:"+what, "%s: a part was closed by reading", what)
			}
		}
		err := m.Close()
		for i, p := range ps {
			if p.closed == 0 {
				c.Fail("R01:streams:part:"+what, "%s: Close (%v) left part %d of %d open", what, err, i, len(ps))
			}
		}
		// streams opened at offsets
		seq, last := 0, []*part{}
		q := stream.NewSeqReaderAt(func(off int64) (io.ReadCloser, error) {
			seq++
			if c.IntN(5) == 0 {
				return nil, errUser
			}
			p := &part{Reader: bytes.NewReader(make([]byte, max(0, 200-off-int64(c.IntN(2)*c.IntN(50)))))}
			if c.IntN(5) == 0 {
				p.err = errUser
			}
			last = append(last, p)
			return p, nil
		}, 200)
		what = "stream.NewSeqReaderAt"
		for range c.IntN(8) {
			rd(q, 200)
			n := 0
			for _, p := range last {
				if p.closed == 0 {
					n++
				}
			}
			if n > 1 {
				c.Fail("R01:streams:stream:"+what, "%d of %d streams are open at once", n, len(last))
			}
		}
		err = q.Close()
		for i, p := range last {
			if p.closed == 0 {
				c.Fail("R01:streams:stream:"+what, "Close (%v) left stream %d of %d open", err, i, len(last))
			}
		}
	}
	for k, n := range o.kind {
		r.CountN("streams/"+k, n)
	}
	r.Count("streams/" + what)
	r.Distinct(fmt.Sprint("streams", c.Idx, o.n))
}

// spools looks for temporary files of chunks.
func spools(c *rt.Case) {
	l, _ := filepath.Glob(filepath.Join(os.TempDir(), "chunkedsink-*"))
	if len(l) > 0 {
		c.Fail("R01:streams:spool", "%d temporary files are left, as %s", len(l), l[0])
	}
	es, _ := os.ReadDir("/proc/self/fd")
	for _, e := range es {
		if t, err := os.Readlink("/proc/self/fd/" + e.Name()); err == nil && strings.Contains(t, "chunkedsink-") {
			c.Fail("R01:streams:spool-open", "still open: %s", t)
		}
	}
}
