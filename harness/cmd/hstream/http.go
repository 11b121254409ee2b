package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"math/rand/v2"
	"net/http"
	"net/url"
	"strings"
	"sync"

	"github.com/ngicks/go-fsys-helper/stream/httprange"
	"verif/harness/rt"
)

// version is one state of the remote object. Every byte tells its version and
// offset apart (up to a hash), so a mixed or misplaced byte is recognised.
type version struct {
	id   int
	data []byte
	etag string
	lm   string
}

func mkVersion(r *rand.Rand, id, size int, kind string) *version {
	v := &version{id: id, data: make([]byte, size)}
	for i := range v.data {
		// never equal between versions at one offset, rarely equal at near offsets
		v.data[i] = byte((i*7+i/256*13)%61*4 + id)
	}
	switch kind {
	case "strong":
		v.etag = fmt.Sprintf(`"v%d"`, id)
	case "weak":
		v.etag = fmt.Sprintf(`W/"v%d"`, id)
	case "lm":
		v.lm = fmt.Sprintf("Mon, 02 Jan 2023 15:04:%02d GMT", id)
	case "both":
		v.etag = fmt.Sprintf(`"v%d"`, id)
		v.lm = fmt.Sprintf("Mon, 02 Jan 2023 15:04:%02d GMT", id)
	case "weak+lm":
		v.etag = fmt.Sprintf(`W/"v%d"`, id)
		v.lm = fmt.Sprintf("Mon, 02 Jan 2023 15:04:%02d GMT", id)
	case "weakened": // the same tag, strong or weak
		v.etag = []string{`"v"`, `W/"v"`, `W/"w"`}[id%3]
	case "same-etag+lm": // only the date tells
		v.etag = `W/"v"`
		v.lm = fmt.Sprintf("Mon, 02 Jan 2023 15:04:%02d GMT", id)
	case "etag+same-lm": // only the tag tells
		v.etag = fmt.Sprintf(`"v%d"`, id)
		v.lm = "Mon, 02 Jan 2023 15:04:00 GMT"
	}
	return v
}

// body is a response body with everything observable about it.
type body struct {
	data   []byte
	pos    int
	chunk  int // longest piece of one Read (0: any)
	eager  bool
	err    error // at the end (nil: EOF)
	inf    bool  // never ends
	mu     *sync.Mutex
	open   *int
	taken  int
	closed bool
}

func (b *body) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	if b.closed {
		return 0, errors.New("http: read on closed response body")
	}
	n := copy(p, b.data[b.pos:])
	if b.chunk > 0 && n > b.chunk {
		n = b.chunk
	}
	b.pos += n
	b.taken += n
	if n == 0 && b.inf {
		for i := range p {
			p[i] = 0xEE
		}
		b.taken += len(p)
		return len(p), nil
	}
	if b.pos == len(b.data) && !b.inf && (n == 0 || b.eager) {
		if b.err != nil {
			return n, b.err
		}
		return n, io.EOF
	}
	return n, nil
}

func (b *body) Close() error {
	b.mu.Lock()
	defer b.mu.Unlock()
	if !b.closed {
		b.closed = true
		*b.open--
	}
	return nil
}

// hostile answers range requests with scripted deviations.
type hostile struct {
	c        *rt.Case
	rng      *rand.Rand
	mu       sync.Mutex
	versions []*version
	cur      int
	open     int
	requests int
	bodies   []*body
	// of the last response
	lastDev    string
	lastFatal  bool
	lastVer    int
	devRate    int
	host       string
	ignoreIfR  bool
	lastBody   *body
	errs       error
	lastHonest bool
	lastTotal  int64 // the complete length the last response states
	lastHost   string
}

func (h *hostile) Do(req *http.Request) (*http.Response, error) {
	h.mu.Lock()
	defer h.mu.Unlock()
	h.requests++
	if err := req.Context().Err(); err != nil {
		h.lastDev = "ctx"
		return nil, &url.Error{Op: "Get", URL: req.URL.String(), Err: err}
	}
	if req.Header.Get("Accept-Encoding") != "identity" {
		h.c.Fail("H01:accept-encoding", "request asks for encoding %q", req.Header.Get("Accept-Encoding"))
	}
	v := h.versions[h.cur]
	size := int64(len(v.data))
	dev := "none"
	if h.rng.IntN(100) < h.devRate {
		dev = deviations[h.rng.IntN(len(deviations))]
	}
	h.lastDev, h.lastVer, h.lastFatal, h.lastHonest = dev, v.id, false, dev == "none"

	var start, end int64 = 0, size - 1
	rg := req.Header.Get("Range")
	spec := strings.TrimPrefix(rg, "bytes=")
	a, z, ok := strings.Cut(spec, "-")
	if rg == "" || !ok {
		h.c.Fail("H01:no-range", "request without a range: %q", rg)
	}
	fmt.Sscan(a, &start)
	if z != "" {
		fmt.Sscan(z, &end)
	}
	end = min(end, size-1)
	full := false
	if ir := req.Header.Get("If-Range"); ir != "" && !h.ignoreIfR {
		if strings.HasPrefix(ir, "W/") {
			h.c.Fail("H01:weak-if-range", "If-Range %q is a weak validator", ir)
		}
		if ir != v.etag && ir != v.lm {
			full = true
		}
	}
	resp := &http.Response{Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: http.Header{}, Request: req}
	u := *req.URL
	if h.host != "" {
		u.Host = h.host
	}
	resp.Request = &http.Request{URL: &u, Method: "GET", Header: req.Header}
	h.lastHost, h.lastTotal = u.Host, size
	if v.etag != "" {
		resp.Header.Set("ETag", v.etag)
	}
	if v.lm != "" {
		resp.Header.Set("Last-Modified", v.lm)
	}
	b := &body{chunk: h.rng.IntN(9), eager: h.rng.IntN(2) == 0, mu: &h.mu, open: &h.open}
	cr := ""
	switch {
	case full:
		resp.StatusCode = 200
		b.data = v.data
	case start >= size:
		resp.StatusCode = 416
		cr = fmt.Sprintf("bytes */%d", size)
		if size == 0 && h.rng.IntN(2) == 0 {
			resp.StatusCode, cr = 200, ""
		}
	default:
		resp.StatusCode = 206
		cr = fmt.Sprintf("bytes %d-%d/%d", start, end, size)
		b.data = v.data[start : end+1]
	}
	is206 := resp.StatusCode == 206
	switch dev {
	case "transport-error":
		h.lastFatal = true
		h.c.R.Count("dev:" + dev)
		return nil, &url.Error{Op: "Get", URL: req.URL.String(), Err: errors.New("boom")}
	case "status":
		h.lastFatal = true
		resp.StatusCode = pick(h.rng, 204, 301, 304, 400, 403, 404, 410, 412, 500, 502, 503)
	case "full-200":
		if size > 0 {
			h.lastFatal = true
			resp.StatusCode, cr, b.data = 200, "", v.data
		}
	case "full-200-with-range-header":
		if is206 {
			h.lastFatal = true
			resp.StatusCode = 200
		}
	case "shifted": // another range, honestly described
		if is206 && size > 1 {
			ns := h.rng.Int64N(size)
			if ns != start {
				h.lastFatal = true
				ne := ns + h.rng.Int64N(size-ns)
				cr = fmt.Sprintf("bytes %d-%d/%d", ns, ne, size)
				b.data = v.data[ns : ne+1]
			}
		}
	case "short-range": // a shorter range, honestly described
		if is206 && end > start && end < size {
			h.lastFatal = true
			ne := start + h.rng.Int64N(end-start)
			cr = fmt.Sprintf("bytes %d-%d/%d", start, ne, size)
			b.data = v.data[start : ne+1]
		}
	case "long-range":
		if is206 && z != "" && end < size-1 {
			h.lastFatal = true
			ne := end + 1 + h.rng.Int64N(size-1-end)
			cr = fmt.Sprintf("bytes %d-%d/%d", start, ne, size)
			b.data = v.data[start : ne+1]
		}
	case "truncated-body":
		if is206 && len(b.data) > 0 {
			h.lastFatal = true
			b.data = b.data[:h.rng.IntN(len(b.data))]
		}
	case "body-error":
		if is206 && len(b.data) > 0 {
			h.lastFatal = true
			b.data = b.data[:h.rng.IntN(len(b.data))]
			b.err = errors.New("connection reset")
		}
	case "over-delivery":
		if is206 {
			b.data = append(append([]byte(nil), b.data...), bytes.Repeat([]byte{0xEE}, 1+h.rng.IntN(100))...)
		}
	case "infinite-body":
		b.inf = true
		if resp.StatusCode == 200 && size == 0 {
			h.lastFatal = true
		}
	case "gzip":
		h.lastFatal = true
		resp.Header.Set("Content-Encoding", pick(h.rng, "gzip", "br", "deflate", "x-foo", "identity, gzip"))
	case "uncompressed":
		h.lastFatal = true
		resp.Uncompressed = true
	case "no-content-range":
		if is206 {
			h.lastFatal = true
			cr = ""
		}
	case "multipart":
		if is206 {
			h.lastFatal = true
			cr = ""
			resp.Header.Set("Content-Type", "multipart/byteranges; boundary=x")
		}
	case "bad-content-range":
		if is206 {
			h.lastFatal = true
			cr = pick(h.rng, "bytes 0-0", "bytes 0-0/*", "bytes */*", "items 0-1/2", fmt.Sprintf("bytes %d-%d/*", start, end),
				fmt.Sprintf("bytes +%d-%d/%d", start, end, size), fmt.Sprintf("bytes %d-%d/%d", end+1, start, size),
				fmt.Sprintf("bytes %d-%d/%d", start, end, end), fmt.Sprintf("bytes %d-%d/99999999999999999999", start, end),
				fmt.Sprintf("bytes %d-%d/-%d", start, end, size), fmt.Sprintf("bytes %d--%d/%d", start, end, size), "bytes", " ", "bytes -/",
				fmt.Sprintf("bytes */%d", size), fmt.Sprintf("bytes 0x%x-0x%x/%d", start, end, size))
		}
	case "416-inside":
		if is206 {
			h.lastFatal = true
			resp.StatusCode = 416
			cr = pick(h.rng, fmt.Sprintf("bytes */%d", size), "", "bytes */*", fmt.Sprintf("bytes 0-1/%d", size))
			b.data = nil
		}
	case "416-bare":
		if resp.StatusCode == 416 {
			h.lastFatal = true
			cr = pick(h.rng, "", "bytes */*", "bytes */", "bytes */x")
		}
	case "drop-validators":
		resp.Header.Del("ETag")
		resp.Header.Del("Last-Modified")
		if h.cur != 0 || len(h.versions) > 1 {
			// undetectable together with a swap: only with one version
			if v.etag != "" {
				resp.Header.Set("ETag", v.etag)
			}
			if v.lm != "" {
				resp.Header.Set("Last-Modified", v.lm)
			}
		}
	case "other-total":
		if is206 && end < size-1 {
			// states another complete length than the pinned one (fatal once pinned)
			h.lastTotal = size + 1 + h.rng.Int64N(5)
			cr = fmt.Sprintf("bytes %d-%d/%d", start, end, h.lastTotal)
		}
	case "no-request":
		resp.Request = nil
		h.lastHost = ""
	}
	if cr != "" {
		resp.Header.Set("Content-Range", cr)
	}
	resp.ContentLength = int64(len(b.data))
	if b.inf || h.rng.IntN(3) == 0 {
		resp.ContentLength = -1
	}
	resp.Body = b
	h.lastBody = b
	h.open++
	h.bodies = append(h.bodies, b)
	h.c.Logf("   %s If-Range %q -> v%d %s: %d %q", rg, req.Header.Get("If-Range"), v.id, dev, resp.StatusCode, cr)
	h.c.R.Count("dev:" + dev)
	return resp, nil
}

var deviations = []string{"transport-error", "status", "full-200", "full-200-with-range-header", "shifted", "short-range", "long-range",
	"truncated-body", "body-error", "over-delivery", "infinite-body", "gzip", "uncompressed", "no-content-range", "multipart",
	"bad-content-range", "416-inside", "416-bare", "drop-validators", "no-request", "other-total", "none"}

var h01 = &rt.Check{ID: "H01", Level: "fault_enumeration",
	Rule:        "random read histories of whole-object and sub-range readers against a scripted transport: 21 kinds of response deviation, object versions swapped between and inside responses, 9 validator kinds, origins, prior knowledge; non-trivial = at least one deviation or swap happened; distinct by the sequence of (request, deviation, version)",
	Assumptions: []string{"a swapped object differs from the pinned one in something both responses state (length, ETag or Last-Modified)"},
	Run: func(r *rt.Run) {
		r.Cases("hostile", r.N(25000, 400000), h01case)
		r.Floor("swap-detected", 300)
		r.Floor("bytes", 10000)
		for _, d := range deviations {
			r.Floor("dev:"+d, 50)
		}
	}}

func h01case(c *rt.Case) {
	r := c.R
	kind := pick(c.Rand, "strong", "weak", "lm", "both", "weak+lm", "same-etag+lm", "etag+same-lm", "weakened", "size")
	nv := 1 + c.IntN(3)
	h := &hostile{c: c, rng: c.Rand, devRate: pick(c.Rand, 0, 10, 30), ignoreIfR: c.IntN(2) == 0}
	base := pick(c.Rand, 0, 1, 2, 10, 60, 300, 1200)
	for i := 0; i < nv; i++ {
		size := base
		if kind == "size" || c.IntN(3) == 0 {
			size = base + i*(1+c.IntN(5))
			if kind == "size" {
				size = base + i*7
			}
		}
		h.versions = append(h.versions, mkVersion(c.Rand, i, size, kind))
	}
	cfg := &httprange.Config{Client: h, Header: http.Header{"X-A": {"1"}}}
	if c.IntN(4) == 0 { // headers that must not survive
		cfg.Header.Set("Range", "bytes=0-0")
		cfg.Header.Set("If-Range", `"zzz"`)
		cfg.Header.Set("Accept-Encoding", "gzip")
	}
	pinned := -1
	if c.IntN(3) == 0 {
		v := h.versions[c.IntN(nv)]
		m := httprange.Metadata{}
		if c.IntN(3) > 0 {
			m.ETag = v.etag
		}
		if c.IntN(3) > 0 {
			m.LastModified = v.lm
		}
		if c.IntN(2) == 0 {
			m.Size = int64(len(v.data))
		}
		// the knowledge pins the version only where it tells versions apart
		if kind == "size" && m.Size > 0 || v.etag != "" && m.ETag != "" && kind != "same-etag+lm" || v.lm != "" && m.LastModified != "" && kind != "etag+same-lm" {
			pinned = v.id
		} else {
			m.Size = 0
		}
		cfg.PriorKnowledge = m
		c.Logf("prior knowledge v%d %+v pins %d", v.id, m, pinned)
	}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	var ra *httprange.ReaderAt
	var err error
	var vbase int64
	vlen := int64(1) << 60
	if c.IntN(2) == 0 {
		ra, err = httprange.New(ctx, "http://h.test/o", cfg)
	} else {
		vbase = c.Int64N(int64(base) + 4)
		vlen = pick(c.Rand, 0, 1, 5, int64(base), int64(base)+10, 1<<60, -1, 1<<62+1<<61)
		ra, err = httprange.NewRange(ctx, "http://h.test/o", vbase, vlen, cfg)
		if vlen < 0 {
			vlen = 1 << 60
		}
	}
	c.Must(err)
	c.Logf("kind %s versions %d sizes %d.. view %d+%d dev %d%%", kind, nv, base, vbase, vlen, h.devRate)
	key := fmt.Sprint(kind, nv, base, vbase, vlen)
	nontrivial := false
	var seq int64
	origin, total := "", int64(-1)
	if cfg.PriorKnowledge.Size > 0 {
		total = cfg.PriorKnowledge.Size
	}
	wrongTotal := false // the reader was told (and could not know) a wrong length
	accepted := func() {
		if h.lastHost != "" {
			if origin != "" && origin != h.lastHost {
				c.Fail("H01:origin", "a response from %s was accepted, pinned %s", h.lastHost, origin)
			}
			origin = h.lastHost
		}
		if total >= 0 && total != h.lastTotal {
			c.Fail("H01:total", "a response stating complete length %d was accepted, pinned %d", h.lastTotal, total)
		}
		total = h.lastTotal
		if h.lastDev == "other-total" && int64(len(h.versions[h.cur].data)) != total {
			wrongTotal = true
		}
	}
	// swappable: a response of another version says so in its headers
	match := func(p []byte, abs int64) (ids []int) {
		for _, v := range h.versions {
			if abs+int64(len(p)) <= int64(len(v.data)) && bytes.Equal(v.data[abs:abs+int64(len(p))], p) {
				ids = append(ids, v.id)
			}
		}
		return
	}
	var sticky []string // a size-unknown pin stays undecided between versions
	_ = sticky
	for i, steps := 0, 2+c.IntN(14); i < steps && !c.Failed(); i++ {
		if nv > 1 && c.IntN(6) == 0 {
			h.mu.Lock()
			h.cur = c.IntN(nv)
			c.Logf("object is now v%d", h.versions[h.cur].id)
			h.mu.Unlock()
			nontrivial = true
		}
		if c.IntN(12) == 0 {
			h.host = pick(c.Rand, "", "", "mirror.test", "h.test")
		}
		h.mu.Lock()
		reqs := h.requests
		h.lastDev, h.lastFatal = "", false
		h.lastBody = nil
		h.mu.Unlock()
		if c.IntN(10) == 0 {
			err := ra.Probe(ctx)
			c.Logf("Probe = %v", err)
			r.Eval(1)
			if h.requests > reqs && h.lastFatal && err == nil && h.lastDev != "truncated-body" && h.lastDev != "body-error" && h.lastDev != "416-bare" {
				c.Fail("H01:probe-accepted:"+h.lastDev, "Probe accepted a %s response", h.lastDev)
			}
			if err == nil {
				if pinned >= 0 && pinned != h.lastVer {
					c.Fail("H01:probe-swapped", "Probe accepted v%d, pinned v%d", h.lastVer, pinned)
				}
				pinned = h.lastVer
				accepted()
				if wrongTotal {
					break
				}
			}
			if h.lastDev != "none" {
				nontrivial = true
			}
			key += fmt.Sprint("P", h.lastDev, h.lastVer)
			continue
		}
		off := seq
		if c.IntN(3) == 0 {
			off = c.Int64N(int64(base) + 6)
		}
		p := bytes.Repeat([]byte{0xAA}, bufLen(c.Rand, base))
		n, err := ra.ReadAt(p, off)
		c.Logf("ReadAt(%d,%d) = %d, %v", len(p), off, n, err)
		r.Eval(1)
		if n < 0 || n > len(p) {
			c.Fail("H01:count", "n=%d", n)
			return
		}
		made := h.requests - reqs
		if made > 1 {
			c.Fail("H01:requests", "one read made %d requests", made)
		}
		key += fmt.Sprint(len(p), "@", off, h.lastDev, h.lastVer)
		if made > 0 && h.lastDev != "none" {
			nontrivial = true
		}
		abs := vbase + off
		if n > 0 {
			r.CountN("bytes", n)
			if off+int64(n) > vlen {
				c.Fail("H01:beyond-view", "ReadAt(%d,%d) = %d beyond the range of %d", len(p), off, n, vlen)
			}
			ids := match(p[:n], abs)
			if pinned < 0 && len(ids) > 0 {
				if made > 0 {
					pinned = h.lastVer
				} else {
					pinned = ids[0]
				}
			}
			ok := false
			for _, id := range ids {
				ok = ok || id == pinned
			}
			if !ok {
				c.Fail("H01:foreign-bytes", "ReadAt(%d,%d) = %d, %v returned bytes of version(s) %v, pinned v%d (response %s)", len(p), off, n, err, ids, pinned, h.lastDev)
			}
		}
		if made > 0 && pinned < 0 && (h.lastDev == "truncated-body" || h.lastDev == "body-error") && !errors.Is(err, httprange.ErrObjectChanged) {
			pinned = h.lastVer // its headers were accepted
		}
		if made > 0 && h.lastFatal && (err == nil || err == io.EOF) {
			// a failing body hurts only reads that needed its missing part
			served := (h.lastDev == "truncated-body" || h.lastDev == "body-error") && n <= len(h.lastBody.data) && err == nil && n == len(p)
			if !served {
				c.Fail("H01:accepted:"+h.lastDev, "ReadAt(%d,%d) = %d, %v on a %s response", len(p), off, n, err, h.lastDev)
			}
		}
		if made > 0 && (err == nil || err == io.EOF) {
			accepted()
			if wrongTotal {
				break // nothing later can be told right from wrong
			}
			if pinned < 0 {
				pinned = h.lastVer
			} else if pinned != h.lastVer {
				c.Fail("H01:swap-accepted", "response of v%d accepted, pinned v%d: %v", h.lastVer, pinned, err)
			}
		}
		if made > 0 && pinned >= 0 && h.lastVer != pinned && errors.Is(err, httprange.ErrObjectChanged) {
			r.Count("swap-detected")
		}
		switch {
		case err == nil:
			if n != len(p) {
				c.Fail("H01:short-without-error", "ReadAt(%d,%d) = %d, nil", len(p), off, n)
			}
		case err == io.EOF:
			if off < vlen {
				if pinned < 0 {
					// a refusal may have settled the length before anything was accepted
					past := false
					for _, v := range h.versions {
						past = past || abs >= int64(len(v.data))
					}
					if !past {
						c.Fail("H01:eof-unpinned", "EOF at %d before any response was accepted", abs)
					}
				} else if size := int64(len(h.versions[pinned].data)); abs+int64(n) < size && off+int64(n) < vlen {
					c.Fail("H01:early-eof", "ReadAt(%d,%d) = %d, EOF at %d of %d (response %s)", len(p), off, n, abs+int64(n), size, h.lastDev)
				}
			}
		default:
			r.Count("refused")
		}
		seq = off + int64(n)
	}
	if m, ok := ra.Metadata(); ok && !wrongTotal && pinned >= 0 && !c.Failed() {
		v := h.versions[pinned]
		if m.Size != int64(len(v.data)) || m.ETag != "" && m.ETag != v.etag || m.LastModified != "" && m.LastModified != v.lm {
			c.Fail("H01:metadata", "Metadata %+v of pinned v%d (%d bytes, %s, %s)", m, pinned, len(v.data), v.etag, v.lm)
		}
	}
	ra.Close()
	for _, b := range h.bodies {
		if b.taken > 4000+1<<16+1<<12 {
			c.Fail("H01:unbounded-read", "%d bytes were read from one response", b.taken)
		}
	}
	if nontrivial {
		r.Distinct(key)
	}
	r.Sample("%v", c.Log())
}
