package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"math"
	"math/rand/v2"
	"strings"
	"sync"
	"time"

	"github.com/ngicks/go-fsys-helper/stream"
	"verif/harness/rt"
)

func randBytes(r *rand.Rand, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(r.Uint32())
	}
	return b
}

// seg is an io.ReaderAt source with everything observable about it.
type seg struct {
	name     string
	data     []byte // what the source really holds
	declared int64
	eager    bool  // EOF together with the last bytes
	failAt   int64 // fails at this offset (-1: never)
	failBare bool  // error without the bytes before it
	err      error
	mu       sync.Mutex
	closes   int
	closeErr error
	noClose  bool
}

func (s *seg) ReadAt(p []byte, off int64) (int, error) {
	if off < 0 {
		return 0, errors.New("negative offset")
	}
	if off > int64(len(s.data)) {
		return 0, io.EOF
	}
	end := min(off+int64(len(p)), int64(len(s.data)))
	if s.failAt >= 0 && end > s.failAt || s.failAt >= 0 && s.failAt >= int64(len(s.data)) && off+int64(len(p)) > s.failAt {
		if s.failBare || off >= s.failAt {
			return 0, s.err
		}
		n := copy(p, s.data[off:s.failAt])
		return n, s.err
	}
	n := copy(p, s.data[off:end])
	if n < len(p) || (s.eager && end == int64(len(s.data))) {
		return n, io.EOF
	}
	return n, nil
}

func (s *seg) close() error {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.closes++
	return s.closeErr
}

type segCloser struct{ *seg }

func (s segCloser) Close() error { return s.close() }

// fileLike gives a segment a Stat.
type fileLike struct{ segCloser }

func (f fileLike) Stat() (fs.FileInfo, error) { return sizeInfo(f.declared), nil }

type sizeInfo int64

func (s sizeInfo) Name() string       { return "seg" }
func (s sizeInfo) Size() int64        { return int64(s) }
func (s sizeInfo) Mode() fs.FileMode  { return 0 }
func (s sizeInfo) ModTime() time.Time { return time.Time{} }
func (s sizeInfo) IsDir() bool        { return false }
func (s sizeInfo) Sys() any           { return nil }

// sizer gives a segment a Size.
type sizer struct{ segCloser }

func (f sizer) Size() int64 { return f.declared }

var segCounts = []int{0, 1, 1, 2, 2, 3, 4, 5, 8, 16, 31, 32, 33, 34, 40, 64, 65, 100}

func pick[T any](r *rand.Rand, l ...T) T { return l[r.IntN(len(l))] }

func segSize(r *rand.Rand) int {
	switch r.IntN(6) {
	case 0:
		return 0
	case 1:
		return 1
	case 2:
		return r.IntN(4)
	case 3:
		return 1 + r.IntN(400)
	default:
		return 1 + r.IntN(40)
	}
}

func mkSegs(r *rand.Rand, n int) (segs []*seg, content []byte) {
	for i := 0; i < n; i++ {
		d := randBytes(r, segSize(r))
		segs = append(segs, &seg{name: fmt.Sprint(i), data: d, declared: int64(len(d)), eager: r.IntN(2) == 0, failAt: -1, noClose: r.IntN(4) == 0})
		content = append(content, d...)
	}
	return
}

func assemble(r *rand.Rand, segs []*seg) (stream.ReadAtReadSeekCloser, string) {
	switch r.IntN(4) {
	case 0:
		var fl []fileLike
		for _, s := range segs {
			s.noClose = false
			fl = append(fl, fileLike{segCloser{s}})
		}
		sr, err := stream.SizedReadersFromFileLike(fl)
		if err != nil {
			panic(err)
		}
		return stream.NewMultiReadAtSeekCloser(sr), "filelike"
	case 1:
		var fl []sizer
		for _, s := range segs {
			s.noClose = false
			fl = append(fl, sizer{segCloser{s}})
		}
		return stream.NewMultiReadAtSeekCloser(stream.SizedReadersFromReadAtSizer(fl)), "sizer"
	case 2:
		if len(segs) > 1 { // nested: a multi reader is itself a segment
			k := 1 + r.IntN(len(segs)-1)
			var inner, outer []stream.SizedReaderAt
			var tot int64
			for _, s := range segs[:k] {
				inner = append(inner, sized(s))
				tot += s.declared
			}
			outer = append(outer, stream.SizedReaderAt{R: stream.NewMultiReadAtSeekCloser(inner), Size: tot})
			for _, s := range segs[k:] {
				outer = append(outer, sized(s))
			}
			return stream.NewMultiReadAtSeekCloser(outer), "nested"
		}
	}
	var sr []stream.SizedReaderAt
	for _, s := range segs {
		sr = append(sr, sized(s))
	}
	return stream.NewMultiReadAtSeekCloser(sr), "plain"
}

func sized(s *seg) stream.SizedReaderAt {
	if s.noClose {
		return stream.SizedReaderAt{R: s, Size: s.declared}
	}
	return stream.SizedReaderAt{R: segCloser{s}, Size: s.declared}
}

func bufLen(r *rand.Rand, total int) int {
	switch r.IntN(6) {
	case 0:
		return r.IntN(3)
	case 1:
		return 1 + r.IntN(8)
	case 2:
		return total + r.IntN(10)
	default:
		return 1 + r.IntN(1+total/2)
	}
}

var s01 = &rt.Check{ID: "S01", Level: "exploration",
	Rule: "random segment lists (0..100 segments, sizes 0..400, EOF styles, all constructors, nesting) and random Read/Seek/ReadAt histories; non-trivial = the history crossed a segment border or sought; distinct by (segment sizes, history)",
	Run: func(r *rt.Run) {
		r.Cases("seq", r.N(6000, 120000), func(c *rt.Case) {
			n := pick(c.Rand, segCounts...)
			segs, content := mkSegs(c.Rand, n)
			rd, kind := assemble(c.Rand, segs)
			c.Logf("%s segments %v", kind, sizes(segs))
			key := fmt.Sprint(sizes(segs))
			total := int64(len(content))
			var off int64
			zero := 0
			steps := 5 + c.IntN(40)
			crossed := false
			for i := 0; i < steps && !c.Failed(); i++ {
				switch c.IntN(5) {
				case 0, 1:
					p := make([]byte, bufLen(c.Rand, len(content)))
					nn, err := rd.Read(p)
					c.Logf("Read(%d)@%d = %d, %v", len(p), off, nn, err)
					key += fmt.Sprint("r", len(p))
					r.Eval(1)
					r.Count("read")
					if nn < 0 || nn > len(p) || off < total && off+int64(nn) > total || off >= total && nn != 0 {
						c.Fail("S01:read-count", "Read(%d) at %d of %d returned n=%d", len(p), off, total, nn)
						return
					}
					if nn > 0 && !bytes.Equal(p[:nn], content[off:off+int64(nn)]) {
						c.Fail("S01:read-bytes", "Read(%d) at %d returned other bytes", len(p), off)
						return
					}
					if c := segAt(segs, off); c != segAt(segs, off+int64(nn)) {
						crossed = true
					}
					off += int64(nn)
					switch {
					case err == io.EOF && off < total:
						c.Fail("S01:early-eof", "EOF at %d of %d", off, total)
					case err != nil && err != io.EOF:
						c.Fail("S01:read-error", "Read: %v", err)
					case err == nil && nn == 0 && len(p) > 0:
						zero++
						if off >= total || zero > 2 {
							c.Fail("S01:no-eof", "Read(%d) = 0, nil at %d of %d", len(p), off, total)
						}
					default:
						zero = 0
					}
				case 2:
					whence := c.IntN(3)
					var o int64
					switch c.IntN(8) {
					case 0:
						o = -1 - c.Int64N(total+3)
					case 1:
						o = pick(c.Rand, int64(math.MaxInt64), math.MinInt64, 1<<40, -(1 << 40))
					case 2:
						whence = pick(c.Rand, -1, 3, 7)
					case 3: // exactly on a border
						if n > 0 {
							var h int64
							for _, s := range segs[:c.IntN(n+1)] {
								h += s.declared
							}
							whence, o = 0, h+int64(c.IntN(3))-1
						}
					default:
						o = c.Int64N(total+3) - []int64{0, off, total}[whence]
					}
					base := int64(0)
					if whence == 1 {
						base = off
					} else if whence == 2 {
						base = total
					}
					got, err := rd.Seek(o, whence)
					c.Logf("Seek(%d,%d)@%d = %d, %v", o, whence, off, got, err)
					key += fmt.Sprint("s", o, whence)
					r.Eval(1)
					r.Count("seek")
					want := base + o
					overflow := base > 0 && o > math.MaxInt64-base
					if whence < 0 || whence > 2 || want < 0 || overflow {
						r.Count("seek-refused")
						if err == nil {
							c.Fail("S01:seek-accepted", "Seek(%d,%d) from %d accepted: %d", o, whence, off, got)
						}
						break // must not have moved: the following calls tell
					}
					if err != nil || got != want {
						c.Fail("S01:seek", "Seek(%d,%d) from %d = %d, %v; want %d", o, whence, off, got, err, want)
					}
					off = want
					crossed = true
				default:
					o := c.Int64N(total+4) - 1
					p := make([]byte, bufLen(c.Rand, len(content)))
					checkReadAt(c, rd, content, p, o)
					key += fmt.Sprint("a", len(p), o)
				}
			}
			// read out the rest: the sequential position was not disturbed
			if !c.Failed() && off <= total {
				rest, err := io.ReadAll(rd)
				r.Eval(1)
				if err != nil || !bytes.Equal(rest, content[off:]) {
					c.Fail("S01:read-rest", "rest from %d: %d bytes, %v; want %d", off, len(rest), err, total-off)
				}
			}
			r.Eval(1)
			if err := rd.Close(); err != nil {
				c.Fail("S01:close", "Close: %v", err)
			}
			if crossed {
				r.Distinct(key)
			}
			r.Sample("%v", c.Log())
		})
		r.Cases("conc", r.N(150, 3000), func(c *rt.Case) {
			n := pick(c.Rand, segCounts...)
			segs, content := mkSegs(c.Rand, n)
			rd, kind := assemble(c.Rand, segs)
			c.Logf("%s segments %v", kind, sizes(segs))
			var wg sync.WaitGroup
			for g := 0; g < 6; g++ {
				rng := rand.New(rand.NewPCG(c.Uint64(), 7))
				c.Go(&wg, func() {
					for i := 0; i < 60; i++ {
						o := rng.Int64N(int64(len(content)) + 2)
						checkReadAt(c, rd, content, make([]byte, bufLen(rng, len(content))), o)
					}
				})
			}
			c.Go(&wg, func() {
				for k := 0; k < 3; k++ {
					all, err := io.ReadAll(rd)
					if err != nil || !bytes.Equal(all, content) {
						c.Fail("S01:read-under-readat", "sequential read disturbed: %d bytes of %d, %v", len(all), len(content), err)
					}
					rd.Seek(0, io.SeekStart)
				}
			})
			wg.Wait()
			r.Count("concurrent-case")
			r.Distinct(fmt.Sprint("conc", sizes(segs)))
		})
		r.Cases("rc", r.N(800, 8000), func(c *rt.Case) {
			// the forward-only variant over arbitrary readers
			var rs []io.ReadCloser
			var content []byte
			n := c.IntN(12)
			for i := 0; i < n; i++ {
				d := randBytes(c.Rand, segSize(c.Rand))
				content = append(content, d...)
				rs = append(rs, &strm{data: d, short: c.IntN(2) == 0, eager: c.IntN(2) == 0, failAt: -1, rng: rand.New(rand.NewPCG(c.Uint64(), 1))})
			}
			rd := stream.NewMultiReadCloser(rs...)
			var got []byte
			for {
				p := make([]byte, 1+bufLen(c.Rand, len(content)))
				k, err := rd.Read(p)
				got = append(got, p[:k]...)
				if err != nil {
					if err != io.EOF {
						c.Fail("S01:rc-error", "%v", err)
					}
					break
				}
			}
			r.Eval(1)
			r.Count("forward-only")
			r.Distinct(fmt.Sprint("rc", len(content), n))
			if !bytes.Equal(got, content) {
				c.Fail("S01:rc-bytes", "got %d bytes, want %d", len(got), len(content))
			}
			rd.Close()
			for _, x := range rs {
				if x.(*strm).closes != 1 {
					c.Fail("S01:rc-close", "source closed %d times", x.(*strm).closes)
				}
			}
		})
		r.Floor("read", 1000)
		r.Floor("readat", 1000)
		r.Floor("seek-refused", 50)
		r.Floor("concurrent-case", 50)
	}}

func sizes(segs []*seg) (l []int64) {
	for _, s := range segs {
		l = append(l, s.declared)
	}
	return
}

func segAt(segs []*seg, off int64) int {
	for i, s := range segs {
		if off < s.declared {
			return i
		}
		off -= s.declared
	}
	return len(segs)
}

func checkReadAt(c *rt.Case, rd io.ReaderAt, content, p []byte, o int64) {
	total := int64(len(content))
	nn, err := rd.ReadAt(p, o)
	c.Logf("ReadAt(%d,%d) = %d, %v", len(p), o, nn, err)
	c.R.Eval(1)
	c.R.Count("readat")
	if o < 0 {
		if err == nil || nn != 0 {
			c.Fail("S01:readat-negative", "ReadAt(%d,%d) = %d, %v", len(p), o, nn, err)
		}
		return
	}
	want := int(max(0, min(int64(len(p)), total-o)))
	if nn != want || nn > 0 && !bytes.Equal(p[:nn], content[o:o+int64(nn)]) {
		c.Fail("S01:readat-bytes", "ReadAt(%d,%d) of %d = %d, %v; want %d bytes", len(p), o, total, nn, err, want)
		return
	}
	switch {
	case err != nil && err != io.EOF:
		c.Fail("S01:readat-error", "ReadAt: %v", err)
	case err == nil && nn < len(p):
		c.Fail("S01:readat-noerr", "ReadAt(%d,%d) = %d, nil", len(p), o, nn)
	case err == io.EOF && o+int64(nn) < total:
		c.Fail("S01:readat-early-eof", "ReadAt(%d,%d) of %d = %d, EOF", len(p), o, total, nn)
	}
}

// strm is a forward-only source.
type strm struct {
	data     []byte
	pos      int
	short    bool
	eager    bool
	failAt   int
	err      error
	rng      *rand.Rand
	closes   int
	closeErr error
	reads    int
	after    int // reads after an error or close
	ended    bool
	onRead   func()
}

func (s *strm) Read(p []byte) (int, error) {
	s.reads++
	if s.onRead != nil {
		s.onRead()
	}
	if s.ended || s.closes > 0 {
		s.after++
	}
	if s.closes > 0 {
		return 0, fs.ErrClosed
	}
	if len(p) == 0 {
		return 0, nil
	}
	n := min(len(p), len(s.data)-s.pos)
	if s.failAt >= 0 {
		if s.pos >= s.failAt {
			s.ended = true
			return 0, s.err
		}
		n = min(n, s.failAt-s.pos)
	}
	if s.short && n > 1 {
		n = 1 + s.rng.IntN(n)
	}
	copy(p, s.data[s.pos:s.pos+n])
	s.pos += n
	if s.failAt >= 0 && s.pos >= s.failAt && s.eager {
		s.ended = true
		return n, s.err
	}
	if s.failAt < 0 && s.pos == len(s.data) && (n == 0 || s.eager) {
		s.ended = true
		return n, io.EOF
	}
	return n, nil
}

func (s *strm) Close() error { s.closes++; return s.closeErr }

var s02 = &rt.Check{ID: "S02", Level: "fault_enumeration",
	Rule: "segment lists in which a random subset is shorter, longer or failing at a byte; read by loops of Read with random buffers and by random ReadAt; every position of the fault in small lists enumerated; non-trivial = the fault was reached",
	Run: func(r *rt.Run) {
		// Enumerated: 1..4 segments of size 0..3, one fault anywhere, buffer sizes 1..8.
		r.Cases("enum", r.N(4000, 40000), func(c *rt.Case) { s02case(c, 1+c.IntN(4), 4, 1) })
		r.Cases("rand", r.N(4000, 80000), func(c *rt.Case) { s02case(c, pick(c.Rand, segCounts[1:]...), 60, 1+c.IntN(3)) })
		r.Cases("rc", r.N(1500, 10000), func(c *rt.Case) {
			n := 1 + c.IntN(8)
			var rs []io.ReadCloser
			var content []byte
			bad := c.IntN(n)
			if c.IntN(4) == 0 {
				bad = -1
			}
			e := errors.New("boom")
			var want []error
			for i := 0; i < n; i++ {
				s := &strm{data: randBytes(c.Rand, segSize(c.Rand)), short: c.IntN(2) == 0, eager: c.IntN(2) == 0, failAt: -1, rng: rand.New(rand.NewPCG(c.Uint64(), 1))}
				if i == bad {
					s.failAt, s.err = c.IntN(len(s.data)+1), e
				}
				if bad < 0 || i <= bad {
					if i == bad {
						content = append(content, s.data[:s.failAt]...)
					} else {
						content = append(content, s.data...)
					}
				}
				if c.IntN(3) == 0 {
					s.closeErr = errors.New("will not close") // all alike
					want = append(want, s.closeErr)
				}
				rs = append(rs, s)
			}
			rd := stream.NewMultiReadCloser(rs...)
			got, err := io.ReadAll(iotestSmall{rd, c.Rand})
			r.Eval(1)
			r.Count("rc")
			r.Distinct(fmt.Sprint("rc", n, bad, len(content), len(want)))
			if bad >= 0 && !errors.Is(err, e) || bad < 0 && err != nil {
				c.Fail("S02:rc-error-lost", "read error %v, injected %v", err, e)
			}
			if !bytes.Equal(got, content) {
				c.Fail("S02:rc-bytes", "delivered %d bytes, want %d", len(got), len(content))
			}
			checkClose(c, rd.Close(), want, func(f func(int)) {
				for _, x := range rs {
					f(x.(*strm).closes)
				}
			})
		})
		r.Floor("short", 500)
		r.Floor("long", 200)
		r.Floor("fail", 500)
		r.Floor("close-errors", 200)
	}}

type iotestSmall struct {
	r io.Reader
	g *rand.Rand
}

func (s iotestSmall) Read(p []byte) (int, error) {
	if len(p) > 1 {
		p = p[:1+s.g.IntN(len(p))]
	}
	return s.r.Read(p)
}

func checkClose(c *rt.Case, err error, want []error, each func(func(int))) {
	c.R.Eval(1)
	if len(want) > 0 {
		c.R.Count("close-errors")
	}
	if (err != nil) != (len(want) > 0) {
		c.Fail("S02:close-result", "Close = %v, %d sources failed to close", err, len(want))
	}
	for _, w := range want {
		if !errors.Is(err, w) {
			c.Fail("S02:close-error-lost", "Close = %v lacks %v", err, w)
		}
	}
	alike := 0
	for _, w := range want {
		if w.Error() == "will not close" {
			alike++
		}
	}
	if alike > 0 && err != nil && strings.Count(err.Error(), "will not close") < alike {
		c.Fail("S02:close-untold", "Close = %v, but %d sources failed to close", err, alike)
	}
	each(func(n int) {
		if n != 1 {
			c.Fail("S02:close-count", "a source was closed %d times", n)
		}
	})
}

func s02case(c *rt.Case, n, maxSize, faults int) {
	var segs []*seg
	for i := 0; i < n; i++ {
		d := randBytes(c.Rand, c.IntN(maxSize))
		segs = append(segs, &seg{name: fmt.Sprint(i), data: d, declared: int64(len(d)), eager: c.IntN(2) == 0, failAt: -1})
	}
	kinds := ""
	type fault struct {
		kind string
		at   int64 // logical offset of the first wrong byte
		err  error
	}
	bad := map[int]*fault{}
	for k := 0; k < faults; k++ {
		i := c.IntN(n)
		if c.IntN(3) == 0 {
			i = n - 1
		}
		if bad[i] != nil {
			continue
		}
		s := segs[i]
		switch c.IntN(3) {
		case 0:
			s.declared += int64(1 + c.IntN(5))
			bad[i] = &fault{kind: "short", err: io.ErrUnexpectedEOF}
		case 1:
			s.data = append(s.data, randBytes(c.Rand, 1+c.IntN(5))...)
			bad[i] = &fault{kind: "long", err: stream.ErrInvalidSize}
		case 2:
			if s.declared == 0 {
				continue
			}
			s.failAt = c.Int64N(s.declared)
			s.failBare = c.IntN(2) == 0
			s.err = fmt.Errorf("boom %d", i)
			bad[i] = &fault{kind: "fail", err: s.err}
		}
		kinds += bad[i].kind
	}
	// logical content; defined[i] false where no source byte exists
	var content []byte
	var defined []bool
	firstUndef := int64(-1)
	var undefErr error
	longs := map[int64]bool{} // logical border at which an over-long segment ends
	for i, s := range segs {
		head := int64(len(content))
		f := bad[i]
		valid := s.declared
		if f != nil {
			switch f.kind {
			case "short":
				valid = int64(len(s.data))
			case "fail":
				valid = s.failAt
			case "long":
				longs[head+s.declared] = true
			}
		}
		for k := int64(0); k < s.declared; k++ {
			if k < valid {
				content = append(content, s.data[k])
				defined = append(defined, true)
			} else {
				if firstUndef < 0 {
					firstUndef, undefErr = head+k, f.err
				}
				content = append(content, 0)
				defined = append(defined, false)
			}
		}
		if c.IntN(3) == 0 {
			s.closeErr = fmt.Errorf("close %s", s.name)
		}
	}
	total := int64(len(content))
	var sr []stream.SizedReaderAt
	for _, s := range segs {
		sr = append(sr, sized(s))
	}
	rd := stream.NewMultiReadAtSeekCloser(sr)
	c.Logf("sizes %v kinds %s firstUndef %d total %d", sizes(segs), kinds, firstUndef, total)
	good := func(off int64, p []byte) bool {
		for i, b := range p {
			k := off + int64(i)
			if k >= total || !defined[k] || content[k] != b {
				return false
			}
		}
		return true
	}
	// nextLong returns the first over-long border after off
	nextLong := func(off int64) int64 {
		for k := off + 1; k <= total; k++ {
			if longs[k] {
				return k
			}
		}
		return total
	}
	for i := range bad {
		c.R.Count(bad[i].kind)
	}
	c.R.Distinct(fmt.Sprint(sizes(segs), kinds, firstUndef))
	c.R.Sample("%v", c.Log())

	fixed := 1 + c.IntN(8)
	if c.IntN(2) == 0 {
		fixed = 0
	}
	nb := func() int {
		if fixed > 0 {
			return fixed
		}
		return 1 + bufLen(c.Rand, len(content))
	}
	if c.IntN(2) == 0 { // sequential
		var off int64
		for step := 0; step < 10000; step++ {
			p := make([]byte, nb())
			nn, err := rd.Read(p)
			c.Logf("Read(%d)@%d = %d, %v", len(p), off, nn, err)
			c.R.Eval(1)
			if nn < 0 || nn > len(p) {
				c.Fail("S02:count", "n=%d of %d", nn, len(p))
				return
			}
			switch {
			case err == nil:
				if !good(off, p[:nn]) {
					c.Fail("S02:wrong-bytes-without-error", "Read(%d) at %d delivered bytes of another offset", len(p), off)
					return
				}
				off += int64(nn)
				continue
			case err == io.EOF:
				if !good(off, p[:nn]) {
					c.Fail("S02:wrong-bytes-with-eof", "Read(%d) at %d", len(p), off)
				}
				if off+int64(nn) != total {
					c.Fail("S02:eof-short-of-declared", "clean EOF at %d of declared %d", off+int64(nn), total)
				}
				c.R.Count("seq-eof")
			default:
				// delivered before the discrepancy: the correct prefix
				lim := min(int64(nn), nextLong(off)-off)
				if firstUndef >= 0 {
					lim = min(lim, firstUndef-off)
				}
				if lim > 0 && !good(off, p[:lim]) {
					c.Fail("S02:wrong-prefix", "Read(%d) at %d", len(p), off)
				}
				checkErrKind(c, err, undefErr, len(longs) > 0, kinds)
				c.R.Count("seq-error")
			}
			break
		}
	} else {
		for step := 0; step < 20 && !c.Failed(); step++ {
			off := c.Int64N(total + 1)
			p := make([]byte, nb())
			nn, err := rd.ReadAt(p, off)
			c.Logf("ReadAt(%d,%d) = %d, %v", len(p), off, nn, err)
			c.R.Eval(1)
			end := min(off+int64(len(p)), total)
			touches := false
			for k := off; k < end; k++ {
				if !defined[k] {
					touches = true
				}
			}
			switch {
			case err == nil:
				if nn != len(p) || !good(off, p) {
					c.Fail("S02:readat-wrong-bytes", "ReadAt(%d,%d) = %d, nil", len(p), off, nn)
				}
			case err == io.EOF:
				if touches {
					c.Fail("S02:readat-eof-for-missing", "ReadAt(%d,%d) = %d, EOF over missing bytes (declared %d)", len(p), off, nn, total)
				} else if off < total && off+int64(nn) != total || !good(off, p[:nn]) {
					c.Fail("S02:readat-eof", "ReadAt(%d,%d) = %d, EOF", len(p), off, nn)
				}
			default:
				c.R.Count("readat-error")
				hasLong := false
				for b := range longs {
					if off < b && b <= end || off <= b && b < end {
						hasLong = true
					}
				}
				if !touches && !hasLong {
					// a bare failure may hit a range that ends before the failing byte only if it reaches it
					c.Fail("S02:readat-spurious-error", "ReadAt(%d,%d): %v", len(p), off, err)
				}
			}
		}
	}
	var want []error
	for _, s := range segs {
		if s.closeErr != nil {
			want = append(want, s.closeErr)
		}
	}
	checkClose(c, rd.Close(), want, func(f func(int)) {
		for _, s := range segs {
			f(s.closes)
		}
	})
}

func checkErrKind(c *rt.Case, err, undef error, long bool, kinds string) {
	if long && errors.Is(err, stream.ErrInvalidSize) {
		return
	}
	if undef != nil && errors.Is(err, undef) {
		return
	}
	c.Fail("S02:error-kind", "error %v does not tell the discrepancy (%s, want %v)", err, kinds, undef)
}

var s03 = &rt.Check{ID: "S03", Level: "exploration",
	Rule: "random ReadAt histories (sequential runs, jumps, overlaps, past-the-end) over forward-only sources with short reads, failures at a byte and failing opens; non-trivial = at least one jump and one sequential run; distinct by history",
	Run: func(r *rt.Run) {
		r.Cases("hist", r.N(6000, 100000), func(c *rt.Case) {
			content := randBytes(c.Rand, segSize(c.Rand)+c.IntN(100))
			size := int64(len(content))
			faulty := c.IntN(3) == 0
			var opened []*strm
			var live int
			failOpen := false
			e := errors.New("boom")
			open := func(off int64) (io.ReadCloser, error) {
				if off < 0 || off > size {
					c.Fail("S03:open-offset", "opened at %d of %d", off, size)
				}
				for _, s := range opened {
					if s.closes == 0 {
						c.Fail("S03:two-open", "opened another stream while one is open")
					}
				}
				if failOpen {
					return nil, e
				}
				s := &strm{data: content[off:], short: c.IntN(2) == 0, eager: c.IntN(2) == 0, failAt: -1, rng: rand.New(rand.NewPCG(c.Uint64(), 1))}
				if faulty && c.IntN(3) == 0 {
					s.failAt, s.err = c.IntN(len(s.data)+1), e
				}
				if faulty && c.IntN(4) == 0 {
					s.closeErr = e
				}
				opened = append(opened, s)
				live++
				return s, nil
			}
			ra := stream.NewSeqReaderAt(open, size)
			if ra.Size() != size {
				c.Fail("S03:size", "Size %d want %d", ra.Size(), size)
			}
			key := fmt.Sprint(size)
			var pos int64 = -1 // where a kept stream would be
			allowed := 0       // opens the history justifies
			jumps, seqs := 0, 0
			for i, steps := 0, 3+c.IntN(25); i < steps && !c.Failed(); i++ {
				failOpen = faulty && c.IntN(8) == 0
				off := pos
				if pos < 0 || c.IntN(3) == 0 {
					off = c.Int64N(size+3) - 1
				}
				p := make([]byte, bufLen(c.Rand, int(size)))
				nopen := len(opened)
				n, err := ra.ReadAt(p, off)
				c.Logf("ReadAt(%d,%d) = %d, %v (opens %d)", len(p), off, n, err, len(opened)-nopen)
				key += fmt.Sprint(" ", off, "+", len(p))
				r.Eval(1)
				if off < 0 {
					if err == nil || n != 0 {
						c.Fail("S03:negative", "ReadAt(%d,%d) = %d, %v", len(p), off, n, err)
					}
					continue
				}
				if n < 0 || n > len(p) || n > 0 && (off+int64(n) > size || !bytes.Equal(p[:n], content[off:off+int64(n)])) {
					c.Fail("S03:bytes", "ReadAt(%d,%d) = %d returned other bytes", len(p), off, n)
					return
				}
				if off >= size {
					if err != io.EOF {
						c.Fail("S03:past-end", "ReadAt(%d,%d) = %d, %v", len(p), off, n, err)
					}
					continue
				}
				want := int(min(int64(len(p)), size-off))
				if err == nil && n != len(p) || err == io.EOF && n != want {
					c.Fail("S03:short", "ReadAt(%d,%d) of %d = %d, %v", len(p), off, size, n, err)
				}
				if err != nil && err != io.EOF {
					r.Count("failed-read")
					if !faulty || !errors.Is(err, e) {
						c.Fail("S03:error", "ReadAt: %v", err)
					}
				}
				if off == pos {
					seqs++
					if d := len(opened) - nopen; d > 0 && (err == nil || n > 0) {
						c.Fail("S03:reopen", "sequential read at %d opened the source again", off)
					}
				} else {
					jumps++
					allowed++
					if d := len(opened) - nopen; d > 1 {
						c.Fail("S03:opens", "one read opened the source %d times", d)
					}
				}
				if err == nil {
					pos = off + int64(n)
				} else {
					pos = -1
				}
			}
			if seqs > 0 {
				r.Count("sequential")
			}
			if jumps > 1 {
				r.Count("jump")
			}
			if seqs > 0 && jumps > 1 {
				r.Distinct(key)
			}
			if err := ra.Close(); err != nil && !(faulty && errors.Is(err, e)) {
				c.Fail("S03:close", "%v", err)
			}
			for _, s := range opened {
				if s.closes != 1 {
					c.Fail("S03:leak", "a stream was closed %d times", s.closes)
				}
				if s.after > 0 {
					c.Fail("S03:read-after-end", "a finished stream was read again")
				}
			}
			r.Sample("%v", c.Log())
		})
		r.Cases("front-to-back", r.N(500, 5000), func(c *rt.Case) {
			content := randBytes(c.Rand, c.IntN(500))
			opens := 0
			ra := stream.NewSeqReaderAt(func(off int64) (io.ReadCloser, error) {
				opens++
				return &strm{data: content[off:], short: true, eager: c.IntN(2) == 0, failAt: -1, rng: rand.New(rand.NewPCG(c.Uint64(), 1))}, nil
			}, int64(len(content)))
			got, err := io.ReadAll(iotestSmall{io.NewSectionReader(ra, 0, ra.Size()), c.Rand})
			r.Eval(1)
			if err != nil || !bytes.Equal(got, content) {
				c.Fail("S03:section", "%d bytes of %d, %v", len(got), len(content), err)
			}
			if want := min(1, len(content)); opens != want {
				c.Fail("S03:front-to-back-opens", "front-to-back read opened %d times", opens)
			}
			r.Distinct(fmt.Sprint("ftb", len(content)))
			ra.Close()
		})
		r.Floor("sequential", 500)
		r.Floor("jump", 500)
		r.Floor("failed-read", 200)
	}}

var s04 = &rt.Check{ID: "S04", Level: "exploration",
	Rule: "random read histories with source errors at any byte (with or without data), cancellation before, between, during (inside a source read) and concurrently; cancel and deadline contexts; non-trivial = an error or cancellation happened; distinct by (content length, history, cancel point)",
	Run: func(r *rt.Run) {
		r.Cases("hist", r.N(8000, 150000), func(c *rt.Case) {
			content := randBytes(c.Rand, c.IntN(80))
			s := &strm{data: content, short: c.IntN(2) == 0, eager: c.IntN(2) == 0, failAt: -1, rng: rand.New(rand.NewPCG(c.Uint64(), 1))}
			e := errors.New("boom")
			if c.IntN(3) == 0 {
				s.failAt, s.err = c.IntN(len(content)+1), e
			}
			ctx, cancel := context.WithCancelCause(context.Background())
			wantCtx := context.Canceled
			if c.IntN(4) == 0 {
				var stop context.CancelFunc
				ctx, stop = context.WithDeadline(ctx, time.Unix(1, 0))
				defer stop()
				wantCtx = context.DeadlineExceeded
			}
			defer cancel(nil)
			steps := 4 + c.IntN(30)
			cancelAt := c.IntN(2 * steps)
			inside := c.IntN(3) == 0
			cancelled := ctx.Err() != nil
			insideNow := false
			s.onRead = func() {
				if cancelled {
					c.Fail("S04:read-after-cancel", "source read after cancellation was observable")
				}
				if insideNow {
					cancel(errors.New("cause"))
					cancelled = true
					insideNow = false
				}
			}
			rd := stream.NewCancellable(ctx, s)
			var got []byte
			var first error
			key := fmt.Sprint(len(content), s.failAt, cancelAt, inside)
			for i := 0; i < steps && !c.Failed(); i++ {
				if i == cancelAt {
					if inside {
						insideNow = true
					} else {
						cancel(errors.New("cause"))
						cancelled = true
					}
				}
				before := s.reads
				wasCancelled := cancelled
				p := make([]byte, c.IntN(12))
				n, err := rd.Read(p)
				c.Logf("Read(%d) = %d, %v", len(p), n, err)
				key += fmt.Sprint(",", len(p))
				r.Eval(1)
				if first != nil {
					if n != 0 || err != first {
						c.Fail("S04:not-sticky", "after %v: Read = %d, %v", first, n, err)
					}
					if s.reads != before {
						c.Fail("S04:read-after-error", "source read again after %v", first)
					}
					r.Count("after-error")
					continue
				}
				if n < 0 || n > len(p) {
					c.Fail("S04:count", "%d of %d", n, len(p))
					return
				}
				got = append(got, p[:n]...)
				if !bytes.HasPrefix(content, got) {
					c.Fail("S04:bytes", "not a prefix of the source")
				}
				if wasCancelled {
					if !errors.Is(err, wantCtx) || n != 0 {
						c.Fail("S04:cancel-not-reported", "Read after cancellation = %d, %v", n, err)
					}
					r.Count("cancelled")
				} else if err != nil && !(err == io.EOF && s.failAt < 0 && len(got) == len(content)) && err != e {
					c.Fail("S04:error", "unexpected error %v", err)
				}
				if err != nil {
					first = err
				}
			}
			if len(got) != s.pos {
				c.Fail("S04:lost", "source gave %d bytes, delivered %d", s.pos, len(got))
			}
			if first != nil {
				r.Distinct(key)
			}
			r.Sample("%v", c.Log())
		})
		r.Cases("conc", r.N(300, 5000), func(c *rt.Case) {
			content := randBytes(c.Rand, 4000)
			ctx, cancel := context.WithCancel(context.Background())
			var mu sync.Mutex
			done := false // cancel has returned
			s := &strm{data: content, short: true, failAt: -1, rng: rand.New(rand.NewPCG(c.Uint64(), 1))}
			rd := stream.NewCancellable(ctx, s)
			var wg sync.WaitGroup
			spins := c.IntN(3000)
			c.Go(&wg, func() {
				x := 0
				for i := 0; i < spins; i++ {
					x += i
				}
				_ = x
				cancel()
				mu.Lock()
				done = true
				mu.Unlock()
			})
			var got []byte
			var last error
			for {
				p := make([]byte, 16)
				mu.Lock()
				d := done
				mu.Unlock()
				before := s.reads
				n, err := rd.Read(p)
				got = append(got, p[:n]...)
				if d && (s.reads != before || err == nil) {
					c.Fail("S04:read-after-cancel", "Read begun after cancel returned touched the source (n=%d, %v)", n, err)
				}
				if err != nil {
					last = err
					break
				}
			}
			wg.Wait()
			r.Eval(1)
			if !bytes.HasPrefix(content, got) {
				c.Fail("S04:bytes", "not a prefix")
			}
			if last == io.EOF {
				r.Count("conc-eof")
			} else {
				r.Count("conc-cancelled")
				r.Distinct(fmt.Sprint("conc", len(got)))
			}
		})
		r.Floor("cancelled", 500)
		r.Floor("after-error", 500)
		r.Floor("conc-cancelled", 10)
	}}
