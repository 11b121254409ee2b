package main

import (
	"archive/tar"
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"math/rand/v2"
	"sort"
	"sync"
	"sync/atomic"

	"github.com/ngicks/go-fsys-helper/tarfs"
	"verif/harness/fsx"
	"verif/harness/rt"
)

// wordsTar is an archive of files whose every 8-byte word is unique.
func wordsTar(c *rt.Case) ([]byte, map[string][]byte) {
	var t tarBuf
	w := tar.NewWriter(&t)
	want := map[string][]byte{}
	next := uint64(1) << 60
	for i := range 4 {
		b := make([]byte, 8*c.IntN(3000))
		for o := 0; o < len(b); o += 8 {
			next += 1 + c.Uint64N(1000)
			binary.BigEndian.PutUint64(b[o:], next)
		}
		n := fmt.Sprintf("d%d/f%d", i%2, i)
		c.Must(w.WriteHeader(&tar.Header{Name: n, Size: int64(len(b)), Typeflag: tar.TypeReg, Mode: 0o644}))
		_, err := w.Write(b)
		c.Must(err)
		want[n] = b
	}
	for i := range 40 {
		c.Must(w.WriteHeader(&tar.Header{Name: fmt.Sprintf("many/e%d", i), Typeflag: tar.TypeDir, Mode: 0o755}))
	}
	c.Must(w.WriteHeader(&tar.Header{Name: "l", Typeflag: tar.TypeSymlink, Linkname: "d0/../d1/f1"}))
	c.Must(w.WriteHeader(&tar.Header{Name: "h", Typeflag: tar.TypeLink, Linkname: "d0/f0"}))
	want["l"], want["h"] = want["d1/f1"], want["d0/f0"]
	c.Must(w.Close())
	return t.Bytes(), want
}

var t03 = &rt.Check{ID: "T03", Level: "exploration",
	Rule: "goroutines with random programs of open, stat, list, read, seek, read-at, sub, close over one view, on files, sparse files and links, each outcome compared with the model; handles shared for positioned reads, sequential reads (every word returned once) and listing pages (every entry once), closed while others read, rewound while others read (pieces stay whole); several handles of one goroutine, on files and directories, interleaved, rewound and closed repeatedly; race detector on; distinct by archive and program",
	Run: func(r *rt.Run) {
		r.CasesPar("own", r.N(600, 20000), 4, func(c *rt.Case) {
			b := genTar(c, true, c.IntN(2) == 0)
			opt := tarOpt(c)
			v, err := tarfs.New(bytes.NewReader(b), opt)
			if err != nil {
				c.Fail("T03:new", "%v", err)
				return
			}
			// what each name gives when nothing else happens
			alone := map[string]string{}
			var names []string
			data := map[string][]byte{}
			look := func(v fs.FS, p string) string {
				f, err := v.Open(p)
				if err != nil {
					return "open " + tarErrClass(err)
				}
				defer f.Close()
				i, err := f.Stat()
				if err != nil {
					return "stat " + err.Error()
				}
				s := fmt.Sprintf("%v %v %d %v ", i.Name(), i.Mode(), i.Size(), i.ModTime().UnixNano())
				if i.IsDir() {
					es, err := f.(fs.ReadDirFile).ReadDir(-1)
					var l []string
					for _, e := range es {
						l = append(l, e.Name()+e.Type().String())
					}
					sort.Strings(l)
					return s + fmt.Sprint(l, err)
				}
				d, err := io.ReadAll(f)
				return s + fmt.Sprintf("%d %08x %v", len(d), fsx.Sum(d), err)
			}
			for range 30 {
				names = append(names, tarPath(c, false))
			}
			_ = fs.WalkDir(v, ".", func(p string, _ fs.DirEntry, err error) error {
				if err == nil {
					names = append(names, p)
				}
				return nil
			})
			for _, p := range names {
				alone[p] = look(v, p)
				if f, err := v.Open(p); err == nil {
					if _, ok := f.(fs.ReadDirFile); !ok {
						data[p], _ = io.ReadAll(f)
					}
					f.Close()
				}
			}
			var files []string
			for p := range data {
				files = append(files, p)
			}
			sort.Strings(files)
			var wg sync.WaitGroup
			start := make(chan struct{})
			var locals []*rt.Case
			outer := c
			for g := range 6 {
				rnd := rand.New(rand.NewPCG(c.Uint64(), uint64(g)))
				c := c.Local(rnd)
				locals = append(locals, c)
				outer.Go(&wg, func() {
					<-start
					for range 25 {
						p := names[rnd.IntN(len(names))]
						c.R.Eval(1)
						switch k := rnd.IntN(8); {
						case k < 4:
							if got := look(v, p); got != alone[p] {
								c.Fail("T03:own", "%q: %s, alone %s", p, got, alone[p])
							}
						case k < 5:
							i, err := v.Lstat(p)
							l, lerr := v.ReadLink(p)
							if err == nil && (i.Mode()&fs.ModeSymlink != 0) != (lerr == nil) {
								c.Fail("T03:lstat", "%q: %v, ReadLink %q %v", p, i.Mode(), l, lerr)
							}
						case k < 6:
							s, err := v.Sub(p)
							if err == nil {
								_, _ = fs.ReadDir(s, ".")
							}
						case len(files) > 0:
							p = files[rnd.IntN(len(files))]
							f, err := v.Open(p)
							if err != nil {
								c.Fail("T03:open", "%q: %v", p, err)
								return
							}
							readHistory(c, "T03", p, f, data[p])
							f.Close()
							if _, err := f.Stat(); !errors.Is(err, fs.ErrClosed) {
								c.Fail("T03:closed", "%q: Stat after Close: %v", p, err)
							}
							c.R.Count("own handles")
						}
					}
				})
			}
			close(start)
			wg.Wait()
			c.Merge(locals...)
			c.R.Distinct(fmt.Sprintf("%08x", fsx.Sum(b)))
		})
		r.CasesPar("shared", r.N(600, 20000), 4, func(c *rt.Case) {
			b, want := wordsTar(c)
			v, err := tarfs.New(bytes.NewReader(b), &tarfs.FsOption{HandleSymlink: true})
			c.Must(err)
			var names []string
			for n := range want {
				names = append(names, n)
			}
			sort.Strings(names)
			p := names[c.IntN(len(names))]
			content := want[p]
			shared, err := v.Open(p)
			if err != nil {
				c.Fail("T03:open", "%v", err)
				return
			}
			keep, err := v.Open(p)
			c.Must(err)
			dh, err := v.Open("many")
			c.Must(err)
			seen := map[uint64]int{}
			ents := map[string]int{}
			var mu sync.Mutex
			var wg sync.WaitGroup
			var closed atomic.Bool
			early := c.IntN(3) == 0
			var locals []*rt.Case
			outer := c
			for g := range 5 {
				rnd := rand.New(rand.NewPCG(c.Uint64(), uint64(g)))
				c := c.Local(rnd)
				locals = append(locals, c)
				outer.Go(&wg, func() {
					myWords, myEnts := []uint64{}, []string{}
					defer func() {
						mu.Lock()
						defer mu.Unlock()
						for _, w := range myWords {
							seen[w]++
						}
						for _, e := range myEnts {
							ents[e]++
						}
					}()
					for {
						c.R.Eval(1)
						buf := make([]byte, 8*(1+rnd.IntN(60)))
						was := early && closed.Load()
						n, err := shared.Read(buf)
						if n%8 != 0 {
							c.Fail("T03:shared:torn", "Read of %d gave %d, %v", len(buf), n, err)
							return
						}
						if was && (n > 0 || !errors.Is(err, fs.ErrClosed)) {
							c.Fail("T03:shared:closed", "Read after Close: %d, %v", n, err)
						}
						for o := 0; o < n; o += 8 {
							myWords = append(myWords, binary.BigEndian.Uint64(buf[o:]))
						}
						c.R.CountN("shared words", n/8)
						off := 8 * rnd.IntN(len(content)/8+1)
						was = early && closed.Load()
						k, aerr := shared.(io.ReaderAt).ReadAt(buf, int64(off))
						if !bytes.Equal(buf[:k], content[off:min(len(content), off+k)]) || aerr == nil && k < len(buf) {
							c.Fail("T03:shared:readat", "ReadAt(%d, %d) = %d, %v", len(buf), off, k, aerr)
						}
						if was && !errors.Is(aerr, fs.ErrClosed) {
							c.Fail("T03:shared:closed", "ReadAt after Close: %d, %v", k, aerr)
						}
						es, derr := dh.(fs.ReadDirFile).ReadDir(1 + rnd.IntN(4))
						for _, e := range es {
							myEnts = append(myEnts, e.Name())
						}
						if derr != nil && derr != io.EOF {
							c.Fail("T03:shared:readdir", "%v", derr)
						}
						if early && rnd.IntN(30) == 0 {
							shared.Close()
							closed.Store(true)
						}
						if err != nil {
							if err != io.EOF && !(early && errors.Is(err, fs.ErrClosed)) {
								c.Fail("T03:shared:read", "%v", err)
							}
							if derr == io.EOF {
								return
							}
						}
					}
				})
			}
			wg.Wait()
			c.Merge(locals...)
			words := map[uint64]bool{}
			for o := 0; o < len(content); o += 8 {
				w := binary.BigEndian.Uint64(content[o:])
				words[w] = true
				if seen[w] > 1 || seen[w] == 0 && !closed.Load() {
					c.Fail("T03:shared:words", "word at %d returned %d times", o, seen[w])
					break
				}
			}
			for w := range seen {
				if !words[w] {
					c.Fail("T03:shared:words", "a word which is not there")
					break
				}
			}
			for i := range 40 {
				if n := ents[fmt.Sprint("e", i)]; n != 1 {
					c.Fail("T03:shared:entries", "entry %d listed %d times", i, n)
				}
			}
			c.R.CountN("shared entries", len(ents))
			shared.Close()
			if got, err := io.ReadAll(keep); err != nil || !bytes.Equal(got, content) {
				c.Fail("T03:shared:other", "a handle read %d bytes, %v, after another was closed", len(got), err)
			}
			c.R.Distinct(fmt.Sprintf("shared %08x %s", fsx.Sum(b), p))
		})
		// many handles, some closed over and over
		r.CasesPar("slots", r.N(800, 20000), 4, func(c *rt.Case) {
			b, want := wordsTar(c)
			v, err := tarfs.New(bytes.NewReader(b), &tarfs.FsOption{HandleSymlink: true})
			c.Must(err)
			var names []string
			for n := range want {
				names = append(names, n)
			}
			sort.Strings(names)
			names = names[:1+c.IntN(len(names))]
			var wg sync.WaitGroup
			var locals []*rt.Case
			outer := c
			for g := range 1 + c.IntN(3) {
				rnd := rand.New(rand.NewPCG(c.Uint64(), uint64(g)))
				c := c.Local(rnd)
				locals = append(locals, c)
				outer.Go(&wg, func() {
					type slot struct {
						f    fs.File
						p    string
						pos  int
						open bool
					}
					var slots [5]slot
					for range 60 {
						s := &slots[rnd.IntN(len(slots))]
						c.R.Eval(1)
						switch k := rnd.IntN(8); {
						case s.f == nil || k == 0:
							if s.f != nil && s.open {
								s.f.Close()
							}
							p := names[rnd.IntN(len(names))]
							f, err := v.Open(p)
							if err != nil {
								c.Fail("T03:slots:open", "%q: %v", p, err)
								return
							}
							*s = slot{f, p, 0, true}
						case k < 3:
							if s.open = false; s.f.Close() == nil {
								c.R.Count("slot closes")
							}
						case k == 3:
							pos := 8 * rnd.IntN(len(want[s.p])/8+1)
							n, err := s.f.(io.Seeker).Seek(int64(pos), io.SeekStart)
							if s.open && (err != nil || n != int64(pos)) || !s.open && err == nil {
								c.Fail("T03:slots:seek", "%q open=%v: Seek(%d) = %d, %v", s.p, s.open, pos, n, err)
							}
							if s.open {
								s.pos = pos
							}
						default:
							buf := make([]byte, 1+rnd.IntN(300))
							n, err := s.f.Read(buf)
							rest := want[s.p][s.pos:]
							if !s.open {
								if n != 0 || !errors.Is(err, fs.ErrClosed) {
									c.Fail("T03:slots:closed", "%q closed: Read = %d, %v", s.p, n, err)
								}
								continue
							}
							if n > len(rest) || !bytes.Equal(buf[:n], rest[:n]) || n == 0 && err == nil || err == io.EOF && n < len(rest) || err != nil && err != io.EOF {
								c.Fail("T03:slots:read", "%q at %d of %d: Read(%d) = %d, %v", s.p, s.pos, len(want[s.p]), len(buf), n, err)
								return
							}
							s.pos += n
							c.R.Count("slot reads")
						}
					}
					for _, s := range slots {
						if s.f != nil {
							s.f.Close()
						}
					}
				})
			}
			wg.Wait()
			c.Merge(locals...)
			c.R.Distinct(fmt.Sprintf("slots %08x", fsx.Sum(b)))
		})
		// directories listed in pages, rewound and closed
		r.CasesPar("dirs", r.N(800, 20000), 4, func(c *rt.Case) {
			b, _ := wordsTar(c)
			v, err := tarfs.New(bytes.NewReader(b), &tarfs.FsOption{HandleSymlink: true})
			c.Must(err)
			all := map[string][]string{}
			for _, p := range []string{".", "many", "d0", "d1", "many/e3"} {
				es, err := fs.ReadDir(v, p)
				c.Must(err)
				all[p] = []string{}
				for _, e := range es {
					all[p] = append(all[p], e.Name())
				}
			}
			var wg sync.WaitGroup
			var locals []*rt.Case
			outer := c
			for g := range 1 + c.IntN(3) {
				rnd := rand.New(rand.NewPCG(c.Uint64(), uint64(g)))
				c := c.Local(rnd)
				locals = append(locals, c)
				outer.Go(&wg, func() {
					type slot struct {
						f    fs.ReadDirFile
						p    string
						seen map[string]bool
						open bool
					}
					var slots [3]slot
					for range 50 {
						s := &slots[rnd.IntN(len(slots))]
						c.R.Eval(1)
						switch k := rnd.IntN(10); {
						case s.f == nil || k == 0:
							if s.f != nil && s.open {
								s.f.Close()
							}
							p := pick(rnd, ".", "many", "many", "many", "d0", "d1", "many/e3")
							f, err := v.Open(p)
							if err != nil {
								c.Fail("T03:dirs:open", "%q: %v", p, err)
								return
							}
							*s = slot{f.(fs.ReadDirFile), p, map[string]bool{}, true}
						case k == 1:
							s.open = false
							s.f.Close()
						case k == 2:
							sk, ok := s.f.(io.Seeker)
							if !ok {
								continue
							}
							_, err := sk.Seek(0, io.SeekStart)
							if s.open != (err == nil) {
								c.Fail("T03:dirs:seek", "%q open=%v: rewinding: %v", s.p, s.open, err)
							}
							if s.open {
								clear(s.seen)
							}
						default:
							n := pick(rnd, -1, 0, 1, 2, 3, 7, 20, 39, 100)
							es, err := s.f.ReadDir(n)
							if !s.open {
								if len(es) != 0 || !errors.Is(err, fs.ErrClosed) {
									c.Fail("T03:dirs:closed", "%q closed: ReadDir(%d) = %d entries, %v", s.p, n, len(es), err)
								}
								continue
							}
							left := len(all[s.p]) - len(s.seen)
							for _, e := range es {
								if s.seen[e.Name()] {
									c.Fail("T03:dirs:twice", "%q: ReadDir(%d) gives %q again", s.p, n, e.Name())
								}
								s.seen[e.Name()] = true
							}
							switch {
							case n <= 0 && (err != nil || len(es) != left),
								n > 0 && left == 0 && (err != io.EOF || len(es) != 0),
								n > 0 && left > 0 && (err != nil || len(es) == 0 || len(es) > min(n, left)),
								len(s.seen) > len(all[s.p]):
								c.Fail("T03:dirs:page", "%q: ReadDir(%d) with %d left = %d entries, %v", s.p, n, left, len(es), err)
								return
							}
							c.R.Count("directory pages")
						}
					}
					for _, s := range slots {
						if s.f != nil {
							s.f.Close()
						}
					}
				})
			}
			wg.Wait()
			c.Merge(locals...)
			c.R.Distinct(fmt.Sprintf("dirs %08x %v", fsx.Sum(b), len(locals)))
		})
		// one handle moved about while read
		r.CasesPar("rewinds", r.N(400, 20000), 4, func(c *rt.Case) {
			b, want := wordsTar(c)
			v, err := tarfs.New(bytes.NewReader(b), &tarfs.FsOption{HandleSymlink: true})
			c.Must(err)
			p := pick(c.Rand, "d0/f0", "d1/f1", "d0/f2", "l", "h")
			content := want[p]
			if len(content) == 0 {
				return
			}
			h, err := v.Open(p)
			c.Must(err)
			defer h.Close()
			var wg sync.WaitGroup
			var locals []*rt.Case
			outer := c
			for g := range 3 {
				rnd := rand.New(rand.NewPCG(c.Uint64(), uint64(g)))
				c := c.Local(rnd)
				locals = append(locals, c)
				outer.Go(&wg, func() {
					for range 60 {
						c.R.Eval(1)
						buf := make([]byte, 8*(1+rnd.IntN(100)))
						n, at, err := 0, -1, error(nil)
						switch rnd.IntN(5) {
						case 0, 1:
							off := int64(8 * rnd.IntN(len(content)/8+1))
							whence := rnd.IntN(3)
							switch whence {
							case 1:
								off = 0
							case 2:
								off = -off
							}
							_, err = h.(io.Seeker).Seek(off, whence)
							c.R.Count("shared seeks")
						case 2:
							at = 8 * rnd.IntN(len(content)/8)
							n, err = h.(io.ReaderAt).ReadAt(buf, int64(at))
						case 3:
							_, err = h.Stat()
						default:
							n, err = h.Read(buf)
							if n > 0 && n%8 == 0 { // where does it come from
								at = bytes.Index(content, buf[:8])
							}
						}
						if err != nil && err != io.EOF {
							c.Fail("T03:rewinds:error", "%v", err)
							return
						}
						if n > 0 && (at < 0 || at+n > len(content) || !bytes.Equal(buf[:n], content[at:at+n])) {
							c.Fail("T03:rewinds:torn", "%d bytes which are nowhere in one piece", n)
							return
						}
					}
				})
			}
			wg.Wait()
			c.Merge(locals...)
			c.R.Distinct(fmt.Sprintf("rewinds %08x %s", fsx.Sum(b), p))
		})
		r.Floor("slot closes", 1000)
		r.Floor("shared seeks", 1000)
		r.Floor("own handles", 3000)
		r.Floor("shared words", 50000)
		r.Floor("shared entries", 2000)
	}}
