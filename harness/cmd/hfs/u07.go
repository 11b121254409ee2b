package main

import (
	"errors"
	"fmt"
	"io/fs"
	"os"
	"path/filepath"
	"slices"
	"strings"
	"unicode/utf8"

	"github.com/ngicks/go-fsys-helper/fsutil"
	"github.com/ngicks/go-fsys-helper/fsutil/pathutil"
	"verif/harness/rt"
)

// ancestors lists the ancestors of a cleaned path, outermost first, and itself.
func ancestors(name string) []string {
	p := filepath.Clean(name)
	var l []string
	if strings.HasPrefix(p, "/") {
		l = append(l, "/")
		p = p[1:]
		if p == "" {
			return l
		}
	}
	cur := ""
	for i, e := range strings.Split(p, "/") {
		if i > 0 {
			cur += "/"
		}
		cur += e
		if len(l) > 0 && l[0] == "/" {
			l = append(l, "/"+cur)
		} else {
			l = append(l, cur)
		}
	}
	return l
}

var u07 = &rt.Check{ID: "U07", Level: "exploration",
	Rule: "random strings (valid, invalid, overlong and cut encodings) with every limit around their length against rune boundaries; random paths (relative, rooted, unclean, climbing) against an independent split, with early exits; errors nested at random wrapped repeatedly; distinct by input",
	Run: func(r *rt.Run) {
		r.CasesPar("utf8", r.N(1500, 40000), 8, func(c *rt.Case) {
			pieces := []string{"a", "é", "あ", "😀", "\xff", "\xc3", "\xe3\x81", "\xf0\x9f\x98", "\xed\xa0\x80", "\xc0\x80", "\xf4\x90\x80\x80", "\x80", "�", "\x00", "̈", "/", "\U0010FFFF"}
			s := ""
			for range c.IntN(12) {
				s += pieces[c.IntN(len(pieces))]
			}
			if c.IntN(4) == 0 {
				b := make([]byte, c.IntN(20))
				for i := range b {
					b[i] = byte(c.Uint32())
				}
				s += string(b)
			}
			cuts := []int{}
			for i := range s {
				cuts = append(cuts, i)
			}
			cuts = append(cuts, len(s))
			for n := -3; n <= len(s)+3; n++ {
				want := ""
				for _, k := range cuts {
					if k <= n {
						want = s[:k]
					}
				}
				got := fsutil.TruncateUTF8(s, n)
				c.R.Eval(1)
				if got != want {
					c.Fail("U07:truncate", "TruncateUTF8(%q, %d) = %q, want %q", s, n, got, want)
				}
				if utf8.ValidString(s) && !utf8.ValidString(got) {
					c.Fail("U07:truncate:invalid", "TruncateUTF8(%q, %d) = %q is not valid", s, n, got)
				}
				if len(got) > 0 && len(got) < len(s) {
					c.R.Count("truncated")
				}
			}
			for _, n := range []int{-1 << 62, 1<<62 - 1} {
				if got := fsutil.TruncateUTF8(s, n); got != "" && n < 0 || n > 0 && got != s {
					c.Fail("U07:truncate:extreme", "TruncateUTF8(%q, %d) = %q", s, n, got)
				}
			}
			c.R.Distinct(s)
		})
		r.CasesPar("paths", r.N(2000, 40000), 8, func(c *rt.Case) {
			el := []string{"a", "b", "..", ".", "", "long name", "é", "\xff", "c.d", "...", "\x00", " "}
			var s []string
			for range c.IntN(9) {
				s = append(s, el[c.IntN(len(el))])
			}
			p := strings.Join(s, "/")
			switch c.IntN(6) {
			case 0:
				p = "/" + p
			case 1:
				p = p + "/"
			case 2:
				p = strings.ReplaceAll(p, "/", "//")
			}
			want := ancestors(p)
			rev := slices.Clone(want)
			slices.Reverse(rev)
			c.R.Eval(2)
			if got := slices.Collect(pathutil.PathFromHead(p)); !slices.Equal(got, want) {
				c.Fail("U07:head", "PathFromHead(%q) = %q, want %q", p, got, want)
			}
			if got := slices.Collect(pathutil.PathFromTail(p)); !slices.Equal(got, rev) {
				c.Fail("U07:tail", "PathFromTail(%q) = %q, want %q", p, got, rev)
			}
			// early exits: the iterator stops where told, and starts anew
			for k := 1; k <= len(want); k++ {
				for i, it := range []func(func(string) bool){pathutil.PathFromHead(p), pathutil.PathFromTail(p)} {
					w := [][]string{want, rev}[i]
					for range 2 {
						var got []string
						for x := range it {
							got = append(got, x)
							if len(got) == k {
								break
							}
						}
						c.R.Eval(1)
						if !slices.Equal(got, w[:k]) {
							c.Fail("U07:early", "of %q the first %d are %q, want %q", p, k, got, w[:k])
						}
					}
				}
			}
			c.R.CountN("ancestors", len(want))
			c.R.Distinct(p)
		})
		r.CasesPar("wrap", r.N(1500, 30000), 8, func(c *rt.Case) {
			str := func() string { return []string{"", "open", "a/b", "\xff", "op2", ".."}[c.IntN(6)] }
			causes := []error{fs.ErrNotExist, fs.ErrExist, errors.New("x"), fsutil.ErrPathEscapes, os.ErrDeadlineExceeded, fsutil.ErrSizeMismatch, nil}
			cause := causes[c.IntN(len(causes))]
			err := cause
			var log []string
			for range c.IntN(6) {
				var prev = err
				var wop, wpath, wnew string // what must be found afterwards
				switch c.IntN(4) {
				case 0:
					if err != nil {
						err = fmt.Errorf("ctx: %w", err)
						log = append(log, "errorf")
					}
					continue
				case 1, 2:
					op, p := str(), str()
					log = append(log, fmt.Sprintf("path(%q,%q)", op, p))
					wop, wpath = op, p
					if pe, ok := err.(*fs.PathError); ok {
						cp := *pe
						prev = &cp
						if op == "" {
							wop = pe.Op
						}
						if p == "" {
							wpath = pe.Path
						}
					}
					err = fsutil.WrapPathErr(op, p, err)
					pe, ok := err.(*fs.PathError)
					if prev == nil {
						if err != nil {
							c.Fail("U07:wrap:nil", "nil became %v after %v", err, log)
							return
						}
						break
					}
					if !ok || pe.Op != wop || pe.Path != wpath {
						c.Fail("U07:wrap:fields", "%#v after %v, want op %q path %q", err, log, wop, wpath)
						return
					}
					if _, ok := pe.Err.(*fs.PathError); ok {
						c.Fail("U07:wrap:double", "%#v after %v", err, log)
					}
				default:
					op, o, n := str(), str(), str()
					log = append(log, fmt.Sprintf("link(%q,%q,%q)", op, o, n))
					wop, wpath, wnew = op, o, n
					if le, ok := err.(*os.LinkError); ok {
						cp := *le
						prev = &cp
						if op == "" {
							wop = le.Op
						}
						if o == "" {
							wpath = le.Old
						}
						if n == "" {
							wnew = le.New
						}
					}
					err = fsutil.WrapLinkErr(op, o, n, err)
					le, ok := err.(*os.LinkError)
					if prev == nil {
						if err != nil {
							c.Fail("U07:wrap:nil", "nil became %v after %v", err, log)
							return
						}
						break
					}
					if !ok || le.Op != wop || le.Old != wpath || le.New != wnew {
						c.Fail("U07:wrap:fields", "%#v after %v, want %q %q %q", err, log, wop, wpath, wnew)
						return
					}
					if _, ok := le.Err.(*os.LinkError); ok {
						c.Fail("U07:wrap:double", "%#v after %v", err, log)
					}
				}
			}
			c.R.Eval(1)
			if cause == nil != (err == nil) || cause != nil && !errors.Is(err, cause) {
				c.Fail("U07:wrap:cause", "%v hides %v after %v", err, cause, log)
			}
			if err != nil && err.Error() == "" {
				c.Fail("U07:wrap:empty", "empty message after %v", log)
			}
			if len(log) > 1 {
				c.R.Count("nested wraps")
			}
			c.R.Distinct(fmt.Sprint(log, cause))
		})
		r.Cases("masks", 1, func(c *rt.Case) {
			types := []fs.FileMode{0, fs.ModeDir, fs.ModeSymlink, fs.ModeAppend, fs.ModeExclusive, fs.ModeTemporary, fs.ModeDevice, fs.ModeSetuid, fs.ModeSetgid, fs.ModeSticky, fs.ModeDir | fs.ModeSetgid | fs.ModeSticky, fs.ModeSetuid | fs.ModeAppend, fs.ModeNamedPipe, fs.ModeSocket, fs.ModeCharDevice, fs.ModeIrregular}
			for p := range fs.FileMode(0o1000) {
				for _, t := range types {
					m := p | t
					ux := p
					for _, b := range []fs.FileMode{fs.ModeSetuid, fs.ModeSetgid, fs.ModeSticky} {
						if m&b != 0 {
							ux |= b
						}
					}
					p9 := p
					for _, b := range []fs.FileMode{fs.ModeAppend, fs.ModeExclusive, fs.ModeTemporary} {
						if m&b != 0 {
							p9 |= b
						}
					}
					win := fs.FileMode(0o444)
					if t&fs.ModeDir != 0 {
						win = 0o555
					}
					if p&0o200 != 0 {
						win |= 0o222
					}
					c.R.Eval(4)
					if fsutil.MaskChmodModeUnix(m) != ux || fsutil.MaskChmodMode(m) != ux {
						c.Fail("U07:mask:unix", "%v -> %v, want %v", m, fsutil.MaskChmodModeUnix(m), ux)
					}
					if fsutil.MaskChmodModePlan9(m) != p9 {
						c.Fail("U07:mask:plan9", "%v -> %v, want %v", m, fsutil.MaskChmodModePlan9(m), p9)
					}
					if g := fsutil.MaskChmodModeWindows(m); g.Perm() != win || g.Type() != m.Type() {
						c.Fail("U07:mask:windows", "%v -> %v, want %v", m, g, win)
					}
				}
			}
			c.R.Count("masks")
		})
		r.Floor("truncated", 3000)
		r.Floor("ancestors", 3000)
		r.Floor("nested wraps", 300)
		r.Floor("masks", 1)
	}}
