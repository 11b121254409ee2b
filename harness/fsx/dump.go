package fsx

import (
	"fmt"
	"io"
	"io/fs"
	"path"
	"sort"
	"strings"
	"time"
)

// Tree is a dumped tree: path to description.
type Tree map[string]string

// DumpOpt chooses what a dump records.
type DumpOpt struct {
	Mtime    bool      // of files
	Since    time.Time // times from here on count as one
	DirMtime bool      // of directories too
	NoMode   bool
	Skip     func(p string) bool
}

// Dump walks the whole tree and cross-checks its views of every entry:
// listing, Lstat, Stat, Open and handle Stat. Disagreements are recorded as
// entries of their own ("!...").
func Dump(s Sys, opt DumpOpt) Tree {
	t := Tree{}
	dumpDir(s, ".", t, opt, 0)
	return t
}

// DumpAt dumps a directory as the root of the tree.
func DumpAt(s Sys, dir string, opt DumpOpt) Tree {
	t := Tree{}
	dumpDir(s, dir, t, opt, 0)
	out := Tree{}
	for k, v := range t {
		if p, ok := strings.CutPrefix(k, dir+"/"); ok {
			k = p
		}
		out[k] = v
	}
	return out
}

func desc(i fs.FileInfo, opt DumpOpt) string {
	m := i.Mode()
	d := m.Type().String()
	if m.IsDir() {
		d = "dir"
	} else if m.IsRegular() {
		d = "file"
	} else if m&fs.ModeSymlink != 0 {
		d = "link"
	}
	if m&fs.ModeSymlink == 0 && !opt.NoMode {
		d += fmt.Sprintf(" %o", m&(fs.ModePerm|fs.ModeSetuid|fs.ModeSetgid|fs.ModeSticky))
	}
	if m.IsDir() && opt.DirMtime {
		d += fmt.Sprintf(" mtime=%d", i.ModTime().UnixNano())
	}
	if m.IsRegular() {
		d += fmt.Sprintf(" size=%d", i.Size())
		if opt.Mtime && !opt.Since.IsZero() && !i.ModTime().Before(opt.Since) {
			d += " mtime=new"
		} else if opt.Mtime {
			d += fmt.Sprintf(" mtime=%d", i.ModTime().UnixNano())
		}
	}
	return d
}

func dumpDir(s Sys, dir string, t Tree, opt DumpOpt, depth int) {
	bad := func(p, f string, a ...any) { t["!"+p+": "+fmt.Sprintf(f, a...)] = "" }
	if depth > 40 {
		bad(dir, "too deep")
		return
	}
	f, err := s.Open(dir)
	if err != nil {
		bad(dir, "open: %s %v", Class(err), err)
		return
	}
	es, err := f.ReadDir(-1)
	if err != nil {
		bad(dir, "readdir: %s %v", Class(err), err)
	}
	if i, err := f.Stat(); err != nil {
		bad(dir, "fstat: %v", err)
	} else if !i.IsDir() {
		bad(dir, "fstat is not a dir")
	}
	f.Close()
	seen := map[string]bool{}
	for _, e := range es {
		p := path.Join(dir, e.Name())
		if opt.Skip != nil && opt.Skip(p) {
			continue
		}
		if seen[e.Name()] {
			bad(p, "listed twice")
			continue
		}
		seen[e.Name()] = true
		if e.Name() == "" || e.Name() == "." || e.Name() == ".." || strings.Contains(e.Name(), "/") {
			bad(dir, "lists %q", e.Name())
			continue
		}
		i, err := s.Lstat(p)
		if err != nil {
			bad(p, "listed but lstat: %s %v", Class(err), err)
			continue
		}
		d := desc(i, opt)
		if i.Name() != e.Name() {
			bad(p, "lstat name %q", i.Name())
		}
		if e.Type() != i.Mode().Type() || e.IsDir() != i.IsDir() {
			bad(p, "listed type %v, lstat %v", e.Type(), i.Mode())
		}
		if ei, err := e.Info(); err != nil {
			bad(p, "entry info: %v", err)
		} else if ed := desc(ei, opt); ed != d {
			bad(p, "entry info %q, lstat %q", ed, d)
		}
		switch {
		case i.Mode()&fs.ModeSymlink != 0:
			l, err := s.ReadLink(p)
			if err != nil {
				bad(p, "readlink: %v", err)
			}
			d += " -> " + l
		case i.Mode().IsRegular():
			b, info, err := ReadFile(s, p)
			if err != nil {
				bad(p, "read: %s %v", Class(err), err)
			} else {
				if int64(len(b)) != i.Size() {
					bad(p, "size %d, content %d bytes", i.Size(), len(b))
				}
				if hd := desc(info, opt); hd != d {
					bad(p, "handle stat %q, lstat %q", hd, d)
				}
				d += fmt.Sprintf(" %08x", Sum(b))
			}
			fallthrough
		case i.IsDir():
			if si, err := s.Stat(p); err != nil {
				bad(p, "stat: %v", err)
			} else if sd := desc(si, opt); !strings.HasPrefix(d, sd) {
				bad(p, "stat %q, lstat %q", sd, d)
			}
			if l, err := s.ReadLink(p); err == nil {
				bad(p, "readlink of a %s = %q", d, l)
			}
		}
		t[p] = d
		if i.IsDir() {
			dumpDir(s, p, t, opt, depth+1)
		}
	}
}

// ReadFile reads a file through its handle.
func ReadFile(s FS, p string) ([]byte, fs.FileInfo, error) {
	f, err := s.Open(p)
	if err != nil {
		return nil, nil, err
	}
	defer f.Close()
	i, err := f.Stat()
	if err != nil {
		return nil, nil, err
	}
	b, err := io.ReadAll(onlyReader{f})
	return b, i, err
}

// Diff describes the first differences of two trees ("" if none).
func Diff(got, want Tree) string {
	var ks []string
	for k := range got {
		ks = append(ks, k)
	}
	for k := range want {
		if _, ok := got[k]; !ok {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	var out []string
	for _, k := range ks {
		g, gok := got[k]
		w, wok := want[k]
		switch {
		case gok && !wok:
			out = append(out, fmt.Sprintf("%s: unexpected %s", k, g))
		case !gok:
			out = append(out, fmt.Sprintf("%s: missing %s", k, w))
		case g != w:
			out = append(out, fmt.Sprintf("%s: %s, want %s", k, g, w))
		}
	}
	if len(out) > 6 {
		out = append(out[:6], fmt.Sprintf("... %d more", len(out)-6))
	}
	return strings.Join(out, "; ")
}

// DiffKind classifies a difference for signatures.
func DiffKind(got, want Tree) string {
	kinds := map[string]bool{}
	for k := range got {
		if strings.HasPrefix(k, "!") {
			kinds["inconsistent"] = true
		}
	}
	for k, w := range want {
		g, ok := got[k]
		if !ok {
			kinds["missing"] = true
		} else if g != w {
			gf, wf := strings.Fields(g), strings.Fields(w)
			if gf[0] != wf[0] {
				kinds["kind"] = true
			} else if len(gf) > 1 && len(wf) > 1 && gf[0] != "link" && gf[1] != wf[1] {
				kinds["mode"] = true
			} else {
				kinds["content"] = true
			}
		}
	}
	for k := range got {
		if _, ok := want[k]; !ok && !strings.HasPrefix(k, "!") {
			kinds["extra"] = true
		}
	}
	var ks []string
	for k := range kinds {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return strings.Join(ks, "+")
}

func (t Tree) String() string {
	var ks []string
	for k := range t {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var b strings.Builder
	for _, k := range ks {
		fmt.Fprintf(&b, "%s %s\n", k, t[k])
	}
	return b.String()
}

func (t Tree) Clone() Tree {
	n := Tree{}
	for k, v := range t {
		n[k] = v
	}
	return n
}

// Names lists a directory.
func Names(s Sys, dir string) ([]string, error) {
	f, err := s.Open(dir)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	l, err := f.Readdirnames(-1)
	sort.Strings(l)
	return l, err
}

// Keys lists the names of a tree.
func (t Tree) Keys() []string {
	ks := make([]string, 0, len(t))
	for k := range t {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
