package ovl

import (
	"fmt"
	"io/fs"
	"os"
	"path"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"github.com/ngicks/go-fsys-helper/vroot"
	"github.com/ngicks/go-fsys-helper/vroot-adapter/overlayfs"
	"github.com/ngicks/go-fsys-helper/vroot/memfs"
	"github.com/ngicks/go-fsys-helper/vroot/osfs"
	"verif/harness/fsx"
	"verif/harness/rt"
)

// Ent is an entry of a layer: 'd', 'f' or 'l'.
type Ent struct {
	K      byte
	Perm   fs.FileMode
	Data   []byte
	Target string
	Mtime  time.Time
}

// Layer is an abstract layer.
type Layer struct {
	Canonical bool
	Ents      map[string]Ent
	M         Marks
}

// Union is the merged view of layers (0 is the top), by definition: top-down,
// directory by directory.
func Union(layers []Layer) map[string]Ent {
	out := map[string]Ent{}
	var merge func(dir string, lays []int)
	merge = func(dir string, lays []int) {
		names := map[string]bool{}
		for _, i := range lays {
			for p := range layers[i].Ents {
				if d, b := path.Split(p); strings.TrimSuffix(d, "/") == dir {
					names[b] = true
				}
			}
		}
		for b := range names {
			p := path.Join(dir, b)
			var sub []int
			found := false
			for _, i := range lays {
				e, ok := layers[i].Ents[p]
				if ok && !found {
					out[p] = e
					found = true
					if e.K != 'd' {
						break
					}
				} else if ok && e.K != 'd' {
					break
				}
				sub = append(sub, i)
				if layers[i].M.W[p] || layers[i].M.O[p] && found {
					break
				}
			}
			if found && out[p].K == 'd' {
				merge(p, sub)
			}
		}
	}
	var all []int
	for i := range layers {
		all = append(all, i)
	}
	merge("", all)
	return out
}

// Backend is a storage that survives sessions.
type Backend struct {
	Kind string // os, mem, prefix
	Dir  string
	fsys fsx.FS
}

func NewBackend(c *rt.Case, kind string) *Backend {
	b := &Backend{Kind: kind}
	switch kind {
	case "os":
		b.Dir = c.Dir()
	case "mem":
		b.fsys = memfs.New("m")
	case "prefix":
		m := memfs.New("m")
		c.Must(m.MkdirAll("x/y", 0o755))
		p, err := vroot.NewPathPrefixFs[vroot.File](m, "x/y")
		c.Must(err)
		b.fsys = p
	}
	return b
}

// FS opens the storage.
func (b *Backend) FS(c *rt.Case) fsx.FS {
	if b.Dir == "" {
		return b.fsys
	}
	r, err := osfs.NewRoot(b.Dir)
	c.Must(err)
	return vroot.Widen[*osfs.File](r)
}

// Sys opens it for looking.
func (b *Backend) Sys(c *rt.Case) fsx.Sys {
	if b.Dir == "" {
		return fsx.Sys{FS: b.fsys}
	}
	s, err := fsx.Kernel(b.Dir)
	c.Must(err)
	return s
}

// Write puts entries beneath pre.
func Write(c *rt.Case, f fsx.FS, pre string, ents map[string]Ent) {
	var ps []string
	for p := range ents {
		ps = append(ps, p)
	}
	sort.Strings(ps)
	for _, p := range ps {
		e, n := ents[p], path.Join(pre, p)
		switch e.K {
		case 'd':
			c.Must(f.Mkdir(n, 0o755))
		case 'l':
			c.Must(f.Symlink(e.Target, n))
		default:
			h, err := f.OpenFile(n, os.O_CREATE|os.O_EXCL|os.O_WRONLY, 0o644)
			c.Must(err)
			_, err = h.Write(e.Data)
			c.Must(err)
			c.Must(h.Close())
			c.Must(f.Chmod(n, e.Perm))
			c.Must(f.Chtimes(n, e.Mtime, e.Mtime))
		}
	}
	for i := len(ps) - 1; i >= 0; i-- {
		if e := ents[ps[i]]; e.K == 'd' {
			c.Must(f.Chmod(path.Join(pre, ps[i]), e.Perm))
			c.Must(f.Chtimes(path.Join(pre, ps[i]), e.Mtime, e.Mtime))
		}
	}
}

// Stack is an overlay with everything beneath it.
type Stack struct {
	Layers []Layer
	Back   []*Backend
	Stores []*Store // masking stores of canonical layers; nil: sqlite
	Opt    *overlayfs.Option
	ROLow  bool // canonical lowers behind read-only views

	// Thin replaces the monitors, which synchronize, by something that does not.
	Thin func(layer int, f fsx.FS) fsx.FS

	Mons []*fsx.Mon // of the current session
	O    *overlayfs.Fs
}

// Put writes the layers to their backends.
func (s *Stack) Put(c *rt.Case) {
	for i, l := range s.Layers {
		f := s.Back[i].FS(c)
		pre := "."
		if l.Canonical {
			c.Must(f.Mkdir("merged", 0o755))
			c.Must(f.Mkdir("work", 0o755))
			pre = "merged"
		}
		Write(c, f, pre, l.Ents)
		switch {
		case !l.Canonical:
		case s.Stores[i] != nil:
			s.Stores[i].M = l.M.Clone()
		default:
			st, err := overlayfs.NewMetadataStoreSQLite[vroot.File](f, "meta.sqlite3")
			c.Must(err)
			for n := range l.M.W {
				c.Must(st.SetWhiteout(n))
			}
			for n := range l.M.O {
				c.Must(st.SetOpaque(n))
			}
			c.Must(st.Close())
		}
		if s.Back[i].Dir != "" {
			c.Must(f.Close())
		}
	}
}

// Mount opens the overlay over the backends.
func (s *Stack) Mount(c *rt.Case) error {
	s.Prepare(c)
	return s.MountMons()
}

// Prepare makes the monitors of a session.
func (s *Stack) Prepare(c *rt.Case) {
	s.Mons = nil
	for i := range s.Layers {
		s.Mons = append(s.Mons, fsx.NewMon(s.Back[i].FS(c)))
	}
}

// Restack puts a new empty top over all layers, at rest.
func (s *Stack) Restack(c *rt.Case, kind string, sqlite bool) {
	var st *Store
	if !sqlite {
		st = NewStore()
	}
	s.Layers = append([]Layer{{Canonical: true, M: NewMarks()}}, s.Layers...)
	s.Back = append([]*Backend{NewBackend(c, kind)}, s.Back...)
	s.Stores = append([]*Store{st}, s.Stores...)
}

// Raw is everything a layer's storage holds, at rest.
func (s *Stack) Raw(c *rt.Case, i int) fsx.Tree {
	k := s.Back[i].Sys(c)
	t := fsx.Dump(k, fsx.DumpOpt{Mtime: true, DirMtime: true})
	if s.Back[i].Dir != "" {
		k.Close()
	}
	if s.Stores[i] != nil {
		t["store"] = s.Stores[i].Snapshot()
	}
	return t
}

// MountMons opens the overlay over the prepared monitors.
func (s *Stack) MountMons() error {
	var ds []*overlayfs.DataSource
	for i, l := range s.Layers {
		var f fsx.FS = s.Mons[i]
		if s.Thin != nil {
			f = s.Thin(i, s.Mons[i].In)
		}
		if i > 0 && s.ROLow {
			d, err := Source(l, vroot.Fs[*vroot.ReadOnlyFile](vroot.NewReadOnlyFs[vroot.File](f)), s.Stores[i])
			if err != nil {
				return err
			}
			ds = append(ds, d)
			continue
		}
		d, err := Source(l, f, s.Stores[i])
		if err != nil {
			return fmt.Errorf("layer %d: %w", i, err)
		}
		ds = append(ds, d)
	}
	o, err := overlayfs.New(ds[0], ds[1:], s.Opt)
	if err != nil {
		return err
	}
	s.O = o
	return nil
}

// Source makes a layer's data source over a file system.
func Source[F vroot.File](l Layer, f vroot.Fs[F], st *Store) (*overlayfs.DataSource, error) {
	switch {
	case !l.Canonical:
		return overlayfs.NewDataSource(f), nil
	case st != nil:
		return overlayfs.NewDataSourceCanonicalStore(f, st)
	}
	return overlayfs.NewDataSourceCanonical(f)
}

// Sys is the overlay as a system.
func (s *Stack) Sys() fsx.Sys { return fsx.WrapRoot[vroot.File, *overlayfs.Fs](s.O) }

// Release closes what the backends hold (monitors do not forward Close).
func (s *Stack) Release() {
	for i, m := range s.Mons {
		if s.Back[i].Dir != "" {
			m.In.Close()
		}
	}
	s.Mons = nil
}

// Path is where a layer has a name.
func (s *Stack) Path(i int, n string) string {
	if s.Layers[i].Canonical {
		return path.Join("merged", n)
	}
	return n
}

// Describe shows the layers.
func (s *Stack) Describe() string {
	var b strings.Builder
	for i, l := range s.Layers {
		fmt.Fprintf(&b, "layer %d (%s canonical=%v):", i, s.Back[i].Kind, l.Canonical)
		var ps []string
		for p := range l.Ents {
			ps = append(ps, p)
		}
		sort.Strings(ps)
		for _, p := range ps {
			e := l.Ents[p]
			fmt.Fprintf(&b, " %c:%s", e.K, p)
			if e.K == 'l' {
				b.WriteString("->" + e.Target)
			} else {
				fmt.Fprintf(&b, "(%o)", uint32(e.Perm.Perm()))
			}
		}
		if l.Canonical {
			b.WriteString(" " + l.M.String())
		}
		b.WriteString("\n")
	}
	return b.String()
}

// GenOpt tunes generated stacks.
type GenOpt struct {
	Names   []string
	Depth   int
	Targets []string
	Lowers  int // at most
	Ents    int // per layer, at most
	Sticky  bool
	Top     bool // something in the top to begin with
	SQLite  int  // one in so many stacks; 0: never
	Backs   []string
	Must    []string // directories every stack has in some lower
	Big     bool     // some files larger than the copy buffer
	Tame    bool     // directories with modes that survive umask 022
}

// Gen makes a stack.
func Gen(c *rt.Case, o GenOpt) *Stack {
	s := &Stack{}
	if o.Backs == nil {
		o.Backs = []string{"os", "os", "mem", "prefix"}
	}
	sql := o.SQLite > 0 && c.IntN(o.SQLite) == 0
	n := 1 + c.IntN(max(1, o.Lowers))
	for i := 0; i <= n; i++ {
		l := Layer{Canonical: i == 0 || c.IntN(3) == 0, Ents: map[string]Ent{}, M: NewMarks()}
		p := func() string {
			var s []string
			for range 1 + c.IntN(o.Depth) {
				s = append(s, o.Names[c.IntN(len(o.Names))])
			}
			return path.Join(s...)
		}
		cnt := 1 + c.IntN(max(1, o.Ents))
		if i == 0 && (!o.Top || c.IntN(2) == 0) {
			cnt = 0
		}
		var put func(p string, e Ent) bool
		put = func(p string, e Ent) bool {
			if _, ok := l.Ents[p]; ok {
				return l.Ents[p].K == e.K
			}
			if d := path.Dir(p); d != "." && !put(d, dirEnt(c, o, i)) {
				return false
			}
			l.Ents[p] = e
			return true
		}
		for range cnt {
			e := dirEnt(c, o, i)
			switch c.IntN(6) {
			case 0, 1, 2:
				e = Ent{K: 'f', Perm: []fs.FileMode{0o644, 0o600, 0o664, 0o755, 0o666}[c.IntN(5)], Mtime: e.Mtime}
				sz := c.IntN(40)
				if o.Big && c.IntN(6) == 0 {
					sz = 60000 + c.IntN(90000)
				}
				e.Data = make([]byte, sz)
				for j := range e.Data {
					e.Data[j] = byte('A' + (i*5+j+c.IntN(3))%26)
				}
			case 3:
				e = Ent{K: 'l', Target: o.Targets[c.IntN(len(o.Targets))]}
			}
			put(p(), e)
		}
		if i == 1 {
			for _, d := range o.Must {
				put(d, dirEnt(c, o, i))
			}
		}
		if l.Canonical && (i > 0 || cnt > 0) {
			for range c.IntN(4) {
				if q := p(); len(l.Ents[q].Data) == 0 && l.Ents[q].K == 0 && !within(o.Must, q) {
					l.M.SetWhiteout(q)
				}
			}
			// marks beneath a whiteout are not kept by a store; names with an
			// own entry beneath one neither occur
			for w := range l.M.W {
				for e := range l.Ents {
					if strings.HasPrefix(e, w+"/") {
						delete(l.M.W, w)
					}
				}
			}
			for e, x := range l.Ents {
				if x.K == 'd' && c.IntN(4) == 0 {
					l.M.O[e] = true
				}
			}
		}
		s.Layers = append(s.Layers, l)
		s.Back = append(s.Back, NewBackend(c, o.Backs[c.IntN(len(o.Backs))]))
		var st *Store
		if l.Canonical && (!sql || i > 0 && c.IntN(2) == 0) {
			st = NewStore()
		}
		s.Stores = append(s.Stores, st)
	}
	s.ROLow = c.IntN(5) == 0
	return s
}

func within(ds []string, q string) bool {
	for _, d := range ds {
		if d == q || strings.HasPrefix(d, q+"/") {
			return true
		}
	}
	return false
}

func dirEnt(c *rt.Case, o GenOpt, layer int) Ent {
	e := Ent{K: 'd', Perm: []fs.FileMode{0o755, 0o700, 0o750, 0o711, 0o777}[c.IntN(5)], Mtime: time.Unix(1000000000+int64(layer)*1000000+int64(c.IntN(900000)), 0)}
	if o.Tame && e.Perm == 0o777 {
		e.Perm = 0o755
	}
	if o.Sticky && c.IntN(4) == 0 {
		e.Perm |= fs.ModeSticky
	}
	return e
}

// Reference writes the union to a kernel directory.
func (s *Stack) Reference(c *rt.Case) (fsx.Sys, string) {
	d := c.Dir()
	k, err := fsx.Kernel(d)
	c.Must(err)
	Write(c, k, ".", Union(s.Layers))
	return k, d
}

// LowerHas tells whether a lower layer has anything at a name.
func (s *Stack) LowerHas(n string) bool {
	for i := 1; i < len(s.Layers); i++ {
		if _, err := s.Mons[i].In.Lstat(filepath.FromSlash(s.Path(i, n))); err == nil {
			return true
		}
	}
	return false
}
