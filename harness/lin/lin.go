// Package lin decides whether a concurrent history of file system operations
// has a sequential explanation.
package lin

import (
	"fmt"
	"io"
	"sort"
	"strings"
	"sync"
	"time"

	"verif/harness/fsx"
	"verif/harness/rt"
)

// Call is one operation as observed.
type Call struct {
	G        int
	Op       fsx.Op
	Out      fsx.Out
	Inv, Ret time.Time
}

func (c Call) String() string { return fmt.Sprintf("g%d %v = %v", c.G, c.Op, c.Out) }

// Exec performs one operation as a single call, so that it is a candidate for
// atomicity; composite operations of [fsx.World.Exec] are cut to one call.
func Exec(w *fsx.World, o fsx.Op) (out fsx.Out) {
	done := func(v string, err error) fsx.Out {
		return fsx.Out{Err: fsx.Class(err), Val: v, Raw: err}
	}
	switch o.K {
	case "read", "hreaddir":
		f := w.Files[o.H]
		if f == nil {
			return fsx.Out{}
		}
		if o.K == "read" {
			b := make([]byte, o.N)
			n, err := f.Read(b)
			if n < 0 || n > len(b) {
				return done(fmt.Sprintf("n=%d", n), err)
			}
			return done(fmt.Sprintf("%d:%x", n, b[:n]), err)
		}
		l, err := f.Readdirnames(-1)
		sort.Strings(l)
		return done(strings.Join(l, ","), err)
	case "seek":
		f := w.Files[o.H]
		if f == nil {
			return fsx.Out{}
		}
		p, err := f.Seek(o.Off, o.N)
		return done(fmt.Sprint(p), err)
	case "chtimes":
		s, ok := w.Roots[o.R]
		if !ok {
			return fsx.Out{}
		}
		return done("", s.Chtimes(o.A, o.T, o.T))
	}
	return w.Exec(o)
}

// Concurrent runs the plans in goroutines of their own against worlds of their
// own (which share systems and pre-opened handles) and returns what happened.
// Nothing but the system under test synchronizes them between start and end.
func Concurrent(c *rt.Case, worlds []*fsx.World, plans [][]fsx.Op, between func(g int)) ([]Call, bool) {
	var wg sync.WaitGroup
	calls := make([][]Call, len(plans))
	start := make(chan struct{})
	for g := range plans {
		c.Go(&wg, func() {
			<-start
			for _, o := range plans[g] {
				if between != nil {
					between(g)
				}
				inv := time.Now()
				out := Exec(worlds[g], o)
				ret := time.Now()
				calls[g] = append(calls[g], Call{g, o, out, inv, ret})
			}
		})
	}
	close(start)
	wg.Wait()
	var all []Call
	n := 0
	for g, l := range calls {
		all = append(all, l...)
		n += len(plans[g])
	}
	sort.SliceStable(all, func(i, j int) bool { return all[i].Inv.Before(all[j].Inv) })
	return all, len(all) == n
}

// Overlaps counts the pairs of calls that overlapped in time.
func Overlaps(calls []Call) (n int) {
	for i := range calls {
		for j := i + 1; j < len(calls) && calls[j].Inv.Before(calls[i].Ret); j++ {
			if calls[i].G != calls[j].G {
				n++
			}
		}
	}
	return
}

// Spec is the sequential meaning.
type Spec struct {
	New   func() *fsx.World // initial state, fresh
	Final func(w *fsx.World) string
	Same  func(c Call, want fsx.Out) bool // nil: kinds and values equal
	Cap   int
	// Hidden tells that handles carry state that does not show: which layer
	// they were opened on depends on the order of openings and changes.
	Hidden bool
}

// Fingerprint describes the observable state of a world.
func Fingerprint(w *fsx.World) string {
	var sb strings.Builder
	var rs []int
	for i := range w.Roots {
		rs = append(rs, i)
	}
	sort.Ints(rs)
	for _, i := range rs { // a sub-root may be detached from the tree
		t := fsx.Dump(w.Roots[i], fsx.DumpOpt{})
		keys := make([]string, 0, len(t))
		for k := range t {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		fmt.Fprintf(&sb, "r%d:", i)
		for _, k := range keys {
			fmt.Fprintf(&sb, "%s=%s;", k, t[k])
		}
	}
	var hs []int
	for h := range w.Files {
		hs = append(hs, h)
	}
	sort.Ints(hs)
	for _, h := range hs {
		f := w.Files[h]
		i, err := fsx.Info(f.Stat())
		fmt.Fprintf(&sb, "h%d %s %s", h, i, fsx.Class(err))
		if err == nil && !strings.Contains(i, " d") {
			p, err := f.Seek(0, io.SeekCurrent)
			b := make([]byte, 4096)
			n, rerr := f.ReadAt(b, 0)
			fmt.Fprintf(&sb, " %d%s %x%s", p, fsx.Class(err), b[:max(n, 0)], fsx.Class(rerr))
		}
		sb.WriteByte(';')
	}
	return sb.String()
}

// Verdicts of Check.
const (
	Ok = iota
	Bad
	Unknown
)

func looking(k string) bool {
	switch k {
	case "stat", "lstat", "list", "readlink", "readfile", "fstat", "readat":
		return true
	}
	return false
}

func naming(k string) bool {
	switch k {
	case "link", "rename", "remove", "removeall", "create", "openfile", "open", "symlink", "mkdir":
		return true
	}
	return false
}

// Check looks for a sequential order of the calls, consistent with real time,
// that explains every outcome and the final state. It returns the order.
func Check(calls []Call, final string, spec Spec) (int, []int) {
	n := len(calls)
	if n > 62 {
		panic("history too long")
	}
	limit := spec.Cap
	if limit == 0 {
		limit = 20000
	}
	links := false
	for _, c := range calls {
		links = links || c.Op.K == "link"
	}
	same := func(c Call, want fsx.Out) bool {
		if spec.Same != nil {
			return spec.Same(c, want)
		}
		return c.Out.Err == want.Err && c.Out.Val == want.Val
	}
	var cur *fsx.World // state after order
	var order []int
	nodes := 0
	seen := map[string]bool{}
	// rebuild makes cur the state after order.
	rebuild := func() {
		if cur != nil {
			cur.CloseAll()
		}
		cur = spec.New()
		for _, i := range order {
			Exec(cur, calls[i].Op)
		}
	}
	rebuild()
	defer func() { cur.CloseAll() }()
	var dfs func(done uint64) int
	dfs = func(done uint64) int {
		nodes++
		if nodes > limit {
			return Unknown
		}
		if len(order) == n {
			if f := spec.Final(cur); f == final {
				return Ok
			}
			rebuild() // looking may have moved something
			return Bad
		}
		if nodes > 100 {
			key := fmt.Sprintf("%x|%s", done, Fingerprint(cur))
			if links || spec.Hidden {
				for _, i := range order {
					if naming(calls[i].Op.K) || spec.Hidden && !looking(calls[i].Op.K) {
						key += fmt.Sprint(",", i)
					}
				}
			}
			if seen[key] {
				return Bad
			}
			seen[key] = true
		}
		// an operation may come next unless another pending one had returned
		// before it was invoked
		var first time.Time
		for i := range calls {
			if done&(1<<i) == 0 && (first.IsZero() || calls[i].Ret.Before(first)) {
				first = calls[i].Ret
			}
		}
		fresh := true
		for i := range calls {
			if done&(1<<i) != 0 || calls[i].Inv.After(first) {
				continue
			}
			// one goroutine's calls keep their order
			skip := false
			for j := 0; j < i; j++ {
				if done&(1<<j) == 0 && calls[j].G == calls[i].G {
					skip = true
				}
			}
			if skip {
				continue
			}
			if !fresh {
				rebuild()
			}
			fresh = false
			if !same(calls[i], Exec(cur, calls[i].Op)) {
				continue
			}
			order = append(order, i)
			v := dfs(done | 1<<i)
			if v != Bad {
				return v
			}
			order = order[:len(order)-1]
		}
		return Bad
	}
	v := dfs(0)
	return v, order
}

// Key summarizes an interleaving: who did what with which outcome, in the
// order of the explanation.
func Key(calls []Call, order []int) string {
	var sb strings.Builder
	for _, i := range order {
		fmt.Fprintf(&sb, "%d%s%s%s>%s;", calls[i].G, calls[i].Op.K, calls[i].Op.A, calls[i].Op.B, calls[i].Out.Err)
	}
	return sb.String()
}
