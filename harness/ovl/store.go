// Package ovl builds overlays for the monitors.
package ovl

import (
	"path"
	"sort"
	"strings"
	"sync"

	"github.com/ngicks/go-fsys-helper/vroot-adapter/overlayfs"
)

// Marks is the model of a masking store.
type Marks struct{ W, O map[string]bool }

func NewMarks() Marks { return Marks{map[string]bool{}, map[string]bool{}} }

// Clean is the documented normal form of names.
func Clean(n string) string { return strings.TrimPrefix(path.Clean("/"+n), "/") }

func (m Marks) SetWhiteout(n string) {
	n = Clean(n)
	p := n + "/"
	if n == "" {
		p = ""
	}
	for _, s := range []map[string]bool{m.W, m.O} {
		for k := range s {
			if k != n && strings.HasPrefix(k, p) {
				delete(s, k)
			}
		}
	}
	delete(m.O, n)
	m.W[n] = true
}

func (m Marks) Clone() Marks {
	c := NewMarks()
	for k := range m.W {
		c.W[k] = true
	}
	for k := range m.O {
		c.O[k] = true
	}
	return c
}

func keys(m map[string]bool) []string {
	l := []string{}
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

func (m Marks) String() string {
	return "whiteouts " + strings.Join(keys(m.W), " ") + "; opaques " + strings.Join(keys(m.O), " ")
}

// Store is a durable masking store in memory: it survives Close like a file
// would. Hook is asked before each change and may refuse it.
type Store struct {
	mu   sync.Mutex
	M    Marks
	Hook func(op, name string) error
	Ops  int
}

var _ overlayfs.MetadataStore = (*Store)(nil)

func NewStore() *Store { return &Store{M: NewMarks()} }

func (s *Store) Load() (w, o []string, err error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	return keys(s.M.W), keys(s.M.O), nil
}

func (s *Store) do(op, n string, f func()) error {
	if s.Hook != nil {
		if err := s.Hook(op, n); err != nil {
			return err
		}
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	s.Ops++
	f()
	return nil
}

func (s *Store) SetWhiteout(n string) error {
	return s.do("SetWhiteout", n, func() { s.M.SetWhiteout(n) })
}
func (s *Store) ClearWhiteout(n string) error {
	return s.do("ClearWhiteout", n, func() { delete(s.M.W, Clean(n)) })
}
func (s *Store) SetOpaque(n string) error {
	return s.do("SetOpaque", n, func() { s.M.O[Clean(n)] = true })
}
func (s *Store) ClearOpaque(n string) error {
	return s.do("ClearOpaque", n, func() { delete(s.M.O, Clean(n)) })
}
func (s *Store) Close() error { return nil }

// Snapshot describes the marks.
func (s *Store) Snapshot() string {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.M.String()
}
