package main

// Fake providers and codecs which record what the store does with them and
// inject faults.

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"sort"
	"strconv"
	"sync"
	"time"

	"github.com/hedzr/store"
)

type base struct {
	codec store.Codec
	pos   string
}

func (s *base) GetCodec() store.Codec   { return s.codec }
func (s *base) GetPosition() string     { return s.pos }
func (s *base) WithCodec(c store.Codec) { s.codec = c }
func (s *base) WithPosition(p string)   { s.pos = p }

// readProvider delivers a whole map by Read.
type readProvider struct {
	base
	m     map[string]store.ValPkg
	err   error
	reads int
}

func (s *readProvider) Read() (map[string]store.ValPkg, error) { s.reads++; return s.m, s.err }

// onceProvider delivers bytes and accepts writes.
type onceProvider struct {
	base
	data    []byte
	err     error
	werr    error
	writes  [][]byte
	readErr error // of Read, default ErrNotImplemented
}

func (s *onceProvider) Read() (map[string]store.ValPkg, error) {
	if s.readErr != nil {
		return nil, s.readErr
	}
	return nil, store.ErrNotImplemented
}
func (s *onceProvider) ReadBytes() ([]byte, error) { return s.data, s.err }
func (s *onceProvider) Write(b []byte) error {
	if s.werr != nil {
		return s.werr
	}
	s.writes = append(s.writes, append([]byte{}, b...))
	return nil
}

// streamProvider delivers key by key.
type streamProvider struct {
	base
	keys []string
	m    map[string]any
	pos2 int
}

func newStream(m map[string]any) *streamProvider {
	s := &streamProvider{m: m}
	for k := range m {
		s.keys = append(s.keys, k)
	}
	sort.Strings(s.keys)
	return s
}
func (s *streamProvider) Read() (map[string]store.ValPkg, error) { return nil, store.ErrNotImplemented }
func (s *streamProvider) Keys() ([]string, error)                { return s.keys, nil }
func (s *streamProvider) Count() int                             { return len(s.keys) }
func (s *streamProvider) Has(k string) bool                      { _, ok := s.m[k]; return ok }
func (s *streamProvider) Next() (string, bool) {
	if s.pos2 >= len(s.keys) {
		return "", true
	}
	s.pos2++
	return s.keys[s.pos2-1], false
}
func (s *streamProvider) Value(k string) (any, bool) { v, ok := s.m[k]; return v, ok }
func (s *streamProvider) MustValue(k string) any     { return s.m[k] }

// watchProvider is a readProvider which can be watched.
type watchProvider struct {
	readProvider
	mu      sync.Mutex
	cb      func(event any, err error)
	watches int
	closes  int
	werr    error
}

func (s *watchProvider) Watch(ctx context.Context, cb func(event any, err error)) error {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.watches++
	if s.werr != nil {
		return s.werr
	}
	s.cb = cb
	return nil
}

func (s *watchProvider) Close() {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.closes++
}

type kv struct {
	k string
	v any
}

// change is an event of a watchProvider.
type change struct {
	op   store.Op
	kvs  []kv
	i    int
	prov store.Provider
}

func (s *change) Next() (string, any, bool) {
	if s.i >= len(s.kvs) {
		return "", nil, false
	}
	s.i++
	return s.kvs[s.i-1].k, s.kvs[s.i-1].v, true
}
func (s *change) Path() string             { return "" }
func (s *change) Op() store.Op             { return s.op }
func (s *change) Has(op store.Op) bool     { return s.op&op != 0 }
func (s *change) Timestamp() time.Time     { return time.Now() }
func (s *change) Provider() store.Provider { return s.prov }

// recCodec is a JSON codec which records and fails on demand.
type recCodec struct {
	merr, uerr error
	partial    map[string]any // returned together with uerr
	marshaled  []map[string]any
	out        [][]byte
	unmarshals int
}

func (c *recCodec) Marshal(m map[string]any) ([]byte, error) {
	c.marshaled = append(c.marshaled, m)
	if c.merr != nil {
		return []byte("partial"), c.merr
	}
	b, err := json.Marshal(textual(m))
	c.out = append(c.out, b)
	return b, err
}

func (c *recCodec) Unmarshal(b []byte) (m map[string]any, err error) {
	c.unmarshals++
	if c.uerr != nil {
		return c.partial, c.uerr
	}
	err = json.Unmarshal(b, &m)
	return
}

// textual replaces what JSON can't encode.
func textual(v any) any {
	switch z := v.(type) {
	case map[string]any:
		r := map[string]any{}
		for k, x := range z {
			r[k] = textual(x)
		}
		return r
	case nil, string, bool, int, int64, float64, []string, []any, []byte, time.Duration:
		return z
	}
	return fmt.Sprint(v)
}

var errInjected = errors.New("injected fault")

//
// nested data
//

type treeOpt struct {
	d        string
	depth    int
	slices   bool // []any, []map...
	anyKeys  bool // map[any]any
	dotted   bool // keys with delimiters inside
	flatten  bool
	json     bool // only what JSON can represent
	width    int
	noNil    bool
	mapsVals bool
}

var treeSegs = []string{"a", "ab", "abc", "b", "app", "server", "serv", "log", "logging", "é", "è", "日本", "x1", "k", "k2", "debug", "0", "1", "10", "A", "sub", "up-time", "z"}

var treeN int

// genTree makes a nested map and its expected flat form.
func genTree(t *T, o treeOpt) (m map[string]any, flat map[string]any) {
	for try := 0; ; try++ {
		n := t.Range(0, 1000)
		m = genMap(t, o, o.depth, &n)
		flat = map[string]any{}
		if expandTree(flat, "", m, o) {
			if len(flat) > 0 || try > 3 {
				return
			}
		}
	}
}

func genMap(t *T, o treeOpt, depth int, n *int) map[string]any {
	r := map[string]any{}
	w := o.width
	if w == 0 {
		w = 4
	}
	for i := t.Range(0, w); i > 0; i-- {
		k := pick(t, treeSegs)
		if o.d == "" || containsStr(k, o.d) {
			continue
		}
		if t.Chance(0.1) {
			k += pick(t, treeSegs)
		}
		if o.dotted && t.Chance(0.2) {
			k += o.d + pick(t, treeSegs)
			if containsStr(k, o.d+o.d) {
				continue
			}
		}
		r[k] = genVal(t, o, depth-1, n)
	}
	return r
}

func containsStr(s, sub string) bool {
	for i := 0; i+len(sub) <= len(s); i++ {
		if s[i:i+len(sub)] == sub {
			return true
		}
	}
	return false
}

func genLeaf(t *T, o treeOpt, n *int) any {
	*n++
	if o.json {
		switch t.Int(6) {
		case 0:
			return float64(*n) + 0.5
		case 1:
			return t.Chance(0.5)
		case 2:
			if !o.noNil {
				return nil
			}
		case 3:
			return float64(*n)
		}
		return fmt.Sprint("s", *n)
	}
	switch t.Int(9) {
	case 0:
		return *n
	case 1:
		return float64(*n) + 0.5
	case 2:
		return t.Chance(0.5)
	case 3:
		if !o.noNil {
			return nil
		}
	case 4:
		return []string{"x", fmt.Sprint(*n)}
	case 5:
		return []int{*n, 1}
	case 6:
		return time.Duration(*n)
	case 7:
		return map[string]string{"m": fmt.Sprint(*n)}
	}
	return fmt.Sprint("s", *n)
}

func genVal(t *T, o treeOpt, depth int, n *int) any {
	if depth <= 0 || t.Chance(0.5) {
		return genLeaf(t, o, n)
	}
	switch r := t.Int(10); {
	case o.anyKeys && r < 3:
		mm := map[any]any{}
		seen := map[string]bool{}
		for i := t.Range(1, 3); i > 0; i-- {
			var k any = pick(t, treeSegs)
			switch t.Int(5) {
			case 0:
				k = t.Range(0, 20)
			case 1:
				k = t.Chance(0.5)
			case 2:
				k = int64(t.Range(100, 200))
			}
			if tx := fmt.Sprint(k); !seen[tx] && !containsStr(tx, o.d) {
				seen[tx] = true
				mm[k] = genVal(t, o, depth-1, n)
			}
		}
		return mm
	case o.slices && r < 6:
		l := t.Range(0, 4)
		if t.Chance(0.05) {
			l = t.Range(10, 13)
		}
		switch t.Int(4) {
		case 0:
			if !o.json {
				s := []map[string]any{}
				for ; l > 0; l-- {
					s = append(s, genMap(t, o, depth-1, n))
				}
				return s
			}
		case 1:
			if o.anyKeys {
				s := []map[any]any{}
				for ; l > 0; l-- {
					s = append(s, map[any]any{"k": genLeaf(t, o, n), 7: genLeaf(t, o, n)})
				}
				return s
			}
		}
		s := []any{}
		for ; l > 0; l-- {
			s = append(s, genVal(t, o, depth-1, n))
		}
		return s
	}
	return genMap(t, o, depth, n)
}

// expandTree is the model of Load and Merge; false if two leaves collide.
func expandTree(out map[string]any, path string, v any, o treeOpt) bool {
	j := func(k string) string {
		if path == "" {
			return k
		}
		return path + o.d + k
	}
	switch z := v.(type) {
	case map[string]any:
		for k, x := range z {
			if !expandTree(out, j(k), x, o) {
				return false
			}
		}
		return true
	case map[any]any:
		for k, x := range z {
			if !expandTree(out, j(fmt.Sprint(k)), x, o) {
				return false
			}
		}
		return true
	}
	if o.flatten {
		switch z := v.(type) {
		case []map[string]any:
			for i, x := range z {
				if !expandTree(out, j(strconv.Itoa(i)), x, o) {
					return false
				}
			}
			return true
		case []map[any]any:
			for i, x := range z {
				if !expandTree(out, j(strconv.Itoa(i)), x, o) {
					return false
				}
			}
			return true
		case []any:
			for i, x := range z {
				if !expandTree(out, j(strconv.Itoa(i)), x, o) {
					return false
				}
			}
			return true
		}
	}
	if _, dup := out[path]; dup {
		return false
	}
	out[path] = v
	return true
}

// deepCopy of nested data.
func deepCopy(v any) any {
	switch z := v.(type) {
	case map[string]any:
		r := make(map[string]any, len(z))
		for k, x := range z {
			r[k] = deepCopy(x)
		}
		return r
	case map[any]any:
		r := make(map[any]any, len(z))
		for k, x := range z {
			r[k] = deepCopy(x)
		}
		return r
	case []any:
		r := make([]any, len(z))
		for i, x := range z {
			r[i] = deepCopy(x)
		}
		return r
	case []map[string]any:
		r := make([]map[string]any, len(z))
		for i, x := range z {
			r[i] = deepCopy(x).(map[string]any)
		}
		return r
	case []map[any]any:
		r := make([]map[any]any, len(z))
		for i, x := range z {
			r[i] = deepCopy(x).(map[any]any)
		}
		return r
	case []string:
		return append(make([]string, 0, len(z)), z...)
	case []int:
		return append(make([]int, 0, len(z)), z...)
	case []byte:
		return append(make([]byte, 0, len(z)), z...)
	case map[string]string:
		r := make(map[string]string, len(z))
		for k, x := range z {
			r[k] = x
		}
		return r
	}
	return v
}
