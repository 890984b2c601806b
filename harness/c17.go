package main

import (
	"context"
	"errors"
	"fmt"
	"math"
	"math/big"
	"reflect"
	"strings"
	"time"

	"github.com/hedzr/store"
	"github.com/hedzr/store/radix"
)

func init() {
	register(&Prop{
		ID:          "C17",
		Rule:        "a case does random operations of the whole public API with hostile paths (empty, delimiters only, leading/trailing/doubled delimiters, spaces, ':' and '*', control characters, invalid UTF-8, thousands of runes or segments) and hostile values (nil, typed nil, functions, channels, pointers, nested and typed containers, NaN, extreme numbers, malformed texts); the monitors are: recovered panics, crash of the process, a time limit per case, a heap limit, and reading back what was written; distinct = different operation histories",
		Assumptions: []string{"values are acyclic", "extraction into a struct holder is asked only for shallow data (the copying library needs exponential time for deep maps)"},
		Groups: []Group{
			{Name: "paths", Quick: 50000, Thorough: 600000, Body: c17Paths},
			{Name: "values", Quick: 20000, Thorough: 300000, Body: c17Values},
			{Name: "getters", Quick: 8000, Thorough: 150000, Body: c17Getters},
			{Name: "long", Quick: 200, Thorough: 3000, Body: c17Long},
			{Name: "load", Quick: 12000, Thorough: 200000, Body: c17Load},
			{Name: "dummy", Quick: 300, Thorough: 3000, Body: c17Dummy},
		},
	})
}

var hostileSegs = []string{"", "a", "b", "ab", "a b", " ", "  ", ":", "*", ":id", "*all", ":id2", "*", "::", "**", ":a:b", "日本", "é", "\x00", "\n", "\t", "\xff", "\xc3", "a\xffb", "[0]", "0", "-", "(root)", "%s", "a/b", "\u202e", "🙂", "'", "\"", "$", "..."}

// hostile makes a path.
func hostile(t *T, d string) string {
	var sb strings.Builder
	for i := t.Int(6); i >= 0; i-- {
		switch t.Int(12) {
		case 0:
			sb.WriteString(d)
		case 1:
			for j := t.Int(3); j >= 0; j-- {
				sb.WriteByte(byte(t.Int(256)))
			}
		case 2:
			sb.WriteRune(rune(t.Int(0x11000)))
		default:
			sb.WriteString(pick(t, hostileSegs))
		}
		if t.Chance(0.6) {
			sb.WriteString(d)
		}
	}
	if t.Chance(0.05) {
		return strings.Repeat(sb.String(), t.Range(2, 60))
	}
	return sb.String()
}

type stringer struct{ p *int }

func (s stringer) String() string { return fmt.Sprint(*s.p) }

type selfText struct{ s string }

func (s selfText) MarshalText() ([]byte, error) { return nil, errors.New("no text") }
func (s *selfText) UnmarshalText([]byte) error  { return errors.New("no text") }

type hInner struct {
	priv int
	M    map[string]any
	F    func()
	P    *hInner
}

func hostileText(t *T) string {
	switch t.Int(6) {
	case 0:
		return pick(t, []string{"", " ", "[", "]", "{", "}", "[1,2", "1,2]", "{a:1", "{\"a\":", "[[1],[2]]", "{}", "[]", "{a}", "[,]", "[,,1]", "{,}", "{:}", "{\"a\":1,\"a\":2}", "nil", "<nil>", "null", "true", "TRUE", "yes", "on", "0x10", "0b1", "1_000", "1e400", "-1e400", "NaN", "Inf", "-Inf", "1+2i", "(1+2i)", "i", "1i", "99999999999999999999999", "-99999999999999999999999", "1.", ".", "-", "+", "1-2", "٣"})
	case 1:
		return pick(t, []string{"1h", "1d", "1d2h", "-1d", "1w", "1y", "h", "1", "1hh", "9223372036854775807ns", "9223372036854775808ns", "106752d", "-106752d", "1e9d", "0.000000001d", "..d", "1.d", ".1d", "µs", "1µs", "1 h", "100000000000000000000h"})
	case 2:
		return pick(t, []string{"2024-01-01", "2024-01-01T00:00:00Z", "0000-00-00", "99999-01-01", "12:00", "12:00:99", "2024-13-40", "Mon Jan _2 15:04:05 2006", "1/2/3", "T", "Z"})
	case 3:
		return pick(t, []string{"1K", "1KiB", "1 kB", "kB", "-1K", "1.5G", "1e3M", "9999999999Y", "1ZiB", "K", " K", "1\u00a0K", "1日", "0x1K", "1KK"})
	case 4:
		return strings.Repeat(pick(t, []string{"[", "{", "1", "a,", "\"", "\\", "(", "1,"}), t.Range(1, 400))
	}
	b := make([]byte, t.Int(20))
	for i := range b {
		b[i] = byte(t.Int(256))
	}
	return string(b)
}

// hostileValue makes a value of any kind.
func hostileValue(t *T, depth int) any {
	if depth > 0 && t.Chance(0.3) {
		switch t.Int(9) {
		case 0:
			m := map[string]any{}
			for i := t.Int(4); i > 0; i-- {
				m[hostile(t, ".")] = hostileValue(t, depth-1)
			}
			return m
		case 1:
			m := map[any]any{}
			for i := t.Int(4); i > 0; i-- {
				k := pick(t, []any{1, "a", 2.5, true, nil, [1]int{1}, struct{}{}, time.Second})
				m[k] = hostileValue(t, depth-1)
			}
			return m
		case 2, 3:
			var s []any
			for i := t.Int(4); i > 0; i-- {
				s = append(s, hostileValue(t, depth-1))
			}
			return s
		case 4:
			return []map[string]any{{"x": hostileValue(t, depth-1)}, nil, {}}
		case 5:
			return map[int]any{1: hostileValue(t, depth-1), -5: nil}
		case 6:
			v := hostileValue(t, depth-1)
			return &v
		case 7:
			return [2]any{hostileValue(t, depth-1), nil}
		case 8:
			return &hInner{1, map[string]any{"k": hostileValue(t, depth-1)}, nil, &hInner{}}
		}
	}
	switch t.Int(12) {
	case 0:
		return pick(t, []any{nil, (*int)(nil), (*point)(nil), error(nil), (map[string]any)(nil), ([]any)(nil), ([]string)(nil), (func())(nil), (chan int)(nil), (*selfText)(nil), (map[string]string)(nil), ([]byte)(nil), (*time.Time)(nil), (*string)(nil)})
	case 1:
		return pick(t, []any{math.NaN(), math.Inf(1), math.Inf(-1), math.MaxFloat64, -math.MaxFloat64, math.SmallestNonzeroFloat64, float32(math.Inf(1)), math.MaxInt64, math.MinInt64, uint64(math.MaxUint64), int8(-128), uint8(255), complex(math.NaN(), 1), complex64(1), uintptr(7), -0.0})
	case 2:
		return pick(t, []any{func() {}, func(int) string { return "" }, make(chan int), make(chan struct{}, 1), struct{}{}, [0]int{}, errors.New("e"), context.Background(), reflect.ValueOf(3), reflect.TypeOf(3), new(int), big.NewInt(7), stringer{new(int)}, selfText{"x"}, &selfText{"x"}})
	case 3:
		return pick(t, []any{time.Time{}, time.Unix(1<<40, 0), time.Duration(math.MinInt64), time.Duration(math.MaxInt64), time.UTC, time.January, &time.Time{}})
	case 4:
		return pick(t, []any{[]int{}, []int{1, -1}, []string{"", "a", "1"}, []bool{true}, []float64{math.NaN()}, []uint8{0, 255}, []complex128{1}, []time.Duration{1}, []time.Time{{}}, []any{nil}, [][]int{{1}, nil}, []error{nil}, []*int{nil}, []uint64{math.MaxUint64}, []func(){nil}})
	case 5:
		return pick(t, []any{map[string]string{"": ""}, map[string]int{"a": 1}, map[int]string{1: "a"}, map[string][]int{"a": {1}}, map[string]bool{"t": true}, map[string]error{"e": nil}, map[bool]bool{true: false}, map[float64]int{math.NaN(): 1}, map[point]int{{1, 2, "x"}: 1}, map[string]map[string]any{"a": nil}, map[string]time.Duration{"d": 1}})
	case 6, 7:
		return hostileText(t)
	case 8:
		return []string{hostileText(t), hostileText(t)}
	case 9:
		return map[string]any{"a": hostileText(t), "b": nil}
	}
	return t.Int(1000)
}

// ops of the fuzzing driver. It returns the full key written, "" if none.
type fuzz struct {
	t    *T
	s    sut
	d    string
	pool []string
	m    map[string]any // last written, to be read back
}

func (f *fuzz) path() string {
	t := f.t
	if len(f.pool) > 0 && t.Chance(0.55) {
		p := pick(t, f.pool)
		switch t.Int(8) {
		case 0:
			p += f.d
		case 1:
			p = f.d + p
		case 2:
			p += pick(t, hostileSegs)
		case 3:
			p += f.d + pick(t, hostileSegs)
		case 4:
			if len(p) > 0 {
				p = p[:t.Int(len(p))]
			}
		}
		return p
	}
	p := hostile(t, f.d)
	if len(f.pool) < 40 {
		f.pool = append(f.pool, p)
	}
	return p
}

// runes is how a path reads after its conversion to runes.
func runes(p string) string { return string([]rune(p)) }

func hasRoute(p, d string) bool {
	return strings.Contains(d+p, d+":") || strings.Contains(d+p, d+"*")
}

func (f *fuzz) wrote(p string, v any, spaces bool) {
	if spaces {
		p = strings.ReplaceAll(p, " ", "-")
	}
	t := f.t
	if p == "" {
		return // the root isn't a key
	}
	f.m[runes(p)] = v
	got, ok := f.s.Get(p)
	t.Ok(1)
	if !ok || !sameVal(got, v) {
		t.Fail("readback", "the value %s was written at %q, but Get returns %s, %v", show(v), p, show(got), ok)
	}
	if !f.s.Has(p) {
		t.Fail("readback-has", "a value was written at %q, but Has is false", p)
	}
}

// sameVal compares values which may hold functions, channels or NaN.
func sameVal(a, b any) bool {
	if eq(a, b) {
		return true
	}
	return fmt.Sprintf("%T %v", a, a) == fmt.Sprintf("%T %v", b, b)
}

func (f *fuzz) forget(p string) {
	r := runes(p)
	for k := range f.m {
		if k == r || strings.HasPrefix(k, r) || strings.HasPrefix(r, k) {
			delete(f.m, k)
		}
	}
	if hasRoute(p, f.d) || len(f.m) > 0 && f.anyRoute() {
		f.m = map[string]any{}
	}
}

func (f *fuzz) anyRoute() bool {
	for k := range f.m {
		if hasRoute(k, f.d) {
			return true
		}
	}
	return false
}

func (f *fuzz) step(depth int) {
	t, s := f.t, f.s
	p := f.path()
	op := t.Int(34)
	t.Op("op %d %q", op, clip(p, 120))
	switch op {
	case 0, 1, 2, 3:
		v := hostileValue(t, depth)
		n, _ := s.Set(p, v)
		if n == nil {
			t.Fail("set-node", "Set(%q) returned no node", p)
		}
		f.wrote(p, v, true)
	case 4:
		v := hostileValue(t, depth)
		s.Insert(p, v)
		f.wrote(p, v, true)
	case 5, 6:
		v := hostileValue(t, depth)
		s.SetNode(p, v, hostileValue(t, 1), []string{"d", "c", "e", ""}[:t.Int(5)]...)
		f.wrote(p, v, false)
	case 7:
		v := hostileValue(t, depth)
		calls := 0
		s.SetEx(p, v, func(path string, old any, n radix.Node[any], tr radix.Trie[any]) { calls++; _ = n.Key() })
		f.wrote(p, v, false)
	case 8:
		s.SetEx(p, 1, nil)
		f.wrote(p, 1, false)
	case 9:
		s.SetEmpty(p)
		f.forget(p)
	case 10:
		v := hostileValue(t, depth)
		s.Update(p, func(n radix.Node[any], old any) { n.SetData(v); n.SetModified(true); n.ToggleModified() })
		f.wrote(p, v, false)
	case 11:
		s.Remove(p)
		f.forget(p)
	case 12:
		s.RemoveEx(p)
		f.forget(p)
	case 13:
		m := map[string]any{}
		for i := t.Int(4); i > 0; i-- {
			m[hostile(t, f.d)] = hostileValue(t, depth)
		}
		_ = s.Merge(p, m)
		f.m = map[string]any{}
	case 14:
		_ = s.Merge(p, nil)
	case 15:
		s.SetComment(p, p, p)
		s.SetTag(p, hostileValue(t, 1))
	case 16:
		_, _ = s.GetDesc(p)
		_, _ = s.GetTag(p)
		_, _ = s.GetComment(p)
		s.MustGetDesc(p)
		s.MustGetTag(p)
		s.MustGetComment(p)
	case 17:
		s.Get(p)
		s.MustGet(p)
		s.Has(p)
		s.HasPart(p)
		s.Search(p)
	case 18:
		s.Query(p, radix.KVPair{})
		s.Query(p, nil)
	case 19:
		s.GetEx(p, func(n radix.Node[any], d any, b bool, kv radix.KVPair) {
			_, _, _, _ = n.Key(), n.KeyPiece(), n.Data(), n.Tag()
			n.StartsWith('a')
			n.EndsWith('a')
			n.Dup()
		})
		s.GetEx(p, nil)
	case 20:
		if n, _, _, _ := locate(s, p, radix.KVPair{}); n != nil {
			_, _ = n.Key(), n.Data()
			n.Walk(func(path, fragment string, n radix.Node[any]) {})
		}
	case 21:
		s.Walk(p, func(path, fragment string, n radix.Node[any]) { _ = n.Key() })
	case 22:
		_, _ = s.GetM(p)
		_, _ = s.GetM(p, radix.WithKeepPrefix[any](t.Chance(0.5)), radix.WithoutFlattenKeys[any](t.Chance(0.5)))
		_, _ = s.GetM(p, radix.WithFilter[any](func(n radix.Node[any]) bool { return len(n.Key())%2 == 0 }))
	case 23:
		_, _ = s.GetR(p)
		s.MustR(p)
		s.MustM(p)
	case 24:
		var m map[string]any
		_ = s.To(p, &m)
		_ = s.GetSectionFrom(p, &m)
	case 25:
		_ = s.Dump()
	case 26:
		c := dup(s)
		c.Set(p, 1)
		c.Remove(p)
	case 27:
		v := view(s, p)
		q := f.path()
		v.Set(q, 2)
		v.Get(q)
		v.Has(q)
		v.Remove(q)
		_, _ = v.GetM(q)
		v.Walk(q, func(path, fragment string, n radix.Node[any]) {})
		f.m = map[string]any{}
	case 28:
		for _, m := range []string{"N", "R", "BR"} {
			v := modeView(s, m)
			v.Get(p)
			v.Has(p)
			_, _ = v.GetString(p)
		}
	case 29:
		for i := 0; i < 4; i++ {
			m := pick(t, getterMethods)
			t.Op("%s", m.Name)
			callGetter(s, m, p)
		}
	case 30:
		v := viewReplaced(s, p, hostile(t, f.d))
		v.Get("a")
		_, _ = v.GetM("")
	case 31:
		switch z := s.(type) {
		case interface {
			StartsWith(string, rune) bool
			EndsWith(string, rune) bool
		}:
			z.StartsWith(p, pick(t, []rune{'a', '.', 0, '日', -1}))
			z.EndsWith(p, pick(t, []rune{'a', '.', 0, '日', -1}))
		}
		_ = fmt.Sprint(s)
	case 32:
		if z, ok := s.(interface{ MarshalJSON() ([]byte, error) }); ok {
			_, _ = z.MarshalJSON()
		}
		if z, ok := s.(interface{ Join(...string) string }); ok {
			z.Join(p, "", hostile(t, f.d))
		}
	case 33:
		if t.Chance(0.1) {
			old := s.Prefix()
			s.SetPrefix(p, hostile(t, f.d))
			s.Set("x", 1)
			s.Get("x")
			s.SetPrefix(old)
			f.m = map[string]any{}
		}
	}
	t.Ok(1)
}

// readback checks that all written keys are still there.
func (f *fuzz) readback() {
	t := f.t
	for _, p := range sortedKeys(f.m) {
		got, ok := f.s.Get(p)
		t.Ok(1)
		if !ok || !sameVal(got, f.m[p]) {
			t.Fail("readback-late", "the value %s was written at %q, but at the end Get returns %s, %v", show(f.m[p]), p, show(got), ok)
		}
	}
	t.Count("keys read back at the end", int64(len(f.m)))
}

var hostileDelims = []rune{'.', '.', '/', '|', ':', '*', ' ', '-', 'a', '0'}

func newFuzz(t *T) *fuzz {
	d := '.'
	if t.Chance(0.4) {
		d = pick(t, []rune{'/', '|', '-', '_', '#'})
	}
	return &fuzz{t: t, s: newSut(t, d), d: string(d), m: map[string]any{}}
}

func c17Paths(t *T) {
	f := newFuzz(t)
	if t.Chance(0.03) { // any delimiter: panics and hangs only
		d := pick(t, append([]rune{0, -1, 0x10FFFF, '日', ' '}, hostileDelims...))
		f.s, f.d = newSut(t, d), string(d)
		t.Op("delimiter %q", f.d)
		for i := t.Range(5, 25); i > 0; i-- {
			p := hostile(t, f.d)
			f.s.Set(p, 1)
			f.s.Get(p)
			f.s.Has(p)
			_, _ = f.s.GetM(p)
			_ = f.s.Dump()
			f.s.Remove(p)
			t.Ok(1)
		}
		return
	}
	for i := t.Range(5, 50); i > 0; i-- {
		f.step(1)
	}
	f.readback()
}

func c17Values(t *T) {
	f := newFuzz(t)
	var keys []string
	for i := t.Range(1, 8); i > 0; i-- {
		k := "k" + string(rune('a'+t.Int(6)))
		if t.Chance(0.4) {
			k += f.d + "x" + string(rune('a'+t.Int(3)))
		}
		v := hostileValue(t, 3)
		t.Op("Set(%q, %s)", k, show(v))
		f.s.Set(k, v)
		f.wrote(k, v, true)
		keys = append(keys, k)
	}
	for i := t.Range(2, 15); i > 0; i-- {
		k := pick(t, keys)
		switch t.Int(9) {
		case 0:
			_, _ = f.s.GetM("")
			_, _ = f.s.GetR("")
		case 1:
			_ = f.s.Dump()
		case 2:
			c := dup(f.s)
			for _, k := range keys {
				c.Get(k)
			}
		case 3:
			var m map[string]any
			_ = f.s.To(k, &m)
			_ = f.s.To("", &m)
		case 4:
			m := pick(t, getterMethods)
			t.Op("%s(%q)", m.Name, k)
			callGetter(f.s, m, k)
		case 5:
			v := hostileValue(t, 3)
			t.Op("Merge(%q, %s)", k, show(v))
			_ = f.s.Merge(k, map[string]any{"m": v, "": v})
			f.m = map[string]any{}
		case 6:
			if st, ok := f.s.(store.Store); ok {
				v := hostileValue(t, 2)
				t.Op("Load %s", show(v))
				_, _ = st.Load(context.Background(), store.WithProvider(&readProvider{m: map[string]store.ValPkg{"r": {Value: v, Tag: v}, "": {Value: v}}}), store.WithStorePrefix(k), store.WithStoreFlattenSlice(t.Chance(0.5)))
				f.m = map[string]any{}
			}
		case 7:
			f.s.Walk(k, func(path, fragment string, n radix.Node[any]) { _ = fmt.Sprint(n.Data()) })
		case 8:
			v := hostileValue(t, 3)
			t.Op("Set(%q, %s)", k, show(v))
			f.s.Set(k, v)
			f.wrote(k, v, true)
		}
		t.Ok(1)
	}
	f.readback()
}

// c17Getters: every getter for a value, with and without defaults.
func c17Getters(t *T) {
	s := newSut(t, '.')
	v := hostileValue(t, 2)
	t.Op("value %s", show(v))
	s.Set("k", v)
	if t.Chance(0.3) {
		s.Set("k.sub", 1)
	}
	for _, m := range getterMethods {
		for _, p := range []string{"k", "k.sub", "absent"} {
			if p != "k" && t.Chance(0.8) {
				continue
			}
			t.Op("%s(%q)", m.Name, p)
			callGetter(s, m, p)
			def := reflect.Zero(m.Type.In(1).Elem())
			if def.Kind() == reflect.Func {
				continue
			}
			for n := 1; n < 3; n++ {
				args := []reflect.Value{reflect.ValueOf(p), def, def}
				reflect.ValueOf(s).MethodByName(m.Name).Call(args[:n+1])
			}
			t.Ok(3)
		}
	}
	if x, ok := s.(interface {
		FromKibiBytes(string) uint64
		FromKiloBytes(string) uint64
	}); ok {
		z := hostileText(t)
		t.Op("bytes %q", z)
		x.FromKibiBytes(z)
		x.FromKiloBytes(z)
	}
	// shallow struct holders
	var h cfgSub
	_ = s.To("k", &h)
	var i int
	_ = s.To("k", &i)
	var str string
	_ = s.To("absent", &str)
	t.Count("values", 1)
}

// c17Long: very long, deep or many paths.
func c17Long(t *T) {
	f := newFuzz(t)
	s := f.s
	switch t.Int(6) {
	case 0: // one very long segment
		n := t.Range(1000, 60000)
		k := strings.Repeat(pick(t, []string{"a", "日", "ab"}), n)
		t.Op("a segment of %d bytes", len(k))
		s.Set(k, 1)
		s.Set(k[:len(k)/2-len(k)/2%3], 2)
		s.Set(k+f.d+"x", 3)
		f.m[k] = 1
	case 1: // very many segments
		n := t.Range(500, 20000)
		k := strings.TrimSuffix(strings.Repeat("a"+f.d, n), f.d)
		t.Op("%d segments", n)
		s.Set(k, 1)
		f.m[k] = 1
	case 2: // a deep tree
		n := t.Range(100, 700)
		k := ""
		t.Op("a tree of depth %d", n)
		for i := 0; i < n; i++ {
			k += string(rune('a' + i%7))
			s.Set(k, i)
			f.m[k] = i
			k += f.d
		}
	case 3: // every prefix of a segment
		n := t.Range(100, 900)
		k := ""
		t.Op("%d nested prefixes", n)
		for i := 0; i < n; i++ {
			k += string(rune('a' + i%7))
			s.Set(k, i)
			f.m[k] = i
		}
	case 4: // only delimiters
		n := t.Range(2, 500)
		t.Op("%d delimiters", n)
		for i := 1; i < n; i++ {
			k := strings.Repeat(f.d, i)
			s.Set(k, i)
			f.m[k] = i
		}
	case 5: // wide
		n := t.Range(500, 4000)
		t.Op("%d siblings", n)
		for i := 0; i < n; i++ {
			k := fmt.Sprintf("w%sn%d%s%c", f.d, t.Int(n), pick(t, []string{"", f.d}), rune(0x4e00+i%200))
			s.Set(k, i)
			f.m[k] = i
		}
	}
	f.readback()
	_ = s.Dump()
	c := dup(s)
	cnt := 0
	c.Walk("", func(path, fragment string, n radix.Node[any]) { cnt++ })
	for _, k := range sortedKeys(f.m) {
		if cnt > 2000 && !t.Chance(0.02) {
			continue
		}
		v, ok := c.Get(k)
		t.Ok(1)
		if !ok || !eq(v, f.m[k]) {
			t.Fail("long-copy", "the copy lost the key %q...", clip(k, 60))
		}
	}
	if len(f.m) < 1000 {
		_, _ = s.GetR("")
	}
	for _, k := range sortedKeys(f.m) {
		s.Remove(k)
		if t.Chance(0.5) {
			s.Has(k)
		}
	}
}

// c17Load: loads of hostile documents through providers.
func c17Load(t *T) {
	s := store.New(store.WithFlattenSlice(t.Chance(0.5)))
	defer s.Close()
	m := map[string]store.ValPkg{}
	for i := t.Int(5); i > 0; i-- {
		v := hostileValue(t, 3)
		k := hostile(t, ".")
		t.Op("%q: %s", k, show(v))
		m[k] = store.ValPkg{Value: v, Desc: hostileText(t), Comment: hostileText(t), Tag: hostileValue(t, 1)}
	}
	var wr store.Writeable
	var err error
	p := hostile(t, ".")
	opts := []store.LoadOpt{store.WithStorePrefix(p), store.WithPosition(hostile(t, "."))}
	t.Op("prefix %q", p)
	switch t.Int(4) {
	case 0:
		wr, err = s.Load(context.Background(), append(opts, store.WithProvider(&readProvider{m: m}))...)
	case 1:
		mm := map[string]any{}
		for k, v := range m {
			mm[k] = v.Value
		}
		wr, err = s.Load(context.Background(), append(opts, store.WithProvider(newStream(mm)))...)
	case 2:
		f := pick(t, formats)
		b := []byte(hostileText(t) + hostileText(t))
		t.Op("codec %s: %q", f.name, b)
		wr, err = s.Load(context.Background(), append(opts, store.WithProvider(&onceProvider{data: b}), store.WithCodec(f.mk()))...)
	case 3:
		wr, err = s.Load(context.Background(), opts...)
	}
	_, _ = wr, err
	_ = s.Dump()
	_, _ = s.GetM("")
	_ = s.MustM("", radix.WithoutFlattenKeys[any](true))
	s.Dup().Walk("", func(path, fragment string, n radix.Node[any]) {})
	t.Ok(1)
}

// c17Dummy: the dummy store accepts everything and holds nothing.
func c17Dummy(t *T) {
	s := store.NewDummyStore()
	v := reflect.ValueOf(s)
	for i := 0; i < v.NumMethod(); i++ {
		m := v.Type().Method(i)
		mt := v.Method(i).Type()
		n := mt.NumIn()
		if mt.IsVariadic() {
			n--
		}
		args := make([]reflect.Value, n)
		for j := range args {
			switch mt.In(j).Kind() {
			case reflect.String:
				args[j] = reflect.ValueOf(hostile(t, "."))
			case reflect.Interface:
				if mt.In(j).NumMethod() == 0 {
					x := hostileValue(t, 1)
					if x == nil {
						args[j] = reflect.Zero(mt.In(j))
					} else {
						args[j] = reflect.ValueOf(x)
					}
				} else if mt.In(j) == reflect.TypeOf((*context.Context)(nil)).Elem() {
					args[j] = reflect.ValueOf(context.Background())
				} else {
					args[j] = reflect.Zero(mt.In(j))
				}
			case reflect.Func:
				args[j] = reflect.MakeFunc(mt.In(j), func(in []reflect.Value) []reflect.Value {
					var out []reflect.Value
					for k := 0; k < mt.In(j).NumOut(); k++ {
						out = append(out, reflect.Zero(mt.In(j).Out(k)))
					}
					return out
				})
			default:
				args[j] = reflect.Zero(mt.In(j))
			}
		}
		t.Op("%s", m.Name)
		v.Method(i).Call(args)
		t.Ok(1)
	}
	s.Set("a", 1)
	if d, ok := s.Get("a"); ok || d != nil {
		t.Fail("dummy", "the dummy store holds a value")
	}
}
