package main

// The reference model (a flat map of full keys) and the generators shared by
// the properties.

import (
	"fmt"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"time"
	"unicode/utf8"

	"github.com/hedzr/store"
	"github.com/hedzr/store/radix"
)

// sut is the part of the API which store.Store and radix.Trie[any] share.
type sut interface {
	Set(path string, data any) (radix.Node[any], any)
	Get(path string) (any, bool)
	MustGet(path string) any
	Has(path string) bool
	HasPart(path string) bool
	Search(path string) bool
	Query(path string, pair radix.KVPair) (data any, branch, found bool, err error)
	Insert(path string, data any) any
	Remove(path string) bool
	RemoveEx(path string) (n, p radix.Node[any], removed bool)
	GetEx(path string, cb func(node radix.Node[any], data any, branch bool, kvpair radix.KVPair))
	SetEx(path string, data any, cb radix.OnSetEx[any]) any
	SetNode(path string, data any, tag any, descriptionAndComments ...string) (radix.Node[any], any)
	SetEmpty(path string) any
	Update(path string, cb func(node radix.Node[any], old any))
	Merge(pathAt string, data map[string]any) error
	SetComment(path, description, comment string) bool
	SetTag(path string, tags any) bool
	SetTTL(path string, ttl time.Duration, cb radix.OnTTLRinging[any]) int
	SetTTLFast(node radix.Node[any], ttl time.Duration, cb radix.OnTTLRinging[any]) int
	GetDesc(path string) (string, error)
	MustGetDesc(path string) string
	GetTag(path string) (any, error)
	MustGetTag(path string) any
	GetComment(path string) (string, error)
	MustGetComment(path string) string
	Walk(path string, cb func(path, fragment string, node radix.Node[any]))
	Dump() string
	Prefix() string
	SetPrefix(newPrefix ...string)
	Delimiter() rune
	SetDelimiter(delimiter rune)
	radix.TypedGetters[any]
}

func newStoreSut(delim rune, opts ...store.Opt) sut {
	if delim != '.' {
		opts = append(opts, store.WithDelimiter(delim))
	}
	return store.New(opts...).(sut)
}

// newSut makes a Store or a bare Trie.
func newSut(t *T, delim rune) sut {
	switch t.Int(4) {
	case 0:
		if delim == '.' {
			return radix.NewTrie[any]()
		}
		if t.Chance(0.5) {
			return radix.NewTrieBy[any](delim)
		}
		s := radix.NewTrie[any]()
		s.SetDelimiter(delim)
		return s
	default:
		return newStoreSut(delim)
	}
}

type storeLocator interface {
	Locate(path string, kvpair radix.KVPair) (node radix.Node[any], branch, partialMatched, found bool)
}

func locate(s sut, path string, kv radix.KVPair) (node radix.Node[any], branch, partial, found bool) {
	switch z := s.(type) {
	case storeLocator:
		return z.Locate(path, kv)
	case radix.Trie[any]:
		n, b, p, f := z.Locate(path, kv)
		if n == nil {
			return nil, b, p, f
		}
		return n, b, p, f
	}
	panic("harness: no Locate")
}

func view(s sut, prefix ...string) sut {
	switch z := s.(type) {
	case store.Store:
		return z.WithPrefix(prefix...).(sut)
	case radix.Trie[any]:
		return z.WithPrefix(prefix...).(sut)
	}
	panic("harness: no WithPrefix")
}

func viewReplaced(s sut, prefix ...string) sut {
	switch z := s.(type) {
	case store.Store:
		return z.WithPrefixReplaced(prefix...).(sut)
	case radix.Trie[any]:
		return z.WithPrefixReplaced(prefix...).(sut)
	}
	panic("harness: no WithPrefixReplaced")
}

func modeView(s sut, mode string) sut {
	switch z := s.(type) {
	case store.Store:
		switch mode {
		case "N":
			return z.N().(sut)
		case "R":
			return z.R().(sut)
		}
		return z.BR().(sut)
	case radix.Trie[any]:
		switch mode {
		case "N":
			return z.N().(sut)
		case "R":
			return z.R().(sut)
		}
		return z.BR().(sut)
	}
	panic("harness: no modes")
}

func dup(s sut) sut {
	switch z := s.(type) {
	case store.Store:
		return z.Dup().(sut)
	case radix.Trie[any]:
		return z.Dup()
	}
	panic("harness: no Dup")
}

// ent is what the model knows of a key.
type ent struct {
	val           any
	desc, comment string
	tag           any
	mod           bool
}

type model struct {
	d string // delimiter
	m map[string]*ent
}

func newModel(delim rune) *model { return &model{d: string(delim), m: map[string]*ent{}} }

func (m *model) keys() []string { return sortedKeys(m.m) }

// below: keys strictly below p
func (m *model) below(p string) (ret []string) {
	for k := range m.m {
		if strings.HasPrefix(k, p+m.d) {
			ret = append(ret, k)
		}
	}
	sort.Strings(ret)
	return
}

func (m *model) isAncestor(p string) bool {
	for k := range m.m {
		if strings.HasPrefix(k, p+m.d) {
			return true
		}
	}
	return false
}

func (m *model) anyPrefix(p string) bool {
	for k := range m.m {
		if strings.HasPrefix(k, p) {
			return true
		}
	}
	return false
}

func (m *model) remove(p string) {
	for k := range m.m {
		if k == p || strings.HasPrefix(k, p+m.d) {
			delete(m.m, k)
		}
	}
}

func (m *model) set(k string, v any) (old any) {
	if e := m.m[k]; e != nil {
		old, e.val = e.val, v
		return
	}
	m.m[k] = &ent{val: v}
	return nil
}

func (m *model) clone() *model {
	n := &model{d: m.d, m: make(map[string]*ent, len(m.m))}
	for k, e := range m.m {
		c := *e
		n.m[k] = &c
	}
	return n
}

func (m *model) flat() map[string]any {
	r := make(map[string]any, len(m.m))
	for k, e := range m.m {
		r[k] = e.val
	}
	return r
}

func eq(a, b any) bool { return reflect.DeepEqual(a, b) }

func show(v any) string {
	s := fmt.Sprintf("%T(%+v)", v, v)
	if len(s) > 160 {
		s = s[:160] + "..."
	}
	return s
}

//
// generators
//

var delims = []rune{'.', '.', '.', '.', '.', '/', '_', '|', ':', '€'}

var vocab = [][]string{
	{"a", "b", "ab", "abc", "abcd", "ba", "c"},
	{"app", "apple", "application", "server", "serve", "serv", "service", "log", "logging", "logger", "verb", "verbose", "version", "debug", "dump", "to", "file", "files", "x", "start"},
	{"é", "è", "ée", "éé", "ê", "日", "日本", "日本語", "本", "时", "時", "🙂", "🙃", "🙂a", "ü", "ß", "aé", "aè"},
	{"0", "1", "10", "100", "11", "2", "1a", "-1", "00"},
	{"a:b", "a*b", "x y", "tab\tx", "q\"q", "per%cent", "a\\b", "(root)", "#", "$", "A", "Ab", "aB", "[0]", "{}", "~", "a-b", "a-c", "-"},
	// what is a delimiter elsewhere
	{"a/", "a/b", "/a", "/", "a.", "a.b", ".b", "..", "a::", "a:", "x_", "x_y", "_", "k=v", "k=", "k,", "k;v", "p|q", "p|", "n#", "w\\", "a", "x", "k"},
}

// randSegs makes segments of any printable characters.
func randSegs(t *T) (segs []string) {
	for i := t.Range(3, 9); i > 0; i-- {
		var rs []rune
		for n := t.Range(1, 4); n > 0; n-- {
			switch t.Int(8) {
			case 0:
				rs = append(rs, rune(0xa1+t.Int(0x400)))
			case 1:
				rs = append(rs, 'a')
			default:
				rs = append(rs, rune(0x21+t.Int(0x5e)))
			}
		}
		segs = append(segs, string(rs))
	}
	return
}

// tinyAlpha makes an alphabet of two characters.
func tinyAlpha(t *T, delim rune) []string {
	fixed := [][]string{{"a", "b"}, {"é", "è"}, {"a", "é"}, {"日", "時"}, {"1", "x"}, {"🙂", "🙃"}}
	if t.Chance(0.5) {
		return pick(t, fixed)
	}
	for {
		a, b := rune(0x21+t.Int(0x5e)), rune(0x21+t.Int(0x5e))
		if t.Chance(0.5) {
			b = 'a'
		}
		if a != b && a != delim && b != delim && a != ':' && a != '*' && b != ':' && b != '*' {
			return []string{string(a), string(b)}
		}
	}
}

// universe is a set of keys the workload draws from.
type universe struct {
	delim rune
	d     string
	segs  []string
	keys  []string
	n     int
}

func (u *universe) seg(t *T) string {
	s := pick(t, u.segs)
	if t.Chance(0.15) {
		s += pick(t, u.segs)
	}
	if t.Chance(0.02) {
		s += strings.Repeat(pick(t, u.segs), t.Range(3, 40))
	}
	return s
}

func (u *universe) gen(t *T) string {
	d := u.d
	if len(u.keys) > 0 {
		k := pick(t, u.keys)
		switch r := t.Int(100); {
		case r < 30: // a child
			return k + d + u.seg(t)
		case r < 45: // share the leading characters
			return k + u.seg(t)
		case r < 58: // cut it
			rs := []rune(k)
			if len(rs) > 1 {
				c := strings.TrimRight(string(rs[:t.Range(1, len(rs)-1)]), d)
				if c != "" && !strings.HasSuffix(c, d) {
					return c
				}
			}
		case r < 68: // a sibling
			if i := strings.LastIndex(k, d); i > 0 {
				return k[:i] + d + u.seg(t)
			}
		case r < 74: // an ancestor
			if i := strings.LastIndex(k, d); i > 0 {
				return k[:i]
			}
		case r < 78: // change one rune
			rs := []rune(k)
			rs[t.Int(len(rs))] = []rune(u.seg(t))[0]
			return string(rs)
		}
	}
	n := t.Range(1, 4)
	if t.Chance(0.03) {
		n = t.Range(5, 30)
	}
	a := make([]string, n)
	for i := range a {
		a[i] = u.seg(t)
	}
	return strings.Join(a, d)
}

// okKey tells if k is an ordinary key: no empty segment, no route pattern and
// no blank (Set replaces it).
func okKey(k, d string) bool {
	if k == "" || !utf8.ValidString(k) || strings.Contains(k, " ") {
		return false
	}
	for _, s := range strings.Split(k, d) {
		if s == "" || s[0] == ':' || s[0] == '*' {
			return false
		}
	}
	return true
}

func newUniverse(t *T, delim rune) *universe {
	u := &universe{delim: delim, d: string(delim)}
	for n := t.Range(1, 2); n > 0; n-- {
		words := pick(t, vocab)
		if t.Chance(0.15) {
			words = randSegs(t)
		}
		for _, s := range words {
			s = strings.ReplaceAll(strings.ReplaceAll(s, " ", "-"), u.d, "")
			if s != "" && s[0] != ':' && s[0] != '*' {
				u.segs = append(u.segs, s)
			}
		}
	}
	if len(u.segs) == 0 {
		u.segs = []string{"a", "b"}
	}
	if t.Chance(0.3) { // keep it dense
		shuffle(t, u.segs)
		u.segs = u.segs[:min(len(u.segs), t.Range(2, 4))]
	}
	n := t.Range(2, 24)
	switch r := t.Int(100); {
	case r < 10:
		n = t.Range(25, 80)
	case r < 12:
		n = t.Range(100, 300)
	}
	seen := map[string]bool{}
	for i := 0; len(u.keys) < n && i < n*4; i++ {
		k := u.gen(t)
		if len(k) < 4000 && okKey(k, u.d) && !seen[k] {
			seen[k] = true
			u.keys = append(u.keys, k)
		}
	}
	if len(u.keys) == 0 {
		u.keys = []string{"a", "a" + u.d + "b"}
	}
	return u
}

// probe makes a path to be asked for, alive or not.
func (u *universe) probe(t *T) string {
	k := pick(t, u.keys)
	rs := []rune(k)
	switch t.Int(9) {
	case 0:
		return string(rs[:t.Range(1, len(rs))])
	case 1:
		return k + u.seg(t)
	case 2:
		return k + u.d + u.seg(t)
	case 3:
		if i := strings.LastIndex(k, u.d); i > 0 {
			return k[:i]
		}
		return k
	case 4:
		if i := strings.Index(k, u.d); i > 0 {
			return k[i+len(u.d):]
		}
		return u.seg(t)
	case 5:
		return u.gen(t)
	case 6:
		rs[t.Int(len(rs))]++
		if p := string(rs); utf8.ValidString(p) {
			return p
		}
	}
	return k
}

type point struct {
	X, Y int
	Name string
}

// value makes a value which is unique in this case.
func (u *universe) value(t *T) any {
	u.n++
	n := u.n
	switch t.Int(16) {
	case 0, 1:
		return n
	case 2, 3:
		return fmt.Sprintf("v%d", n)
	case 4:
		return float64(n) + 0.25
	case 5:
		return []any{n, "x", nil}
	case 6:
		return []string{fmt.Sprint(n), "z"}
	case 7:
		return map[string]any{"n": n, "sub": map[string]any{"k": n}}
	case 8:
		return time.Duration(n) * time.Second
	case 9:
		return time.Unix(int64(n), 7).UTC()
	case 10:
		return []byte{byte(n), byte(n >> 8), 3}
	case 11:
		return point{n, -n, "p"}
	case 12:
		return &point{n, n, "q"}
	case 13:
		return int64(n)<<33 + 5
	case 14:
		return uint8(n)
	default:
		switch t.Int(6) {
		case 0:
			return nil
		case 1:
			return true
		case 2:
			return false
		case 3:
			return ""
		case 4:
			return 0
		}
		return complex(float64(n), 1)
	}
}

//
// the oracle for lookups
//

// class of a path in the model
const (
	absent = iota
	live
	branchOnly
)

func (m *model) class(p string) int {
	if _, ok := m.m[p]; ok {
		return live
	}
	if m.isAncestor(p) {
		return branchOnly
	}
	return absent
}

// checkPath compares all lookups of a path (relative to the view s, full is
// the key in the model) with the model.
func checkPath(t *T, s sut, m *model, p, full string) {
	gv, gf := s.Get(p)
	mv := s.MustGet(p)
	qv, qb, qf, qe := s.Query(p, nil)
	has := s.Has(p)
	var exv any
	var exb, exc bool
	var exk string
	s.GetEx(p, func(node radix.Node[any], data any, branch bool, kv radix.KVPair) {
		if exc {
			t.Fail("getex-twice", "GetEx(%q) invoked its callback twice", p)
		}
		exv, exb, exc = data, branch, true
		exk = node.Key()
	})
	e := m.m[full]
	c := m.class(full)
	t.Ok(5)
	switch c {
	case live:
		if !gf || !eq(gv, e.val) {
			t.Fail("get-live", "Get(%q) = %s, found=%v; want %s, true", p, show(gv), gf, show(e.val))
		}
		if !eq(mv, e.val) {
			t.Fail("mustget-live", "MustGet(%q) = %s; want %s", p, show(mv), show(e.val))
		}
		if !qf || qb || qe != nil || !eq(qv, e.val) {
			t.Fail("query-live", "Query(%q) = %s, branch=%v, found=%v, err=%v; want %s, false, true, nil", p, show(qv), qb, qf, qe, show(e.val))
		}
		if !has {
			t.Fail("has-live", "Has(%q) = false for a live key", p)
		}
		if !exc || exb || !eq(exv, e.val) || exk != full {
			t.Fail("getex-live", "GetEx(%q): called=%v branch=%v data=%s key=%q; want %s, key %q", p, exc, exb, show(exv), exk, show(e.val), full)
		}
	case branchOnly:
		if gv != nil || mv != nil || qv != nil || exv != nil {
			t.Fail("branch-value", "%q is only a parent of keys, but lookups return a value: Get=%s MustGet=%s Query=%s GetEx=%s", p, show(gv), show(mv), show(qv), show(exv))
		}
		if qf && !qb || exc && !exb {
			t.Fail("branch-as-leaf", "%q is only a parent of keys, but it's reported as a key: Query branch=%v, GetEx branch=%v", p, qb, exb)
		}
	case absent:
		if gf || qf || has || exc {
			t.Fail("found-absent", "%q is neither a key nor a parent, but it's found: Get=%v Query=%v Has=%v GetEx=%v", p, gf, qf, has, exc)
		}
		if gv != nil || mv != nil || qv != nil {
			t.Fail("value-absent", "%q is neither a key nor a parent, but has a value: Get=%s MustGet=%s Query=%s", p, show(gv), show(mv), show(qv))
		}
		if qe == nil {
			t.Fail("noerr-absent", "Query(%q) on an absent path returns no error", p)
		}
	}
	t.Count([]string{"probe absent", "probe live", "probe branch"}[c], 1)
}

// checkMeta compares desc, comment and tag of a live key.
func checkMeta(t *T, s sut, p string, e *ent) {
	d, err1 := s.GetDesc(p)
	c, err2 := s.GetComment(p)
	g, err3 := s.GetTag(p)
	t.Ok(3)
	if err1 != nil || err2 != nil || err3 != nil {
		t.Fail("meta-err", "GetDesc/GetComment/GetTag(%q) on a live key: %v / %v / %v", p, err1, err2, err3)
	}
	if d != e.desc || s.MustGetDesc(p) != e.desc {
		t.Fail("desc", "GetDesc(%q) = %q, MustGetDesc %q; want %q", p, d, s.MustGetDesc(p), e.desc)
	}
	if c != e.comment || s.MustGetComment(p) != e.comment {
		t.Fail("comment", "GetComment(%q) = %q, MustGetComment %q; want %q", p, c, s.MustGetComment(p), e.comment)
	}
	if !eq(g, e.tag) || !eq(s.MustGetTag(p), e.tag) {
		t.Fail("tag", "GetTag(%q) = %s, MustGetTag %s; want %s", p, show(g), show(s.MustGetTag(p)), show(e.tag))
	}
}

// snapshot collects all keys with their data by Walk.
func snapshot(t *T, s sut) map[string]ent {
	r := map[string]ent{}
	s.Walk("", func(path, fragment string, n radix.Node[any]) {
		if n.IsBranch() {
			return
		}
		k := n.Key()
		if _, dup := r[k]; dup {
			t.Fail("walk-twice", "Walk visits the key %q twice", k)
		}
		r[k] = ent{n.Data(), n.Description(), n.Comment(), n.Tag(), n.Modified()}
	})
	return r
}

// checkSnapshot compares everything Walk reports with the model; withMod also
// compares the modified marks.
func checkSnapshot(t *T, s sut, m *model, sig string, meta, withMod bool) {
	snap := snapshot(t, s)
	t.Ok(1 + len(m.m))
	for k, e := range m.m {
		g, ok := snap[k]
		if !ok {
			t.Fail(sig+"-lost", "the key %q (value %s) is lost", k, show(e.val))
		}
		if !eq(g.val, e.val) {
			t.Fail(sig+"-value", "the key %q has value %s; want %s", k, show(g.val), show(e.val))
		}
		if meta && (g.desc != e.desc || g.comment != e.comment || !eq(g.tag, e.tag)) {
			t.Fail(sig+"-meta", "the key %q has desc=%q comment=%q tag=%s; want %q, %q, %s", k, g.desc, g.comment, show(g.tag), e.desc, e.comment, show(e.tag))
		}
		if withMod && g.mod != e.mod {
			t.Fail(sig+"-modified", "the key %q has modified=%v; want %v", k, g.mod, e.mod)
		}
	}
	for k, g := range snap {
		if m.m[k] == nil {
			t.Fail(sig+"-extra", "there's an unexpected key %q (value %s)", k, show(g.val))
		}
	}
}

// driver performs random operations on a store and its model, and checks the
// answers of the operations themselves.
type driver struct {
	t    *T
	s    sut
	m    *model
	u    *universe
	pre  string // prefix of s, "" or with the delimiter at its end
	meta bool
}

func (d *driver) full(k string) string { return d.pre + k }

func (d *driver) key() string { return pick(d.t, d.u.keys) }

func (d *driver) liveKey() string {
	var ks []string
	for _, k := range d.u.keys {
		if d.m.m[d.full(k)] != nil {
			ks = append(ks, k)
		}
	}
	if len(ks) == 0 {
		return d.key()
	}
	return pick(d.t, ks)
}

func (d *driver) checkOld(op, k string, got, want any) {
	d.t.Ok(1)
	if !eq(got, want) {
		d.t.Fail("old-data", "%s(%q) returned old data %s; want %s", op, k, show(got), show(want))
	}
}

func (d *driver) checkNode(op, k string, n radix.Node[any], v any) {
	d.t.Ok(1)
	if n == nil {
		d.t.Fail("node-nil", "%s(%q) returned no node", op, k)
	}
	if n.Key() != d.full(k) {
		d.t.Fail("node-key", "%s(%q) returned the node of %q; want %q", op, k, n.Key(), d.full(k))
	}
	if !eq(n.Data(), v) {
		d.t.Fail("node-data", "the node returned by %s(%q) holds %s; want %s", op, k, show(n.Data()), show(v))
	}
}

// twin makes a value which is the same as another one, or just looks like it.
func twin(t *T, v any) any {
	switch t.Int(4) {
	case 0:
		return fmt.Sprint(v)
	case 1:
		switch z := v.(type) {
		case int:
			return int64(z)
		case string:
			return []byte(z)
		case time.Duration:
			return int64(z)
		case bool:
			return fmt.Sprint(z)
		}
	case 2:
		if s, ok := v.(string); ok {
			if n, err := strconv.Atoi(s); err == nil {
				return n
			}
		}
	}
	return v
}

// step does one operation of a kind.
func (d *driver) step(op string) {
	t, s, m := d.t, d.s, d.m
	switch op {
	case "set":
		k, v := d.key(), d.u.value(t)
		if e := m.m[d.full(k)]; e != nil && t.Chance(0.06) {
			v = twin(t, e.val)
		}
		t.Op("Set(%q, %s)", k, show(v))
		n, old := s.Set(k, v)
		d.checkOld(op, k, old, m.set(d.full(k), v))
		d.checkNode(op, k, n, v)
	case "insert":
		k, v := d.key(), d.u.value(t)
		t.Op("Insert(%q, %s)", k, show(v))
		d.checkOld(op, k, s.Insert(k, v), m.set(d.full(k), v))
	case "setex":
		k, v := d.key(), d.u.value(t)
		t.Op("SetEx(%q, %s)", k, show(v))
		want := m.set(d.full(k), v)
		e := m.m[d.full(k)]
		called := 0
		how := t.Int(4)
		desc, cm := fmt.Sprintf("d%d", d.u.n), fmt.Sprintf("c%d", d.u.n)
		var cb radix.OnSetEx[any]
		if how != 0 {
			cb = func(path string, oldData any, n radix.Node[any], tr radix.Trie[any]) {
				called++
				if path != d.full(k) || tr == nil {
					t.Fail("setex-path", "the callback of SetEx(%q) got path %q", k, path)
				}
				d.checkOld("SetEx callback", k, oldData, want)
				d.checkNode("SetEx callback", k, n, v)
				if how == 2 {
					n.SetComment(desc, cm)
					e.desc, e.comment = desc, cm
				}
				if how == 3 {
					n.SetTag(desc)
					e.tag = desc
				}
			}
		}
		d.checkOld(op, k, s.SetEx(k, v, cb), want)
		if how != 0 && called != 1 {
			t.Fail("setex-calls", "SetEx(%q) invoked its callback %d times", k, called)
		}
	case "setnode":
		k, v := d.key(), d.u.value(t)
		d.u.n++
		var tag any = fmt.Sprintf("tag%d", d.u.n)
		if t.Chance(0.2) {
			tag = nil
		}
		var dc []string
		for i := t.Int(4 + t.Int(2)*3); i > 0; i-- {
			dc = append(dc, fmt.Sprintf("m%d-%d", d.u.n, i))
		}
		t.Op("SetNode(%q, %s, %v, %v)", k, show(v), tag, dc)
		n, old := s.SetNode(k, v, tag, dc...)
		d.checkOld(op, k, old, m.set(d.full(k), v))
		d.checkNode(op, k, n, v)
		e := m.m[d.full(k)]
		e.tag = tag
		switch len(dc) {
		case 0:
		case 1:
			e.desc = dc[0]
		default:
			e.desc, e.comment = dc[0], strings.Join(dc[1:], "\n")
		}
	case "update":
		k := d.key()
		e := m.m[d.full(k)]
		var want any
		if e != nil {
			want = e.val
		} else {
			m.set(d.full(k), nil)
			e = m.m[d.full(k)]
		}
		how, called := t.Int(4), 0
		v := d.u.value(t)
		t.Op("Update(%q) how=%d %s", k, how, show(v))
		s.Update(k, func(n radix.Node[any], old any) {
			called++
			d.checkOld("Update", k, old, want)
			d.checkNode("Update", k, n, want)
			switch how {
			case 0, 1:
				n.SetData(v)
				e.val = v
			case 2:
				n.SetTag(v)
				n.SetComment(fmt.Sprintf("ud%d", d.u.n), fmt.Sprintf("uc%d", d.u.n))
				e.tag, e.desc, e.comment = v, fmt.Sprintf("ud%d", d.u.n), fmt.Sprintf("uc%d", d.u.n)
			}
		})
		if called != 1 {
			t.Fail("update-calls", "Update(%q) invoked its callback %d times", k, called)
		}
	case "empty":
		k := d.key()
		t.Op("SetEmpty(%q)", k)
		d.checkOld(op, k, s.SetEmpty(k), m.set(d.full(k), nil))
		m.m[d.full(k)].tag = nil
	case "remove", "removeex":
		k := d.key()
		if t.Chance(0.6) {
			k = d.liveKey()
		} else if t.Chance(0.5) {
			k = d.u.probe(t)
			if !okKey(k, d.u.d) {
				return
			}
		}
		d.remove(k, op == "removeex")
	case "comment":
		k := d.liveKey()
		if t.Chance(0.3) {
			k = d.u.probe(t)
			if !okKey(k, d.u.d) {
				return
			}
		}
		if m.class(d.full(k)) == branchOnly {
			return // metadata of a pure parent isn't specified
		}
		d.u.n++
		desc, cm := fmt.Sprintf("desc%d", d.u.n), fmt.Sprintf("comment%d", d.u.n)
		if t.Chance(0.1) {
			desc, cm = "", ""
		}
		t.Op("SetComment(%q, %q, %q)", k, desc, cm)
		ok := s.SetComment(k, desc, cm)
		d.metaResult("SetComment", k, ok)
		if e := m.m[d.full(k)]; e != nil {
			e.desc, e.comment = desc, cm
		}
	case "tag":
		k := d.liveKey()
		if t.Chance(0.3) {
			k = d.u.probe(t)
			if !okKey(k, d.u.d) {
				return
			}
		}
		if m.class(d.full(k)) == branchOnly {
			return // metadata of a pure parent isn't specified
		}
		d.u.n++
		var tag any = d.u.value(t)
		t.Op("SetTag(%q, %s)", k, show(tag))
		ok := s.SetTag(k, tag)
		d.metaResult("SetTag", k, ok)
		if e := m.m[d.full(k)]; e != nil {
			e.tag = tag
		}
	default:
		panic("harness: " + op)
	}
	t.Count("op "+op, 1)
}

func (d *driver) metaResult(op, k string, ok bool) {
	d.t.Ok(1)
	switch d.m.class(d.full(k)) {
	case live:
		if !ok {
			d.t.Fail("meta-refused", "%s(%q) on a live key returned false", op, k)
		}
	case absent:
		if ok {
			d.t.Fail("meta-absent", "%s(%q) on an absent key returned true", op, k)
		}
	}
}

func (d *driver) remove(k string, ex bool) {
	t, m := d.t, d.m
	full := d.full(k)
	c := m.class(full)
	var want any
	if e := m.m[full]; e != nil {
		want = e.val
	}
	t.Op("Remove(%q)", k)
	var removed bool
	if ex {
		var n radix.Node[any]
		n, _, removed = d.s.RemoveEx(k)
		if removed && c != absent && n != nil { // it has what was removed, and only that
			gone := map[string]any{}
			n.Walk(func(_, _ string, n radix.Node[any]) {
				if n.IsLeaf() {
					gone[n.Key()] = n.Data()
				}
			})
			want := map[string]any{}
			for _, x := range m.below(full) {
				want[x] = m.m[x].val
			}
			if e := m.m[full]; e != nil {
				want[full] = e.val
			}
			t.Ok(1 + len(gone))
			if df := diffMaps(gone, want); df != "" {
				t.Fail("remove-walk", "the node returned by RemoveEx(%q): %s", k, df)
			}
		}
		if removed && c == live {
			t.Ok(1)
			if n == nil || n.Key() != full || !eq(n.Data(), want) {
				t.Fail("remove-node", "RemoveEx(%q) returned another node than the removed one", k)
			}
		}
	} else {
		removed = d.s.Remove(k)
	}
	t.Ok(1)
	if c == live && !removed {
		t.Fail("remove-false", "Remove(%q) of a live key returned false", k)
	}
	if c == absent && removed {
		t.Fail("remove-true", "Remove(%q) of an absent path returned true", k)
	}
	if removed {
		m.remove(full)
	}
	t.Count([]string{"remove absent", "remove live", "remove branch"}[c], 1)
}

// run does n operations picked from ops, and probes a few paths after each.
func (d *driver) run(n int, ops []string, probes int, after func(i int)) {
	for i := 0; i < n; i++ {
		d.step(pick(d.t, ops))
		for j := 0; j < probes; j++ {
			d.probe()
		}
		if after != nil {
			after(i)
		}
	}
}

func (d *driver) probe() {
	p := d.u.probe(d.t)
	if !okKey(p, d.u.d) {
		if d.m.anyPrefix(d.full(p)) || hasPattern(p, d.u.d) || p == "" {
			return
		}
	}
	checkPath(d.t, d.s, d.m, p, d.full(p))
}

func hasPattern(p, d string) bool {
	for _, s := range strings.Split(p, d) {
		if s != "" && (s[0] == ':' || s[0] == '*') {
			return true
		}
	}
	return false
}

// auditLookups asks for all keys of the universe.
func (d *driver) auditLookups() {
	for _, k := range d.u.keys {
		checkPath(d.t, d.s, d.m, k, d.full(k))
	}
}

func (d *driver) auditMeta() {
	for _, k := range d.u.keys {
		if e := d.m.m[d.full(k)]; e != nil {
			checkMeta(d.t, d.s, k, e)
		}
	}
}

func weighted(ws ...any) (ret []string) {
	for i := 0; i+1 < len(ws); i += 2 {
		for n := ws[i+1].(int); n > 0; n-- {
			ret = append(ret, ws[i].(string))
		}
	}
	return
}

// populate sets n keys (all of the universe if n<0).
func (d *driver) populate(n int) {
	ks := append([]string{}, d.u.keys...)
	shuffle(d.t, ks)
	if n >= 0 && n < len(ks) {
		ks = ks[:n]
	}
	for _, k := range ks {
		v := d.u.value(d.t)
		d.t.Op("Set(%q, %s)", k, show(v))
		d.s.Set(k, v)
		d.m.set(d.full(k), v)
	}
}

func newDriver(t *T) *driver {
	delim := pick(t, delims)
	u := newUniverse(t, delim)
	t.Op("delimiter %q, %d keys", string(delim), len(u.keys))
	return &driver{t: t, s: newSut(t, delim), m: newModel(delim), u: u}
}
