package main

import (
	"context"
	"errors"
	"fmt"
	"math"
	"math/big"
	"os"
	"path/filepath"
	"reflect"
	"regexp"
	"strconv"
	"strings"

	"github.com/hedzr/store"
	"github.com/hedzr/store/codecs/gob"
	"github.com/hedzr/store/codecs/hcl"
	"github.com/hedzr/store/codecs/hjson"
	"github.com/hedzr/store/codecs/json"
	"github.com/hedzr/store/codecs/nestext"
	"github.com/hedzr/store/codecs/toml"
	"github.com/hedzr/store/codecs/yaml"
)

func init() {
	p := &Prop{
		ID:   "C11",
		Rule: "a case generates a nested document inside the value domain of a format (hostile texts and keys, number edges, empty and deep containers), encodes and decodes it several times with one codec instance and compares by value; also whole stores saved and loaded again, and corrupted input; distinct = different documents",
		Assumptions: []string{
			"numbers are compared by value (JSON-like formats read every number as float64); integers beyond 2^53 only for yaml, toml and gob",
			"domains exclude what the third-party encoder of a format can't represent (see DESIGN.md): nestext holds plain text only, gob no nil and no unregistered types, toml no nil",
		},
	}
	for _, f := range formats {
		p.Groups = append(p.Groups, Group{Name: f.name, Quick: 4000, Thorough: 100000, Body: func(t *T) { c11Round(t, f) }})
	}
	p.Groups = append(p.Groups,
		Group{Name: "store", Quick: 6000, Thorough: 100000, Body: c11Store},
		Group{Name: "malformed", Quick: 6000, Thorough: 150000, Body: c11Malformed},
		Group{Name: "files", Quick: 600, Thorough: 10000, Body: c11Files},
		Group{Name: "ex", Quick: 1500, Thorough: 30000, Body: c11Ex},
	)
	register(p)
}

type format struct {
	name   string
	mk     func() store.Codec
	null   bool
	big    bool // 64-bit integers
	text   string
	lists  bool
	empty  bool // empty maps and lists
	scalar bool // numbers and booleans
	exact  bool
	bad    []string // malformed documents
	trunc  bool     // every strict prefix is malformed
}

var formats = []*format{
	{name: "json", mk: func() store.Codec { return json.New() }, null: true, text: "any", lists: true, empty: true, scalar: true, trunc: true,
		bad: []string{``, `{`, `{"a":}`, `{"a":1,}`, `[1]`, `"x"`, `{"a":1}}`, `{a:1}`, `{"a":'x'}`, "{\"a\":\"\n\"}", `{"a":01}`, `{"a":tru}`}},
	{name: "jsonraw", mk: func() store.Codec { return json.New(json.WithPretty(false)) }, null: true, text: "any", lists: true, empty: true, scalar: true, trunc: true},
	{name: "yaml", mk: yaml.New, null: true, big: true, text: "yaml", lists: true, empty: true, scalar: true,
		bad: []string{"a: [1", "a: {b: 1", "\ta: 1", "- a\n- b", "a: 1\n b: 2", "a: 'x", "a: \"x", "just text", "a: 1\na: 2", "%YAML 9\n---\na: 1", "a: *nope", "a: b: c"}},
	{name: "toml", mk: toml.New, big: true, text: "toml", lists: true, empty: true, scalar: true,
		bad: []string{"a", "a =", "a = [1", "a = 'x", "[t", "a = 1\na = 2", "[a]\nb=1\n[a]\nc=1", "= 1", "a = 1 b = 2", "a = tru", "a = 01", "a = \"\\q\"", "[[a]", "a = {b = 1"}},
	{name: "hjson", mk: func() store.Codec { return hjson.New() }, null: true, text: "hjson", lists: true, empty: true, scalar: true,
		bad: []string{"{", "{a: [1", "{a: 1", "{\"a\": \"x", "[1]", "{a: '''x", "{: 1}", "{a b: 1}", "{a: 1}}", "{\"a\" 1}"}},
	{name: "hcl", mk: func() store.Codec { return hcl.New(hcl.WithFlattenSlices(true)) }, null: true, big: true, text: "hcl", lists: true, empty: true, scalar: true,
		bad: []string{"a", "a =", "a = [1", "a = \"x", "a {", "a = 1\na = 2", "= 1", "a = 1 b = 2", "a = tru", "a = b", "a = 1\na {\n}", "a {\n}}", "a = \"\\q\"", "a = {b = 1", "a = f(1)", "{a = 1}", "a = \"${x}\""}},
	{name: "nestext", mk: nestext.New, text: "plain", lists: true,
		bad: []string{"a", "a: 1\n    b: 2\n  c: 3", "a:\n  - x\n  b: y", " a: 1", "a: x\n  - y"}},
	{name: "gob", mk: gob.New, big: true, text: "raw", empty: true, scalar: true, exact: true, trunc: true,
		bad: []string{"", "x", "\x00", "\xff\xff\xff", "\x03\xff\x80\x00", "hello world"}},
}

var textPieces = []string{"a", "b", "word", "two words", "Ünïcödé", "日本語", "🙂", "e\u0301", "\"", "'", "'''", `"""`, "\\", "\\n", "\\u0041", "\\u0026", "\\x41", "&amp;", "\n", "\n\n", "\r\n", "\r", "\t", "#", "# x", ": ", ":", "- ", "-", "{", "}", "[", "]", ",", "&", "*", "!", "!!str", "|", ">", "%", "@", "`", "=", "<", "~", "null", "true", "false", "yes", "no", "on", "off", "1", "-1", "1.5", "0x1F", "1e3", "0o17", ".inf", ".nan", "2020-01-02", "2020-01-02T03:04:05Z", "1_000", "12:30:45", " ", "  ", "//", "/*", "*/", "$", "${x}", "%s", "\x00", "\x07", "\x1b", "\x7f", "\u0085", "\u00a0", "\u2028", "\u2029", "\ufeff", "\ufffd", "\U0010ffff", "<&>", "?", "? ", "...", "---", ";", "|-", ">+"}

var hclKeys = []string{"a", "b", "ab", "abc", "app", "apple", "word", "true", "null", "if", "in", "日本", "Ünï", "A", "k-1", "x_y", "Z9"}

var plainPieces = []string{"a", "b", "word", "two words", "Ünïcödé", "日本語", "🙂", "x.y", "1", "1.5", "true", "null", "~", "(x)", "$", "%s", "@", "a=b", "a;b", "<&>", "?x", "\\", "\\n", "\"q\"", "'"}

func (f *format) str(t *T) string {
	if t.Chance(0.3) {
		return pick(t, treeSegs)
	}
	if f.text == "plain" {
		var sb strings.Builder
		for i := t.Range(1, 4); i > 0; i-- {
			sb.WriteString(pick(t, plainPieces))
		}
		return sb.String()
	}
	for {
		var sb strings.Builder
		n := t.Range(0, 4)
		if t.Chance(0.03) {
			n = t.Range(20, 200)
		}
		for i := n; i > 0; i-- {
			sb.WriteString(pick(t, textPieces))
		}
		if s := sb.String(); f.okText(s) {
			return s
		}
		if t.Chance(0.1) {
			return "line one\nline two\n\nline four" + pick(t, []string{"", "\n"})
		}
	}
}

// okText: the third-party encoders have their own limits.
func (f *format) okText(s string) bool {
	switch f.text {
	case "yaml":
		return s != "<<" && !strings.ContainsAny(s, "\n\r\u0085\u2028\u2029")
	case "hcl":
		return !strings.Contains(s, "\u0301") // cty normalizes its strings
	case "hjson":
		if _, err := strconv.ParseFloat(s, 64); err != nil && errors.Is(err, strconv.ErrRange) {
			return false // looks like a number
		}
		return strings.TrimSpace(s) == s && !strings.ContainsAny(s, "\n\r\t'\u0085\u00a0\u2028\u2029\ufeff")
	}
	return true
}

func (f *format) key(t *T) string {
	if f.text == "hcl" {
		return pick(t, hclKeys) + pick(t, []string{"", "", "1", "-x", "_y"})
	}
	if f.text == "plain" || t.Chance(0.6) {
		return pick(t, treeSegs) + pick(t, []string{"", "", "1", "-x", "_y"})
	}
	return f.str(t)
}

func (f *format) leaf(t *T) any {
	if !f.scalar {
		return f.str(t)
	}
	switch t.Int(9) {
	case 0:
		return t.Chance(0.5)
	case 1:
		return t.Range(-1000, 1000)
	case 2:
		return pick(t, []float64{0, 0.5, -1.25, 3, 1e20, 1e-7, 123456.789, math.MaxFloat64, math.SmallestNonzeroFloat64, -1e300, 1e21, 100000000000000000000, 0.1, 1.0 / 3})
	case 3:
		if f.big {
			return pick(t, []any{int64(math.MaxInt64), int64(math.MinInt64), int64(1) << 53, int64(1)<<53 + 1, int64(-1)<<53 - 1, 0, int64(t.R.Uint64())})
		}
		return pick(t, []any{1 << 53, -(1 << 53), 1<<53 - 1, 0, 1 << 31, 1<<31 - 1})
	case 4:
		if f.null {
			return nil
		}
	case 5:
		n := t.Int(100)
		return pick(t, []any{int8(n), int16(n), int32(-n), uint(n), uint8(n), uint16(n), uint32(n), uint64(n), float32(n) / 4})
	}
	return f.str(t)
}

func (f *format) value(t *T, depth int) any {
	if depth <= 0 || t.Chance(0.5) {
		return f.leaf(t)
	}
	if t.Chance(0.6) {
		return f.doc(t, depth)
	}
	lo := 1
	if f.empty {
		lo = 0
	}
	n := t.Range(lo, 4)
	switch {
	case f.exact || t.Chance(0.2) && f.scalar: // typed
		switch t.Int(4) {
		case 0:
			r := []string{}
			for ; n > 0; n-- {
				r = append(r, f.str(t))
			}
			return r
		case 1:
			r := []int{}
			for ; n > 0; n-- {
				r = append(r, t.Range(-5, 1<<40))
			}
			return r
		case 2:
			r := []float64{}
			for ; n > 0; n-- {
				r = append(r, float64(t.Range(-5, 5))+0.5)
			}
			return r
		}
		r := []bool{}
		for ; n > 0; n-- {
			r = append(r, t.Chance(0.5))
		}
		return r
	}
	r := []any{}
	for ; n > 0; n-- {
		r = append(r, f.value(t, depth-1))
	}
	return r
}

func (f *format) doc(t *T, depth int) map[string]any {
	m := map[string]any{}
	n := t.Range(0, 4)
	if !f.empty {
		n++
	}
	for ; n > 0; n-- {
		m[f.key(t)] = f.value(t, depth-1)
	}
	return m
}

// canon makes numbers and containers of different types comparable.
func canon(v any) any {
	switch z := v.(type) {
	case nil:
		return nil
	case string, bool:
		return z
	}
	rv := reflect.ValueOf(v)
	switch rv.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return "n:" + fmt.Sprint(rv.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return "n:" + fmt.Sprint(rv.Uint())
	case reflect.Float64, reflect.Float32:
		f := rv.Float()
		if math.IsNaN(f) || math.IsInf(f, 0) {
			return fmt.Sprint("n:", f)
		}
		r := new(big.Rat).SetFloat64(f)
		if r.IsInt() {
			return "n:" + r.Num().String()
		}
		return "n:" + r.String()
	case reflect.Slice, reflect.Array:
		r := make([]any, rv.Len())
		for i := range r {
			r[i] = canon(rv.Index(i).Interface())
		}
		return r
	case reflect.Map:
		r := map[string]any{}
		for _, k := range rv.MapKeys() {
			r[fmt.Sprint(k.Interface())] = canon(rv.MapIndex(k).Interface())
		}
		return r
	}
	return v
}

func c11Round(t *T, f *format) {
	c := f.mk()
	var prevB []byte
	var prevM any
	for i := t.Range(1, 3); i > 0; i-- {
		m := f.doc(t, t.Range(1, 5))
		cp := deepCopy(m)
		t.Op("%s %#v", f.name, m)
		b, err := c.Marshal(m)
		if err != nil {
			t.Fail("marshal", "Marshal(%#v): %v", m, err)
		}
		if !reflect.DeepEqual(m, cp) {
			t.Fail("input-changed", "Marshal changed its input %#v to %#v", cp, m)
		}
		keep := string(b)
		got, err := c.Unmarshal(b)
		if err != nil {
			t.Fail("unmarshal", "Unmarshal of %q: %v", b, err)
		}
		f.compare(t, got, m, b)
		if string(b) != keep {
			t.Fail("bytes-changed", "Unmarshal changed its input")
		}
		// again, and by another instance
		if b2, err := c.Marshal(m); err != nil {
			t.Fail("marshal", "the second Marshal: %v", err)
		} else {
			got, err := pick(t, []store.Codec{c, f.mk()}).Unmarshal(b2)
			if err != nil {
				t.Fail("unmarshal", "Unmarshal of %q: %v", b2, err)
			}
			f.compare(t, got, m, b2)
		}
		// the bytes returned earlier are still intact
		if prevB != nil {
			got, err := c.Unmarshal(prevB)
			if err != nil {
				t.Fail("unmarshal-prev", "Unmarshal of bytes made earlier: %v", err)
			}
			f.compare(t, got, prevM.(map[string]any), prevB)
		}
		prevB, prevM = b, m
		t.Count("bytes", int64(len(b)))
	}
}

func (f *format) compare(t *T, got, want map[string]any, b []byte) {
	t.Ok(1)
	g, w := canon(got), canon(want)
	if f.exact {
		// an empty slice may come back as nil
		if !reflect.DeepEqual(g, w) || !sameTypes(got, want) {
			t.Fail("round-trip", "%s: %#v came back as %#v", f.name, want, got)
		}
		return
	}
	if !reflect.DeepEqual(g, w) {
		t.Fail("round-trip", "%s: %#v came back as %#v\nencoded: %q", f.name, want, got, b)
	}
}

func sameTypes(a, b any) bool {
	if reflect.TypeOf(a) != reflect.TypeOf(b) {
		return false
	}
	if m, ok := a.(map[string]any); ok {
		for k, v := range m {
			if !sameTypes(v, b.(map[string]any)[k]) {
				return false
			}
		}
	}
	return true
}

func c11Store(t *T) {
	f := pick(t, formats)
	delim := pick(t, plainDelims)
	u := newUniverse(t, delim)
	s := newStoreSut(delim).(store.Store)
	m := newModel(delim)
	for _, k := range u.keys {
		if f.name == "yaml" && strings.Contains(k, "<<") {
			continue // the merge key
		}
		if f.name == "hcl" && !hclKey(k, m) {
			continue
		}
		if f.name == "nestext" && strings.ContainsAny(k, "\n\r\t:{}[]\"'#-> ") || f.name == "nestext" && m.isAncestor(k) {
			continue
		}
		if f.name == "nestext" {
			conflict := false
			for o := range m.m {
				conflict = conflict || strings.HasPrefix(k, o+m.d)
			}
			if conflict {
				continue
			}
		}
		if t.Chance(0.2) {
			continue
		}
		var v any = f.leaf(t)
		if f.lists && t.Chance(0.2) {
			v = []any{f.leaf(t), f.leaf(t)}
		}
		s.Set(k, v)
		m.set(k, v)
	}
	if len(m.m) == 0 {
		s.Set("a", "x")
		m.set("a", "x")
	}
	t.Op("%s %v", f.name, m.flat())
	var ld *store.Loader
	pre := ""
	if t.Chance(0.3) {
		pre = "zz9"
	}
	p0 := &readProvider{m: map[string]store.ValPkg{}}
	if _, err := s.Load(context.Background(), store.WithProvider(p0), store.WithLoaderCopy(&ld)); err != nil {
		t.Fail("load", "Load: %v", err)
	}
	out := &onceProvider{}
	if err := ld.SaveAs(context.Background(), "unused", store.WithSaveAsCodec(f.mk()), store.WithSaveAsProvider(out)); err != nil {
		t.Fail("saveas", "SaveAs(%s) of %v: %v", f.name, m.flat(), err)
	}
	if len(out.writes) != 1 {
		t.Fail("saveas", "SaveAs wrote %d times", len(out.writes))
	}
	n := newStoreSut(delim).(store.Store)
	if _, err := n.Load(context.Background(), store.WithProvider(&onceProvider{data: out.writes[0]}), store.WithCodec(f.mk()), store.WithStorePrefix(pre)); err != nil {
		t.Fail("reload", "loading the saved %q: %v", out.writes[0], err)
	}
	snap := snapshot(t, n.(sut))
	t.Ok(1 + len(m.m))
	for k, e := range m.m {
		g, ok := snap[join2(pre, k, m.d)]
		if !ok {
			t.Fail("store-lost", "%s: the key %q is lost; saved %q", f.name, k, out.writes[0])
		}
		if !reflect.DeepEqual(canon(g.val), canon(e.val)) {
			t.Fail("store-value", "%s: the key %q is %s instead of %s; saved %q", f.name, k, show(g.val), show(e.val), out.writes[0])
		}
	}
	if len(snap) != len(m.m) {
		t.Fail("store-extra", "%s: %d keys instead of %d: %v", f.name, len(snap), len(m.m), sortedKeys(snap))
	}
	t.Count("store "+f.name, 1)
}

// hclKey: each segment must be an identifier, and nothing is both a value
// and a branch.
func hclKey(k string, m *model) bool {
	if m.isAncestor(k) {
		return false
	}
	for o := range m.m {
		if strings.HasPrefix(k, o+m.d) {
			return false
		}
	}
	for _, seg := range strings.Split(k, m.d) {
		if !hclIdent.MatchString(seg) {
			return false
		}
	}
	return true
}

var hclIdent = regexp.MustCompile(`^[A-Za-z][A-Za-z0-9_-]*$`)

func c11Malformed(t *T) {
	f := pick(t, formats)
	c := f.mk()
	m := f.doc(t, t.Range(1, 4))
	good, err := c.Marshal(m)
	if err != nil {
		t.Fail("marshal", "Marshal(%#v): %v", m, err)
	}
	use := func(b []byte, must bool, what string) {
		t.Op("%s %s %q", f.name, what, b)
		data, err := c.Unmarshal(b)
		t.Ok(1)
		if must && err == nil {
			t.Fail("no-error", "%s: malformed input %q was accepted as %#v", f.name, b, data)
		}
		t.Count(fmt.Sprintf("%s error=%v", what, err != nil), 1)
	}
	for i := t.Range(1, 4); i > 0; i-- {
		if t.Chance(0.1) && f.scalar {
			// no such number in a format: an error, or it's kept
			v := pick(t, []float64{math.NaN(), math.Inf(1), math.Inf(-1)})
			bad := map[string]any{"a": 1, "x": pick(t, []any{v, []any{1, v}})}
			t.Op("%s %v", f.name, bad)
			t.Ok(1)
			if b, err := c.Marshal(bad); err == nil {
				got, err := c.Unmarshal(b)
				// some write null or a text instead
				if err == nil && len(got) != 2 {
					t.Fail("lost", "%s: Marshal(%v) gives %q without an error", f.name, bad, b)
				}
			}
		}
		switch t.Int(4) {
		case 0:
			if len(f.bad) > 0 {
				use([]byte(pick(t, f.bad)), true, "malformed")
			}
		case 1:
			use(append([]byte{}, good[:t.Int(max(1, len(good)))]...), f.trunc && len(good) > 0, "truncated")
		case 2: // corrupted, it may or may not be accepted
			b := append([]byte{}, good...)
			for n := t.Range(1, 4); n > 0 && len(b) > 0; n-- {
				switch j := t.Int(len(b)); t.Int(3) {
				case 0:
					b[j] = byte(t.Int(256))
				case 1:
					b = append(b[:j], b[j+1:]...)
				default:
					b = append(b[:j], append([]byte(pick(t, textPieces)), b[j:]...)...)
				}
			}
			if f.name == "gob" {
				continue // a corrupted length makes gob allocate at will
			}
			use(b, false, "corrupted")
		default:
			var sb strings.Builder
			for n := t.Range(0, 12); n > 0; n-- {
				sb.WriteString(pick(t, textPieces))
			}
			use([]byte(sb.String()), false, "garbage")
		}
	}
	// and the codec still works
	b, err := c.Marshal(m)
	if err != nil {
		t.Fail("marshal", "Marshal after an error: %v", err)
	}
	got, err := c.Unmarshal(b)
	if err != nil {
		t.Fail("unmarshal", "Unmarshal after an error: %v", err)
	}
	f.compare(t, got, m, b)
}

func c11Files(t *T) {
	f := pick(t, formats[:3])
	c := f.mk()
	m := f.doc(t, t.Range(1, 4))
	name := filepath.Join(t.scratch, fmt.Sprintf("c11-%d.txt", t.Idx))
	defer os.Remove(name)
	t.Op("%s %#v", f.name, m)
	if sv, ok := c.(interface {
		Save(file string, data map[string]any) error
	}); ok {
		_ = os.WriteFile(name, []byte(strings.Repeat("something longer\n", t.Int(100))), 0o644)
		if err := sv.Save(name, m); err != nil {
			t.Fail("save", "Save: %v", err)
		}
	} else {
		b, err := c.Marshal(m)
		if err != nil {
			t.Fail("marshal", "Marshal: %v", err)
		}
		_ = os.WriteFile(name, b, 0o644)
	}
	ld, ok := c.(interface {
		Load(file string) (map[string]any, error)
	})
	if !ok {
		t.Fail("no-load", "%s has no Load", f.name)
	}
	got, err := ld.Load(name)
	if err != nil {
		t.Fail("load", "Load: %v", err)
	}
	b, _ := os.ReadFile(name)
	f.compare(t, got, m, b)
	if _, err := ld.Load(name + ".none"); err == nil {
		t.Fail("load-missing", "Load of a missing file gave no error")
	}
	if len(f.bad) > 0 {
		bad := pick(t, f.bad[1:])
		if f.name == "json" && bad == `{"a":1}}` {
			return // the first document of the file is complete
		}
		_ = os.WriteFile(name, []byte(bad), 0o644)
		if data, err := ld.Load(name); err == nil {
			t.Fail("load-malformed", "Load of %q gave no error but %v", bad, data)
		}
	}
}

// c11Ex: UnmarshalEx delivers the same leaves.
func c11Ex(t *T) {
	f := formats[4]
	c := f.mk()
	m := f.doc(t, t.Range(1, 4))
	t.Op("%#v", m)
	b, err := c.Marshal(m)
	if err != nil {
		t.Fail("marshal", "Marshal: %v", err)
	}
	ex, ok := c.(store.CodecEx)
	if !ok {
		t.Fail("no-ex", "hjson isn't a CodecEx")
	}
	data, err := ex.UnmarshalEx(b)
	if err != nil {
		t.Fail("unmarshalex", "UnmarshalEx(%q): %v", b, err)
	}
	got, want := map[string]any{}, map[string]any{}
	exLeaves(got, "", data)
	leaves(want, "", m)
	t.Ok(1)
	if !reflect.DeepEqual(got, want) {
		t.Fail("ex", "UnmarshalEx(%q) delivers %v; want %v", b, got, want)
	}
	// written with its comments, or not at all
	t.Ok(1)
	if b2, err := ex.MarshalEx(data); err == nil && len(want) > 0 {
		again, err := ex.UnmarshalEx(b2)
		if err != nil {
			t.Fail("unmarshalex", "UnmarshalEx(%q): %v", b2, err)
		}
		got := map[string]any{}
		exLeaves(got, "", again)
		if !reflect.DeepEqual(got, want) {
			t.Fail("ex-lost", "MarshalEx succeeds with %q, which has %v; want %v", b2, got, want)
		}
	}
	// lists as they are
	c = hjson.New(hjson.WithFlattenSlice(false), hjson.WithPretty(t.Chance(0.5)))
	list := []any{}
	for i := t.Range(0, 4); i > 0; i-- {
		list = append(list, f.value(t, 2))
	}
	m = map[string]any{"list": list, "in": map[string]any{"list": list}, "s": f.leaf(t)}
	t.Op("whole lists %#v", m)
	if b, err = c.Marshal(m); err != nil {
		t.Fail("marshal", "Marshal: %v", err)
	}
	if data, err = c.(store.CodecEx).UnmarshalEx(b); err != nil {
		t.Fail("unmarshalex", "UnmarshalEx(%q): %v", b, err)
	}
	t.Ok(3)
	in, _ := data["in"].Value.(map[string]store.ValPkg)
	for _, v := range []any{data["list"].Value, in["list"].Value} {
		if !reflect.DeepEqual(canon(v), canon(list)) {
			t.Fail("ex-list", "UnmarshalEx(%q) delivers the list %#v; want %#v", b, v, list)
		}
	}
	if !reflect.DeepEqual(canon(data["s"].Value), canon(m["s"])) {
		t.Fail("ex-list", "UnmarshalEx(%q) delivers %#v; want %#v", b, data["s"].Value, m["s"])
	}
}

func exLeaves(out map[string]any, path string, m map[string]store.ValPkg) {
	for k, v := range m {
		if sub, ok := v.Value.(map[string]store.ValPkg); ok {
			exLeaves(out, path+"\x01"+k, sub)
			continue
		}
		out[path+"\x01"+k] = canon(v.Value)
	}
}

func leaves(out map[string]any, path string, v any) {
	rv := reflect.ValueOf(v)
	switch rv.Kind() {
	case reflect.Map:
		for _, k := range rv.MapKeys() {
			leaves(out, path+"\x01"+k.String(), rv.MapIndex(k).Interface())
		}
	case reflect.Slice:
		for i := 0; i < rv.Len(); i++ {
			leaves(out, path+"\x01"+fmt.Sprint(i), rv.Index(i).Interface())
		}
	default:
		out[path] = canon(v)
	}
}
