package main

import (
	"context"
	"encoding/json"
	"fmt"
	"strings"

	"github.com/hedzr/store"
	"github.com/hedzr/store/radix"
)

func init() {
	register(&Prop{
		ID:   "C10",
		Rule: "a case prepares a store, generates nested data (maps with string and other keys, slices, nil, dotted keys) and loads or merges it at a prefix by Merge or a Read/ReadBytes/stream provider; everything Walk reports, the lookups and the caller's data are compared with a model that expands the data to joined paths; distinct = different data and steps",
		Groups: []Group{
			{Name: "merge", Quick: 8000, Thorough: 200000, Body: c10Merge},
			{Name: "load", Quick: 8000, Thorough: 200000, Body: c10Load},
			{Name: "meta", Quick: 4000, Thorough: 100000, Body: c10Meta},
			{Name: "trie", Quick: 3000, Thorough: 60000, Body: c10Trie},
			{Name: "typed", Quick: 3000, Thorough: 60000, Body: c10Typed},
			{Name: "large", Quick: 40, Thorough: 800, Body: c10Large},
		},
	})
}

var plainDelims = []rune{'.', '.', '.', '/', '|', '€'}

type loadCase struct {
	t    *T
	s    store.Store
	sut  sut
	m    *model
	u    *universe
	dl   string
	flat bool
}

func newLoadCase(t *T, opts ...store.Opt) *loadCase {
	delim := pick(t, plainDelims)
	c := &loadCase{t: t, m: newModel(delim), dl: string(delim), u: newUniverse(t, delim)}
	c.flat = t.Chance(0.4)
	if c.flat {
		opts = append(opts, store.WithFlattenSlice(true))
	}
	c.sut = newStoreSut(delim, opts...)
	c.s = c.sut.(store.Store)
	if t.Chance(0.6) { // something is there already
		for i := t.Range(1, 12); i > 0; i-- {
			k := pick(t, treeSegs)
			for j := t.Range(0, 2); j > 0; j-- {
				k += c.dl + pick(t, treeSegs)
			}
			if t.Chance(0.3) {
				k = pick(t, c.u.keys)
			}
			if !okKey(k, c.dl) {
				continue
			}
			v := c.u.value(t)
			tag := fmt.Sprint("T", i)
			t.Op("SetNode(%q, %s)", k, show(v))
			c.sut.SetNode(k, v, tag, "D"+tag, "C"+tag)
			c.m.set(k, v)
			e := c.m.m[k]
			e.tag, e.desc, e.comment = tag, "D"+tag, "C"+tag
		}
	}
	return c
}

func (c *loadCase) prefix() string {
	t := c.t
	switch t.Int(4) {
	case 0:
		return ""
	case 1:
		return pick(t, c.u.keys)
	}
	p := pick(t, treeSegs)
	for j := t.Range(0, 2); j > 0; j-- {
		p += c.dl + pick(t, treeSegs)
	}
	return p
}

func (c *loadCase) tree(js bool) (map[string]any, map[string]any) {
	return genTree(c.t, treeOpt{d: c.dl, depth: c.t.Range(1, 5), slices: true, anyKeys: !js, dotted: true, flatten: c.flat, json: js, width: c.t.Range(2, 6)})
}

func (c *loadCase) put(base string, flat map[string]any) {
	for k, v := range flat {
		c.m.set(join2(base, k, c.dl), v)
	}
}

func join2(a, b, d string) string {
	if a == "" {
		return b
	}
	if b == "" {
		return a
	}
	return a + d + b
}

func (c *loadCase) check(sig string, base string, flat map[string]any) {
	checkSnapshot(c.t, c.sut, c.m, sig, true, false)
	for k := range flat {
		f := join2(base, k, c.dl)
		checkPath(c.t, c.sut, c.m, f, f)
	}
}

func c10Merge(t *T) {
	c := newLoadCase(t)
	for i := t.Range(1, 4); i > 0; i-- {
		data, flat := c.tree(false)
		cp := deepCopy(data)
		at := c.prefix()
		t.Op("Merge(%q, %v) flattenSlice=%v", at, data, c.flat)
		if err := c.s.Merge(at, data); err != nil {
			t.Fail("merge-err", "Merge: %v", err)
		}
		if !eq(data, cp) {
			t.Fail("caller-map", "Merge changed the caller's map: %v -> %v", cp, data)
		}
		c.put(at, flat)
		c.check("merge", at, flat)
		t.Count("leaves", int64(len(flat)))
	}
}

func c10Load(t *T) {
	c := newLoadCase(t)
	for i := t.Range(1, 4); i > 0; i-- {
		kind := pick(t, []string{"read", "bytes", "codec", "pcodec", "stream"})
		opts := []store.LoadOpt{}
		storeFlat := c.flat
		if t.Chance(0.4) { // an option of this load only
			c.flat = t.Chance(0.5)
			opts = append(opts, store.WithStoreFlattenSlice(c.flat))
		}
		data, flat := c.tree(kind != "read")
		cp := deepCopy(data)
		at := c.prefix()
		if at != "" || t.Chance(0.3) {
			opts = append(opts, store.WithStorePrefix(at))
		}
		var check func()
		switch kind {
		case "read":
			m := map[string]store.ValPkg{}
			for k, v := range data {
				m[k] = store.ValPkg{Value: v}
			}
			p := &readProvider{m: m}
			opts = append(opts, store.WithProvider(p))
			check = func() {
				if p.reads != 1 {
					t.Fail("read-calls", "Read was called %d times", p.reads)
				}
			}
		case "stream":
			p := newStream(map[string]any{})
			flat = map[string]any{}
			for j := t.Range(0, 6); j > 0; j-- {
				k := pick(t, c.u.keys)
				if t.Chance(0.5) {
					k = pick(t, treeSegs) + c.dl + pick(t, treeSegs)
				}
				flat[k] = c.u.value(t)
			}
			p = newStream(flat)
			data, cp = flat, deepCopy(flat)
			opts = append(opts, store.WithProvider(p))
		default:
			b, err := json.Marshal(data)
			if err != nil {
				panic(err)
			}
			p := &onceProvider{data: b}
			if kind == "codec" {
				opts = append(opts, store.WithCodec(&recCodec{}))
			}
			if kind == "pcodec" {
				p.codec = &recCodec{}
			}
			opts = append(opts, store.WithProvider(p))
		}
		shuffle(t, opts)
		t.Op("Load(%s, prefix %q, %v) flattenSlice=%v", kind, at, data, c.flat)
		wr, err := c.s.Load(context.Background(), opts...)
		if err != nil {
			t.Fail("load-err", "Load(%s): %v", kind, err)
		}
		if wr == nil {
			t.Fail("load-wr", "Load(%s) returned no Writeable", kind)
		}
		if check != nil {
			check()
		}
		if !eq(data, cp) {
			t.Fail("caller-map", "Load(%s) changed the provider's data: %v -> %v", kind, cp, data)
		}
		c.put(at, flat)
		if kind == "read" { // desc, comment and tag are delivered (empty ones)
			for k := range flat {
				e := c.m.m[join2(at, k, c.dl)]
				e.desc, e.comment, e.tag = "", "", nil
			}
		}
		c.check("load-"+kind, at, flat)
		t.Count("load "+kind, 1)
		t.Count("leaves", int64(len(flat)))
		c.flat = storeFlat
		if t.Chance(0.3) {
			data, flat := c.tree(false)
			at := c.prefix()
			t.Op("Merge(%q, %v) flattenSlice=%v", at, data, c.flat)
			if err := c.s.Merge(at, data); err != nil {
				t.Fail("merge-err", "Merge: %v", err)
			}
			c.put(at, flat)
			c.check("merge", at, flat)
		}
	}
	if t.Chance(0.3) { // nothing to load
		if _, err := c.s.Load(context.Background()); err != nil {
			t.Fail("load-none", "Load without provider: %v", err)
		}
		c.check("load-none", "", nil)
	}
}

// c10Meta: values delivered with desc, comment and tag.
func c10Meta(t *T) {
	c := newLoadCase(t)
	loadMeta(c)
}

func c06Load(t *T) {
	c := newLoadCase(t)
	loadMeta(c)
	for _, k := range c.m.keys() {
		checkMeta(t, c.sut, k, c.m.m[k])
	}
	// other writes keep them
	d := &driver{t: t, s: c.sut, m: c.m, u: c.u}
	d.u.keys = append(d.u.keys, c.m.keys()...)
	d.run(t.Range(1, 10), weighted("set", 5, "insert", 1, "remove", 1), 0, nil)
	for _, k := range c.m.keys() {
		checkMeta(t, c.sut, k, c.m.m[k])
	}
}

func loadMeta(c *loadCase) {
	t := c.t
	for i := t.Range(1, 3); i > 0; i-- {
		data, _ := c.tree(false)
		at := c.prefix()
		m := map[string]store.ValPkg{}
		for k, v := range data {
			c.u.n++
			p := store.ValPkg{Value: v}
			if t.Chance(0.7) {
				p.Desc = fmt.Sprint("desc", c.u.n)
			}
			if t.Chance(0.7) {
				p.Comment = fmt.Sprint("comment", c.u.n)
			}
			if t.Chance(0.7) {
				p.Tag = pick(t, []any{c.u.n, "tag", []string{"t"}})
			}
			m[k] = p
		}
		t.Op("Load(prefix %q, %v)", at, m)
		opts := []store.LoadOpt{store.WithProvider(&readProvider{m: m})}
		if at != "" {
			opts = append(opts, store.WithStorePrefix(at))
		}
		if _, err := c.s.Load(context.Background(), opts...); err != nil {
			t.Fail("load-err", "Load: %v", err)
		}
		all := map[string]any{}
		for k, p := range m {
			flat := map[string]any{}
			expandTree(flat, k, p.Value, treeOpt{d: c.dl, flatten: c.flat})
			for f, v := range flat {
				full := join2(at, f, c.dl)
				c.m.set(full, v)
				e := c.m.m[full]
				e.desc, e.comment, e.tag = p.Desc, p.Comment, p.Tag
				all[f] = v
			}
		}
		c.check("load-meta", at, all)
	}
}

// c10Trie: radix.Trie.Merge.
func c10Trie(t *T) {
	delim := pick(t, plainDelims)
	s := radix.NewTrieBy[any](delim)
	m := newModel(delim)
	pre := ""
	var v sut = s
	if t.Chance(0.4) {
		pre = pick(t, treeSegs)
		v = s.WithPrefix(pre).(sut)
	}
	for i := t.Range(1, 4); i > 0; i-- {
		o := treeOpt{d: string(delim), depth: t.Range(1, 5), dotted: true, slices: true, flatten: true}
		data, flat := genTree(t, o)
		cp := deepCopy(data)
		at := ""
		if t.Chance(0.6) {
			at = pick(t, treeSegs)
		}
		t.Op("prefix %q Merge(%q, %v)", pre, at, data)
		if err := v.Merge(at, data); err != nil {
			t.Fail("merge-err", "Merge: %v", err)
		}
		if !eq(data, cp) {
			t.Fail("caller-map", "Merge changed the caller's map")
		}
		for k, x := range flat {
			m.set(join2(join2(pre, at, m.d), k, m.d), x)
		}
		checkSnapshot(t, s, m, "merge", true, false)
	}
	for _, k := range m.keys() {
		checkPath(t, s, m, k, k)
	}
}

// c10Typed: a tree of one type takes the leaves of this type, and reports the
// others.
func c10Typed(t *T) {
	if t.Chance(0.5) {
		c10TypedOf(t, func() string { return fmt.Sprint("s", t.Int(1000)) })
	} else {
		c10TypedOf(t, func() int { return t.Int(1000) })
	}
}

func c10TypedOf[E any](t *T, gen func() E) {
	delim := pick(t, plainDelims)
	s := radix.NewTrieBy[E](delim)
	want := map[string]any{}
	bad := 0
	mixed := t.Chance(0.5)
	var build func(base string, depth int) map[string]any
	leaf := func(p string) any {
		if mixed && t.Chance(0.15) {
			bad++
			return pick(t, []any{1.5, true, []string{"x"}, int8(3)})
		}
		v := gen()
		want[p] = v
		return v
	}
	build = func(base string, depth int) map[string]any {
		m := map[string]any{}
		for i := t.Range(1, 4); i > 0; i-- {
			k := fmt.Sprintf("%s%d", pick(t, treeSegs), i)
			p := join2(base, k, string(delim))
			switch c := t.Int(6); {
			case c < 2 && depth > 0:
				m[k] = build(p, depth-1)
			case c == 2 && depth > 0:
				var l []map[string]any
				for j := 0; j < t.Int(12); j++ {
					l = append(l, build(fmt.Sprintf("%s%c%d", p, delim, j), 0))
				}
				m[k] = l
			case c == 3:
				var l []any
				for j := t.Int(12); j > 0; j-- {
					l = append(l, leaf(fmt.Sprintf("%s%c%d", p, delim, len(l))))
				}
				m[k] = l
			default:
				m[k] = leaf(p)
			}
		}
		return m
	}
	at := ""
	if t.Chance(0.5) {
		at = pick(t, treeSegs)
	}
	data := build(at, t.Range(0, 3))
	t.Op("%T Merge(%q, %v)", s, at, data)
	err := s.Merge(at, data)
	if (err != nil) != (bad > 0) {
		t.Fail("typed-err", "Merge with %d leaves of other types: %v", bad, err)
	}
	got := map[string]any{}
	s.Walk("", func(path, fragment string, n radix.Node[E]) {
		if n.IsLeaf() {
			got[path] = n.Data()
		}
	})
	if df := diffMaps(got, want); df != "" {
		t.Fail("typed", "after the Merge: %s", df)
	}
	t.Ok(2)
	t.Count("typed leaves", int64(len(want)))
}

func c10Large(t *T) {
	delim := pick(t, plainDelims)
	s := newStoreSut(delim)
	m := newModel(delim)
	data := map[string]any{}
	n := t.Range(100, 600)
	for i := 0; i < n; i++ {
		k := fmt.Sprintf("key%d", i)
		if i%7 == 0 {
			sub := map[string]any{}
			cur := sub
			for dpt := t.Range(1, 40); dpt > 0; dpt-- {
				nx := map[string]any{"v": dpt}
				cur["n"] = nx
				cur = nx
			}
			data[k] = sub
			continue
		}
		data[k+strings.Repeat("x", i%80)] = i
	}
	flat := map[string]any{}
	expandTree(flat, "", data, treeOpt{d: m.d})
	t.Op("Merge %d leaves", len(flat))
	if err := s.Merge("big", data); err != nil {
		t.Fail("merge-err", "Merge: %v", err)
	}
	for k, v := range flat {
		m.set("big"+m.d+k, v)
	}
	checkSnapshot(t, s, m, "merge", true, false)
	for _, k := range m.keys() {
		checkPath(t, s, m, k, k)
	}
}
