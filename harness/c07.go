package main

import (
	"context"
	"fmt"
	"strings"
	"time"

	"github.com/hedzr/store"
	"github.com/hedzr/store/radix"
)

func init() {
	register(&Prop{
		ID:   "C07",
		Rule: "a case builds a store by random writes, metadata, removals and loads, copies it by Dup or Clone, compares the copy completely, and then runs independent random histories (and in-place mutations of the stored values) on original and copies, each against its own model; distinct = different operation sequences",
		Groups: []Group{
			{Name: "copies", Quick: 7000, Thorough: 180000, Body: c07Copies},
			{Name: "inplace", Quick: 8000, Thorough: 150000, Body: c07Inplace},
			{Name: "typed", Quick: 3000, Thorough: 60000, Body: c07Typed},
			{Name: "settings", Quick: 4000, Thorough: 80000, Body: c07Settings},
		},
		Assumptions: []string{
			"tags are compared, but not mutated in place",
			"values with unexported state other than time.Time, functions and channels are not generated",
		},
	})
}

func clone(t *T, s sut) sut {
	if z, ok := s.(store.Store); ok && t.Chance(0.4) {
		return z.Clone().(sut)
	}
	return dup(s)
}

func c07Copies(t *T) {
	d := newDriver(t)
	pre := ""
	if t.Chance(0.3) {
		pre = pick(t, []string{"pre", "app", "a" + d.u.d + "b", "日本"})
		d.s.SetPrefix(pre)
		d.pre = pre + d.u.d
	}
	ops := weighted("set", 6, "insert", 1, "setex", 2, "setnode", 3, "update", 2, "empty", 1, "remove", 3, "comment", 3, "tag", 3)
	d.run(t.Range(0, 30), ops, 0, nil)
	if t.Chance(0.2) {
		d.populate(-1)
	}
	if z, ok := d.s.(store.Store); ok && t.Chance(0.3) {
		z.WithinLoading(func() { d.run(t.Range(1, 5), weighted("set", 1), 0, nil) })
	}
	d.syncMod()
	all := []*driver{d}
	for i := t.Range(1, 3); i > 0; i-- {
		src := pick(t, all)
		src.syncMod()
		t.Op("copy of #%d", indexOf(all, src))
		c := clone(t, src.s)
		if c.Prefix() != src.s.Prefix() || c.Prefix() != pre {
			t.Fail("prefix", "the copy's prefix is %q; want %q", c.Prefix(), pre)
		}
		if c.Delimiter() != d.u.delim {
			t.Fail("delimiter", "the copy's delimiter is %q; want %q", c.Delimiter(), d.u.delim)
		}
		nd := &driver{t: t, s: c, m: src.m.clone(), u: src.u, pre: src.pre}
		t.Ok(2)
		checkSnapshot(t, c, nd.m, "copy", true, true)
		checkSnapshot(t, src.s, src.m, "original", true, true)
		all = append(all, nd)
		for j := t.Range(0, 12); j > 0; j-- {
			w := pick(t, all)
			t.Op("in #%d", indexOf(all, w))
			w.step(pick(t, ops))
			w.probe()
			if t.Chance(0.3) {
				o := pick(t, all)
				checkSnapshot(t, o.s, o.m, "independent", true, false)
			}
		}
	}
	if t.Chance(0.2) { // prefixes are independent, too
		w := pick(t, all)
		w.s.SetPrefix("zz")
		for _, o := range all {
			if o != w && o.s.Prefix() != pre {
				t.Fail("prefix-shared", "SetPrefix on one store changed the prefix of its copy")
			}
		}
		w.s.SetPrefix(pre)
	}
	for _, w := range all {
		checkSnapshot(t, w.s, w.m, "independent", true, false)
		w.auditLookups()
		w.auditMeta()
	}
}

func indexOf(all []*driver, d *driver) int {
	for i, x := range all {
		if x == d {
			return i
		}
	}
	return -1
}

type inner struct {
	L []int
	M map[string]int
}

type box struct {
	N    int
	List []string
	Map  map[string]any
	P    *point
	In   inner
}

// mutable makes a value together with a function which mutates it in place
// and returns a text for it.
func mutable(t *T, n int) (v any, mutate func(v any)) {
	switch t.Int(14) {
	case 0:
		return map[string]any{"n": n, "sub": map[string]any{"k": n, "deep": map[string]any{"x": []any{n}}}}, func(v any) {
			z := v.(map[string]any)
			z["sub"].(map[string]any)["k"] = "mutated"
			z["sub"].(map[string]any)["deep"].(map[string]any)["x"].([]any)[0] = "mutated"
			z["new"] = 1
		}
	case 1:
		return []any{n, "x", []any{n}}, func(v any) {
			v.([]any)[0] = "mutated"
			v.([]any)[2].([]any)[0] = "mutated"
		}
	case 2:
		return []string{"a", fmt.Sprint(n)}, func(v any) { v.([]string)[1] = "mutated" }
	case 3:
		return []int{n, 2}, func(v any) { v.([]int)[0] = -1 }
	case 4:
		return []byte{byte(n), 1}, func(v any) { v.([]byte)[1] = 0xff }
	case 5:
		return map[string]int{"a": n}, func(v any) { v.(map[string]int)["a"] = -1; v.(map[string]int)["b"] = 2 }
	case 6:
		return map[string]string{"a": fmt.Sprint(n)}, func(v any) { delete(v.(map[string]string), "a") }
	case 7:
		return &point{n, 1, "p"}, func(v any) { v.(*point).X = -1; v.(*point).Name = "mutated" }
	case 8:
		return map[any]any{"a": n, 1: []any{n}}, func(v any) { v.(map[any]any)["a"] = "mutated" }
	case 9:
		return []map[string]any{{"a": n}, {"b": n}}, func(v any) { v.([]map[string]any)[1]["b"] = "mutated" }
	case 10:
		return map[string][]int{"a": {n, 1}}, func(v any) { v.(map[string][]int)["a"][0] = -1 }
	case 11:
		return []*point{{n, 1, "p"}}, func(v any) { v.([]*point)[0].X = -1 }
	case 12:
		return &box{N: n, List: []string{"x"}, Map: map[string]any{"k": n}, P: &point{n, 2, "p"}, In: inner{[]int{1}, map[string]int{"a": 1}}}, func(v any) {
			z := v.(*box)
			z.N = -1
			z.List[0] = "mutated"
			z.Map["k"] = "mutated"
			z.P.X = -1
			z.In.L[0] = -1
			z.In.M["a"] = -1
		}
	default:
		return []float64{float64(n), 0.5}, func(v any) { v.([]float64)[1] = -1 }
	}
}

func c07Inplace(t *T) {
	delim := pick(t, delims)
	u := newUniverse(t, delim)
	s := newSut(t, delim)
	type item struct {
		k      string
		text   string
		mutate func(any)
	}
	var items []item
	ks := append([]string{}, u.keys...)
	shuffle(t, ks)
	for i, k := range ks[:min(len(ks), t.Range(1, 10))] {
		v, mu := mutable(t, t.Range(1, 100)*10+i%10)
		t.Op("Set(%q, %s)", k, render(v))
		s.Set(k, v)
		items = append(items, item{k, render(v), mu})
	}
	copies := []sut{s}
	for i := t.Range(1, 3); i > 0; i-- {
		copies = append(copies, clone(t, pick(t, copies)))
	}
	// who was mutated
	state := map[string]bool{}
	id := func(c int, k string) string { return fmt.Sprint(c, "|", k) }
	check := func() {
		for ci, c := range copies {
			for _, it := range items {
				g, ok := c.Get(it.k)
				r := render(g)
				t.Ok(1)
				if !ok {
					t.Fail("copy-lost", "copy #%d lost the key %q", ci, it.k)
				}
				if !state[id(ci, it.k)] && r != it.text {
					t.Fail("aliased", "copy #%d: the value of %q changed by a mutation in another copy:\n%s\n->\n%s", ci, it.k, it.text, r)
				}
				if state[id(ci, it.k)] && r == it.text {
					t.Fail("mutation-lost", "copy #%d: the mutation of %q was undone", ci, it.k)
				}
			}
		}
	}
	check()
	for i := t.Range(1, 6); i > 0; i-- {
		ci, it := t.Int(len(copies)), pick(t, items)
		if state[id(ci, it.k)] {
			continue
		}
		t.Op("mutate %q in copy #%d", it.k, ci)
		g, _ := copies[ci].Get(it.k)
		it.mutate(g)
		state[id(ci, it.k)] = true
		check()
		if t.Chance(0.3) { // split nodes
			copies[t.Int(len(copies))].Set(it.k+pick(t, []string{"ZsZ", "ZtZ", u.d + "ZuZ"}), 1)
			check()
		}
	}
	for _, it := range items { // mutate everything in the original
		if !state[id(0, it.k)] {
			g, _ := copies[0].Get(it.k)
			it.mutate(g)
			state[id(0, it.k)] = true
		}
	}
	check()
}

// render makes a text of a value including what its pointers point to.
func render(v any) string {
	switch z := v.(type) {
	case *point:
		if z == nil {
			return "*point(nil)"
		}
		return fmt.Sprintf("*%T%+v", *z, *z)
	case []*point:
		var sb strings.Builder
		for _, p := range z {
			sb.WriteString(render(p))
		}
		return "[]" + sb.String()
	case *box:
		return fmt.Sprintf("*box{%d %v %v %s %v}", z.N, z.List, z.Map, render(z.P), z.In)
	}
	return fmt.Sprintf("%T %#v", v, v)
}

func c07Typed(t *T) {
	delim := pick(t, delims)
	u := newUniverse(t, delim)
	var s radix.Trie[[]int] = radix.NewTrieBy[[]int](delim)
	m := map[string][]int{}
	for i, k := range u.keys {
		s.Set(k, []int{i, i})
		m[k] = []int{i, i}
	}
	var tm time.Time
	_ = tm
	c := s.Dup()
	k := pick(t, u.keys)
	t.Op("Trie[[]int] with %d keys, mutate %q", len(m), k)
	v, _ := c.Get(k)
	if len(v) != 2 {
		t.Fail("typed-copy", "Dup of a Trie[[]int]: Get(%q) = %v", k, v)
	}
	v[0] = -7
	c.Set(pick(t, u.keys)+"x", []int{1, 2, 3})
	k2 := pick(t, u.keys)
	removed := s.Remove(k2)
	for _, x := range u.keys {
		g, ok := s.Get(x)
		t.Ok(2)
		gone := removed && (x == k2 || strings.HasPrefix(x, k2+u.d))
		if !gone && (!ok || !eq(g, m[x])) {
			t.Fail("typed-original", "the original's %q is %v; want %v", x, g, m[x])
		}
		g, ok = c.Get(x)
		want := m[x]
		if x == k {
			want = []int{-7, m[x][1]}
		}
		if _, isNew := m[x]; isNew && x != k && !eq(g, want) && !eq(g, []int{1, 2, 3}) || !ok {
			t.Fail("typed-copy", "the copy's %q is %v, %v; want %v", x, g, ok, want)
		}
	}
}

// c07Settings: copies of stores and views with every option, and what their
// providers, handlers, TTLs and Close do to each other.
func c07Settings(t *T) {
	delim := pick(t, plainDelims)
	u := newUniverse(t, delim)
	flatten, watch := t.Chance(0.5), t.Chance(0.6)
	fired := 0
	s := store.New(store.WithDelimiter(delim), store.WithFlattenSlice(flatten), store.WithWatchEnable(watch),
		store.WithOnNewHandlers(func(string, any, bool) { fired++ }),
		store.WithOnChangeHandlers(func(string, any, any, bool) { fired++ }),
		store.WithOnDeleteHandlers(func(string, any, bool) { fired++ }))
	defer s.Close()
	t.Op("flatten %v, watch %v, delimiter %q", flatten, watch, delim)
	m := newModel(delim)
	for i := t.Range(1, 12); i > 0; i-- {
		k, v := pick(t, u.keys), u.value(t)
		t.Op("Set(%q, %s)", k, show(v))
		s.Set(k, v)
		m.set(k, v)
	}
	wp := &watchProvider{}
	wp.m = map[string]store.ValPkg{"loaded": {Value: "L"}}
	if _, err := s.Load(context.Background(), store.WithProvider(wp)); err != nil {
		t.Fail("load", "Load: %v", err)
	}
	m.set("loaded", "L")
	src, pre, mode, dl := s, "", s.RecursiveMode(), delim
	for i := t.Range(0, 4); i > 0; i-- {
		switch t.Int(6) {
		case 0:
			p := u.seg(t)
			t.Op("view WithPrefix(%q)", p)
			src, pre = src.WithPrefix(p), join2(pre, p, string(dl))
		case 1:
			p := u.seg(t)
			t.Op("view WithPrefixReplaced(%q)", p)
			src, pre = src.WithPrefixReplaced(p), p
		case 2:
			t.Op("view BR")
			src, mode = src.BR(), radix.RecusiveUp
		case 3:
			t.Op("view N")
			src, mode = src.N(), radix.RecusiveNone
		case 4:
			if src != s { // of the view only
				dl = pick(t, plainDelims)
				t.Op("SetDelimiter(%q)", dl)
				src.SetDelimiter(dl)
			}
		case 5:
			src = src.WithPrefix()
			p := u.seg(t)
			t.Op("view, SetPrefix(%q)", p)
			src.SetPrefix(p)
			pre = p
		}
	}
	var c store.Store
	if t.Chance(0.5) {
		t.Op("Dup")
		c = src.Dup()
	} else {
		t.Op("Clone")
		c = src.Clone()
	}
	for i, x := range []store.Store{src, c} {
		t.Ok(1)
		if x.Prefix() != pre || x.Delimiter() != dl || x.RecursiveMode() != mode {
			t.Fail("settings", "%s: prefix %q, delimiter %q, mode %v; want %q, %q, %v", []string{"source", "copy"}[i], x.Prefix(), x.Delimiter(), x.RecursiveMode(), pre, dl, mode)
		}
	}
	if s.Delimiter() != delim || s.Prefix() != "" {
		t.Fail("settings-origin", "the original has prefix %q and delimiter %q", s.Prefix(), s.Delimiter())
	}
	ask := func(x store.Store) string {
		var sb strings.Builder
		for i := 0; i < 12; i++ {
			p := caseProbe(t, u, i, pre, string(delim))
			v, ok := x.Get(p)
			n, br, _, f := x.Locate(p, nil)
			key := "-"
			if n != nil && f {
				key = n.Key()
			}
			fmt.Fprintf(&sb, "%q: %s %v %v %v %v %q %q\n", p, show(v), ok, x.Has(p), br, f, key, x.MustString(p, "dflt"))
		}
		r, err := x.GetM("")
		for _, k := range sortedKeys(r) {
			fmt.Fprintf(&sb, "%q = %s\n", k, show(r[k]))
		}
		fmt.Fprintf(&sb, "%v\n%v", err, x)
		return sb.String()
	}
	if a, b := ask(src), ask(c); a != b {
		t.Fail("answers", "the copy answers\n%s\nits source\n%s", b, a)
	}
	// what the copy does isn't seen by the original
	n := fired
	key := "ZnewZ"
	c.Set(key, 1)
	c.Set(key, 2)
	c.Remove(key)
	if err := c.Merge("", map[string]any{"ZflatZ": []any{"x", "y"}}); err != nil {
		t.Fail("merge", "Merge: %v", err)
	}
	v0, ok0 := c.Get("ZflatZ" + string(dl) + "0")
	vs, oks := c.Get("ZflatZ")
	if mode == radix.RecusiveNone && (flatten && (!ok0 || v0 != any("x")) || !flatten && (!oks || !eq(vs, []any{"x", "y"}))) {
		t.Fail("flatten", "flatten-slice is %v in the original; the copy has %s, %v and %s, %v", flatten, show(v0), ok0, show(vs), oks)
	}
	wc := &watchProvider{}
	wc.m = map[string]store.ValPkg{"ZloadedZ": {Value: 1}}
	if _, err := c.Load(context.Background(), store.WithProvider(wc)); err != nil {
		t.Fail("load", "Load into the copy: %v", err)
	}
	if (wc.watches == 1) != watch {
		t.Fail("watch", "watching is %v in the original; the copy called Watch %d times", watch, wc.watches)
	}
	if fired != n {
		t.Fail("handlers", "handlers of the original ran %d times for changes of the copy", fired-n)
	}
	checkSnapshot(t, s.(sut), m, "original", false, false)
	if watch {
		wp.cb(&change{op: store.OpWrite, kvs: []kv{{"loaded", "L2"}}, prov: wp}, nil)
		m.set("loaded", "L2")
		q := c.WithPrefixReplaced("").N()
		if v, ok := q.Get("loaded"); !ok || v != any("L") {
			t.Fail("event", "a watched change of the original reached the copy: %s, %v", show(v), ok)
		}
		checkSnapshot(t, s.(sut), m, "original", false, false)
	}
	if t.Chance(0.05) {
		rung := make(chan bool, 4)
		k := pick(t, m.keys())
		if st := s.SetTTL(k, 3*time.Millisecond, func(*radix.TTL[any], radix.Node[any]) { rung <- true }); st != 0 {
			t.Fail("ttl", "SetTTL(%q) = %d", k, st)
		}
		c2 := s.Dup()
		c.Close()
		select {
		case <-rung:
		case <-time.After(20 * time.Second):
			t.Fail("ttl-lost", "the TTL of the original was lost when its copy was closed")
		}
		for end := time.Now().Add(20 * time.Second); s.MustGet(k) != nil && time.Now().Before(end); {
			time.Sleep(time.Millisecond)
		}
		if v, ok := c2.Get(k); !ok || !eq(v, m.m[k].val) {
			t.Fail("ttl-copy", "the TTL of %q in the original changed the copy to %s, %v", k, show(v), ok)
		}
		t.Count("TTLs", 1)
		return
	}
	c.Close()
	if wp.closes != 0 {
		t.Fail("closed", "closing the copy closed the provider of the original")
	}
	if watch && wc.closes != 1 {
		t.Fail("close-copy", "closing the copy closed its watching provider %d times", wc.closes)
	}
	s.Close()
	if watch && wp.closes != 1 || watch && wc.closes != 1 {
		t.Fail("close", "closing both closed their providers %d and %d times", wp.closes, wc.closes)
	}
}

// caseProbe gives the i-th of some paths, the same ones at each call.
func caseProbe(t *T, u *universe, i int, pre, d string) string {
	k := u.keys[(i*7)%len(u.keys)]
	if pre != "" && strings.HasPrefix(k, pre+d) && i%2 == 0 {
		k = k[len(pre)+len(d):]
	}
	switch i % 4 {
	case 1:
		return k + d + "Zsub"
	case 2:
		if j := strings.LastIndex(k, d); j > 0 {
			return k[:j] + d + "Zsub" + k[j:]
		}
	}
	return k
}
