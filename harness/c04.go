package main

import (
	"fmt"
	"hash/fnv"
	"strings"

	"github.com/hedzr/store"
	"github.com/hedzr/store/radix"
)

func isNotFound(err error) bool { return store.ErrorIsNotFound(err) }

func init() {
	register(&Prop{
		ID:   "C04",
		Rule: "a case builds a tree by writes and removals and extracts the whole tree and many paths (keys, parents, cut keys, absent ones) by GetM/MustM with all option combinations, GetR/MustR, Walk and To/GetSectionFrom; each result is flattened and compared with the keys of the model at or below that path; the results are then overwritten and the tree is compared again; distinct = different operation sequences",
		Groups: []Group{
			{Name: "extract", Quick: 9000, Thorough: 250000, Body: c04Extract},
			{Name: "dense", Quick: 3000, Thorough: 80000, Body: c04Dense},
			{Name: "struct", Quick: 3000, Thorough: 60000, Body: c04Struct},
			{Name: "large", Quick: 40, Thorough: 800, Body: c04Large},
			{Name: "typed", Quick: 2000, Thorough: 40000, Body: c04Typed},
		},
		Assumptions: []string{
			"extracting a path which is a key itself and has a child named like its own last segment is not generated for GetM (both have the same relative key)",
			"values in these workloads are no map[string]any where nested results are compared, so that a nested result is unambiguous",
		},
	})
}

// flatten turns a nested map into a flat one.
func flatten(t *T, m map[string]any, d string) map[string]any {
	r := map[string]any{}
	var rec func(p string, m map[string]any)
	rec = func(p string, m map[string]any) {
		for k, v := range m {
			if sub, ok := v.(map[string]any); ok {
				if len(sub) == 0 {
					t.Fail("empty-submap", "the result has an empty sub-map at %q", p+k)
				}
				rec(p+k+d, sub)
				continue
			}
			if _, dup := r[p+k]; dup {
				t.Fail("dup-key", "the result has the key %q twice", p+k)
			}
			r[p+k] = v
		}
	}
	rec("", m)
	return r
}

func diffMaps(got, want map[string]any) string {
	for _, k := range sortedKeys(want) {
		g, ok := got[k]
		if !ok {
			return fmt.Sprintf("%q is missing (want %s)", k, show(want[k]))
		}
		if !eq(g, want[k]) {
			return fmt.Sprintf("%q is %s; want %s", k, show(g), show(want[k]))
		}
	}
	for _, k := range sortedKeys(got) {
		if _, ok := want[k]; !ok {
			return fmt.Sprintf("%q (%s) is unexpected", k, show(got[k]))
		}
	}
	return ""
}

func (m *model) lastSeg(p string) string {
	if i := strings.LastIndex(p, m.d); i >= 0 {
		return p[i+len(m.d):]
	}
	return p
}

// within returns the keys at or below p (p=="": all).
func (m *model) within(p string) map[string]any {
	r := map[string]any{}
	for k, e := range m.m {
		if p == "" || k == p || strings.HasPrefix(k, p+m.d) {
			r[k] = e.val
		}
	}
	return r
}

// rel makes keys relative to p.
func (m *model) rel(in map[string]any, p string) (out map[string]any, ambiguous bool) {
	out = map[string]any{}
	for k, v := range in {
		r := k
		if p != "" {
			if k == p {
				r = m.lastSeg(k)
			} else {
				r = strings.TrimPrefix(k, p+m.d)
			}
		}
		if _, dup := out[r]; dup {
			ambiguous = true
		}
		out[r] = v
	}
	return
}

func hashKey(k string, salt int) uint32 {
	h := fnv.New32a()
	fmt.Fprintf(h, "%d|%s", salt, k)
	return h.Sum32()
}

func noMaps(v any) any {
	if m, ok := v.(map[string]any); ok {
		return map[string]int{"n": m["n"].(int)}
	}
	return v
}

// checkExtract extracts path p (relative to the view s, whose keys have the
// prefix pre in the model) in many ways.
func checkExtract(t *T, s sut, m *model, p, pre string) {
	if p == "(root)" || p == "." {
		return // these are the whole tree
	}
	base := pre + p
	if p == "" {
		base = strings.TrimSuffix(pre, m.d)
	}
	in := m.within(base)
	rel, amb := m.rel(in, base)
	if p == "" && base != "" { // the whole view: the prefix itself isn't below it
		delete(in, base)
		rel, amb = m.rel(in, base)
	}

	// GetR
	r, err := s.GetR(p)
	t.Ok(1)
	if err != nil {
		t.Fail("getr-err", "GetR(%q): %v", p, err)
	}
	want := in
	if p == "" {
		want = m.within("")
	}
	if df := diffMaps(r, want); df != "" {
		t.Fail("getr", "GetR(%q): %s", p, df)
	}
	if df := diffMaps(s.MustR(p), want); df != "" {
		t.Fail("mustr", "MustR(%q): %s", p, df)
	}
	for k := range r {
		r[k] = "overwritten"
	}
	if r != nil {
		r["zz"] = 1
	}

	// GetM with options
	salt := t.Int(1000)
	mode := t.Int(3)
	filter := func(n radix.Node[any]) bool {
		switch mode {
		case 0:
			return hashKey(n.Key(), salt)%2 == 0
		case 1:
			_, ok := n.Data().(string)
			return ok
		}
		return n.Modified()
	}
	keep := func(k string, v any) bool {
		switch mode {
		case 0:
			return hashKey(k, salt)%2 == 0
		case 1:
			_, ok := v.(string)
			return ok
		}
		return m.m[k].mod
	}
	for o := 0; o < 8; o++ {
		var opts []radix.MOpt[any]
		kp, wf, nf := o&1 != 0, o&2 != 0, o&4 != 0
		src := in
		if kp && p == "" {
			src = m.within("")
		}
		if wf {
			flt := map[string]any{}
			for k, v := range src {
				if keep(k, v) {
					flt[k] = v
				}
			}
			src = flt
			opts = append(opts, store.WithFilter(filter))
		}
		if kp {
			opts = append(opts, store.WithKeepPrefix[any](true))
		}
		if nf {
			opts = append(opts, store.WithoutFlattenKeys[any](true))
		}
		if t.Chance(0.3) && len(opts) > 1 {
			shuffle(t, opts)
		}
		want := src
		if !kp {
			var collide bool
			if want, collide = m.rel(src, base); collide {
				continue
			}
		}
		g, err := s.GetM(p, opts...)
		t.Ok(1)
		if err != nil {
			t.Fail("getm-err", "GetM(%q) keep=%v filter=%v noflatten=%v: %v", p, kp, wf, nf, err)
		}
		var fl map[string]any
		if p == "" && !nf {
			fl = g // it's flat
		} else {
			fl = flatten(t, g, m.d)
		}
		if df := diffMaps(fl, want); df != "" {
			t.Fail("getm", "GetM(%q) keepPrefix=%v filter=%v noFlatten=%v: %s", p, kp, wf, nf, df)
		}
		if nf {
			checkNested(t, g, want, m.d)
		}
		if o%3 == 0 {
			g2 := s.MustM(p, opts...)
			if p != "" || nf {
				g2 = flatten(t, g2, m.d)
			}
			if df := diffMaps(g2, want); df != "" {
				t.Fail("mustm", "MustM(%q) keepPrefix=%v filter=%v noFlatten=%v: %s", p, kp, wf, nf, df)
			}
		}
		overwrite(g)
	}

	// To / GetSectionFrom into a map
	if !amb && len(rel) > 0 {
		h := map[string]any{}
		var err error
		if t.Chance(0.5) {
			err = s.To(p, &h)
		} else {
			err = s.GetSectionFrom(p, &h)
		}
		t.Ok(1)
		if err != nil {
			t.Fail("to-err", "To(%q): %v", p, err)
		}
		if df := diffMaps(flatten(t, h, m.d), rel); df != "" {
			t.Fail("to", "To(%q, &map): %s", p, df)
		}
		overwrite(h)
	}
}

// checkNested: a key is split unless a parent of it is a value.
func checkNested(t *T, g map[string]any, want map[string]any, d string) {
	checkNestedAt(t, g, want, d, "")
}

func checkNestedAt(t *T, g map[string]any, want map[string]any, d, pre string) {
	for k, v := range g {
		if sub, ok := v.(map[string]any); ok {
			checkNestedAt(t, sub, want, d, pre+k+d)
		}
		i := strings.Index(k, d)
		if i <= 0 {
			continue
		}
		full, conflict := pre+k, false
		for j := len(pre) + i; j >= 0; {
			if _, ok := want[full[:j]]; ok {
				conflict = true
			}
			n := strings.Index(full[j+len(d):], d)
			if n < 0 {
				break
			}
			j += len(d) + n
		}
		if !conflict {
			t.Fail("not-nested", "the nested map has the compound key %q below %q", k, pre)
		}
	}
}

func overwrite(m map[string]any) {
	if m == nil {
		return
	}
	for k, v := range m {
		if sub, ok := v.(map[string]any); ok {
			overwrite(sub)
			sub["added"] = 1
			continue
		}
		m[k] = "overwritten"
	}
	m["zz"] = 1
}

func (d *driver) noMapValues() {
	// replace the map[string]any values
	for k, e := range d.m.m {
		if _, ok := e.val.(map[string]any); ok {
			v := noMaps(e.val)
			d.s.Set(strings.TrimPrefix(k, d.pre), v)
			e.val = v
		}
	}
}

func (d *driver) syncMod() {
	for k, e := range snapshot(d.t, d.s) {
		if me := d.m.m[k]; me != nil {
			me.mod = e.mod
		}
	}
}

func c04Walk(t *T, d *driver) { c04WalkFrom(t, d, "") }

// c04WalkFrom walks from a path (or its parent node): all keys at or below the
// path are to be visited, others may be.
func c04WalkFrom(t *T, d *driver, from string) {
	seen := map[string]bool{}
	d.s.Walk(from, func(path, fragment string, n radix.Node[any]) {
		if n.IsBranch() {
			return
		}
		if path != n.Key() || fragment != n.KeyPiece() || !strings.HasSuffix(path, fragment) || fragment == "" || !n.IsLeaf() {
			t.Fail("walk-args", "Walk reports path=%q fragment=%q for the node %q (%q)", path, fragment, n.Key(), n.KeyPiece())
		}
		rs := []rune(fragment)
		if n.HasData() == n.Empty() || !n.StartsWith(rs[0]) || !n.EndsWith(rs[len(rs)-1]) || n.StartsWith(rs[0]+1) || n.EndsWith(rs[len(rs)-1]+1) {
			t.Fail("walk-node", "the node %q: HasData=%v Empty=%v, or StartsWith/EndsWith are wrong for %q", path, n.HasData(), n.Empty(), fragment)
		}
		if seen[path] {
			t.Fail("walk-twice", "Walk visits %q twice", path)
		}
		seen[path] = true
		e := d.m.m[path]
		if e == nil || !eq(n.Data(), e.val) {
			t.Fail("walk-data", "Walk reports %q = %s", path, show(n.Data()))
		}
	})
	t.Ok(1 + len(seen))
	if from != "" {
		for k := range d.m.within(strings.TrimSuffix(from, d.m.d)) {
			if k != strings.TrimSuffix(from, d.m.d) && !seen[k] || k == from && !seen[k] {
				t.Fail("walk-from", "Walk(%q) does not visit %q", from, k)
			}
		}
		// the keys part right behind the delimiter: there is a node to start from
		if b := strings.TrimSuffix(from, d.m.d); b != from && b != "" && !strings.HasSuffix(b, d.m.d) {
			next := map[rune]bool{}
			for k := range d.m.m {
				if strings.HasPrefix(k, from) && k != from {
					next[[]rune(k[len(from):])[0]] = true
				}
			}
			if len(next) > 1 {
				for k := range seen {
					if !strings.HasPrefix(k, from) {
						t.Fail("walk-beyond", "Walk(%q) visits %q", from, k)
					}
				}
				t.Ok(len(seen))
				t.Count("walks of a subtree", 1)
			}
		}
		t.Count("walks from a path", 1)
		return
	}
	if len(seen) != len(d.m.m) {
		t.Fail("walk-missing", "Walk visits %d keys of %d", len(seen), len(d.m.m))
	}
}

func c04Extract(t *T) {
	d := newDriver(t)
	ops := weighted("set", 8, "setnode", 1, "setex", 1, "update", 1, "remove", 2)
	d.run(t.Range(2, 30), ops, 0, nil)
	if t.Chance(0.15) { // map values: only flat results
		c04Walk(t, d)
		g, _ := d.s.GetM("")
		if df := diffMaps(g, d.m.flat()); df != "" {
			t.Fail("getm", "GetM(\"\"): %s", df)
		}
		g, _ = d.s.GetR("")
		if df := diffMaps(g, d.m.flat()); df != "" {
			t.Fail("getr", "GetR(\"\"): %s", df)
		}
		t.Ok(2)
	}
	d.noMapValues()
	if t.Chance(0.3) { // plain values only, so that To can be compared
		for k := range d.m.m {
			d.u.n++
			d.s.Set(k, d.u.n)
			d.m.set(k, d.u.n)
		}
	}
	d.syncMod()
	c04Walk(t, d)
	checkExtract(t, d.s, d.m, "", "")
	for i := 0; i < 8; i++ {
		p := d.u.probe(t)
		if !okKey(p, d.u.d) || p == "(root)" || p == "." {
			continue
		}
		t.Op("extract %q", p)
		checkExtract(t, d.s, d.m, p, "")
		c04WalkFrom(t, d, p)
		c04WalkFrom(t, d, p+d.m.d)
		if d.m.class(p) == absent {
			def := map[string]any{"d": 1}
			r, _ := d.s.GetR(p, def)
			t.Ok(1)
			if len(r) != 0 && !eq(r, def) {
				t.Fail("getr-default", "GetR(%q, default) on an absent path: %v", p, r)
			}
		}
	}
	checkSnapshot(t, d.s, d.m, "extract", true, true)
}

func c04Dense(t *T) {
	delim := pick(t, delims)
	u := &universe{delim: delim, d: string(delim), segs: pick(t, [][]string{{"a", "b"}, {"é", "è", "a"}, {"ab", "a", "abc"}})}
	if t.Chance(0.4) {
		u.segs = tinyAlpha(t, delim)
	}
	seen := map[string]bool{}
	for i := 0; i < 40 && len(u.keys) < 10; i++ {
		if k := u.gen(t); okKey(k, u.d) && !seen[k] && len(k) < 14 {
			seen[k] = true
			u.keys = append(u.keys, k)
		}
	}
	d := &driver{t: t, s: newSut(t, delim), m: newModel(delim), u: u}
	for _, k := range u.keys {
		u.n++
		t.Op("Set(%q, %d)", k, u.n)
		d.s.Set(k, u.n)
		d.m.set(k, u.n)
	}
	d.syncMod()
	paths := map[string]bool{"": true}
	for _, k := range u.keys {
		rs := []rune(k)
		for i := 1; i <= len(rs); i++ {
			if p := string(rs[:i]); okKey(p, u.d) {
				paths[p] = true
			}
		}
	}
	for _, p := range sortedKeys(paths) {
		checkExtract(t, d.s, d.m, p, "")
	}
	checkSnapshot(t, d.s, d.m, "extract", true, true)
}

func c04Large(t *T) {
	delim := pick(t, delims)
	u := &universe{delim: delim, d: string(delim), segs: []string{"k", "kk", "x1", "日本"}}
	d := &driver{t: t, s: newSut(t, delim), m: newModel(delim), u: u}
	n := t.Range(300, 2000)
	for i := 0; i < n; i++ {
		k := fmt.Sprintf("g%d%ss%d%sk%d", t.Int(4), u.d, t.Int(20), u.d, t.Int(400))
		switch r := t.Int(20); {
		case r < 2:
			k = "deep" + strings.Repeat(u.d+"n", t.Range(1, 60))
		case r < 4:
			k = "lone" + strings.Repeat(u.d+fmt.Sprint("n", t.Int(9)), t.Range(1, 40)) + u.d + "leaf"
		}
		d.s.Set(k, i)
		d.m.set(k, i)
	}
	t.Op("%d keys", n)
	d.u.keys = d.m.keys()
	d.syncMod()
	c04Walk(t, d)
	for _, p := range []string{"", "g0", "g1", "g0" + u.d + "s1", "g0" + u.d + "s", "deep", "deep" + u.d + "n", "lone", "g"} {
		checkExtract(t, d.s, d.m, p, "")
	}
	checkSnapshot(t, d.s, d.m, "extract", true, true)
}

type cfgSub struct {
	Alpha int
	Beta  string
}

type cfgHolder struct {
	Name  string
	Port  int
	Debug bool
	Ratio float64
	Big   int64
	Words []string
	Sub   cfgSub
}

// c04Struct extracts a section into a struct.
func c04Struct(t *T) {
	s := newSut(t, '.')
	pre := pick(t, []string{"app", "app.server", "a.b.c", "é.x", "app.conf"})
	d := 0
	next := func() int { d++; return t.Range(1, 1000)*100 + d }
	var want cfgHolder
	noise := func() {
		switch t.Int(6) {
		case 0:
			s.Set(pre+"x.Name", "WRONG")
		case 1:
			s.Set(pre[:1]+".Name", "WRONG")
		case 2:
			s.Set("Name", "WRONG")
		case 3:
			s.Set(pre+"Name", "WRONG")
		case 4:
			s.Set("other.Sub.Alpha", -1)
		}
	}
	set := func(k string, v any) {
		noise()
		t.Op("Set(%q, %v)", pre+"."+k, v)
		s.Set(pre+"."+k, v)
	}
	steps := []func(){
		func() { want.Name = fmt.Sprint("n", next()); set("Name", want.Name) },
		func() { want.Port = next(); set("Port", want.Port) },
		func() { want.Debug = true; set("Debug", true) },
		func() { want.Ratio = float64(next()) / 8; set("Ratio", want.Ratio) },
		func() { want.Big = int64(next()) << 32; set("Big", want.Big) },
		func() {
			want.Words = []string{"a", fmt.Sprint(next())}
			set("Words", append([]string{}, want.Words...))
		},
		func() { want.Sub.Alpha = next(); set("Sub.Alpha", want.Sub.Alpha) },
		func() { want.Sub.Beta = fmt.Sprint("b", next()); set("Sub.Beta", want.Sub.Beta) },
	}
	shuffle(t, steps)
	n := t.Range(1, len(steps))
	for _, f := range steps[:n] {
		f()
	}
	before := s.Dump()
	var got cfgHolder
	var err error
	switch t.Int(4) {
	case 0:
		err = s.To(pre, &got)
	case 1:
		err = s.GetSectionFrom(pre, &got)
	case 2:
		if z, ok := s.(store.Store); ok {
			err = store.To(z, pre, &got)
		} else {
			err = s.To(pre, &got)
		}
	case 3:
		seg := strings.SplitN(pre, ".", 2)
		if len(seg) == 2 {
			err = view(s, seg[0]).To(seg[1], &got)
		} else {
			err = s.To(pre, &got)
		}
	}
	t.Ok(1)
	if err != nil || !eq(got, want) {
		t.Fail("to-struct", "To(%q): %v\ngot  %+v\nwant %+v", pre, err, got, want)
	}
	if s.Dump() != before {
		t.Fail("to-modifies", "To changed the tree")
	}
}

func c04Typed(t *T) {
	delim := pick(t, delims)
	u := newUniverse(t, delim)
	var s radix.Trie[int] = radix.NewTrieBy[int](delim)
	m := newModel(delim)
	for i, k := range u.keys {
		s.Set(k, i)
		m.set(k, i)
	}
	for i := 0; i < 6; i++ {
		p := ""
		if i > 0 {
			p = u.probe(t)
			if !okKey(p, u.d) || p == "(root)" || p == "." {
				continue
			}
		}
		t.Op("extract %q", p)
		in := m.within(p)
		r, err := s.GetR(p)
		t.Ok(2)
		if df := diffMaps(r, in); df != "" || err != nil {
			t.Fail("getr-typed", "Trie[int].GetR(%q): %s %v", p, df, err)
		}
		rel, amb := m.rel(in, p)
		g, err := s.GetM(p)
		if p != "" {
			g = flatten(t, g, m.d)
		}
		if df := diffMaps(g, rel); !amb && (df != "" || err != nil) {
			t.Fail("getm-typed", "Trie[int].GetM(%q): %s %v", p, df, err)
		}
	}
}
