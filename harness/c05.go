package main

import (
	"fmt"
	"strings"

	"github.com/hedzr/store"
	"github.com/hedzr/store/radix"
)

func init() {
	register(&Prop{
		ID:   "C05",
		Rule: "a case makes nested prefixed views of one tree and performs operations through randomly chosen views; each answer is compared with the model at the joined full key, and the state is observed through the base and all other views; BR views are compared with a model of upward lookup; distinct = different operation sequences",
		Groups: []Group{
			{Name: "views", Quick: 8000, Thorough: 200000, Body: c05Views},
			{Name: "prefix", Quick: 6000, Thorough: 150000, Body: c05Prefix},
			{Name: "extract", Quick: 3000, Thorough: 80000, Body: c05Extract},
			{Name: "merge", Quick: 3000, Thorough: 80000, Body: c05Merge},
			{Name: "br", Quick: 6000, Thorough: 150000, Body: c05BR},
			{Name: "modes", Quick: 2000, Thorough: 50000, Body: c05Modes},
		},
	})
}

// newDriverMaybePrefixed has keys for a base store.
func (d *driver) viewOf(t *T) (v sut, pre string) {
	dl := d.u.d
	k := pick(t, d.u.keys)
	segs := strings.Split(k, dl)
	n := t.Range(1, len(segs))
	segs = segs[:n]
	pre = strings.Join(segs, dl)
	if t.Chance(0.1) {
		segs = []string{"new" + d.u.seg(t)}
		pre = segs[0]
		n = 1
	}
	switch t.Int(6) {
	case 0:
		v = view(d.s, pre)
	case 1:
		v = view(d.s, segs...)
	case 2:
		i := t.Range(0, n-1)
		v = view(view(d.s, segs[:i]...), segs[i:]...)
	case 3:
		v = viewReplaced(view(d.s, "elsewhere"), segs...)
	case 4:
		v = viewReplaced(d.s, pre)
	case 5:
		v = view(d.s)
		for _, s := range segs {
			v = view(v, s)
		}
	}
	return v, pre
}

func c05Views(t *T) {
	d := newDriver(t)
	d.populate(t.Range(0, 20))
	type vw struct {
		d *driver
	}
	views := []vw{{d}}
	for i := t.Range(1, 4); i > 0; i-- {
		v, pre := d.viewOf(t)
		t.Op("view %q", pre)
		if v.Prefix() != pre {
			t.Fail("prefix", "the view's Prefix() is %q; want %q", v.Prefix(), pre)
		}
		if v.Delimiter() != d.u.delim {
			t.Fail("delimiter", "the view's delimiter is %q", v.Delimiter())
		}
		if d.s.Prefix() != "" {
			t.Fail("base-prefix", "the original's prefix became %q", d.s.Prefix())
		}
		// keys relative to the view
		vu := &universe{delim: d.u.delim, d: d.u.d, segs: d.u.segs}
		for _, k := range d.u.keys {
			if r, ok := strings.CutPrefix(k, pre+d.u.d); ok {
				vu.keys = append(vu.keys, r)
			}
		}
		for j := 0; j < 5; j++ {
			if k := vu.gen(t); okKey(k, vu.d) {
				vu.keys = append(vu.keys, k)
			}
		}
		if len(vu.keys) == 0 {
			vu.keys = []string{"k"}
		}
		views = append(views, vw{&driver{t: t, s: v, m: d.m, u: vu, pre: pre + d.u.d}})
		for _, k := range vu.keys {
			d.u.keys = append(d.u.keys, pre+d.u.d+k)
		}
	}
	ops := weighted("set", 5, "insert", 1, "setex", 2, "setnode", 2, "update", 2, "empty", 1, "remove", 3, "removeex", 1, "comment", 2, "tag", 2)
	for i := t.Range(4, 30); i > 0; i-- {
		w := pick(t, views).d
		w.u.n = d.u.n
		t.Op("in view %q", w.pre)
		w.step(pick(t, ops))
		d.u.n = max(d.u.n, w.u.n)
		pick(t, views).d.probe()
		pick(t, views).d.probe()
	}
	for _, w := range views {
		w.d.auditLookups()
		w.d.auditMeta()
		w.d.m = d.m
		checkSnapshot(t, w.d.s, d.m, "view", true, false)
		// Locate and typed getters
		for i := 0; i < 5; i++ {
			k := pick(t, w.d.u.keys)
			n, br, pm, found := locate(w.d.s, k, nil)
			t.Ok(1)
			if e := d.m.m[w.d.full(k)]; e != nil {
				if !found || br || pm || n.Key() != w.d.full(k) || !eq(n.Data(), e.val) {
					t.Fail("locate", "Locate(%q) in the view %q: found=%v branch=%v partial=%v", k, w.d.pre, found, br, pm)
				}
				if z, ok := e.val.(string); ok && w.d.s.MustString(k, "default") != z {
					t.Fail("typed", "MustString(%q) in the view %q = %q; want %q", k, w.d.pre, w.d.s.MustString(k), z)
				}
				if z, ok := e.val.(int); ok && w.d.s.MustInt(k, -99) != z {
					t.Fail("typed", "MustInt(%q) in the view %q = %d; want %d", k, w.d.pre, w.d.s.MustInt(k), z)
				}
			} else if d.m.class(w.d.full(k)) == absent {
				if found {
					t.Fail("locate", "Locate(%q) in the view %q finds an absent key", k, w.d.pre)
				}
				if w.d.s.MustString(k, "default") != "default" || w.d.s.MustInt(k, -99) != -99 {
					t.Fail("typed", "the typed getters in the view %q don't return the default for %q", w.d.pre, k)
				}
			}
		}
	}
}

// c05Prefix: the algebra of prefixes.
func c05Prefix(t *T) {
	delim := pick(t, delims)
	dl := string(delim)
	s := newSut(t, delim)
	join := func(a ...string) string {
		var r []string
		for _, x := range a {
			if x != "" {
				r = append(r, x)
			}
		}
		return strings.Join(r, dl)
	}
	segs := []string{"a", "b", "ab", "é", "日本", "long-" + strings.Repeat("x", t.Range(1, 90)), "n" + dl + "m", "c", ""}
	type vw struct {
		s   sut
		pre string
	}
	vs := []vw{{s, ""}}
	vals := map[string]any{}
	for i := t.Range(2, 14); i > 0; i-- {
		x := t.Int(len(vs))
		v := vs[x]
		var args []string
		for j := t.Range(0, 3); j > 0; j-- {
			args = append(args, pick(t, segs))
		}
		switch t.Int(5) {
		case 0, 1:
			t.Op("#%d.WithPrefix(%q)", x, args)
			vs = append(vs, vw{view(v.s, args...), join(append([]string{v.pre}, args...)...)})
		case 2:
			t.Op("#%d.WithPrefixReplaced(%q)", x, args)
			vs = append(vs, vw{viewReplaced(v.s, args...), join(args...)})
		case 3:
			if x == 0 {
				continue
			}
			t.Op("#%d.SetPrefix(%q)", x, args)
			v.s.SetPrefix(args...)
			vs[x].pre = join(args...)
		case 4:
			k := fmt.Sprintf("k%d", t.Int(4))
			t.Op("#%d.Set(%q, %d)", x, k, i)
			full := join(v.pre, k)
			_, old := v.s.Set(k, i)
			if !eq(old, vals[full]) {
				t.Fail("old", "Set(%q) with prefix %q returned old data %v; want %v", k, v.pre, old, vals[full])
			}
			vals[full] = i
		}
		for y, w := range vs {
			t.Ok(1)
			if w.s.Prefix() != w.pre {
				t.Fail("prefix", "#%d.Prefix() = %q; want %q", y, w.s.Prefix(), w.pre)
			}
		}
	}
	for k, v := range vals {
		if got, ok := s.Get(k); !ok || got != v {
			t.Fail("base", "Get(%q) = %v, %v in the base; want %v", k, got, ok, v)
		}
		for y, w := range vs {
			r := k
			if w.pre != "" {
				var ok bool
				if r, ok = strings.CutPrefix(k, w.pre+dl); !ok {
					continue
				}
			}
			t.Ok(1)
			if got, ok := w.s.Get(r); !ok || got != v {
				t.Fail("view", "#%d (prefix %q) Get(%q) = %v, %v; want %v", y, w.pre, r, got, ok, v)
			}
		}
	}
	// a store created with a prefix
	p := join(pick(t, segs[:5]), pick(t, segs[:5]))
	st := store.New(store.WithDelimiter(delim), store.WithPrefix(p)).(sut)
	st.Set("k", 1)
	t.Ok(1)
	if st.Prefix() != p || viewReplaced(st).MustGet(p+dl+"k") != 1 || st.MustGet("k") != 1 {
		t.Fail("new-prefix", "a store made with prefix %q stores k elsewhere", p)
	}
}

func c05Extract(t *T) {
	d := newDriver(t)
	for _, k := range d.u.keys {
		d.u.n++
		var v any = d.u.n
		if t.Chance(0.3) {
			v = fmt.Sprint("s", d.u.n)
		}
		d.s.Set(k, v)
		d.m.set(k, v)
	}
	d.syncMod()
	for i := 0; i < 3; i++ {
		v, pre := d.viewOf(t)
		t.Op("view %q", pre)
		if d.m.class(pre) != absent {
			checkExtract(t, v, d.m, "", pre+d.u.d)
		}
		for _, k := range d.u.keys {
			if r, ok := strings.CutPrefix(k, pre+d.u.d); ok && t.Chance(0.5) {
				if j := strings.LastIndex(r, d.u.d); j > 0 && t.Chance(0.5) {
					r = r[:j]
				}
				if r == "(root)" {
					continue
				}
				t.Op("extract %q", r)
				checkExtract(t, v, d.m, r, pre+d.u.d)
			}
		}
	}
	checkSnapshot(t, d.s, d.m, "extract", true, true)
}

func c05Merge(t *T) {
	delim := pick(t, delims)
	u := newUniverse(t, delim)
	st := newStoreSut(delim)
	d := &driver{t: t, s: st, m: newModel(delim), u: u}
	d.populate(t.Range(0, 10))
	for i := t.Range(1, 4); i > 0; i-- {
		v, pre := d.viewOf(t)
		at := ""
		if t.Chance(0.6) {
			at = pick(t, u.keys)
		}
		data, flat := genTree(t, treeOpt{d: u.d, depth: 3})
		t.Op("view %q Merge(%q, %v)", pre, at, data)
		if err := v.Merge(at, data); err != nil {
			t.Fail("merge-err", "Merge(%q): %v", at, err)
		}
		base := pre
		if at != "" {
			base += u.d + at
		}
		for k, x := range flat {
			d.m.set(base+u.d+k, x)
		}
		checkSnapshot(t, d.s, d.m, "merge", true, false)
		for k := range flat {
			r := k
			if at != "" {
				r = at + u.d + k
			}
			checkPath(t, v, d.m, r, pre+u.d+r)
		}
	}
	d.auditLookups()
}

// brResolve is the model of upward lookup: the key itself, then the key at
// each ancestor below the top level.
func brResolve(m *model, p string) (full string, c int) {
	if c = m.class(p); c != absent {
		return p, c
	}
	a := strings.Split(p, m.d)
	for len(a) > 2 {
		a = append(append([]string{}, a[:len(a)-2]...), a[len(a)-1])
		w := strings.Join(a, m.d)
		if c = m.class(w); c != absent {
			return w, c
		}
	}
	return "", absent
}

func c05BR(t *T) {
	d := newDriver(t)
	// names repeated at several levels
	names := []string{"mid-name", "mid", "name", d.u.seg(t)}
	var extra []string
	for _, k := range d.u.keys {
		if t.Chance(0.5) {
			extra = append(extra, k+d.u.d+pick(t, names))
		}
		if i := strings.LastIndex(k, d.u.d); i > 0 && t.Chance(0.5) {
			extra = append(extra, k[:i]+d.u.d+pick(t, names))
		}
	}
	for _, k := range extra {
		if okKey(k, d.u.d) {
			d.u.keys = append(d.u.keys, k)
		}
	}
	d.populate(t.Range(1, len(d.u.keys)))
	var v sut
	pre := ""
	if t.Chance(0.4) {
		v, pre = d.viewOf(t)
		pre += d.u.d
		v = modeView(v, "BR")
	} else {
		v = modeView(d.s, "BR")
	}
	t.Op("BR view, prefix %q", pre)
	for i := 0; i < 25; i++ {
		var p string
		k := pick(t, d.u.keys)
		switch t.Int(3) {
		case 0:
			p = k + d.u.d + pick(t, names)
		case 1:
			p = k + d.u.d + d.u.seg(t) + d.u.d + pick(t, names)
		case 2:
			p = d.u.probe(t)
		}
		if pre != "" {
			var ok bool
			if p, ok = strings.CutPrefix(p, pre); !ok {
				continue
			}
		}
		if !okKey(p, d.u.d) {
			continue
		}
		full := pre + p
		w, c := brResolve(d.m, full)
		if c == branchOnly {
			continue // existence of a pure parent isn't specified
		}
		t.Op("ask %q", p)
		g, gf := v.Get(p)
		q, _, qf, _ := v.Query(p, nil)
		_, _, _, lf := locate(v, p, nil)
		h := v.Has(p)
		var exk string
		v.GetEx(p, func(n radix.Node[any], data any, b bool, kv radix.KVPair) { exk = n.Key() })
		t.Ok(6)
		if c == live {
			e := d.m.m[w]
			if !gf || !qf || !lf || !h || !eq(g, e.val) || !eq(q, e.val) || !eq(v.MustGet(p), e.val) || exk != w {
				t.Fail("br-live", "BR lookup of %q (prefix %q): Get=%s,%v Query found=%v Locate found=%v Has=%v GetEx key=%q; want the value %s of %q", p, pre, show(g), gf, qf, lf, h, exk, show(e.val), w)
			}
			if z, ok := e.val.(string); ok && v.MustString(p) != z {
				t.Fail("br-typed", "BR MustString(%q) = %q; want %q", p, v.MustString(p), z)
			}
			t.Count(map[bool]string{true: "resolved at itself", false: "resolved at an ancestor"}[w == full], 1)
		} else if gf || qf || lf || h || g != nil {
			t.Fail("br-absent", "BR lookup of %q (prefix %q) finds %s", p, pre, show(g))
		}
	}
	// changes act on the exact key only
	for i := t.Range(1, 8); i > 0; i-- {
		k := pick(t, d.u.keys) + d.u.d + pick(t, names)
		if pre != "" {
			var ok bool
			if k, ok = strings.CutPrefix(k, pre); !ok {
				continue
			}
		}
		full := pre + k
		c := d.m.class(full)
		if c == branchOnly {
			continue
		}
		d.u.n++
		val := d.u.n
		switch t.Int(6) {
		case 0:
			t.Op("BR Set(%q, %d)", k, val)
			_, old := v.Set(k, val)
			if o := d.m.set(full, val); !eq(old, o) {
				t.Fail("br-set-old", "BR Set(%q) returned old data %s; want %s", k, show(old), show(o))
			}
		case 1:
			t.Op("BR Remove(%q)", k)
			if r := v.Remove(k); r != (c == live) {
				t.Fail("br-remove", "BR Remove(%q) = %v; want %v", k, r, c == live)
			}
			d.m.remove(full)
		case 2:
			t.Op("BR SetTag(%q)", k)
			if r := v.SetTag(k, val); r != (c == live) {
				t.Fail("br-settag", "BR SetTag(%q) = %v; want %v", k, r, c == live)
			}
			if c == live {
				d.m.m[full].tag = val
			}
		case 3:
			t.Op("BR SetComment(%q)", k)
			if r := v.SetComment(k, "d", "c"); r != (c == live) {
				t.Fail("br-setcomment", "BR SetComment(%q) = %v; want %v", k, r, c == live)
			}
			if c == live {
				d.m.m[full].desc, d.m.m[full].comment = "d", "c"
			}
		case 4:
			t.Op("BR Update(%q)", k)
			n := 0
			d.m.set(full, val)
			v.Update(k, func(nd radix.Node[any], old any) { n++; nd.SetData(val) })
			if n != 1 {
				t.Fail("br-update", "BR Update(%q) called back %d times", k, n)
			}
		case 5:
			if c == absent {
				t.Op("BR SetTTL(%q)", k)
				if r := v.SetTTL(k, 1<<40, nil); r != -1 {
					t.Fail("br-setttl", "BR SetTTL(%q) on an absent key = %d", k, r)
				}
			}
		}
		t.Ok(1)
		checkSnapshot(t, d.s, d.m, "br", true, false)
	}
	// the original isn't recursive
	for i := 0; i < 10; i++ {
		d.probe()
	}
}

func c05Modes(t *T) {
	d := newDriver(t)
	d.populate(t.Range(1, 20))
	modes := []string{"N", "R", "BR"}
	cur := d.s
	want := radix.RecusiveNone
	rm := func(s sut) radix.RecusiveMode {
		return s.(interface{ RecursiveMode() radix.RecusiveMode }).RecursiveMode()
	}
	for i := t.Range(1, 5); i > 0; i-- {
		md := pick(t, modes)
		t.Op("%s()", md)
		nx := modeView(cur, md)
		t.Ok(1)
		if rm(cur) != want {
			t.Fail("mode-original", "%s() changed the original's mode to %v", md, rm(cur))
		}
		want = map[string]radix.RecusiveMode{"N": radix.RecusiveNone, "R": radix.RecusiveDown, "BR": radix.RecusiveUp}[md]
		if rm(nx) != want {
			t.Fail("mode", "%s() made a store with mode %v", md, rm(nx))
		}
		cur = nx
		if t.Chance(0.4) {
			k := pick(t, d.u.keys)
			v := d.u.value(t)
			t.Op("Set(%q, %s)", k, show(v))
			cur.Set(k, v)
			d.m.set(k, v)
		}
		if t.Chance(0.3) {
			x := view(cur, "p", "q")
			if rm(x) != want || x.Prefix() != "p"+d.u.d+"q" {
				t.Fail("mode-view", "the mode of a prefixed view is %v, prefix %q", rm(x), x.Prefix())
			}
		}
		for _, k := range d.u.keys {
			if d.m.m[k] != nil {
				checkPath(t, cur, d.m, k, k)
			}
		}
	}
	d.auditLookups()
	checkSnapshot(t, cur, d.m, "mode", true, false)
}
