package main

import (
	"fmt"
	"math"
	"strings"
	"time"

	"github.com/hedzr/store"
	"github.com/hedzr/store/radix"
)

func init() {
	register(&Prop{
		ID:   "C01",
		Rule: "a case is a random sequence of writes and removals over a universe of prefix-sharing keys; after each operation its answer and several probed paths are compared with a flat-map model, at the end all keys; distinct = different operation sequences",
		Groups: []Group{
			{Name: "mixed", Quick: 16000, Thorough: 500000, Body: c01Mixed},
			{Name: "order", Quick: 4000, Thorough: 100000, Body: c01Order},
			{Name: "typed", Quick: 6000, Thorough: 150000, Body: c01Typed},
			{Name: "large", Quick: 60, Thorough: 1500, Body: c01Large},
			{Name: "dense", Quick: 4000, Thorough: 100000, Body: c01Dense},
		},
	})
}

func c01Mixed(t *T) {
	d := newDriver(t)
	ops := weighted("set", 6, "insert", 2, "setex", 2, "setnode", 1, "update", 2, "empty", 1, "remove", 3, "comment", 1, "tag", 1)
	n := t.Range(5, 60)
	d.run(n, ops, 3, func(i int) {
		if i%17 == 16 {
			d.auditLookups()
		}
	})
	d.auditLookups()
}

// c01Order: the same key set in another order (and with other keys having
// been there in between) gives the same answers.
func c01Order(t *T) {
	d := newDriver(t)
	vals := map[string]any{}
	for _, k := range d.u.keys {
		vals[k] = d.u.value(t)
	}
	d2 := &driver{t: t, s: newSut(t, d.u.delim), m: newModel(d.u.delim), u: d.u}
	for i, dd := range []*driver{d, d2} {
		ks := append([]string{}, d.u.keys...)
		shuffle(t, ks)
		for _, k := range ks {
			t.Op("#%d Set(%q, %s)", i, k, show(vals[k]))
			_, old := dd.s.Set(k, vals[k])
			dd.checkOld("Set", k, old, dd.m.set(k, vals[k]))
			if i == 1 && t.Chance(0.3) {
				x := k + "zz" // comes and goes
				dd.s.Set(x, 1)
				if !dd.s.Remove(x) {
					t.Fail("remove-false", "Remove(%q) of a live key returned false", x)
				}
				if _, ok := dd.m.m[x]; ok {
					delete(dd.m.m, x)
				}
				for _, b := range dd.m.below(x) {
					delete(dd.m.m, b)
				}
			}
		}
	}
	for _, k := range d2.m.keys() {
		checkPath(t, d.s, d.m, k, k)
	}
	for i := 0; i < 60; i++ {
		p := d.u.probe(t)
		if okKey(p, d.u.d) {
			checkPath(t, d.s, d.m, p, p)
			checkPath(t, d2.s, d2.m, p, p)
		}
	}
	d.auditLookups()
	d2.auditLookups()
}

// c01Dense: every string over a tiny alphabet is asked for after each write.
func c01Dense(t *T) {
	delim := '.'
	if t.Chance(0.3) {
		delim = pick(t, delims)
	}
	alpha := tinyAlpha(t, delim)
	alpha = append([]string{string(delim)}, alpha...)
	var all []string
	var rec func(p string, n int)
	rec = func(p string, n int) {
		if okKey(p, string(delim)) {
			all = append(all, p)
		}
		if n == 0 {
			return
		}
		for _, a := range alpha {
			rec(p+a, n-1)
		}
	}
	rec("", 4)
	u := &universe{delim: delim, d: string(delim), segs: alpha[1:], keys: all}
	d := &driver{t: t, s: newSut(t, delim), m: newModel(delim), u: u}
	ops := weighted("set", 5, "insert", 1, "setex", 1, "update", 1, "remove", 2)
	d.run(t.Range(3, 14), ops, 0, func(int) { d.auditLookups() })
}

// c01Large: many keys, wide fan-outs, deep paths and long segments.
func c01Large(t *T) {
	delim := pick(t, delims)
	u := &universe{delim: delim, d: string(delim), segs: []string{"k", "kk", "x1", "ß", "日本"}}
	seen := map[string]bool{}
	add := func(k string) {
		if okKey(k, u.d) && !seen[k] {
			seen[k] = true
			u.keys = append(u.keys, k)
		}
	}
	n := t.Range(200, 1500)
	for i := 0; i < n; i++ {
		switch t.Int(6) {
		case 0:
			add(fmt.Sprintf("wide%s%d", u.d, t.Int(2000)))
		case 1:
			add(fmt.Sprintf("w%c%s", rune(0x4e00+t.Int(300)), pick(t, u.segs)))
		case 2:
			add("deep" + strings.Repeat(u.d+"d", t.Range(1, 120)))
		case 3:
			add("long" + strings.Repeat("0123456789abcdef", t.Range(1, 60)) + u.d + fmt.Sprint(t.Int(9)))
		case 4:
			add(fmt.Sprintf("m%s%d%s%d%s%d", u.d, t.Int(9), u.d, t.Int(9), u.d, t.Int(9)))
		case 5:
			add(u.gen(t))
		}
	}
	d := &driver{t: t, s: newSut(t, delim), m: newModel(delim), u: u}
	d.populate(-1)
	d.auditLookups()
	d.run(300, weighted("set", 4, "remove", 1, "update", 1, "insert", 1, "setex", 1), 2, nil)
	d.auditLookups()
}

// typed trees

func c01Typed(t *T) {
	switch t.Int(7) {
	case 0:
		typedCase(t, func(i int) int { return i - 3 })
	case 1:
		typedCase(t, func(i int) string { return strings.Repeat("s", i%3) + fmt.Sprint(i) })
	case 2:
		typedCase(t, func(i int) point { return point{i, i * 2, "n"} })
	case 3:
		typedCase(t, func(i int) *point { return &point{X: i} })
	case 4:
		typedCase(t, func(i int) []byte { return []byte{byte(i), byte(i >> 8)} })
	case 5:
		typedCase(t, func(i int) float64 { return math.Sqrt(float64(i)) })
	case 6:
		typedCase(t, func(i int) time.Duration { return time.Duration(i) })
	}
}

func typedCase[V any](t *T, gen func(i int) V) {
	delim := pick(t, delims)
	u := newUniverse(t, delim)
	var zero V
	var s radix.Trie[V] = radix.NewTrieBy[V](delim)
	m := map[string]V{}
	md := newModel(delim) // classes only
	var ms store.MinimalStoreT[V]
	if delim == '.' && t.Chance(0.5) {
		ms = store.NewStoreT[V]()
	}
	t.Op("Trie[%T] delimiter %q", zero, string(delim))
	n := 0
	set := func(k string, v V) (old any) {
		if o, ok := m[k]; ok {
			old = o
		}
		m[k] = v
		md.set(k, 1)
		return
	}
	checkOld := func(op, k string, got, want any) {
		t.Ok(1)
		if !eq(got, want) {
			t.Fail("typed-old", "%s(%q) returned old data %s; want %s", op, k, show(got), show(want))
		}
	}
	check := func(p string) {
		if !okKey(p, u.d) {
			return
		}
		gv, gf := s.Get(p)
		mv := s.MustGet(p)
		qv, qb, qf, qe := s.Query(p, nil)
		has := s.Has(p)
		t.Ok(4)
		switch md.class(p) {
		case live:
			w := m[p]
			if !gf || !eq(gv, w) || !eq(mv, w) || !qf || qb || qe != nil || !eq(qv, w) || !has || !s.Search(p) {
				t.Fail("typed-live", "%q: Get=%v,%v MustGet=%v Query=%v,branch=%v,found=%v,%v Has=%v; want %v", p, gv, gf, mv, qv, qb, qf, qe, has, w)
			}
			if ms != nil {
				if v, ok := ms.Get(p); !ok || !eq(v, w) || !eq(ms.MustGet(p), w) || !ms.Has(p) {
					t.Fail("typed-min", "NewStoreT: Get(%q)=%v,%v; want %v", p, v, ok, w)
				}
			}
		case branchOnly:
			if !eq(gv, zero) || !eq(qv, zero) || qf && !qb {
				t.Fail("typed-branch", "%q is only a parent of keys: Get=%v Query=%v branch=%v", p, gv, qv, qb)
			}
		case absent:
			if gf || qf || has || !eq(gv, zero) || !eq(mv, zero) || !eq(qv, zero) || qe == nil {
				t.Fail("typed-absent", "%q is absent: Get=%v,%v MustGet=%v Query=%v,%v,%v Has=%v", p, gv, gf, mv, qv, qf, qe, has)
			}
			if ms != nil && ms.Has(p) {
				t.Fail("typed-min", "NewStoreT: Has(%q) of an absent key", p)
			}
		}
	}
	for i := t.Range(5, 40); i > 0; i-- {
		k := pick(t, u.keys)
		n++
		v := gen(n)
		ops := 7
		if ms != nil {
			ops = 3
		}
		switch t.Int(ops) {
		case 0, 1, 2:
			t.Op("Set(%q, %v)", k, v)
			want := set(k, v)
			nd, old := s.Set(k, v)
			checkOld("Set", k, old, want)
			if nd == nil || nd.Key() != k || !eq(nd.Data(), v) {
				t.Fail("typed-node", "Set(%q) returned a wrong node", k)
			}
			if ms != nil {
				_, old := ms.Set(k, v)
				checkOld("NewStoreT Set", k, old, want)
			}
		case 3:
			t.Op("Insert(%q, %v)", k, v)
			checkOld("Insert", k, s.Insert(k, v), set(k, v))
		case 4:
			t.Op("SetEx(%q, %v)", k, v)
			c := 0
			want := set(k, v)
			checkOld("SetEx", k, s.SetEx(k, v, func(path string, o any, nd radix.Node[V], tr radix.Trie[V]) {
				c++
				checkOld("SetEx callback", k, o, want)
			}), want)
			if c != 1 {
				t.Fail("typed-cb", "SetEx invoked its callback %d times", c)
			}
		case 5:
			t.Op("Remove(%q)", k)
			c := md.class(k)
			r := s.Remove(k)
			if r != (c == live) && c != branchOnly {
				t.Fail("typed-remove", "Remove(%q) = %v", k, r)
			}
			if r {
				md.remove(k)
				for x := range m {
					if md.m[x] == nil {
						delete(m, x)
					}
				}
			}
		case 6:
			t.Op("SetEmpty(%q)", k)
			checkOld("SetEmpty", k, s.SetEmpty(k), set(k, zero))
		}
		for j := 0; j < 4; j++ {
			check(u.probe(t))
		}
	}
	for _, k := range u.keys {
		check(k)
	}
}
