package main

import (
	"fmt"
	"strings"

	"github.com/hedzr/store/radix"
)

func init() {
	register(&Prop{
		ID:   "C02",
		Rule: "a case builds a tree of prefix-sharing keys with metadata and removes keys, parents and absent paths in between further writes; after each removal everything Walk reports and the lookups of all keys are compared with the model; distinct = different operation sequences",
		Groups: []Group{
			{Name: "removals", Quick: 9000, Thorough: 250000, Body: c02Removals},
			{Name: "dense", Quick: 5000, Thorough: 120000, Body: c02Dense},
			{Name: "drain", Quick: 3000, Thorough: 80000, Body: c02Drain},
			{Name: "typed", Quick: 3000, Thorough: 60000, Body: c02Typed},
			{Name: "wide", Quick: 300, Thorough: 6000, Body: c02Wide},
		},
	})
	register(&Prop{
		ID:   "C03",
		Rule: "a case builds a tree by writes and removals and asks for paths of all kinds (keys, cut keys, extended keys, parents, removed keys, odd delimiters) with every lookup API; the answers must agree with each other and with the model, and the tree must be the same afterwards; distinct = different operation sequences",
		Groups: []Group{
			{Name: "agree", Quick: 9000, Thorough: 250000, Body: c03Agree},
			{Name: "dense", Quick: 4000, Thorough: 100000, Body: c03Dense},
			{Name: "odd", Quick: 4000, Thorough: 100000, Body: c03Odd},
			{Name: "drained", Quick: 3000, Thorough: 80000, Body: c03Drained},
		},
	})
	register(&Prop{
		ID:   "C06",
		Rule: "a case interleaves value writes, metadata writes, callbacks, splits and removals; description, comment and tag of all keys are compared with the model by the getters and by Walk; distinct = different operation sequences",
		Groups: []Group{
			{Name: "meta", Quick: 12000, Thorough: 300000, Body: c06Meta},
			{Name: "splits", Quick: 4000, Thorough: 100000, Body: c06Splits},
			{Name: "absent", Quick: 4000, Thorough: 100000, Body: c06Absent},
			{Name: "load", Quick: 3000, Thorough: 60000, Body: c06Load},
		},
	})
}

var metaOps = weighted("set", 4, "setnode", 3, "setex", 2, "update", 2, "comment", 3, "tag", 3, "empty", 1, "insert", 1)

func c02Removals(t *T) {
	d := newDriver(t)
	d.run(t.Range(3, 30), metaOps, 0, nil)
	for i := t.Range(1, 14); i > 0; i-- {
		if t.Chance(0.3) {
			d.run(t.Range(1, 4), metaOps, 0, nil)
			continue
		}
		d.step(pick(t, []string{"remove", "removeex"}))
		checkSnapshot(t, d.s, d.m, "remove", true, false)
		d.auditLookups()
		d.probe()
	}
	d.auditMeta()
	// the removed ones can be set again as new keys
	for _, k := range d.u.keys {
		if d.m.m[k] == nil && t.Chance(0.5) {
			d.u.n++
			t.Op("Set(%q, %d) again", k, d.u.n)
			_, old := d.s.Set(k, d.u.n)
			d.checkOld("Set", k, old, d.m.set(k, d.u.n))
		}
	}
	checkSnapshot(t, d.s, d.m, "reset", true, false)
	d.auditLookups()
}

// c02Dense: small trees over a tiny alphabet, one removal of each path.
func c02Dense(t *T) {
	delim := pick(t, delims)
	alpha := pick(t, [][]string{{"a", "b"}, {"é", "è"}, {"ab", "a"}, {"日", "日本"}})
	if t.Chance(0.4) {
		alpha = tinyAlpha(t, delim)
	}
	u := &universe{delim: delim, d: string(delim), segs: alpha}
	seen := map[string]bool{}
	for i := 0; i < 30; i++ {
		k := u.gen(t)
		if okKey(k, u.d) && !seen[k] && len([]rune(k)) < 9 {
			seen[k] = true
			u.keys = append(u.keys, k)
		}
	}
	if len(u.keys) < 2 {
		u.keys = []string{"a", "ab"}
	}
	d := &driver{t: t, s: newSut(t, delim), m: newModel(delim), u: u}
	d.populate(t.Range(2, 8))
	for i := t.Range(1, 5); i > 0; i-- {
		k := u.probe(t)
		if !okKey(k, u.d) {
			continue
		}
		d.remove(k, t.Chance(0.3))
		checkSnapshot(t, d.s, d.m, "remove", true, false)
		d.auditLookups()
		if t.Chance(0.3) {
			d.step("set")
		}
	}
}

// c02Drain removes every key one by one, then nothing is left.
func c02Drain(t *T) {
	d := newDriver(t)
	d.populate(-1)
	ks := append([]string{}, d.u.keys...)
	shuffle(t, ks)
	for _, k := range ks {
		d.remove(k, t.Chance(0.5))
		if t.Chance(0.3) {
			checkSnapshot(t, d.s, d.m, "drain", true, false)
		}
	}
	checkSnapshot(t, d.s, d.m, "drain", true, false)
	if len(d.m.m) != 0 {
		panic("harness")
	}
	d.auditLookups()
	for _, k := range ks {
		if d.s.Remove(k) {
			t.Fail("remove-again", "Remove(%q) on an empty tree returned true", k)
		}
		if p := strings.LastIndex(k, d.u.d); p > 0 && d.s.Has(k[:p]) {
			t.Fail("parent-left", "Has(%q) on an empty tree", k[:p])
		}
	}
	d.populate(-1)
	d.auditLookups()
}

func c02Typed(t *T) {
	delim := pick(t, delims)
	u := newUniverse(t, delim)
	var s radix.Trie[string] = radix.NewTrieBy[string](delim)
	m := newModel(delim)
	for _, k := range u.keys {
		v := fmt.Sprint("v-", k)
		s.Set(k, v)
		m.set(k, v)
	}
	for i := t.Range(1, 8); i > 0; i-- {
		k := pick(t, u.keys)
		t.Op("Remove(%q)", k)
		c := m.class(k)
		r := s.Remove(k)
		if r != (c == live) && c != branchOnly {
			t.Fail("typed-remove", "Remove(%q) = %v", k, r)
		}
		if r {
			m.remove(k)
		}
		for _, x := range u.keys {
			v, ok := s.Get(x)
			t.Ok(1)
			if e := m.m[x]; e != nil {
				if !ok || v != e.val {
					t.Fail("typed-survivor", "after Remove(%q): Get(%q) = %q, %v; want %v", k, x, v, ok, e.val)
				}
			} else if m.class(x) == absent && (ok || s.Has(x)) {
				t.Fail("typed-gone", "after Remove(%q): %q is still there", k, x)
			}
		}
	}
}

//
// C03
//

// agree asks all lookups for p.
func agree(t *T, s sut, m *model, p string) {
	_, branch, partial, lf := locate(s, p, nil)
	_, qb, qf, qerr := s.Query(p, nil)
	_, gf := s.Get(p)
	has, search := s.Has(p), s.Search(p)
	ex := false
	s.GetEx(p, func(radix.Node[any], any, bool, radix.KVPair) { ex = true })
	type res struct {
		name  string
		found bool
	}
	nf := func(name string, err error) res { return res{name, !isNotFound(err)} }
	_, e1 := s.GetString(p)
	_, e2 := s.GetInt(p)
	_, e3 := s.GetStringSlice(p)
	_, e4 := s.GetDesc(p)
	_, e5 := s.GetTag(p)
	_, e6 := s.GetComment(p)
	_, e7 := s.GetIntMap(p)
	_, e8 := s.GetTime(p)
	_, e9 := s.GetKibiBytes(p)
	all := []res{{"Search", search}, {"Locate", lf}, {"Query", qf}, {"Get", gf}, {"GetEx", ex}, nf("Query err", qerr),
		nf("GetString", e1), nf("GetInt", e2), nf("GetStringSlice", e3), nf("GetDesc", e4), nf("GetTag", e5), nf("GetComment", e6), nf("GetIntMap", e7), nf("GetTime", e8), nf("GetKibiBytes", e9)}
	t.Ok(len(all))
	for _, r := range all {
		if r.found != has {
			t.Fail("disagree", "Has(%q) = %v, but %s = %v", p, has, r.name, r.found)
		}
	}
	if lf && partial {
		t.Fail("found-partial", "Locate(%q) is found and partial matched", p)
	}
	if has && branch != qb {
		t.Fail("branch-disagree", "%q: Locate branch=%v, Query branch=%v", p, branch, qb)
	}
	c := m.class(p)
	ordinary := okKey(p, m.d)
	if part := s.HasPart(p); ordinary && part != m.anyPrefix(p) {
		t.Fail("part", "HasPart(%q) = %v", p, part)
	}
	if c == live && ordinary && (!has || branch) {
		t.Fail("live", "%q is a live key: found=%v branch=%v", p, has, branch)
	}
	if has && !branch && c != live && (ordinary || !m.anyPrefix(p)) {
		t.Fail("unsound-leaf", "%q isn't a live key, but it's found as a non-branch", p)
	}
	if has && branch && c != branchOnly && ordinary {
		t.Fail("unsound-branch", "%q has no key below, but it's found as a branch", p)
	}
	if has && !m.anyPrefix(p) {
		t.Fail("unsound", "no key starts with %q, but it's found", p)
	}
	t.Count([]string{"probe absent", "probe live", "probe branch"}[c], 1)
	if has {
		t.Count("found", 1)
	}
}

func c03Agree(t *T) {
	d := newDriver(t)
	ops := weighted("set", 6, "insert", 1, "setex", 1, "setnode", 1, "update", 1, "remove", 4, "tag", 1)
	for i := t.Range(2, 25); i > 0; i-- {
		d.step(pick(t, ops))
		for j := 0; j < 4; j++ {
			if p := d.u.probe(t); !hasPattern(p, d.u.d) && p != "" {
				agree(t, d.s, d.m, p)
			}
		}
	}
	before := d.s.Dump()
	for _, k := range d.u.keys {
		agree(t, d.s, d.m, k)
		d.s.HasPart(k)
		if rs := []rune(k); len(rs) > 1 { // every cut
			for c := 1; c < len(rs) && c < 30; c++ {
				agree(t, d.s, d.m, string(rs[:c]))
			}
		}
	}
	if after := d.s.Dump(); after != before {
		t.Fail("lookup-modifies", "lookups changed the tree:\n%s\n->\n%s", before, after)
	}
	checkSnapshot(t, d.s, d.m, "lookup", true, false)
}

func c03Dense(t *T) {
	delim := pick(t, delims)
	alpha := tinyAlpha(t, delim)
	alpha = append([]string{string(delim)}, alpha...)
	var all []string
	var rec func(p string, n int)
	rec = func(p string, n int) {
		if p != "" {
			all = append(all, p)
		}
		if n > 0 {
			for _, a := range alpha {
				rec(p+a, n-1)
			}
		}
	}
	rec("", 4)
	var keys []string
	for _, k := range all {
		if okKey(k, string(delim)) {
			keys = append(keys, k)
		}
	}
	u := &universe{delim: delim, d: string(delim), segs: alpha[1:], keys: keys}
	d := &driver{t: t, s: newSut(t, delim), m: newModel(delim), u: u}
	for i := t.Range(2, 8); i > 0; i-- {
		d.step(pick(t, []string{"set", "set", "set", "remove"}))
		for _, p := range all {
			agree(t, d.s, d.m, p)
		}
	}
}

// c03Drained: subtrees lose all of their keys one by one, and get some again.
func c03Drained(t *T) {
	delim := pick(t, delims)
	d := string(delim)
	al := tinyAlpha(t, delim)
	for len(al) < 3 {
		al = append(al, string(rune('p'+len(al))))
	}
	s, m := newSut(t, delim), newModel(delim)
	top := pick(t, al)
	if t.Chance(0.5) {
		top += d + pick(t, al)
	}
	if t.Chance(0.6) {
		top += d
	}
	var keys, paths []string
	seen := map[string]bool{}
	add := func(k string) {
		if okKey(k, d) && !seen[k] {
			seen[k] = true
			keys = append(keys, k)
		}
	}
	for i := t.Range(3, 20); i > 0; i-- {
		k := top
		for j := t.Range(1, 5); j > 0; j-- {
			k += pick(t, al)
			if j > 1 && t.Chance(0.2) {
				k += d
			}
		}
		add(k)
	}
	if t.Chance(0.6) { // others stay
		s.Set("Zkeep", 1)
		m.set("Zkeep", 1)
	}
	for _, k := range keys {
		rs := []rune(k)
		for c := 1; c <= len(rs); c++ {
			if p := string(rs[:c]); !seen["|"+p] {
				seen["|"+p] = true
				paths = append(paths, p)
			}
		}
	}
	for round := t.Range(1, 2); round > 0; round-- {
		shuffle(t, keys)
		for i, k := range keys {
			t.Op("Set(%q)", k)
			s.Set(k, i)
			m.set(k, i)
		}
		shuffle(t, keys)
		for _, k := range keys {
			if t.Chance(0.03) {
				break
			}
			if !s.Remove(k) && m.class(k) == live {
				t.Fail("remove", "Remove(%q) failed", k)
			}
			t.Op("Remove(%q)", k)
			m.remove(k)
			if t.Chance(0.3) {
				for _, p := range paths {
					agree(t, s, m, p)
				}
			}
		}
		for _, p := range paths {
			agree(t, s, m, p)
		}
	}
	checkSnapshot(t, s, m, "drained", false, false)
}

// c03Odd: paths with empty segments and blanks.
func c03Odd(t *T) {
	d := newDriver(t)
	d.populate(t.Range(1, 20))
	for i := 0; i < 12; i++ {
		k := pick(t, d.u.keys)
		p := k
		switch t.Int(7) {
		case 0:
			p = k + d.u.d
		case 1:
			p = d.u.d + k
		case 2:
			p = strings.Replace(k, d.u.d, d.u.d+d.u.d, 1)
		case 3:
			p = k + d.u.d + d.u.d
		case 4:
			p = k + " "
		case 5:
			p = " " + k
		case 6:
			p = strings.Repeat(d.u.d, t.Range(1, 4))
		}
		t.Op("ask %q", p)
		agree(t, d.s, d.m, p)
	}
	checkSnapshot(t, d.s, d.m, "lookup", true, false)
}

//
// C06
//

func c06Meta(t *T) {
	d := newDriver(t)
	ops := append(append([]string{}, metaOps...), "remove", "removeex", "remove")
	d.run(t.Range(5, 50), ops, 0, func(i int) {
		if i%6 == 5 {
			d.auditMeta()
		}
	})
	d.auditMeta()
	checkSnapshot(t, d.s, d.m, "meta", true, false)
}

// c06Splits: a key with metadata, then keys which split it at every position.
func c06Splits(t *T) {
	d := newDriver(t)
	base := pick(t, d.u.keys)
	d.u.n++
	t.Op("SetNode(%q)", base)
	d.s.SetNode(base, 1, "tag", "desc", "comment")
	d.m.set(base, 1)
	*d.m.m[base] = ent{val: 1, desc: "desc", comment: "comment", tag: "tag"}
	rs := []rune(base)
	pos := make([]int, 0, len(rs))
	for i := 1; i <= len(rs); i++ {
		pos = append(pos, i)
	}
	shuffle(t, pos)
	if len(pos) > 25 {
		pos = pos[:25]
	}
	var keys []string
	for _, p := range pos {
		k := string(rs[:p])
		if t.Chance(0.5) {
			k += d.u.seg(t)
		}
		if !okKey(k, d.u.d) {
			continue
		}
		keys = append(keys, k)
	}
	d.u.keys = append(keys, base)
	for _, k := range keys {
		v := d.u.value(t)
		if t.Chance(0.4) {
			t.Op("SetNode(%q)", k)
			d.s.SetNode(k, v, k, "D"+k, "C"+k)
			d.m.set(k, v)
			*d.m.m[k] = ent{val: v, tag: k, desc: "D" + k, comment: "C" + k}
		} else {
			t.Op("Set(%q)", k)
			d.s.Set(k, v)
			d.m.set(k, v)
		}
		d.auditMeta()
	}
	for _, k := range keys {
		if t.Chance(0.5) && k != base && d.m.m[k] != nil {
			d.remove(k, false)
			d.auditMeta()
		}
	}
	checkSnapshot(t, d.s, d.m, "meta", true, false)
}

// c06Absent: metadata writes on absent paths change nothing.
func c06Absent(t *T) {
	d := newDriver(t)
	d.run(t.Range(2, 15), metaOps, 0, nil)
	for i := 0; i < 15; i++ {
		p := d.u.probe(t)
		if !okKey(p, d.u.d) || d.m.class(p) != absent {
			continue
		}
		t.Op("SetComment/SetTag(%q)", p)
		ok1, ok2 := d.s.SetComment(p, "WRONG", "WRONG"), d.s.SetTag(p, "WRONG")
		t.Ok(2)
		if ok1 || ok2 {
			t.Fail("meta-absent", "SetComment/SetTag(%q) on an absent path returned %v/%v", p, ok1, ok2)
		}
		checkSnapshot(t, d.s, d.m, "absent", true, false)
		if x, err := d.s.GetDesc(p); err == nil || x != "" {
			t.Fail("meta-get-absent", "GetDesc(%q) on an absent path = %q, %v", p, x, err)
		}
		if x, err := d.s.GetTag(p); err == nil || x != nil {
			t.Fail("meta-get-absent", "GetTag(%q) on an absent path = %v, %v", p, x, err)
		}
		if x, err := d.s.GetComment(p); err == nil || x != "" {
			t.Fail("meta-get-absent", "GetComment(%q) on an absent path = %v, %v", p, x, err)
		}
		if t.Chance(0.4) { // it's a new key, without any metadata
			v := d.u.value(t)
			t.Op("Set(%q)", p)
			d.s.Set(p, v)
			d.m.set(p, v)
			d.u.keys = append(d.u.keys, p)
		}
	}
	d.auditMeta()
	checkSnapshot(t, d.s, d.m, "meta", true, false)
}

// c02Wide: nodes with very many children, and very deep ones.
func c02Wide(t *T) {
	delim := pick(t, delims)
	u := &universe{delim: delim, d: string(delim)}
	pre := pick(t, []string{"", "a", "app" + u.d, "日" + u.d + "x"})
	n := t.Range(30, 300)
	for i := 0; i < n; i++ {
		k := pre + string(rune(0x4e00+i))
		if t.Chance(0.2) {
			k += u.d + "x"
		}
		u.keys = append(u.keys, k)
		if t.Chance(0.1) {
			u.keys = append(u.keys, k+u.d+"y", k+"z")
		}
	}
	if t.Chance(0.5) {
		deep := pre + "deep"
		for i := t.Range(20, 120); i > 0; i-- {
			deep += u.d + pick(t, []string{"n", "m", "nm"})
			if t.Chance(0.5) {
				u.keys = append(u.keys, deep)
			}
		}
	}
	shuffle(t, u.keys)
	d := &driver{t: t, s: newSut(t, delim), m: newModel(delim), u: u}
	for i, k := range u.keys {
		d.s.Set(k, i)
		d.m.set(k, i)
	}
	t.Op("%d keys below %q", len(u.keys), pre)
	checkSnapshot(t, d.s, d.m, "wide", true, false)
	for i := t.Range(5, 25); i > 0; i-- {
		d.remove(d.liveKey(), t.Chance(0.5))
		if t.Chance(0.3) {
			k := d.key()
			d.s.Set(k, i)
			d.m.set(k, i)
		}
		checkSnapshot(t, d.s, d.m, "wide", true, false)
	}
	d.auditLookups()
}
