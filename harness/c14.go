package main

import (
	"slices"
	"sort"
	"strings"

	"github.com/hedzr/store/radix"
)

func init() {
	register(&Prop{
		ID:          "C14",
		Rule:        "a case inserts a generated set of route patterns (nested ':name' parameters, trailing '*name', literal siblings sharing leading characters, at most one parameter per position) and literal keys in random order, partly removes some again, and asks for concrete paths derived from the patterns (values of any length, equal to or prefixes of literal siblings) and for paths matching nothing; every lookup is compared with an independent segment matcher; distinct = different pattern sets and queries",
		Assumptions: []string{"paths matched by several patterns may yield any of them; the value of a parameter does not begin with ':' or '*' (such a path is looked up as the text of a pattern)"},
		Groups: []Group{
			{Name: "routes", Quick: 20000, Thorough: 600000, Body: c14Routes},
			{Name: "wide", Quick: 300, Thorough: 6000, Body: c14Wide},
		},
	})
}

type routeNode struct {
	kids  map[string]*routeNode
	param string // ":id" or "*path"
	pkid  *routeNode
}

func (n *routeNode) kid(seg string) *routeNode {
	if n.kids == nil {
		n.kids = map[string]*routeNode{}
	}
	k := n.kids[seg]
	if k == nil {
		k = &routeNode{}
		n.kids[seg] = k
	}
	return k
}

type routes struct {
	t    *T
	d    string // delimiter
	lead string // "" or d
	root *routeNode
	m    map[string]any // stored patterns and keys
	lits []string
	vals []string
	n    int
}

var routeLits = [][]string{
	{"a", "ab", "abc", "abd", "b", "ba", "bob", "bo", "bobby"},
	{"users", "user", "use", "posts", "post", "p", "static", "st", "v1", "v2", "v10", "api"},
	{"日本", "日", "本", "a日", "é", "éa", "ü", "x"},
	{"x", "y", "z", "xx", "xy", "x-y", "x_y"},
}

var routeNames = []string{"id", "x", "name", "averyveryverylongparametername", "i", "日", "user_id", "a", "ab"}

func newRoutes(t *T) *routes {
	r := &routes{t: t, d: pick(t, []string{"/", "/", "/", ".", "|"}), root: &routeNode{}, m: map[string]any{}}
	if t.Chance(0.75) {
		r.lead = r.d
	}
	all := pick(t, routeLits)
	for i := t.Range(1, 6); i > 0; i-- {
		r.lits = append(r.lits, pick(t, all))
	}
	return r
}

// pattern makes a new pattern along (and extending) the known tree.
func (r *routes) pattern() string {
	t := r.t
	n := r.root
	var segs []string
	depth := t.Range(1, 5)
	for i := 0; i < depth; i++ {
		if t.Chance(0.42) && !(i == 0 && r.lead == "") {
			if n.param == "" {
				name := pick(t, routeNames)
				for slices.Contains(segs, ":"+name) {
					name += "2" // names are unique in a pattern
				}
				n.param = ":" + name
				if t.Chance(0.25) {
					n.param = "*" + n.param[1:]
				}
				n.pkid = &routeNode{}
			}
			segs = append(segs, n.param)
			if n.param[0] == '*' {
				break
			}
			n = n.pkid
			continue
		}
		s := pick(t, r.lits)
		segs = append(segs, s)
		n = n.kid(s)
	}
	return r.lead + strings.Join(segs, r.d)
}

func (r *routes) value() string {
	t := r.t
	switch t.Int(6) {
	case 5: // any characters
		rs := []rune{'v'}
		for n := t.Range(0, 5); n > 0; n-- {
			rs = append(rs, rune(pick(t, []int{t.Int(0x20), 0x20, 0x20 + t.Int(0x60), 0x20 + t.Int(0x60), 0xa0 + t.Int(0x3000)})))
		}
		if t.Chance(0.5) && rs[len(rs)-1] != ':' && rs[len(rs)-1] != '*' {
			slices.Reverse(rs)
		}
		return string(rs)
	case 0, 1:
		s := pick(t, r.lits)
		if t.Chance(0.3) {
			rs := []rune(s)
			s = string(rs[:t.Range(1, len(rs))])
		}
		if t.Chance(0.3) {
			s += pick(t, []string{"a", "b", "0", "日"})
		}
		return s
	case 2:
		return strings.Repeat(pick(t, []string{"q", "ab", "7", "日"}), t.Range(1, 30))
	}
	return pick(t, []string{"7", "42", "bob", "x", "a", "-", "_", "new york", "v", "a=b&c", "ünï", "1", "名", "file.txt", "a:b", "a*b", "UP", "100%"})
}

type binding struct {
	key  string
	bind map[string]string
}

func (r *routes) split(p string) ([]string, bool) {
	if r.lead != "" {
		if !strings.HasPrefix(p, r.lead) {
			return nil, false
		}
		p = p[len(r.lead):]
	}
	return strings.Split(p, r.d), true
}

// match finds all stored patterns matching the concrete path p; prefix tells
// whether p may be the leading part of a stored pattern.
func (r *routes) match(p string) (hits []binding, prefix bool) {
	ps, ok := r.split(p)
	if !ok {
		return nil, strings.HasPrefix(r.lead, p)
	}
	for _, key := range sortedKeys(r.m) {
		ks, _ := r.split(key)
		b := binding{key: key, bind: map[string]string{}}
		ok, i := true, 0
		for ; i < len(ks) && i < len(ps); i++ {
			if ks[i] != "" && ks[i][0] == '*' {
				b.bind[ks[i][1:]] = strings.Join(ps[i:], r.d)
				i = len(ps)
				break
			}
			if ks[i] != "" && ks[i][0] == ':' {
				if ps[i] == "" {
					ok = false
					break
				}
				b.bind[ks[i][1:]] = ps[i]
				continue
			}
			if ks[i] != ps[i] {
				ok = false
				break
			}
		}
		if !ok {
			continue
		}
		star := len(ks) > 0 && strings.HasPrefix(ks[len(ks)-1], "*")
		if i == len(ps) && (len(ks) == len(ps) || star && len(ps) >= len(ks)) {
			hits = append(hits, b)
		} else if i == len(ps) {
			prefix = true
		}
	}
	return
}

// concrete instantiates a pattern.
func (r *routes) concrete(key string) string {
	t := r.t
	ks, _ := r.split(key)
	out := make([]string, 0, len(ks))
	for _, s := range ks {
		switch {
		case s != "" && s[0] == ':':
			s = strings.TrimLeft(strings.ReplaceAll(r.value(), r.d, ""), ":*")
			if s == "" {
				s = "q"
			}
		case s != "" && s[0] == '*':
			s = r.value()
			for i := t.Int(4); i > 0; i-- {
				s += r.d + r.value()
			}
			for strings.Contains(s, r.d+r.d) {
				s = strings.ReplaceAll(s, r.d+r.d, r.d)
			}
			s = strings.TrimLeft(strings.Trim(s, r.d), r.d+":*")
			if s == "" {
				s = "q"
			}
		}
		out = append(out, s)
	}
	return r.lead + strings.Join(out, r.d)
}

func (r *routes) check(s sut, p string) {
	t := r.t
	t.Op("Query(%q)", p)
	hits, prefix := r.match(p)
	kv := radix.KVPair{}
	qv, qb, qf, qe := s.Query(p, kv)
	kv2 := radix.KVPair{}
	node, lb, lp, lf := locate(s, p, kv2)
	gv, gf := s.Get(p)
	nv, _, nf, _ := s.Query(p, nil)
	has := s.Has(p)
	mv := s.MustGet(p)
	t.Ok(5)
	if own, ok := r.m[p]; ok { // the key itself
		var h []binding
		for _, b := range hits {
			if b.key == p {
				h = append(h, b)
			}
		}
		if len(h) == 0 {
			h = []binding{{key: p}}
		}
		if !qf || !eq(qv, own) {
			t.Fail("literal", "Query(%q) = %v, found=%v; this key is stored with %v", p, qv, qf, own)
		}
		hits = h
		t.Count("queries of a stored key", 1)
		if strings.ContainsAny(p, ":*") {
			return // bindings to pattern texts are of no interest
		}
	}
	if len(hits) > 0 {
		if !qf || qb || qe != nil || !gf || !nf || !has || !lf || lb || lp || node == nil {
			t.Fail("not-found", "%q matches %v, but: Query found=%v branch=%v err=%v, Get %v, Has %v, Locate found=%v branch=%v partial=%v", p, hits, qf, qb, qe, gf, has, lf, lb, lp)
		}
		if !eq(qv, gv) || !eq(qv, mv) || !eq(qv, nv) {
			t.Fail("differ", "%q: Query = %v, Get = %v, MustGet = %v, Query without pairs = %v", p, qv, gv, mv, nv)
		}
		for i, b := range hits {
			if eq(r.m[b.key], qv) {
				if node.Key() != b.key || !eq(node.Data(), qv) {
					t.Fail("node", "Locate(%q) found the node %q (%v); Query found %q (%v)", p, node.Key(), node.Data(), b.key, qv)
				}
				for n, v := range b.bind {
					if kv[n] != v {
						t.Fail("binding", "Query(%q) matched %q, and bound %q to %q; want %q", p, b.key, n, kv[n], v)
					}
					if kv2[n] != v {
						t.Fail("locate-binding", "Locate(%q) matched %q, and bound %q to %q; want %q", p, b.key, n, kv2[n], v)
					}
				}
				if len(kv) != len(b.bind) || len(kv2) != len(b.bind) {
					t.Fail("extra-binding", "%q matched %q with the parameters %v, but Query bound %v and Locate %v", p, b.key, b.bind, kv, kv2)
				}
				t.Ok(len(b.bind) + 1)
				t.Count("parameters bound", int64(len(b.bind)))
				break
			}
			if i == len(hits)-1 {
				t.Fail("wrong-value", "Query(%q) = %v; want one of %v", p, qv, hits)
			}
		}
		t.Count("matching queries", 1)
		return
	}
	if qv != nil || gv != nil || mv != nil || nv != nil {
		t.Fail("value", "%q matches nothing, but: Query = %v, Get = %v, MustGet = %v", p, qv, gv, mv)
	}
	if qf && !qb {
		t.Fail("found-leaf", "%q matches nothing, but Query found a leaf", p)
	}
	if !qf && len(kv) != 0 || !lf && len(kv2) != 0 {
		t.Fail("bound-nothing", "%q matches nothing, but Query bound %v and Locate %v", p, kv, kv2)
	}
	if !prefix && (qf || gf || nf || has || lf) {
		t.Fail("found", "%q matches nothing, but: Query %v, Get %v, Has %v, Locate %v", p, qf, gf, has, lf)
	}
	t.Count("queries matching nothing", 1)
}

// miss makes a path near the stored ones.
func (r *routes) miss() string {
	t := r.t
	if len(r.m) == 0 {
		return r.lead + "a"
	}
	p := r.concrete(pick(t, sortedKeys(r.m)))
	switch t.Int(5) {
	case 0:
		return p + r.d + pick(t, append([]string{"zz"}, r.lits...))
	case 1:
		return p + pick(t, []string{"x", "a", "日", "0"})
	case 2:
		if i := strings.LastIndex(p, r.d); i > 0 {
			return p[:i]
		}
	case 3:
		ps, _ := r.split(p)
		if len(ps) > 0 {
			ps[t.Int(len(ps))] = pick(t, append([]string{"zz"}, r.lits...))
			return r.lead + strings.Join(ps, r.d)
		}
	}
	rs := []rune(p)
	return string(rs[:t.Range(len(r.lead), len(rs))])
}

func (r *routes) ok(p string) bool {
	if p == "" || p == r.d || strings.HasSuffix(p, r.d) || strings.Contains(p, r.d+r.d) {
		return false
	}
	ss, ok := r.split(p)
	if !ok {
		return false
	}
	for _, s := range ss {
		if s == "" || s == ":" || s == "*" {
			return false
		}
	}
	return true
}

func (r *routes) insert(s sut, p string) {
	t := r.t
	r.n++
	v := any("v" + p)
	if r.n%3 == 0 {
		v = r.n
	}
	t.Op("insert %q", p)
	switch t.Int(3) {
	case 0:
		s.Set(p, v)
	case 1:
		s.Insert(p, v)
	default:
		s.SetNode(p, v, nil)
	}
	r.m[p] = v
}

func c14Routes(t *T) {
	r := newRoutes(t)
	s := newSut(t, []rune(r.d)[0])
	var ps []string
	for i := t.Range(1, 12); i > 0; i-- {
		ps = append(ps, r.pattern())
	}
	shuffle(t, ps)
	for i, p := range ps {
		if r.ok(p) {
			r.insert(s, p)
		}
		if i%3 == 2 && t.Chance(0.5) { // between the insertions
			if q := r.concrete(pick(t, ps[:i+1])); r.ok(q) {
				r.check(s, q)
			}
		}
	}
	if len(r.m) == 0 {
		t.trivial = true
		return
	}
	if t.Chance(0.25) {
		for i := t.Range(1, 3); i > 0 && len(r.m) > 1; i-- {
			k := pick(t, sortedKeys(r.m))
			t.Op("Remove(%q)", k)
			s.Remove(k)
			for q := range r.m {
				if q == k || strings.HasPrefix(q, k+r.d) {
					delete(r.m, q)
				}
			}
		}
	}
	if len(r.m) == 0 {
		t.trivial = true
		return
	}
	keys := sortedKeys(r.m)
	for _, k := range keys {
		r.check(s, k)
		for i := t.Range(1, 4); i > 0; i-- {
			if q := r.concrete(k); r.ok(q) {
				r.check(s, q)
			}
		}
	}
	for i := t.Range(2, 12); i > 0; i-- {
		if q := r.miss(); r.ok(q) && !strings.ContainsAny(q, ":*") {
			r.check(s, q)
		}
	}
}

// c14Wide: a router with hundreds of routes.
func c14Wide(t *T) {
	r := newRoutes(t)
	r.lits = nil
	for i := t.Range(10, 40); i > 0; i-- {
		r.lits = append(r.lits, pick(t, routeLits[t.Int(len(routeLits))])+pick(t, []string{"", "s", "1", "日"}))
	}
	s := newSut(t, []rune(r.d)[0])
	for i := t.Range(50, 300); i > 0; i-- {
		if p := r.pattern(); r.ok(p) {
			r.insert(s, p)
		}
	}
	keys := sortedKeys(r.m)
	sort.Strings(keys)
	for _, k := range keys {
		r.check(s, k)
		if q := r.concrete(k); r.ok(q) {
			r.check(s, q)
		}
	}
	for i := 0; i < 200; i++ {
		if q := r.miss(); r.ok(q) && !strings.ContainsAny(q, ":*") {
			r.check(s, q)
		}
	}
}
