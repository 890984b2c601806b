package main

import (
	"context"
	"fmt"
	"strings"
	"time"

	"github.com/hedzr/store"
	"github.com/hedzr/store/radix"
)

func init() {
	register(&Prop{
		ID:   "C09",
		Rule: "a case registers several handlers of each kind which log every call and the state of the store at that time, runs a random history of sets, removals, reads, failed removals and metadata changes (directly and within WithinLoading), and compares the log with the one predicted by the model after each step; distinct = different histories",
		Groups: []Group{
			{Name: "history", Quick: 14000, Thorough: 350000, Body: c09History},
			{Name: "dense", Quick: 6000, Thorough: 150000, Body: c09Dense},
			{Name: "nested", Quick: 4000, Thorough: 100000, Body: c09Nested},
			{Name: "watched", Quick: 2000, Thorough: 50000, Body: c16Events},
		},
		Assumptions: []string{"only direct Set/Remove/RemoveEx on the store that has the handlers, and watched changes of providers loaded without a store prefix, are specified"},
	})
}

type hevent struct {
	kind    string
	h       int
	path    string
	val     any
	old     any
	loading bool
	// the store at that time
	state string
}

func (e hevent) String() string {
	return fmt.Sprintf("%s#%d(%q, %s, old %s, loading=%v) store: %s", e.kind, e.h, e.path, show(e.val), show(e.old), e.loading, e.state)
}

type hcase struct {
	t              *T
	s              store.Store
	sut            sut
	m              *model
	u              *universe
	pre            string
	log            []hevent
	nNew, nCh, nDl []int
}

func newHCase(t *T, u *universe) *hcase {
	c := &hcase{t: t, m: newModel(u.delim), u: u}
	state := func(path string) string {
		v, ok := c.s.Get(path)
		if !ok {
			return "absent"
		}
		return show(v)
	}
	mkNew := func(i int) store.OnNewHandler {
		return func(path string, value any, loading bool) {
			c.log = append(c.log, hevent{"new", i, path, value, nil, loading, state(path)})
		}
	}
	mkCh := func(i int) store.OnChangeHandler {
		return func(path string, value, old any, loading bool) {
			c.log = append(c.log, hevent{"change", i, path, value, old, loading, state(path)})
		}
	}
	mkDl := func(i int) store.OnDeleteHandler {
		return func(path string, value any, loading bool) {
			c.log = append(c.log, hevent{"delete", i, path, value, nil, loading, state(path)})
		}
	}
	var opts []store.Opt
	for i := t.Range(1, 7); i > 0; i-- {
		switch t.Int(3) {
		case 0:
			var hs []store.OnNewHandler
			for j := t.Range(1, 2); j > 0; j-- {
				n := len(c.nNew)
				c.nNew = append(c.nNew, n)
				hs = append(hs, mkNew(n))
			}
			opts = append(opts, store.WithOnNewHandlers(hs...))
		case 1:
			var hs []store.OnChangeHandler
			for j := t.Range(1, 2); j > 0; j-- {
				n := len(c.nCh)
				c.nCh = append(c.nCh, n)
				hs = append(hs, mkCh(n))
			}
			opts = append(opts, store.WithOnChangeHandlers(hs...))
		case 2:
			var hs []store.OnDeleteHandler
			for j := t.Range(1, 2); j > 0; j-- {
				n := len(c.nDl)
				c.nDl = append(c.nDl, n)
				hs = append(hs, mkDl(n))
			}
			opts = append(opts, store.WithOnDeleteHandlers(hs...))
		}
	}
	c.sut = newStoreSut(u.delim, opts...)
	c.s = c.sut.(store.Store)
	if t.Chance(0.15) {
		c.pre = pick(t, []string{"app", "x", "日本"}) + u.d
		c.sut.SetPrefix(strings.TrimSuffix(c.pre, u.d))
	}
	t.Op("prefix %q, handlers: %d new, %d change, %d delete", c.pre, len(c.nNew), len(c.nCh), len(c.nDl))
	return c
}

func (c *hcase) expect(op string, want []hevent) {
	t := c.t
	t.Ok(1)
	got := c.log
	c.log = nil
	for i := 0; i < len(got) || i < len(want); i++ {
		switch {
		case i >= len(got):
			t.Fail("missing", "%s: missing event %v", op, want[i])
		case i >= len(want):
			t.Fail("extra", "%s: unexpected event %v", op, got[i])
		default:
			g, w := got[i], want[i]
			if g.kind != w.kind {
				t.Fail("kind", "%s: got %v; want %v", op, g, w)
			}
			if g.h != w.h {
				t.Fail("order", "%s: handlers run out of order: got %v; want %v", op, g, w)
			}
			if g.path != w.path || g.loading != w.loading {
				t.Fail("args", "%s: got %v; want %v", op, g, w)
			}
			if !eq(g.val, w.val) || !eq(g.old, w.old) {
				t.Fail("values", "%s: got %v; want %v", op, g, w)
			}
			if g.state != w.state {
				t.Fail("state", "%s: the store isn't updated when the handler runs: got %v; want %v", op, g, w)
			}
		}
		t.Count("event "+want[i].kind, 1)
	}
}

func (c *hcase) set(k string, v any, loading bool) {
	full := c.pre + k
	e := c.m.m[full]
	if e != nil && c.t.Chance(0.15) {
		v = twin(c.t, e.val)
	}
	var want []hevent
	if e == nil {
		for _, h := range c.nNew {
			want = append(want, hevent{"new", h, k, v, nil, loading, show(v)})
		}
	} else {
		for _, h := range c.nCh {
			want = append(want, hevent{"change", h, k, v, e.val, loading, show(v)})
		}
	}
	op := fmt.Sprintf("Set(%q, %s) loading=%v", k, show(v), loading)
	c.t.Op("%s", op)
	c.s.Set(k, v)
	c.m.set(full, v)
	c.expect(op, want)
}

func (c *hcase) remove(k string, loading, ex bool) {
	full := c.pre + k
	cl := c.m.class(full)
	op := fmt.Sprintf("Remove(%q) loading=%v", k, loading)
	c.t.Op("%s", op)
	var removed bool
	if ex {
		_, _, removed = c.sut.RemoveEx(k)
	} else {
		removed = c.s.Remove(k)
	}
	var want []hevent
	if removed {
		var v any
		if e := c.m.m[full]; e != nil {
			v = e.val
		}
		if cl == absent {
			c.t.Fail("remove-absent", "%s of an absent path returned true", op)
		}
		c.m.remove(full)
		for _, h := range c.nDl {
			want = append(want, hevent{"delete", h, k, v, nil, loading, "absent"})
		}
	}
	c.expect(op, want)
}

func (c *hcase) step() {
	t := c.t
	k := pick(t, c.u.keys)
	switch t.Int(13) {
	case 12:
		c.other()
	case 0, 1, 2, 3, 4:
		c.set(k, c.u.value(t), false)
	case 5, 6:
		c.remove(k, false, false)
	case 7:
		c.remove(k, false, true)
	case 8:
		if p := c.u.probe(t); okKey(p, c.u.d) {
			c.remove(p, false, t.Chance(0.3))
		}
	case 9:
		ran := false
		c.s.WithinLoading(func() {
			ran = true
			for i := t.Range(1, 3); i > 0; i-- {
				if t.Chance(0.7) {
					c.set(pick(t, c.u.keys), c.u.value(t), true)
				} else {
					c.remove(pick(t, c.u.keys), true, false)
				}
			}
		})
		if !ran {
			t.Fail("within-loading", "WithinLoading didn't run its function")
		}
	case 10:
		p := c.u.probe(t)
		t.Op("reads of %q", p)
		c.s.Get(p)
		c.s.MustGet(p)
		c.s.Has(p)
		_, _ = c.s.GetString(p)
		_, _ = c.s.GetM("")
		_, _ = c.s.GetR("")
		c.s.Dump()
		c.s.Dup()
		c.sut.Walk("", nopWalk)
		c.expect("reads", nil)
	case 11:
		t.Op("metadata of %q", k)
		c.sut.SetComment(k, "d", "c")
		c.sut.SetTag(k, 1)
		c.expect("SetComment/SetTag", nil)
	}
}

// other does what must not disturb the handlers of later operations.
func (c *hcase) other() {
	t := c.t
	k, v := pick(t, c.u.keys), c.u.value(t)
	if c.pre != "" || t.Chance(0.5) {
		switch t.Int(5) {
		case 0:
			t.Op("Close")
			c.s.Close()
		case 1:
			t.Op("failing Load")
			p := &readProvider{err: errInjected}
			_, _ = c.s.Load(context.Background(), store.WithProvider(p))
		case 2:
			t.Op("views")
			c.s.WithPrefix("x").N()
			c.s.BR().WithPrefixReplaced("y")
			_ = fmt.Sprint(c.s)
		case 3:
			t.Op("copy, changed")
			z := c.s.Dup()
			z.Set(k, v)
			z.Remove(k)
			z.Close()
		case 4:
			t.Op("failing SetTTL, SetComment")
			c.s.SetTTL("Zno.such.keyZ", time.Hour, nil)
			c.s.SetComment("Zno.such.keyZ", "d", "c")
		}
		c.expect("other", nil)
		return
	}
	// written by other means: no handler is specified for these
	switch t.Int(4) {
	case 0:
		t.Op("Merge %q", k)
		_ = c.s.Merge("", map[string]any{k: "merged"})
		c.m.set(k, "merged")
	case 1:
		t.Op("Load %q", k)
		_, _ = c.s.Load(context.Background(), store.WithProvider(&readProvider{m: map[string]store.ValPkg{k: {Value: "loaded"}}}))
		c.m.set(k, "loaded")
	case 2:
		t.Op("SetNode %q", k)
		c.sut.SetNode(k, "node", 1, "d", "c")
		c.m.set(k, "node")
	case 3:
		t.Op("Set %q in a view", k)
		c.s.WithPrefix().Set(k, "view")
		c.m.set(k, "view")
	}
	c.log = nil
}

func nopWalk(path, fragment string, n radix.Node[any]) {}

func c09History(t *T) {
	c := newHCase(t, newUniverse(t, pick(t, delims)))
	for i := t.Range(3, 40); i > 0; i-- {
		c.step()
	}
}

// c09Dense: keys, parents and splitting nodes over a tiny alphabet.
func c09Dense(t *T) {
	delim := pick(t, delims)
	u := &universe{delim: delim, d: string(delim), segs: pick(t, [][]string{{"a", "b"}, {"é", "è"}, {"ab", "a", "abc"}})}
	if t.Chance(0.4) {
		u.segs = tinyAlpha(t, delim)
	}
	seen := map[string]bool{}
	for i := 0; i < 40; i++ {
		if k := u.gen(t); okKey(k, u.d) && !seen[k] && len([]rune(k)) < 8 {
			seen[k] = true
			u.keys = append(u.keys, k)
		}
	}
	if len(u.keys) == 0 {
		u.keys = []string{"a"}
	}
	c := newHCase(t, u)
	for i := t.Range(3, 30); i > 0; i-- {
		c.step()
	}
}

// c09Nested: handlers which write to the store and remove from it themselves.
func c09Nested(t *T) {
	type ev struct {
		kind string
		h    int
		path string
		val  any
		old  any
	}
	var log []ev
	var s store.Store
	deep := t.Range(1, 3) // how deep the writes by handlers nest
	who := t.Int(3)       // the handler which writes
	react := func(kind string, h int, path string) {
		if h != who || strings.Count(path, "+") >= deep {
			return
		}
		if kind == "delete" {
			s.Remove(path + "+")
		} else {
			s.Set(path+"+", "by "+path)
		}
	}
	nNew, nCh, nDl := t.Range(1, 3), t.Range(1, 3), t.Range(1, 3)
	var opts []store.Opt
	for i := 0; i < nNew; i++ {
		i := i
		opts = append(opts, store.WithOnNewHandlers(func(p string, v any, l bool) {
			log = append(log, ev{"new", i, p, v, nil})
			react("new", i, p)
		}))
	}
	for i := 0; i < nCh; i++ {
		i := i
		opts = append(opts, store.WithOnChangeHandlers(func(p string, v, o any, l bool) {
			log = append(log, ev{"change", i, p, v, o})
			react("change", i, p)
		}))
	}
	for i := 0; i < nDl; i++ {
		i := i
		opts = append(opts, store.WithOnDeleteHandlers(func(p string, v any, l bool) {
			log = append(log, ev{"delete", i, p, v, nil})
			react("delete", i, p)
		}))
	}
	s = store.New(opts...)
	state := map[string]any{}
	var want []ev
	var set func(k string, v any)
	var remove func(k string)
	set = func(k string, v any) {
		old, ok := state[k]
		state[k] = v
		kind, n := "new", nNew
		if ok {
			kind, n = "change", nCh
		}
		for i := 0; i < n; i++ {
			want = append(want, ev{kind, i, k, v, old})
			if i == who && strings.Count(k, "+") < deep {
				set(k+"+", "by "+k)
			}
		}
	}
	remove = func(k string) {
		v, ok := state[k]
		if !ok {
			return
		}
		delete(state, k)
		for i := 0; i < nDl; i++ {
			want = append(want, ev{"delete", i, k, v, nil})
			if i == who && strings.Count(k, "+") < deep {
				remove(k + "+")
			}
		}
	}
	t.Op("%d new, %d change, %d delete handlers; #%d writes %d deep", nNew, nCh, nDl, who, deep)
	keys := []string{"a", "ab", "a.b", "x.y", "x.yz"}
	for i := t.Range(2, 12); i > 0; i-- {
		k := pick(t, keys)
		log, want = nil, nil
		op := ""
		if t.Chance(0.65) {
			op = fmt.Sprintf("Set(%q, %d)", k, i)
			t.Op("%s", op)
			s.Set(k, i)
			set(k, i)
		} else {
			if _, ok := state[k]; !ok {
				continue // it may be the parent of others
			}
			sub := false
			for o := range state {
				sub = sub || strings.HasPrefix(o, k+".")
			}
			if sub {
				continue
			}
			op = fmt.Sprintf("Remove(%q)", k)
			t.Op("%s", op)
			s.Remove(k)
			remove(k)
		}
		t.Ok(1)
		if !eq(log, want) {
			t.Fail("nested", "%s: the handlers saw %v; want %v", op, log, want)
		}
		for k, v := range state {
			if g, ok := s.Get(k); !ok || !eq(g, v) {
				t.Fail("nested-state", "%s: %q is %v; want %v", op, k, g, v)
			}
		}
		t.Count("events with nested writes", int64(len(want)))
	}
}
