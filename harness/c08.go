package main

import (
	"context"
	"encoding/json"
	"fmt"
	"strings"

	"github.com/hedzr/store"
	"github.com/hedzr/store/radix"
)

func init() {
	register(&Prop{
		ID:   "C08",
		Rule: "a case interleaves loads from several byte providers (each with its own prefix and recording codec), user writes, merges, WithinLoading blocks, removals and reads; all modified marks are compared with the model, and each Save/SaveAs is compared with what the codec and the provider received; distinct = different histories",
		Groups: []Group{
			{Name: "marks", Quick: 7000, Thorough: 180000, Body: c08Marks},
			{Name: "save", Quick: 8000, Thorough: 200000, Body: c08Save},
		},
		Assumptions: []string{"only Set, Merge, Load and WithinLoading write values here; the other writers don't touch the mark"},
	})
}

type saver struct {
	wr    store.Writeable
	ld    *store.Loader
	p     *onceProvider
	c     *recCodec
	pre   string
	kind  string
	plain *ioProvider
}

// ioProvider can't be written but by io.Writer.
type ioProvider struct {
	base
	m      map[string]store.ValPkg
	err    error
	short  int // quarters of the data written by a failing Write
	writes [][]byte
}

func (s *ioProvider) Read() (map[string]store.ValPkg, error) { return s.m, nil }
func (s *ioProvider) Write(b []byte) (int, error) {
	if s.err != nil {
		return s.short * len(b) / 4, s.err
	}
	s.writes = append(s.writes, append([]byte{}, b...))
	return len(b), nil
}

type saveCase struct {
	*loadCase
	d      *driver
	savers []*saver
}

func newSaveCase(t *T, opts ...store.Opt) *saveCase {
	delim := pick(t, plainDelims)
	c := &loadCase{t: t, m: newModel(delim), dl: string(delim), u: newUniverse(t, delim)}
	c.sut = newStoreSut(delim, opts...)
	c.s = c.sut.(store.Store)
	return &saveCase{loadCase: c, d: &driver{t: t, s: c.sut, m: c.m, u: c.u}}
}

func (c *saveCase) load() *saver {
	t := c.t
	sv := &saver{c: &recCodec{}, pre: c.prefix()}
	data, flat := genTree(t, treeOpt{d: c.dl, depth: t.Range(1, 4), dotted: true, json: true, width: 4})
	var opts []store.LoadOpt
	if t.Chance(0.15) {
		sv.kind = "io"
		m := map[string]store.ValPkg{}
		for k, v := range data {
			m[k] = store.ValPkg{Value: v}
		}
		sv.plain = &ioProvider{m: m}
		opts = append(opts, store.WithProvider(sv.plain))
	} else {
		b, _ := json.Marshal(data)
		sv.p = &onceProvider{data: b}
		opts = append(opts, store.WithProvider(sv.p))
	}
	if sv.p != nil && t.Chance(0.3) {
		sv.p.codec = sv.c
	} else {
		opts = append(opts, store.WithCodec(sv.c))
	}
	if sv.pre != "" {
		opts = append(opts, store.WithStorePrefix(sv.pre))
	}
	opts = append(opts, store.WithLoaderCopy(&sv.ld))
	shuffle(t, opts)
	t.Op("Load(prefix %q, %v)", sv.pre, data)
	var err error
	if sv.wr, err = c.s.Load(context.Background(), opts...); err != nil || sv.wr == nil {
		t.Fail("load-err", "Load: %v, %v", sv.wr, err)
	}
	for k, v := range flat {
		f := join2(sv.pre, k, c.dl)
		c.m.set(f, v)
		c.m.m[f].mod = false
		if sv.kind == "io" {
			e := c.m.m[f]
			e.desc, e.comment, e.tag = "", "", nil
		}
		if t.Chance(0.5) {
			c.u.keys = append(c.u.keys, f)
		}
	}
	c.savers = append(c.savers, sv)
	return sv
}

func (c *saveCase) userSet(mod bool) { c.setBy(c.s, "", mod) }

// setBy writes by a view whose full prefix is pre.
func (c *saveCase) setBy(s store.Store, pre string, mod bool) {
	t := c.t
	k := pick(t, c.u.keys)
	if ks := c.m.keys(); len(ks) > 0 && t.Chance(0.4) {
		k = pick(t, ks)
	}
	v := noMaps(c.u.value(t))
	if e := c.m.m[join2(pre, k, c.dl)]; e != nil && t.Chance(0.1) {
		v = noMaps(twin(t, e.val))
	}
	t.Op("Set(%q below %q, %s) modifies=%v", k, pre, show(v), mod)
	s.Set(k, v)
	k = join2(pre, k, c.dl)
	c.m.set(k, v)
	c.m.m[k].mod = mod
}

func (c *saveCase) step() {
	t := c.t
	switch t.Int(12) {
	case 0, 1, 2, 3:
		c.userSet(true)
	case 4:
		t.Op("WithinLoading {")
		n, ran := t.Range(1, 3), false
		// views made before and in the loading, and copies
		view := func(s store.Store) (store.Store, string) {
			pre := pick(t, c.u.keys)
			switch t.Int(4) {
			case 0:
				return s.WithPrefix(pre), pre
			case 1:
				return s.WithPrefixReplaced(pre), pre
			case 2:
				return s.N(), ""
			default:
				return s.WithPrefixReplaced("x").WithPrefixReplaced(pre), pre
			}
		}
		before, beforePre := view(c.s)
		var within, dup store.Store
		var withinPre string
		c.s.WithinLoading(func() {
			ran = true
			for i := 0; i < n; i++ {
				c.userSet(false)
			}
			if t.Chance(0.3) {
				c.setBy(before, beforePre, false)
			}
			if t.Chance(0.3) {
				within, withinPre = view(c.s)
				c.setBy(within, withinPre, false)
			}
			if t.Chance(0.3) {
				dup = c.s.Dup()
			}
			if t.Chance(0.2) {
				nested := false
				t.Op("nested WithinLoading {")
				c.s.WithinLoading(func() { nested = true; c.userSet(false) })
				t.Op("}")
				if !nested {
					t.Fail("nested-loading", "a nested WithinLoading didn't run its function")
				}
				c.userSet(false) // still within the outer one
			}
		})
		t.Op("}")
		if t.Chance(0.4) {
			c.setBy(before, beforePre, true)
		}
		if within != nil {
			c.setBy(within, withinPre, true)
			t.Count("view outlives loading", 1)
		}
		if dup != nil {
			t.Op("Set and WithinLoading on a copy made in the loading")
			nd, _ := dup.Set("copy", 1)
			ran := false
			dup.WithinLoading(func() { ran = true })
			t.Ok(1)
			if !nd.Modified() || !ran {
				t.Fail("copy-loading", "a copy made in WithinLoading stays in loading: modified=%v, WithinLoading ran=%v", nd.Modified(), ran)
			}
		}
		if !ran {
			t.Fail("within-loading", "WithinLoading didn't run its function")
		}
	case 5:
		data, flat := genTree(t, treeOpt{d: c.dl, depth: t.Range(1, 3), dotted: true})
		at := c.prefix()
		t.Op("Merge(%q, %v)", at, data)
		if err := c.s.Merge(at, data); err != nil {
			t.Fail("merge-err", "Merge: %v", err)
		}
		for k, v := range flat {
			f := join2(at, k, c.dl)
			c.m.set(f, v)
			c.m.m[f].mod = true
		}
	case 6:
		if len(c.savers) < 4 {
			c.load()
		}
	case 7:
		k := pick(t, c.u.keys)
		if ks := c.m.keys(); len(ks) > 0 {
			k = pick(t, ks)
		}
		c.d.remove(k, false)
	case 8: // a prefixed view
		pre := pick(t, c.u.keys)
		k := c.u.seg(t)
		v := noMaps(c.u.value(t))
		t.Op("WithPrefix(%q).Set(%q, %s)", pre, k, show(v))
		c.s.WithPrefix(pre).Set(k, v)
		f := pre + c.dl + k
		c.m.set(f, v)
		c.m.m[f].mod = true
	case 9: // metadata doesn't matter
		if t.Chance(0.5) {
			c.d.step("comment")
		} else {
			c.d.step("tag")
		}
	default: // nor do reads
		t.Op("reads")
		k := pick(t, c.u.keys)
		c.s.Get(k)
		c.s.MustString(k)
		_, _ = c.s.GetR(k)
		_, _ = c.s.GetM("", store.WithoutFlattenKeys[any](true))
		c.s.Dump()
		c.s.WithPrefix(k).Has("x")
		if t.Chance(0.3) {
			c.s.Dup()
		}
		var kv = map[string]string{}
		_, _, _, _ = c.s.Locate(k, kv)
	}
}

func c08Marks(t *T) {
	c := newSaveCase(t)
	for i := t.Range(2, 25); i > 0; i-- {
		c.step()
		if t.Chance(0.4) {
			c.marks()
		}
	}
	c.marks()
	// by Locate
	for _, k := range c.m.keys() {
		n, _, _, found := c.s.Locate(k, nil)
		t.Ok(1)
		if !found || n.Modified() != c.m.m[k].mod {
			t.Fail("locate-modified", "Locate(%q): found=%v, modified mark differs from %v", k, found, c.m.m[k].mod)
		}
	}
	// by the filter
	want := map[string]any{}
	for k, e := range c.m.m {
		if e.mod {
			want[k] = e.val
		}
	}
	g, err := c.s.GetM("", store.WithFilter(func(n radix.Node[any]) bool { return n.Modified() }))
	t.Ok(1)
	if df := diffMaps(g, want); df != "" || err != nil {
		t.Fail("filter-modified", "GetM with a filter for modified keys: %s %v", df, err)
	}
}

func (c *saveCase) marks() {
	checkSnapshot(c.t, c.sut, c.m, "marks", true, true)
	n := 0
	for _, e := range c.m.m {
		if e.mod {
			n++
		}
	}
	c.t.Count("modified keys seen", int64(n))
	c.t.Count("clean keys seen", int64(len(c.m.m)-n))
}

// expected content of a save.
func (c *saveCase) content(pre string, all bool) map[string]any {
	r := map[string]any{}
	for k, e := range c.m.m {
		if !all && !e.mod {
			continue
		}
		if pre != "" {
			rel, ok := strings.CutPrefix(k, pre+c.dl)
			if !ok {
				continue
			}
			k = rel
		}
		r[k] = e.val
	}
	return r
}

func (c *saveCase) checkWritten(sig string, want map[string]any, cd *recCodec, writes [][]byte) {
	t := c.t
	t.Ok(1)
	if len(want) == 0 {
		if len(writes) != 0 {
			t.Fail(sig+"-nothing", "there's nothing to be written, but the provider got %q", writes[0])
		}
		t.Count(sig+" empty", 1)
		return
	}
	if len(cd.marshaled) != 1 || len(writes) != 1 {
		t.Fail(sig+"-count", "want one Marshal and one Write for %v; got %d and %d", want, len(cd.marshaled), len(writes))
	}
	if string(writes[0]) != string(cd.out[0]) {
		t.Fail(sig+"-bytes", "the provider got %q instead of the codec's %q", writes[0], cd.out[0])
	}
	got := cd.marshaled[0]
	if df := diffMaps(flatten(t, got, c.dl), want); df != "" {
		t.Fail(sig+"-content", "the codec got a wrong map: %s", df)
	}
	checkNested(t, got, want, c.dl)
	t.Count(sig+" content", 1)
	t.Count(sig+" keys", int64(len(want)))
}

func (c *saveCase) save(sv *saver) {
	t := c.t
	sv.c.marshaled, sv.c.out = nil, nil
	t.Op("Save(prefix %q)", sv.pre)
	err := sv.wr.Save(context.Background())
	if err != nil {
		t.Fail("save-err", "Save: %v", err)
	}
	var writes [][]byte
	if sv.plain != nil {
		writes, sv.plain.writes = sv.plain.writes, nil
	} else {
		writes, sv.p.writes = sv.p.writes, nil
	}
	c.checkWritten("save", c.content(sv.pre, false), sv.c, writes)
}

func (c *saveCase) saveAs(sv *saver) {
	t := c.t
	cd := &recCodec{}
	p := &onceProvider{}
	opts := []store.SaveAsOpt{store.WithSaveAsProvider(p)}
	if t.Chance(0.3) {
		p.codec = cd
	} else {
		opts = append(opts, store.WithSaveAsCodec(cd))
	}
	shuffle(t, opts)
	t.Op("SaveAs(prefix %q)", sv.pre)
	if err := sv.ld.SaveAs(context.Background(), "unused", opts...); err != nil {
		t.Fail("saveas-err", "SaveAs: %v", err)
	}
	c.checkWritten("saveas", c.content(sv.pre, true), cd, p.writes)
}

func c08Save(t *T) {
	c := newSaveCase(t)
	c.load()
	for i := t.Range(2, 25); i > 0; i-- {
		c.step()
		if t.Chance(0.35) {
			sv := pick(t, c.savers)
			if t.Chance(0.7) {
				c.save(sv)
			} else {
				c.saveAs(sv)
			}
		}
	}
	for _, sv := range c.savers {
		c.save(sv)
		c.saveAs(sv)
	}
	c.marks()
	_ = fmt.Sprint
}
