package main

import (
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"reflect"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/hedzr/store/radix"
)

func init() {
	register(&Prop{
		ID:          "C15",
		Race:        true,
		Rule:        "the monitor runs under Go's race detector. readers: several goroutines read one store nobody writes, by every reading operation in a random order, and each answer is compared with the answer of a sequential reader; independent: the workloads of the other properties, each with its own stores and oracle, run in parallel goroutines of one process; first: fresh processes whose first uses of the package, its codecs and its conversions are concurrent; ttl: TTLs of some keys expire while their owner reads and writes these keys; distinct = different workloads",
		Assumptions: []string{"the race detector reports a race only if both accesses are executed without synchronisation in this run"},
		Groups: []Group{
			{Name: "readers", Quick: 400, Thorough: 8000, Workers: 2, Body: c15Readers},
			{Name: "independent", Quick: 4000, Thorough: 120000, Body: c15Independent},
			{Name: "first", Quick: 48, Thorough: 1500, Workers: 4, Body: c15First},
			{Name: "ttl", Quick: 300, Thorough: 6000, Body: c15TTL},
		},
	})
}

// getterNames are all getters taking a path (and defaults, or booleans).
var getterMethods = func() (ret []reflect.Method) {
	ty := reflect.TypeOf((*radix.TypedGetters[any])(nil)).Elem()
	for i := 0; i < ty.NumMethod(); i++ {
		m := ty.Method(i)
		if m.Type.NumIn() == 0 || m.Type.In(0).Kind() != reflect.String {
			continue
		}
		if m.Type.IsVariadic() && m.Type.NumIn() == 2 {
			ret = append(ret, m)
		}
	}
	return
}()

// callGetter calls a getter without defaults. The result is comparable.
func callGetter(s sut, m reflect.Method, path string) any {
	var out []any
	for _, v := range reflect.ValueOf(s).MethodByName(m.Name).Call([]reflect.Value{reflect.ValueOf(path)}) {
		x := v.Interface()
		if e, ok := x.(error); ok {
			x = "error: " + e.Error()
		}
		if v.Kind() == reflect.Float64 || v.Kind() == reflect.Float32 || v.Kind() == reflect.Complex128 || v.Kind() == reflect.Complex64 {
			x = fmt.Sprint(x) // NaN
		}
		out = append(out, x)
	}
	return out
}

type readOp struct {
	name string
	fn   func() any
}

func walkAll(s sut, path string) any {
	var out []any
	s.Walk(path, func(path, fragment string, n radix.Node[any]) {
		out = append(out, []any{path, fragment, n.Key(), n.KeyPiece(), n.Data(), n.Tag(), n.Comment(), n.Description(), n.IsLeaf(), n.HasData(), n.Modified(), n.Empty()})
	})
	return out
}

func errText(e error) string {
	if e == nil {
		return ""
	}
	return e.Error()
}

// readOps lists reading operations of s for the given paths.
func readOps(t *T, s sut, paths []string, prefix string) (ops []readOp) {
	add := func(name string, fn func() any) { ops = append(ops, readOp{name, fn}) }
	for _, p := range paths {
		add("Get "+p, func() any { v, ok := s.Get(p); return []any{v, ok} })
		add("MustGet "+p, func() any { return s.MustGet(p) })
		add("Query "+p, func() any {
			kv := radix.KVPair{}
			v, b, f, e := s.Query(p, kv)
			return []any{v, b, f, errText(e), kv}
		})
		add("Has "+p, func() any { return []any{s.Has(p), s.HasPart(p), s.Search(p)} })
		add("GetEx "+p, func() any {
			var out []any
			s.GetEx(p, func(n radix.Node[any], d any, b bool, kv radix.KVPair) { out = append(out, n.Key(), d, b) })
			return out
		})
		add("meta "+p, func() any {
			d, e1 := s.GetDesc(p)
			c, e2 := s.GetComment(p)
			g, e3 := s.GetTag(p)
			return []any{d, c, g, errText(e1), errText(e2), errText(e3), s.MustGetDesc(p), s.MustGetComment(p), s.MustGetTag(p)}
		})
		add("Locate "+p, func() any {
			n, b, pm, f := locate(s, p, radix.KVPair{})
			if n == nil {
				return []any{b, pm, f}
			}
			return []any{n.Key(), n.Data(), b, pm, f}
		})
		for i := t.Range(3, 10); i > 0; i-- {
			m := pick(t, getterMethods)
			add(m.Name+" "+p, func() any { return callGetter(s, m, p) })
		}
		if t.Chance(0.3) {
			add("GetM "+p, func() any { m, e := s.GetM(p); return []any{m, errText(e)} })
			add("GetR "+p, func() any { m, e := s.GetR(p); return []any{m, errText(e)} })
			add("To map "+p, func() any {
				var m map[string]any
				e := s.To(p, &m)
				return []any{m, errText(e)}
			})
			add("Walk "+p, func() any { return walkAll(s, p) })
		}
		if t.Chance(0.15) {
			add("To struct "+p, func() any {
				var h cfgSub
				e := s.To(p, &h)
				return []any{h, errText(e)}
			})
			add("GetSectionFrom "+p, func() any {
				var h cfgSub
				e := s.GetSectionFrom(p, &h)
				return []any{h, errText(e)}
			})
		}
	}
	add("Dump", func() any { return s.Dump() })
	add("Walk", func() any { return walkAll(s, "") })
	add("GetM", func() any { m, e := s.GetM(""); return []any{m, errText(e)} })
	add("Dup", func() any { d := dup(s); return []any{walkAll(d, ""), d.Prefix(), d.Delimiter()} })
	add("write to a copy", func() any { // copies are independent of the original
		d := dup(s)
		for _, p := range paths {
			if p != "" {
				d.Set(p, "changed")
				d.SetComment(p, "x", "y")
				d.SetTag(p, 1)
			}
		}
		d.Remove(paths[0])
		return len(paths)
	})
	add("view", func() any {
		v := view(s, prefix)
		var out []any
		for _, p := range paths {
			x, ok := v.Get(p)
			out = append(out, x, ok, v.Has(p))
		}
		r := viewReplaced(v, prefix)
		m, e := r.GetM("")
		return append(out, v.Prefix(), r.Prefix(), m, errText(e))
	})
	add("modes", func() any {
		var out []any
		for _, m := range []string{"N", "R", "BR"} {
			v := modeView(s, m)
			for _, p := range paths {
				x, ok := v.Get(p)
				out = append(out, x, ok)
			}
		}
		return out
	})
	add("String", func() any { return []any{s.Prefix(), s.Delimiter(), fmt.Sprint(s)} })
	return
}

func c15Readers(t *T) {
	d := newDriver(t)
	d.populate(t.Range(1, len(d.u.keys)))
	for i, k := range d.m.keys() {
		if i%3 == 0 {
			d.s.SetComment(k, "d"+k, "c"+k)
			d.s.SetTag(k, []any{"t", k})
		}
	}
	pre := "typed"
	tv := map[string]any{"i": 7, "s": "12", "f": 2.5, "b": true, "d": time.Minute, "t": time.Unix(7, 0).UTC(), "ss": []string{"a", "b"}, "is": []int{1, 2}, "as": []any{1, "2", 3.5},
		"m": map[string]any{"x": 1, "y": "z"}, "ms": map[string]string{"p": "q"}, "text": "[1,2,3]", "mtext": `{"a":1}`, "ds": []time.Duration{1, 2}, "by": []byte("123"), "c": complex(1, 2), "h": &holder{3, "h"}, "size": "12KiB", "dur": "3d4h"}
	var paths []string
	for _, k := range sortedKeys(tv) {
		p := pre + d.u.d + k
		d.s.Set(p, tv[k])
		paths = append(paths, p, k)
	}
	paths = append(paths, pre, "nothing")
	d.s.Set("sec"+d.u.d+"Alpha", 5)
	d.s.Set("sec"+d.u.d+"Beta", "five")
	paths = append(paths, "sec")
	for i := 0; i < 12; i++ {
		paths = append(paths, d.u.probe(t))
	}
	paths = append(paths, d.u.keys...)
	if len(paths) > 40 {
		shuffle(t, paths)
		paths = paths[:40]
	}
	// a lookup of "" or a route text may differ in partial matches only
	kept := paths[:0]
	for _, p := range paths {
		if okKey(p, d.u.d) {
			kept = append(kept, p)
		}
	}
	paths = kept
	if len(paths) == 0 {
		t.trivial = true
		return
	}
	t.Op("%d keys, %d paths", len(d.m.m), len(paths))
	for _, k := range d.m.keys() {
		t.Op("%s = %s", k, show(d.m.m[k].val))
	}
	list := readOps(t, d.s, paths, pre)
	want := make([]any, len(list))
	for i, o := range list {
		want[i] = o.fn()
	}
	// also an untouched copy: the first reads of a store are concurrent
	n := t.Range(3, 6)
	var wg sync.WaitGroup
	var mu sync.Mutex
	var fails []string
	start := make(chan struct{})
	for g := 0; g < n; g++ {
		perm := t.R.Perm(len(list))
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if e := recover(); e != nil {
					mu.Lock()
					fails = append(fails, fmt.Sprint("panic: ", e))
					mu.Unlock()
				}
			}()
			<-start
			for _, i := range perm {
				if got := list[i].fn(); !reflect.DeepEqual(got, want[i]) {
					mu.Lock()
					fails = append(fails, fmt.Sprintf("%s = %v; a sequential reader gets %v", list[i].name, got, want[i]))
					mu.Unlock()
				}
			}
		}()
	}
	close(start)
	wg.Wait()
	t.Ok(n * len(list))
	t.Count("concurrent reads", int64(n*len(list)))
	if len(fails) > 0 {
		sort.Strings(fails)
		t.Fail("answer", "%d concurrent reads differ: %s", len(fails), fails[0])
	}
}

type holder struct {
	A int
	B string
}

// workloads of the other properties which are safe to run together.
func delegates() (ret []func(t *T)) {
	skip := map[string]bool{"large": true, "wide": true}
	for _, id := range []string{"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C14", "C16", "C18", "C20"} {
		p := props[id]
		if p == nil {
			continue
		}
		for i := range p.Groups {
			g := &p.Groups[i]
			if !skip[g.Name] && g.Workers == 0 {
				ret = append(ret, func(t *T) {
					t.Op("workload %s/%s", id, g.Name)
					t.Count("workloads of "+id, 1)
					g.Body(t)
				})
			}
		}
	}
	return
}

func c15Independent(t *T) {
	pick(t, delegates())(t)
}

// firstUse is the body of a fresh process: its goroutines use the package for
// the first time, all at once.
func firstUse(seed int64, scratch string) int {
	ds := delegates()
	start := make(chan struct{})
	var wg sync.WaitGroup
	var bad atomic.Int32
	r := caseRand(seed, "C15", "first-child", 0)
	all := r.IntN(2) == 0 // all goroutines do the same kind of work
	pickD := r.IntN(len(ds))
	for g := 0; g < 8; g++ {
		t := &T{R: caseRand(seed, "C15", "first-child", g+1), Tier: "quick", Group: "first", Idx: g, race: true, scratch: scratch}
		body := ds[r.IntN(len(ds))]
		if all {
			body = ds[pickD]
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if e := recover(); e != nil {
					bad.Add(1)
					if f, ok := e.(*failure); ok {
						fmt.Fprintf(os.Stderr, "[%s] %s\n%s\n", f.sig, f.msg, strings.Join(t.trace, "\n"))
					} else {
						fmt.Fprintf(os.Stderr, "panic: %v\n", e)
					}
				}
			}()
			<-start
			for i := 0; i < 3; i++ {
				body(t)
			}
		}()
	}
	close(start)
	wg.Wait()
	if bad.Load() > 0 {
		return 1
	}
	return 0
}

func c15First(t *T) {
	exe, err := os.Executable()
	if err != nil {
		t.Discard("no executable")
		return
	}
	seed := t.R.Int64()
	dir, err := os.MkdirTemp(t.scratch, "first")
	if err != nil {
		t.Discard("no scratch folder")
		return
	}
	defer os.RemoveAll(dir)
	t.Op("fresh process, seed %d", seed)
	cmd := exec.Command(exe, "-firstuse", "-seed", fmt.Sprint(seed), "-scratch", dir)
	cmd.Dir = dir
	var out bytes.Buffer
	cmd.Stderr = &out
	err = cmd.Run() // its races go to the log of the race detector
	t.Ok(8)
	if err != nil {
		t.Fail("first-use", "a process whose first uses are concurrent failed: %v\n%s", err, clip(out.String(), 6000))
	}
	t.Count("fresh processes", 1)
}

// c15TTL: keys expire while their owner works on them.
func c15TTL(t *T) {
	d := newDriver(t)
	d.populate(t.Range(2, 10))
	s := d.s
	defer closeSut(s)
	keys := d.m.keys()
	shuffle(t, keys)
	tk := keys[:t.Range(1, min(3, len(keys)))]
	last := map[string][]any{}
	var fired atomic.Int64
	for _, k := range tk {
		last[k] = []any{nil, d.m.m[k].val}
	}
	check := func(op, k string, v any) {
		for _, w := range last[k] {
			if eq(v, w) {
				return
			}
		}
		t.Fail("ttl-value", "%s(%q) = %s, which was never written", op, k, show(v))
	}
	n := t.Range(20, 120)
	armed := 0
	// a node is replaced when it's split, so that a callback must not use it
	// while its owner inserts other keys
	splits := t.Chance(0.5)
	for i := 0; i < n; i++ {
		k := pick(t, tk)
		switch t.Int(15) {
		case 0, 1, 2:
			armed++
			dur := time.Duration(t.Range(200, 300000)) * time.Nanosecond
			if s.SetTTL(k, dur, func(x *radix.TTL[any], nd radix.Node[any]) {
				if !splits {
					_, _ = nd.Data(), nd.Tag()
				}
				fired.Add(1)
			}) != 0 {
				t.Fail("ttl-state", "SetTTL(%q) failed", k)
			}
		case 3:
			v := fmt.Sprint("w", i)
			last[k] = append(last[k], v)
			s.Set(k, v)
		case 4:
			v := fmt.Sprint("n", i)
			last[k] = append(last[k], v)
			s.SetNode(k, v, i, "d", "c")
		case 5:
			s.SetTag(k, i)
		case 6:
			v, _ := s.Get(k)
			check("Get", k, v)
		case 7:
			v, _, _, _ := s.Query(k, nil)
			check("Query", k, v)
			_, _ = s.GetTag(k)
		case 8:
			s.GetEx(k, func(n radix.Node[any], v any, b bool, kv radix.KVPair) {
				check("GetEx", k, v)
				check("Data", k, n.Data())
				_ = n.Tag()
			})
		case 9:
			for j := 0; j < 5; j++ {
				_ = callGetter(s, pick(t, getterMethods), k)
			}
		case 10:
			c := dup(s)
			v, _ := c.Get(k)
			check("copy.Get", k, v)
		case 11:
			_ = s.Dump()
			_ = walkAll(s, "")
		case 12:
			_, _ = s.GetM("")
			_, _ = s.GetR("")
		case 13:
			p := splitter(t, k, d.u.d)
			if splits && okKey(p, d.u.d) && last[p] == nil && !strings.Contains(p, " ") {
				s.Set(p, i)
			}
		case 14:
			v := fmt.Sprint("u", i)
			last[k] = append(last[k], v)
			if t.Chance(0.5) {
				s.Update(k, func(n radix.Node[any], old any) { check("Update", k, old); n.SetData(v) })
			} else {
				_ = s.SetEx(k, v, func(path string, old any, n radix.Node[any], tr radix.Trie[any]) { check("SetEx", k, old) })
			}
		}
		if t.Chance(0.2) {
			time.Sleep(time.Duration(t.Int(100)) * time.Microsecond)
		}
	}
	t.Op("%d steps, %d TTLs on %v", n, armed, tk)
	t.Ok(n)
	time.Sleep(500 * time.Microsecond)
	t.Count("TTLs set", int64(armed))
	t.Count("TTLs expired during the workload", fired.Load())
}
