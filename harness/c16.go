package main

import (
	"context"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"strings"
	"sync/atomic"
	"time"

	"github.com/hedzr/store"
	jsoncodec "github.com/hedzr/store/codecs/json"
	"github.com/hedzr/store/providers/file"
)

func init() {
	register(&Prop{
		ID:   "C16",
		Rule: "a case loads several watchable fake providers with different prefixes and watch flags into one store and feeds generated change events (every Op and combination, repeated keys, errors, foreign events) interleaved with the owner's operations; after each event the whole store is compared with the model, handler calls are counted, and at the end the Watch and Close calls of every provider; distinct = different event histories",
		Groups: []Group{
			{Name: "events", Quick: 9000, Thorough: 200000, Body: c16Events},
			{Name: "close", Quick: 6000, Thorough: 100000, Body: c16Close},
			{Name: "file", Quick: 150, Thorough: 3000, Workers: 1, Body: c16File},
		},
	})
}

type watched struct {
	p    *watchProvider
	pre  string
	want bool // is watched
	bare bool // loaded without a store prefix, so the store's handlers see its events
	bad  bool // its Watch fails
}

type watchCase struct {
	*loadCase
	provs []*watched
	calls map[string]int
	user  bool // a handler was told that it's a change of the user
	log   []string
	root  string
	allow bool
}

func newWatchCase(t *T) *watchCase {
	w := &watchCase{calls: map[string]int{}}
	delim := pick(t, plainDelims)
	c := &loadCase{t: t, m: newModel(delim), dl: string(delim), u: newUniverse(t, delim)}
	allow := t.Chance(0.85)
	w.allow = allow
	opts := []store.Opt{store.WithWatchEnable(allow),
		store.WithOnNewHandlers(func(path string, value any, l bool) {
			w.calls["new "+path]++
			w.user = w.user || !l
			w.log = append(w.log, fmt.Sprintf("new %q %s", path, show(value)))
		}),
		store.WithOnChangeHandlers(func(path string, value, old any, l bool) {
			w.calls["change "+path]++
			w.user = w.user || !l
			w.log = append(w.log, fmt.Sprintf("change %q %s -> %s", path, show(old), show(value)))
		}),
		store.WithOnDeleteHandlers(func(path string, value any, l bool) {
			w.calls["delete "+path]++
			w.user = w.user || !l
			w.log = append(w.log, fmt.Sprintf("delete %q %s", path, show(value)))
		})}
	if t.Chance(0.2) {
		w.root = c.u.seg(t)
	}
	c.sut = newStoreSut(delim, opts...)
	c.s = c.sut.(store.Store)
	for i := t.Range(0, 6); i > 0; i-- {
		k, v := pick(t, c.u.keys), c.u.value(t)
		t.Op("SetNode(%q, %s)", k, show(v))
		c.sut.SetNode(k, v, i, "d", "c")
		c.m.set(k, v)
		c.m.m[k].tag, c.m.m[k].desc, c.m.m[k].comment = i, "d", "c"
	}
	if w.root != "" && okKey(w.root, c.dl) {
		c.s.SetPrefix(w.root)
	} else {
		w.root = ""
	}
	w.loadCase = c
	for i := t.Range(1, 4); i > 0; i-- {
		w.load(allow)
	}
	return w
}

func (w *watchCase) load(allow bool) {
	t, c := w.t, w.loadCase
	x := &watched{p: &watchProvider{}}
	data, _ := genTree(t, treeOpt{d: c.dl, depth: t.Range(1, 3), dotted: true})
	x.p.m = map[string]store.ValPkg{}
	for k, v := range data {
		x.p.m[k] = store.ValPkg{Value: v}
	}
	opts := []store.LoadOpt{store.WithProvider(x.p)}
	x.pre, x.bare = w.root, true
	if t.Chance(0.6) {
		x.pre, x.bare = c.prefix(), false
		opts = append(opts, store.WithStorePrefix(x.pre))
	}
	x.want = allow
	if t.Chance(0.3) {
		no := t.Chance(0.6)
		opts = append(opts, store.WithoutWatch(no))
		x.want = x.want && !no
	}
	if t.Chance(0.05) {
		x.p.werr, x.bad = errInjected, true
	}
	shuffle(t, opts)
	t.Op("Load provider %d (prefix %q, %v) watch=%v fails=%v", len(w.provs), x.pre, data, x.want, x.bad)
	wr, err := c.s.Load(context.Background(), opts...)
	if err != nil || wr == nil {
		t.Fail("load-err", "Load: %v, %v", wr, err)
	}
	flat := map[string]any{}
	expandTree(flat, "", data, treeOpt{d: c.dl})
	for k, v := range flat {
		f := join2(x.pre, k, c.dl)
		c.m.set(f, v)
		e := c.m.m[f]
		e.desc, e.comment, e.tag, e.mod = "", "", nil, false
	}
	t.Ok(1)
	if n := x.p.watches; x.want && n != 1 || !x.want && n != 0 {
		t.Fail("watch-calls", "Watch was called %d times; watching wanted: %v", n, x.want)
	}
	if x.want && !x.bad && x.p.cb == nil {
		t.Fail("watch-cb", "Watch got no callback")
	}
	if x.p.closes != 0 {
		t.Fail("closed-early", "Load closed the provider")
	}
	w.provs = append(w.provs, x)
}

func (w *watchCase) alive() (ret []*watched) {
	for _, x := range w.provs {
		if x.want && !x.bad {
			ret = append(ret, x)
		}
	}
	return
}

// rel makes a key relative to the prefix of x.
func (w *watchCase) rel(x *watched, liveOnly bool) string {
	t, c := w.t, w.loadCase
	if ks := c.m.below(x.pre); len(ks) > 0 && x.pre != "" && (liveOnly || t.Chance(0.5)) {
		return pick(t, ks)[len(x.pre)+len(c.dl):]
	}
	if x.pre == "" && len(c.m.m) > 0 && (liveOnly || t.Chance(0.5)) {
		return pick(t, c.m.keys())
	}
	if t.Chance(0.5) {
		return pick(t, c.u.keys)
	}
	k := pick(t, treeSegs)
	for i := t.Range(0, 2); i > 0; i-- {
		k += c.dl + pick(t, treeSegs)
	}
	return k
}

var watchOps = []store.Op{store.OpCreate, store.OpCreate, store.OpWrite, store.OpWrite, store.OpCreate | store.OpWrite, store.OpRemove, store.OpRemove, store.OpRemove, store.OpRename, store.OpChmod,
	store.OpRename | store.OpChmod, store.OpCreate | store.OpChmod, store.OpWrite | store.OpRename, store.OpWrite | store.OpChmod, store.OpRemove | store.OpChmod, store.OpRemove | store.OpRename, store.OpNone}

func (w *watchCase) event(i int, x *watched) {
	t, c := w.t, w.loadCase
	ev := &change{op: pick(t, watchOps), prov: x.p}
	sets := ev.op&(store.OpCreate|store.OpWrite) != 0
	removes := !sets && ev.op&store.OpRemove != 0
	n := t.Range(0, 5)
	for ; n > 0; n-- {
		k := w.rel(x, removes && t.Chance(0.7))
		if !okKey(k, c.dl) {
			continue
		}
		ev.kvs = append(ev.kvs, kv{k, c.u.value(t)})
		if t.Chance(0.15) { // once more in the same event
			ev.kvs = append(ev.kvs, kv{k, c.u.value(t)})
		}
	}
	var err error
	var event any = ev
	switch t.Int(12) {
	case 0:
		err = errInjected
	case 1:
		event = pick(t, []any{nil, "event", 3, map[string]any{"a": 1}, struct{}{}})
	}
	next := c.m.clone()
	var wantLog []string
	if err == nil && event == any(ev) {
		kvs := ev.kvs[:0:0]
		for _, p := range ev.kvs {
			f := join2(x.pre, p.k, c.dl)
			old, live := next.m[f]
			switch {
			case sets && live:
				wantLog = append(wantLog, fmt.Sprintf("change %q %s -> %s", p.k, show(old.val), show(p.v)))
			case sets:
				wantLog = append(wantLog, fmt.Sprintf("new %q %s", p.k, show(p.v)))
			case removes && live:
				wantLog = append(wantLog, fmt.Sprintf("delete %q %s", p.k, show(old.val)))
			}
			if sets {
				next.set(f, p.v)
				next.m[f].mod = false // it's not a change of the user
			} else if removes {
				if next.class(f) == branchOnly {
					continue // removing a pure parent isn't specified here
				}
				next.remove(f)
			}
			kvs = append(kvs, p)
		}
		ev.kvs = kvs
	}
	t.Op("provider %d (prefix %q) event op=%d err=%v %T %v", i, x.pre, ev.op, err, event, ev.kvs)
	clear(w.calls)
	w.user, w.log = false, nil
	if t.Chance(0.5) {
		x.p.cb(event, err)
	} else { // as the goroutine of a watcher
		done := make(chan any)
		go func() {
			defer func() { done <- recover() }()
			x.p.cb(event, err)
		}()
		if e := <-done; e != nil {
			t.Fail("event-panic", "the change event panicked: %v", e)
		}
	}
	c.m = next
	checkSnapshot(t, c.sut, c.m, "event", true, true)
	max := map[string]int{}
	for _, p := range ev.kvs {
		max[p.k]++
	}
	t.Ok(1)
	if w.user {
		t.Fail("event-user", "a handler was told that the watched change was made by the user: %v", w.calls)
	}
	if x.bare && strings.Join(w.log, "\n") != strings.Join(wantLog, "\n") {
		t.Fail("event-handlers", "the handlers saw the event as\n%s\nwant\n%s", strings.Join(w.log, "\n"), strings.Join(wantLog, "\n"))
	}
	for k, n := range w.calls {
		key := k[len("new "):]
		if k[0] != 'n' {
			key = k[len("change "):]
		}
		if n > max[key] {
			t.Fail("event-twice", "the handler ran %d times for %q, which the event carries %d times", n, k, max[key])
		}
	}
	if err == nil && event == any(ev) && (sets || removes) {
		if ev.i != len(ev.kvs) {
			t.Fail("event-rest", "only %d of the %d keys of the event were taken", ev.i, len(ev.kvs))
		}
		t.Count("applied events", 1)
		t.Count("applied keys", int64(len(ev.kvs)))
	} else {
		t.Count("ignored events", 1)
	}
}

func (w *watchCase) lookups(ks []string) {
	for _, k := range ks {
		f := k
		if w.root != "" {
			continue
		}
		checkPath(w.t, w.sut, w.m, f, f)
	}
}

func c16Events(t *T) {
	w := newWatchCase(t)
	as := w.alive()
	for i := t.Range(2, 14); i > 0; i-- {
		if len(as) == 0 {
			break
		}
		switch {
		case t.Chance(0.75):
			j := t.Int(len(as))
			w.event(j, as[j])
		case t.Chance(0.3):
			w.load(w.allow)
			if x := w.provs[len(w.provs)-1]; x.want && !x.bad {
				as = append(as, x)
			}
		default: // the owner
			k, v := pick(t, w.u.keys), w.u.value(t)
			t.Op("owner Set(%q, %s)", k, show(v))
			w.s.Set(k, v)
			w.m.set(join2(w.root, k, w.dl), v)
			w.m.m[join2(w.root, k, w.dl)].mod = true
		}
	}
	checkSnapshot(t, w.sut, w.m, "end", true, true)
	w.lookups(w.m.keys())
	w.closeAll()
}

func (w *watchCase) closeAll() {
	t := w.t
	t.Op("Close()")
	w.s.Close()
	if t.Chance(0.3) {
		t.Op("Close() again")
		w.s.Close()
	}
	for i, x := range w.provs {
		t.Ok(1)
		switch {
		case x.bad:
		case x.want && x.p.closes != 1:
			t.Fail("close-calls", "Close closed the watching provider %d (prefix %q) %d times", i, x.pre, x.p.closes)
		case !x.want && x.p.closes != 0:
			t.Fail("close-foreign", "Close closed the provider %d, which isn't watched", i)
		}
		if x.want {
			t.Count("closed watchers", 1)
		}
	}
	checkSnapshot(t, w.sut, w.m, "closed", true, true)
}

// c16Close: many loads, copies and views, a failed load, then Close.
func c16Close(t *T) {
	w := newWatchCase(t)
	if t.Chance(0.3) {
		// a failing load must not be watched
		p := &watchProvider{}
		p.err, p.m = errInjected, map[string]store.ValPkg{"bad": {Value: 1}}
		t.Op("failing Load")
		if _, err := w.s.Load(context.Background(), store.WithProvider(p)); err == nil {
			t.Fail("load-err", "Load of a failing provider succeeded")
		}
		t.Ok(1)
		if p.watches != 0 {
			t.Fail("watch-failed", "a provider whose load failed is being watched")
		}
	}
	if t.Chance(0.5) { // copies and views have nothing to do with it
		for _, s := range []store.Store{w.s.Dup(), w.s.WithPrefix("x"), w.s.WithPrefixReplaced("y"), w.s.N(), w.s.BR()} {
			if t.Chance(0.5) {
				t.Op("Close a copy")
				s.Close()
			}
		}
		for i, x := range w.provs {
			t.Ok(1)
			if x.p.closes != 0 {
				t.Fail("close-copy", "closing a copy or view closed the provider %d", i)
			}
		}
	}
	for i := t.Range(0, 4); i > 0; i-- {
		w.load(w.allow)
	}
	w.closeAll()
}

// c16File watches real files (in a scratch directory) and closes the watchers.
func c16File(t *T) {
	dir, err := os.MkdirTemp(t.scratch, "c16")
	if err != nil {
		t.Discard("no scratch directory")
		return
	}
	defer os.RemoveAll(dir)
	before := runtime.NumGoroutine()
	type fw struct {
		name  string
		path  string // as it is given to the provider
		kind  int    // 0 plain, 1 link beside its target, 2 link into another folder
		calls atomic.Int64
		errs  atomic.Int64
		close func()
		seen  bool
	}
	var all []*fw
	for i := t.Range(1, 3); i > 0; i-- {
		x := &fw{name: filepath.Join(dir, fmt.Sprintf("f%d.json", i))}
		if err = os.WriteFile(x.name, []byte(fmt.Sprintf(`{"a":%d,"b":{"c":"x"}}`, i)), 0o600); err != nil {
			t.Discard("no scratch file")
			return
		}
		x.path = x.name
		switch x.kind = pick(t, []int{0, 0, 1, 2}); x.kind {
		case 1:
			x.path = filepath.Join(dir, fmt.Sprintf("link%d.json", i))
			err = os.Symlink(pick(t, []string{x.name, filepath.Base(x.name)}), x.path)
		case 2:
			sub := filepath.Join(dir, fmt.Sprintf("sub%d", i))
			_ = os.Mkdir(sub, 0o700)
			x.path = filepath.Join(sub, "link.json")
			err = os.Symlink(x.name, x.path)
		}
		if err != nil {
			t.Discard("no scratch link")
			return
		}
		given := x.path
		switch t.Int(5) {
		case 0:
			given = filepath.Dir(x.path) + "/../" + filepath.Base(filepath.Dir(x.path)) + "/./" + filepath.Base(x.path)
		case 1:
			if wd, e := os.Getwd(); e == nil {
				if rel, e := filepath.Rel(wd, x.path); e == nil {
					given = rel
				}
			}
		}
		t.Op("kind %d, %s", x.kind, given)
		p := file.New(given, file.WithWatchEnabled(true), file.WithCodec(jsoncodec.New()))
		if t.Chance(0.4) {
			t.Op("Load %s with watching", filepath.Base(x.name))
			s := store.New(store.WithWatchEnable(true))
			_, err = s.Load(context.Background(), store.WithProvider(p), store.WithStorePrefix("app"))
			if err != nil {
				t.Fail("file-load", "Load: %v", err)
				return
			}
			x.close = s.Close
		} else {
			t.Op("Watch %s", filepath.Base(x.name))
			ctx, cancel := context.WithCancel(context.Background())
			defer cancel()
			err = p.Watch(ctx, func(event any, err error) {
				if err != nil {
					x.errs.Add(1)
				} else if event != nil {
					x.calls.Add(1)
				}
			})
			if err != nil {
				for _, y := range all {
					y.close()
				}
				t.Discard("watching isn't possible here")
				return
			}
			x.seen, x.close = true, p.Close
			if t.Chance(0.3) { // watching twice is no second watcher
				_ = p.Watch(ctx, func(any, error) {})
				t.Op("Watch again")
			}
			if t.Chance(0.3) {
				t.Op("to be cancelled")
				x.close = cancel
			}
		}
		all = append(all, x)
	}
	for _, x := range all {
		if t.Chance(0.3) {
			continue
		}
		// a change of another file is none of this
		if x.seen && len(all) == 1 && t.Chance(0.3) {
			_ = os.WriteFile(filepath.Join(filepath.Dir(x.path), "other.json"), []byte("{}"), 0o600)
			time.Sleep(10 * time.Millisecond)
			t.Ok(1)
			if n := x.calls.Load() + x.errs.Load(); n != 0 {
				t.Fail("file-other", "the watcher was called %d times for another file", n)
			}
		}
		how := t.Int(2)
		target := x.name // of the link
		for n := t.Range(1, 3); n > 0; n-- {
			had := x.calls.Load()
			t.Op("write %s (%d)", filepath.Base(x.name), how)
			relink := x.kind == 1 && t.Chance(0.4)
			if relink {
				t.Op("the link is turned")
			}
			write := func() {
				data := []byte(fmt.Sprintf(`{"a":%d}`, n))
				tmp := filepath.Join(filepath.Dir(x.path), "tmp.tmp")
				switch {
				case x.kind == 2: // the link is turned to another file
					next := filepath.Join(dir, fmt.Sprintf("next%d", n))
					_ = os.WriteFile(next, data, 0o600)
					_ = os.Symlink(next, tmp)
					_ = os.Rename(tmp, x.path)
				case relink:
					target = filepath.Join(dir, fmt.Sprintf("turned%d", n))
					_ = os.WriteFile(target, data, 0o600)
					_ = os.Symlink(target, tmp)
					_ = os.Rename(tmp, x.path)
				case how == 1: // replaced
					_ = os.WriteFile(tmp, data, 0o600)
					_ = os.Rename(tmp, target)
				default:
					_ = os.WriteFile(target, data, 0o600)
				}
			}
			write()
			if !x.seen {
				break
			}
			t.Ok(1)
			var last time.Time
			if !eventually(func() bool {
				if x.calls.Load() > had {
					return true
				}
				if time.Since(last) > 25*time.Millisecond { // close changes are taken as one
					last = time.Now()
					write()
				}
				return false
			}) {
				t.Fail("file-unseen", "the watcher of a written file was not called (kind %d, %d errors)", x.kind, x.errs.Load())
			}
		}
		if x.seen && t.Chance(0.3) {
			t.Op("remove %s", filepath.Base(x.path))
			if os.Remove(x.path) == nil {
				t.Ok(1)
				if !eventually(func() bool { return x.errs.Load() > 0 }) {
					t.Fail("file-removed", "the watcher of a removed file did not tell it")
				}
			}
		}
		t.Count("file events", x.calls.Load())
	}
	for _, x := range all {
		x.close()
		if t.Chance(0.2) {
			x.close()
		}
	}
	t.Ok(1)
	if !eventually(func() bool { return runtime.NumGoroutine() <= before }) {
		buf := make([]byte, 1<<16)
		t.Fail("watcher-left", "%d goroutines are left after closing all watchers; %d before\n%s", runtime.NumGoroutine(), before, buf[:runtime.Stack(buf, true)])
		return
	}
	// nobody is called any more
	for _, x := range all {
		n := x.calls.Load()
		_ = os.WriteFile(x.name, []byte(`{"a":78}`), 0o600)
		t.Ok(1)
		if x.calls.Load() != n {
			t.Fail("called-after-close", "a watcher was called after Close")
		}
	}
	t.Count("file watchers closed", int64(len(all)))
}
