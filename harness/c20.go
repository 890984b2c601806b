package main

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"os"

	"github.com/hedzr/store"
)

func init() {
	register(&Prop{
		ID:    "C20",
		Level: "fault_enumeration",
		Rule:  "a case interleaves loads, user writes, merges, WithinLoading blocks, saves and removals with faults injected at every point (Read, ReadBytes, decode, encode, Write, io.Writer; as an error with partial data, as an error without, as malformed input, as a panic of the plug-in); after each fault the whole store with metadata and modified marks is compared with the model, and the following operations behave normally; distinct = different histories",
		Groups: []Group{
			{Name: "load", Quick: 8000, Thorough: 200000, Body: c20Load},
			{Name: "save", Quick: 8000, Thorough: 200000, Body: c20Save},
			{Name: "sticky", Quick: 6000, Thorough: 150000, Body: c20Sticky},
		},
	})
}

// panicProvider fails by a panic.
type panicProvider struct {
	onceProvider
	at string
}

func (s *panicProvider) Read() (map[string]store.ValPkg, error) {
	if s.at == "read" {
		panic(errInjected)
	}
	return nil, store.ErrNotImplemented
}
func (s *panicProvider) ReadBytes() ([]byte, error) {
	if s.at == "bytes" {
		panic(errInjected)
	}
	return []byte(`{"bad":1}`), nil
}
func (s *panicProvider) Write(b []byte) error { panic(errInjected) }

type panicCodec struct{ *recCodec }

func (panicCodec) Unmarshal(b []byte) (map[string]any, error) { panic(errInjected) }
func (panicCodec) Marshal(m map[string]any) ([]byte, error)   { panic(errInjected) }

// watchOnce is a watchable byte provider.
type watchOnce struct {
	onceProvider
	watches int
}

func (s *watchOnce) Watch(ctx context.Context, cb func(event any, err error)) error {
	s.watches++
	return nil
}
func (s *watchOnce) Close() {}

// faults are the errors which plug-ins may fail with.
var faults = []error{errInjected, errInjected, errInjected, io.EOF, io.ErrUnexpectedEOF, io.ErrShortWrite, os.ErrNotExist, os.ErrPermission, context.Canceled, context.DeadlineExceeded, &os.PathError{Op: "open", Path: "x", Err: os.ErrClosed}}

var badJSON = []string{``, `{`, `{"a":1`, `{"bad":1,}`, `[1,2]`, `"text"`, `17`, `{"bad":1} x`, `{"bad":{"x":1},"y":tru}`, "{\"bad\":\"\x01\"}", `{'a':1}`, `nul`, "\xff\xfe", `{"bad":1}{"b":2}`}

func pkgs(m map[string]any) map[string]store.ValPkg {
	r := map[string]store.ValPkg{}
	for k, v := range m {
		r[k] = store.ValPkg{Value: v, Desc: "bad", Comment: "bad", Tag: "bad"}
	}
	return r
}

// failLoad makes one load fail and returns its kind.
func (c *saveCase) failLoad() {
	t := c.t
	kinds := []string{"read", "read-partial", "bytes", "bytes-partial", "bytes-whole", "malformed", "decode", "decode-partial", "pcodec", "notimpl", "panic-read", "panic-bytes", "panic-decode", "watch-read", "watch-bytes"}
	kind := pick(t, kinds)
	// the partial data must not get in: it overlaps with the keys of the store
	part, _ := genTree(t, treeOpt{d: c.dl, depth: t.Range(1, 3), dotted: true, json: true})
	if ks := c.m.keys(); len(ks) > 0 {
		for i := t.Range(0, 3); i > 0; i-- {
			part[pick(t, ks)] = fmt.Sprint("bad", i)
		}
	}
	whole, _ := json.Marshal(part)
	inj := pick(t, faults)
	want := inj
	var opts []store.LoadOpt
	var watches func() int
	if t.Chance(0.3) { // wrapped
		inj = fmt.Errorf("outer: %w", inj)
	}
	switch kind {
	case "read", "read-partial":
		p := &readProvider{err: inj}
		if kind == "read-partial" {
			p.m = pkgs(part)
		}
		opts = append(opts, store.WithProvider(p))
		if t.Chance(0.3) {
			opts = append(opts, store.WithCodec(&recCodec{}))
		}
	case "watch-read":
		p := &watchProvider{readProvider: readProvider{err: inj, m: pkgs(part)}}
		watches = func() int { return p.watches }
		opts = append(opts, store.WithProvider(p))
	case "watch-bytes":
		p := &watchOnce{onceProvider: onceProvider{data: whole, err: inj}}
		watches = func() int { return p.watches }
		opts = append(opts, store.WithProvider(p))
	case "bytes", "bytes-partial", "bytes-whole":
		p := &onceProvider{err: inj}
		if kind == "bytes-partial" {
			p.data = whole[:t.Int(len(whole)+1)]
		}
		if kind == "bytes-whole" {
			p.data = whole
		}
		opts = append(opts, store.WithProvider(p))
		if t.Chance(0.5) {
			opts = append(opts, store.WithCodec(&recCodec{}))
		}
	case "malformed":
		want = nil // any error
		b := pick(t, badJSON)
		if t.Chance(0.5) && len(part) > 0 {
			b = string(whole[:t.Range(1, len(whole)-1)])
		}
		opts = append(opts, store.WithProvider(&onceProvider{data: []byte(b)}))
		t.Op("input %q", b)
	case "decode", "decode-partial":
		cd := &recCodec{uerr: inj}
		if kind == "decode-partial" {
			cd.partial = part
		}
		opts = append(opts, store.WithProvider(&onceProvider{data: whole}), store.WithCodec(cd))
	case "pcodec":
		p := &onceProvider{data: whole}
		p.codec = &recCodec{uerr: inj, partial: part}
		opts = append(opts, store.WithProvider(p))
	case "notimpl":
		want = store.ErrNotImplemented
		opts = append(opts, store.WithProvider(&readProvider{err: store.ErrNotImplemented, m: pkgs(part)}))
	case "panic-read":
		opts = append(opts, store.WithProvider(&panicProvider{at: "read"}))
	case "panic-bytes":
		opts = append(opts, store.WithProvider(&panicProvider{at: "bytes"}))
	case "panic-decode":
		opts = append(opts, store.WithProvider(&onceProvider{data: whole}), store.WithCodec(panicCodec{&recCodec{}}))
	}
	if t.Chance(0.5) {
		opts = append(opts, store.WithStorePrefix(c.prefix()))
	}
	if t.Chance(0.2) {
		opts = append(opts, store.WithStoreFlattenSlice(t.Chance(0.7)))
	}
	shuffle(t, opts)
	t.Op("failing Load (%s) partial %s", kind, clip(string(whole), 100))
	err, panicked := func() (err error, panicked bool) {
		defer func() {
			if e := recover(); e != nil {
				if e != any(errInjected) {
					panic(e)
				}
				panicked = true
			}
		}()
		_, err = c.s.Load(context.Background(), opts...)
		return
	}()
	t.Ok(1)
	t.Count("fault load "+kind, 1)
	if len(kind) < 5 || kind[:5] != "panic" {
		if err == nil {
			t.Fail("load-no-error", "Load (%s) returned no error", kind)
		}
		if want != nil && !errors.Is(err, want) {
			t.Fail("load-error", "Load (%s) returned %v instead of %v", kind, err, want)
		}
	} else if err == nil && !panicked {
		t.Fail("load-no-error", "Load (%s) claims success", kind)
	}
	if watches != nil && watches() != 0 {
		t.Fail("load-watch", "Load (%s) failed, but the provider is being watched", kind)
	}
	checkSnapshot(t, c.sut, c.m, "failed-load", true, true)
}

func (c *saveCase) failSave(sv *saver) {
	t := c.t
	kind := pick(t, []string{"encode", "write", "panic-encode", "unwriteable", "write-notimpl"})
	as := t.Chance(0.4)
	want := c.content(sv.pre, as)
	if kind == "panic-encode" || kind == "unwriteable" {
		as = true
		want = c.content(sv.pre, true)
	}
	inj := pick(t, faults)
	wantErr := inj
	if t.Chance(0.3) {
		inj = fmt.Errorf("outer: %w", inj)
	}
	short := t.Int(5)
	if kind == "unwriteable" || kind == "write-notimpl" {
		wantErr, inj = store.ErrNotImplemented, store.ErrNotImplemented
	}
	t.Op("failing Save (%s, prefix %q, as=%v)", kind, sv.pre, as)
	var err error
	panicked := false
	var writes int
	if as {
		cd := &recCodec{}
		p := &onceProvider{}
		io := &ioProvider{}
		var prov store.Provider = p
		if t.Chance(0.3) {
			prov = io
		}
		var codec store.Codec = cd
		switch kind {
		case "encode":
			cd.merr = inj
		case "write", "write-notimpl":
			p.werr, io.err, io.short = inj, inj, short
		case "unwriteable":
			prov = &readProvider{}
		default:
			codec = panicCodec{cd}
		}
		func() {
			defer func() {
				if e := recover(); e != nil {
					if e != any(errInjected) {
						panic(e)
					}
					panicked = true
				}
			}()
			err = sv.ld.SaveAs(context.Background(), "unused", store.WithSaveAsCodec(codec), store.WithSaveAsProvider(prov))
		}()
		writes = len(p.writes) + len(io.writes)
	} else {
		switch {
		case kind == "encode":
			sv.c.merr = inj
		case sv.plain != nil:
			sv.plain.err, sv.plain.short = inj, short
		default:
			sv.p.werr = inj
		}
		err = sv.wr.Save(context.Background())
		sv.c.merr = nil
		if sv.plain != nil {
			sv.plain.err = nil
			writes, sv.plain.writes = len(sv.plain.writes), nil
		} else {
			sv.p.werr = nil
			writes, sv.p.writes = len(sv.p.writes), nil
		}
	}
	t.Ok(1)
	if len(want) == 0 {
		if err != nil {
			t.Fail("save-error", "there's nothing to be saved, but Save failed with %v", err)
		}
	} else if kind == "panic-encode" {
		if err == nil && !panicked {
			t.Fail("save-no-error", "Save (%s) claims success", kind)
		}
	} else if err == nil {
		t.Fail("save-no-error", "Save (%s) returned no error", kind)
	} else if !errors.Is(err, wantErr) {
		t.Fail("save-error", "Save (%s) returned %v instead of the injected error", kind, err)
	}
	if writes > 0 {
		t.Fail("save-write", "Save (%s) failed, but it wrote something", kind)
	}
	if len(want) > 0 {
		t.Count(fmt.Sprintf("fault save %s as=%v io=%v", kind, as, sv.plain != nil), 1)
	}
	checkSnapshot(t, c.sut, c.m, "failed-save", true, true)
}

func c20Load(t *T) {
	c := newSaveCase(t, store.WithWatchEnable(t.Chance(0.5)))
	for i := t.Range(0, 6); i > 0; i-- {
		c.step()
	}
	for i := t.Range(1, 6); i > 0; i-- {
		c.failLoad()
		for j := t.Range(0, 3); j > 0; j-- {
			c.step()
			c.marks()
		}
	}
	if len(c.savers) < 4 {
		c.load()
		c.marks()
	}
	for _, sv := range c.savers {
		c.save(sv)
		c.saveAs(sv)
	}
	for _, k := range c.m.keys() {
		checkPath(t, c.sut, c.m, k, k)
	}
}

func c20Save(t *T) {
	c := newSaveCase(t)
	c.load()
	for i := t.Range(2, 14); i > 0; i-- {
		c.step()
		if t.Chance(0.5) {
			sv := pick(t, c.savers)
			c.failSave(sv)
			if t.Chance(0.5) {
				c.save(sv) // now it works
			}
		}
		if t.Chance(0.15) {
			c.failLoad()
		}
	}
	for _, sv := range c.savers {
		c.failSave(sv)
		c.save(sv)
		c.saveAs(sv)
	}
	c.marks()
}

// c20Sticky: right after a failure, the very next operation is normal.
func c20Sticky(t *T) {
	type call struct {
		kind    string
		path    string
		loading bool
	}
	var calls []call
	c := newSaveCase(t,
		store.WithOnNewHandlers(func(p string, v any, l bool) { calls = append(calls, call{"new", p, l}) }),
		store.WithOnChangeHandlers(func(p string, v, o any, l bool) { calls = append(calls, call{"change", p, l}) }),
		store.WithOnDeleteHandlers(func(p string, v any, l bool) { calls = append(calls, call{"delete", p, l}) }))
	for i := t.Range(0, 5); i > 0; i-- {
		c.step()
	}
	for i := t.Range(1, 5); i > 0; i-- {
		fault := t.Int(4)
		switch {
		case fault == 0 && len(c.savers) > 0:
			c.failSave(pick(t, c.savers))
		case fault == 1: // user code which panics
			t.Op("WithinLoading { panic }")
			func() {
				defer func() { _ = recover() }()
				c.s.WithinLoading(func() {
					if t.Chance(0.5) {
						c.userSet(false)
					}
					panic(errInjected)
				})
			}()
			t.Count("fault WithinLoading", 1)
		default:
			c.failLoad()
		}
		switch t.Int(4) {
		case 0, 1: // a Set by the user
			k := pick(t, c.u.keys)
			want := call{"new", k, false}
			if c.m.class(k) == live {
				want.kind = "change"
			}
			v := noMaps(c.u.value(t))
			t.Op("Set(%q, %s)", k, show(v))
			calls = nil
			c.s.Set(k, v)
			c.m.set(k, v)
			c.m.m[k].mod = true
			t.Ok(1)
			if len(calls) != 1 || calls[0] != want {
				t.Fail("sticky-handler", "after a failure, Set fired %v; want %v", calls, want)
			}
		case 2:
			t.Op("WithinLoading")
			k := pick(t, c.u.keys)
			ran := 0
			c.s.WithinLoading(func() { ran++; c.s.Set(k, "w"); calls = nil })
			c.m.set(k, "w")
			c.m.m[k].mod = false
			t.Ok(1)
			if ran != 1 {
				t.Fail("sticky-loading", "after a failure, WithinLoading ran its function %d times", ran)
			}
		default:
			if len(c.savers) < 6 {
				c.load()
			}
		}
		c.marks()
	}
	for _, sv := range c.savers {
		c.save(sv)
	}
}
