package main

import (
	"bytes"
	"context"
	"errors"
	"flag"
	"fmt"
	"io"
	iofs "io/fs"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"testing/fstest"
	"time"

	"github.com/hedzr/store"
	"github.com/hedzr/store/codecs/json"
	"github.com/hedzr/store/providers/env"
	"github.com/hedzr/store/providers/file"
	"github.com/hedzr/store/providers/flags"
	"github.com/hedzr/store/providers/fs"
	"github.com/hedzr/store/providers/maps"
)

func init() {
	register(&Prop{
		ID:   "C19",
		Rule: "a case fills a source (process environment, flag set, nested map, file, fs.FS) with random data, makes the provider with random options, and compares everything it enumerates, reads and loads into a store (with other keys in it) with a model computed from the source by the documented rules; distinct = different sources, options and results",
		Assumptions: []string{
			"names which are mapped to the same key are checked for the consistency of the provider only",
			"env and flags providers take their data when they are made (New)",
			"a missing source is a path which does not exist or is a folder (the checks run as root, whom permissions don't stop)",
		},
		Groups: []Group{
			{Name: "env", Quick: 8000, Thorough: 60000, Workers: 1, Body: c19Env},
			{Name: "flags", Quick: 8000, Thorough: 60000, Workers: 1, Body: c19Flags},
			{Name: "maps", Quick: 40000, Thorough: 300000, Body: c19Maps},
			{Name: "file", Quick: 4000, Thorough: 60000, Body: c19File},
			{Name: "fs", Quick: 4000, Thorough: 60000, Body: c19FS},
			{Name: "contract", Quick: 6000, Thorough: 60000, Workers: 1, Body: c19Contract},
		},
	})
}

// nameRules are the options of the env and flags providers.
type nameRules struct {
	prefix, stripped, storePrefix string
	upper                         bool // the prefix is upper-cased
	lower, dots                   bool
	cb                            func(string) string
}

// key is the model of the mapping of names, ok is false if it isn't selected.
func (r nameRules) key(name string) (k string, ok bool) {
	p := r.prefix
	if r.upper {
		p = strings.ToUpper(p)
	}
	if !strings.HasPrefix(name, p) {
		return "", false
	}
	k = name
	if r.lower {
		k = strings.ToLower(k)
	}
	k = strings.TrimPrefix(k, r.stripped)
	if r.dots {
		b := []byte(k)
		for i := 1; i+1 < len(b); i++ {
			if k[i] == '_' && k[i+1] != '_' {
				b[i] = '.'
			}
		}
		k = string(b)
	}
	if r.cb != nil {
		k = r.cb(k)
	}
	if r.storePrefix != "" {
		k = r.storePrefix + "." + k
	}
	return k, true
}

func genRules(t *T, prefixes []string, upper bool) (r nameRules) {
	r.upper, r.lower = upper, true
	if t.Chance(0.85) {
		r.prefix = pick(t, prefixes)
		if t.Chance(0.3) {
			r.prefix = strings.ToLower(r.prefix)
		}
		if t.Chance(0.6) {
			r.stripped = pick(t, prefixes)
			if t.Chance(0.7) {
				r.stripped = strings.ToLower(r.stripped)
			}
			if t.Chance(0.5) {
				r.stripped = strings.ToLower(r.prefix)
			}
		}
	}
	if t.Chance(0.4) {
		r.storePrefix = pick(t, []string{"app", "app.env", "x", "é.y"})
	}
	if t.Chance(0.3) {
		r.lower = false
	}
	r.dots = t.Chance(0.5)
	switch t.Int(5) {
	case 0:
		r.cb = func(k string) string { return strings.ReplaceAll(k, "_", "-") }
	case 1:
		r.cb = func(k string) string { return "cb." + k }
	}
	return
}

var nameParts = []string{"A", "B", "AB", "LOG", "LOGGING", "HOST", "host", "Port", "x", "1", "42", "_", "__", "_A", "A_", "É", "日", "x.y", "DB", "USER", "-"}

func genName(t *T, prefix string) string {
	n := prefix
	for i := t.Range(1, 4); i > 0; i-- {
		n += pick(t, nameParts)
		if t.Chance(0.6) {
			n += "_"
		}
	}
	return n
}

// enumerable is what the env and flags providers have.
type enumerable interface {
	store.Provider
	store.StreamProvider
}

// provAgree checks that a provider enumerates what it delivers.
func provAgree(t *T, p enumerable, want map[string]any, what func(any) any) {
	data, err := p.Read()
	if err != nil {
		t.Fail("read", "Read returns the error %v", err)
	}
	keys, err := p.Keys()
	if err != nil {
		t.Fail("keys", "Keys returns the error %v", err)
	}
	var got []string
	for k := range data {
		got = append(got, k)
	}
	sort.Strings(got)
	sorted := append([]string(nil), keys...)
	sort.Strings(sorted)
	if !eq(got, sorted) && len(got)+len(sorted) > 0 {
		t.Fail("keys-read", "Keys returns %q, but Read delivers %q", sorted, got)
	}
	if p.Count() != len(got) {
		t.Fail("count", "Count is %d, but Read delivers %d keys", p.Count(), len(got))
	}
	for k, v := range want {
		g, ok := data[k]
		if !ok {
			t.Fail("missing", "the key %q (value %s) is not delivered, only %q", k, show(v), got)
		}
		if x := what(g.Value); !eq(x, v) {
			t.Fail("value", "the key %q has the value %s; want %s", k, show(x), show(v))
		}
	}
	for _, k := range got {
		if _, ok := want[k]; !ok {
			t.Fail("extra", "the key %q is delivered, which isn't selected", k)
		}
		v, ok := p.Value(k)
		if !ok || !p.Has(k) || !sameVal(v, data[k].Value) || !sameVal(p.MustValue(k), data[k].Value) {
			t.Fail("accessors", "Value(%q) = %s, %v, Has = %v; but Read delivers %s", k, show(v), ok, p.Has(k), show(data[k].Value))
		}
	}
	for _, k := range []string{"zz-absent", "", "app.zz"} {
		if _, in := data[k]; in {
			continue
		}
		if v, ok := p.Value(k); ok || p.Has(k) || v != nil || p.MustValue(k) != nil {
			t.Fail("accessors-absent", "Value(%q) = %s, %v, Has = %v for an absent key", k, show(v), ok, p.Has(k))
		}
	}
	var next []string
	for i := 0; i <= len(got)+1; i++ {
		k, eol := p.Next()
		if eol {
			break
		}
		next = append(next, k)
	}
	sort.Strings(next)
	if !eq(next, sorted) && len(next)+len(sorted) > 0 {
		t.Fail("next", "Next enumerates %q, but the keys are %q", next, sorted)
	}
	t.Ok(4 + 2*len(got))
	t.Count("keys delivered", int64(len(got)))
}

// loadAgree loads a provider and checks the store.
func loadAgree(t *T, p store.Provider, want map[string]any, what func(any) any) *loadCase {
	c := &loadCase{t: t, m: newModel('.'), dl: ".", u: newUniverse(t, '.'), sut: newStoreSut('.')}
	c.s = c.sut.(store.Store)
	for i := t.Int(4); i > 0; i-- {
		k := "other" + pick(t, []string{"", ".a", ".b", "s"})
		c.sut.Set(k, i)
		c.m.set(k, i)
	}
	base := ""
	opts := []store.LoadOpt{store.WithProvider(p)}
	if t.Chance(0.6) {
		base = pick(t, []string{"app", "app.sub", "zz"})
		opts = append(opts, store.WithStorePrefix(base))
	}
	shuffle(t, opts)
	t.Op("Load below %q", base)
	if _, err := c.s.Load(context.Background(), opts...); err != nil {
		t.Fail("load-error", "Load returns the error %v", err)
	}
	c.put(base, want)
	snap := snapshot(t, c.sut)
	for k, e := range c.m.m {
		g, ok := snap[k]
		if !ok {
			t.Fail("load-lost", "the key %q (value %s) isn't in the store", k, show(e.val))
		}
		if x := what(g.val); !eq(x, e.val) && !eq(g.val, e.val) {
			t.Fail("load-value", "the key %q has the value %s; want %s", k, show(x), show(e.val))
		}
	}
	for k, g := range snap {
		if c.m.m[k] == nil {
			t.Fail("load-extra", "there's an unexpected key %q (value %s) in the store", k, show(g.val))
		}
	}
	t.Ok(len(c.m.m))
	return c
}

func same0(v any) any { return v }

// loadable: no two names have the same key, and each is a path.
func loadable(names int, want map[string]any) bool {
	if len(want) != names {
		return false
	}
	for k := range want {
		if k == "" || !okKey(k, ".") {
			return false
		}
	}
	return true
}

func c19Env(t *T) {
	pfx := []string{"ZV_", "ZV", "ZVX_", "ZV_APP_", "ZÉ_"}
	r := genRules(t, pfx, true)
	vars := map[string]string{}
	defer func() {
		for k := range vars {
			_ = os.Unsetenv(k)
		}
	}()
	for i := t.Range(0, 12); i > 0; i-- {
		n := genName(t, pick(t, pfx))
		if t.Chance(0.1) {
			n = strings.ToLower(n)
		}
		v := pick(t, []string{"", "x", "a=b", "=", " v ", "1", "true", "é日", "multi\nline", "\xff\xfe", strings.Repeat("long", 50)}) + fmt.Sprint(i)
		if t.Chance(0.1) {
			v = ""
		}
		if os.Setenv(n, v) == nil {
			vars[n] = v
			t.Op("%s=%q", n, v)
		}
	}
	if t.Chance(0.3) { // a current value is the last one
		for _, n := range sortedKeys(vars) {
			_ = os.Setenv(n, vars[n]+"'")
			vars[n] += "'"
			t.Op("%s=%q", n, vars[n])
			break
		}
	}
	if t.Chance(0.2) {
		for _, n := range sortedKeys(vars) {
			_ = os.Unsetenv(n)
			delete(vars, n)
			t.Op("unset %s", n)
			break
		}
	}
	opts := []env.Opt{}
	if r.prefix != "" {
		if r.stripped != "" {
			opts = append(opts, env.WithPrefix(r.prefix, r.stripped))
		} else {
			opts = append(opts, env.WithPrefix(r.prefix))
		}
	}
	if r.storePrefix != "" {
		opts = append(opts, env.WithStorePrefix(r.storePrefix))
	}
	switch {
	case !r.lower:
		opts = append(opts, env.WithLowerCase(false))
	case t.Chance(0.5):
		opts = append(opts, env.WithLowerCase())
	}
	if r.dots {
		opts = append(opts, env.WithUnderlineToDot())
	} else if t.Chance(0.3) {
		opts = append(opts, env.WithUnderlineToDot(false))
	}
	if r.cb != nil {
		opts = append(opts, env.WithKeyCB(r.cb))
	}
	shuffle(t, opts)
	t.Op("prefix %q stripped %q store %q lower %v dots %v cb %v", r.prefix, r.stripped, r.storePrefix, r.lower, r.dots, r.cb != nil)

	// the source is the environment of the process
	want, names := map[string]any{}, 0
	coll := map[string][]string{}
	for _, e := range os.Environ() {
		n, v, _ := strings.Cut(e, "=")
		if k, ok := r.key(n); ok && n != "" {
			want[k] = v
			coll[k] = append(coll[k], v)
			names++
		}
	}
	p := env.New(opts...)
	if len(want) != names { // any of the colliding values
		data, _ := p.Read()
		for k, vs := range coll {
			for _, v := range vs {
				if data[k].Value == v {
					want[k] = v
				}
			}
		}
		t.Count("cases with colliding names", 1)
	}
	provAgree(t, p, want, same0)
	if t.Chance(0.5) { // without the enumeration before
		p = env.New(opts...)
	}
	if loadable(names, want) {
		c := loadAgree(t, p, want, same0)
		_ = c
		t.Count("loads", 1)
	}
	if err := p.Write([]byte("x")); err == nil {
		t.Fail("write", "Write to the environment claims success")
	}
}

type listFlag []string

func (l *listFlag) String() string     { return strings.Join(*l, ",") }
func (l *listFlag) Set(s string) error { *l = append(*l, s); return nil }

// c19Val turns the value of a flag into a plain one.
func c19Val(v any) any {
	rv := reflect.ValueOf(v)
	switch rv.Kind() {
	case reflect.Bool:
		return rv.Bool()
	case reflect.Int, reflect.Int64, reflect.Int32:
		return rv.Int()
	case reflect.Uint, reflect.Uint64:
		return rv.Uint()
	case reflect.Float64:
		return rv.Float()
	case reflect.String:
		return rv.String()
	case reflect.Slice:
		return fmt.Sprint(v)
	}
	return v
}

func c19Flags(t *T) {
	old := flag.CommandLine
	flag.CommandLine = flag.NewFlagSet("zv", flag.ContinueOnError)
	defer func() { flag.CommandLine = old }()
	pfx := []string{"zv_", "zv", "zv-x_", "ZV_", "z"}
	r := genRules(t, pfx, false)
	type fl struct {
		val      any
		kind     string
		usage    string
		def      string
		isParsed bool
	}
	fls := map[string]*fl{}
	var args []string
	for i := t.Range(0, 10); i > 0; i-- {
		n := genName(t, pick(t, pfx))
		if t.Chance(0.5) {
			n = strings.ToLower(n)
		}
		if fls[n] != nil || strings.HasPrefix(n, "-") {
			continue
		}
		f := &fl{usage: fmt.Sprint("usage of ", n)}
		fls[n] = f
		set := t.Chance(0.6)
		arg := func(v any) {
			if set {
				args = append(args, fmt.Sprintf("-%s=%v", n, v))
			}
		}
		switch t.Int(9) {
		case 0:
			d, v := t.Int(100), t.Int(100)-50
			flag.Int(n, d, f.usage)
			f.kind, f.val, f.def = "int", int64(d), fmt.Sprint(d)
			if arg(v); set {
				f.val = int64(v)
			}
		case 1:
			d, v := t.Chance(0.5), t.Chance(0.5)
			flag.Bool(n, d, f.usage)
			f.kind, f.val, f.def = "bool", d, fmt.Sprint(d)
			if arg(v); set {
				f.val = v
			}
		case 2:
			d, v := "def", fmt.Sprint("v=", i)
			flag.String(n, d, f.usage)
			f.kind, f.val, f.def = "string", d, d
			if arg(v); set {
				f.val = v
			}
		case 3:
			d, v := time.Duration(t.Int(1e9)), time.Duration(t.Int(1e9))
			flag.Duration(n, d, f.usage)
			f.kind, f.val, f.def = "duration", int64(d), d.String()
			if arg(v); set {
				f.val = int64(v)
			}
		case 4:
			d, v := float64(t.Int(100))/4, float64(t.Int(100))/8
			flag.Float64(n, d, f.usage)
			f.kind, f.val, f.def = "float", d, fmt.Sprint(d)
			if arg(v); set {
				f.val = v
			}
		case 5:
			d, v := uint64(t.Int(100)), t.R.Uint64()
			flag.Uint64(n, d, f.usage)
			f.kind, f.val, f.def = "uint", d, fmt.Sprint(d)
			if arg(v); set {
				f.val = v
			}
		case 6:
			d, v := int64(t.Int(100)), t.R.Int64()
			flag.Int64(n, d, f.usage)
			f.kind, f.val, f.def = "int", d, fmt.Sprint(d)
			if arg(v); set {
				f.val = v
			}
		case 7:
			d, v := uint(t.Int(100)), uint(t.Int(1000))
			flag.Uint(n, d, f.usage)
			f.kind, f.val, f.def = "uint", uint64(d), fmt.Sprint(d)
			if arg(v); set {
				f.val = uint64(v)
			}
		case 8:
			l := &listFlag{}
			flag.Var(l, n, f.usage)
			f.kind, f.val = "list", "[]"
			if arg("x"); set {
				f.val = "[x]"
			}
		}
		t.Op("flag %s %s default %q = %v", n, f.kind, f.def, f.val)
	}
	shuffle(t, args)
	if err := flag.CommandLine.Parse(args); err != nil {
		t.Discard("flags not parsed")
		return
	}
	if r.prefix == "" || true {
		t.Op("prefix %q stripped %q store %q lower %v dots %v cb %v", r.prefix, r.stripped, r.storePrefix, r.lower, r.dots, r.cb != nil)
	}
	opts := []flags.Opt{}
	if r.prefix != "" {
		if r.stripped != "" {
			opts = append(opts, flags.WithPrefix(r.prefix, r.stripped))
		} else {
			opts = append(opts, flags.WithPrefix(r.prefix))
		}
	}
	if r.storePrefix != "" {
		opts = append(opts, flags.WithStorePrefix(r.storePrefix))
	}
	if !r.lower {
		opts = append(opts, flags.WithLowerCase(false))
	}
	if r.dots {
		opts = append(opts, flags.WithUnderlineToDot(true))
	}
	if r.cb != nil {
		opts = append(opts, flags.WithKeyCB(r.cb))
	}
	shuffle(t, opts)

	want, from := map[string]any{}, map[string]*fl{}
	names := 0
	for n, f := range fls {
		if k, ok := r.key(n); ok {
			want[k], from[k] = f.val, f
			names++
		}
	}
	p := flags.New(opts...)
	data, _ := p.Read()
	if len(want) != names {
		for n, f := range fls {
			if k, ok := r.key(n); ok && eq(c19Val(data[k].Value), f.val) {
				want[k], from[k] = f.val, f
			}
		}
		t.Count("cases with colliding names", 1)
	}
	provAgree(t, p, want, c19Val)
	if len(want) == names {
		for k, f := range from {
			d := data[k]
			desc, comment, tag := p.Extras(k)
			if d.Desc != f.usage || d.Tag != f.def || desc != f.usage || comment != "" || tag != f.def {
				t.Fail("flag-meta", "the flag %q has the description %q (%q) and tag %v (%v); want %q, %q", k, d.Desc, desc, d.Tag, tag, f.usage, f.def)
			}
		}
	}
	if !loadable(names, want) {
		return
	}
	c := loadAgree(t, p, want, c19Val)
	base := ""
	for k := range want {
		for _, b := range []string{"", "app", "app.sub", "zz"} {
			if c.sut.Has(join2(b, k, ".")) && c.m.m[join2(b, k, ".")] != nil {
				base = b
			}
		}
		break
	}
	for k, f := range from {
		full := join2(base, k, ".")
		if !c.sut.Has(full) {
			t.Fail("flag-load", "the flag %q isn't at %q", k, full)
		}
		if d := c.sut.MustGetDesc(full); d != f.usage {
			t.Fail("flag-desc", "the key %q has the description %q; want %q", full, d, f.usage)
		}
		if d := c.sut.MustGetTag(full); d != f.def {
			t.Fail("flag-tag", "the key %q has the tag %v; want the default %q", full, d, f.def)
		}
		var got any
		switch f.kind {
		case "int":
			got = c.s.MustInt64(full)
		case "uint":
			got = c.s.MustUint64(full)
		case "bool":
			got = c.s.MustBool(full)
		case "string":
			got = c.s.MustString(full)
		case "duration":
			got = int64(c.s.MustDuration(full))
		case "float":
			got = c.s.MustFloat64(full)
		default:
			continue
		}
		if !eq(got, f.val) {
			t.Fail("flag-getter", "the getter of the %s flag %q returns %v; want %v", f.kind, full, got, f.val)
		}
		t.Ok(3)
	}
	t.Count("loads", 1)
}

func c19Maps(t *T) {
	d := pick(t, []string{".", ".", "/", "::", "-", "", "|"})
	o := treeOpt{d: ".", depth: t.Range(1, 4), slices: true, anyKeys: true, width: t.Range(2, 6)}
	m, _ := genTree(t, o)
	if d != "" { // dotted keys at the top level
		for i := t.Int(5); i > 0; i-- {
			k := pick(t, treeSegs)
			for j := t.Range(1, 3); j > 0; j-- {
				k += d + pick(t, treeSegs)
			}
			n := i
			m[k] = genVal(t, o, 2, &n)
		}
	}
	// the model: split the keys of the top level
	nested := map[string]any{}
	for k, v := range m {
		kk := k
		if d != "" {
			kk = strings.ReplaceAll(k, d, ".")
		}
		if _, dup := nested[kk]; dup {
			t.Discard("colliding keys")
			return
		}
		nested[kk] = v
	}
	paths := map[string]int{}
	for k, v := range nested {
		mapPaths(paths, k, v)
	}
	for _, n := range paths {
		if n > 1 {
			t.Discard("overlapping keys")
			return
		}
	}
	want := map[string]any{}
	if !expandTree(want, "", nested, treeOpt{d: "."}) {
		t.Discard("colliding keys")
		return
	}
	for k := range want {
		if !okKey(k, ".") {
			t.Discard("keys which aren't paths")
			return
		}
		if d != "." {
			for i := range k {
				if _, up := want[k[:i]]; up && k[i] == '.' {
					t.Discard("a value at the parent of a key")
					return
				}
			}
		}
		if d != "." && d != "" && strings.Contains(k, d) {
			t.Discard("nested keys with delimiters")
			return
		}
	}
	// slices hold normalized maps
	for k, v := range want {
		want[k] = c19Norm(v)
	}
	before := deepCopy(m)
	t.Op("maps %q %s", d, show(m))
	p := maps.New(m, d)
	if !eq(m, before) {
		t.Fail("map-changed", "New changed the map: %s, was %s", show(m), show(before))
	}
	if t.Chance(0.5) { // the provider has a copy
		for k, v := range m {
			switch z := v.(type) {
			case map[string]any:
				z["zzz"] = 1
			default:
				m[k] = "changed"
			}
		}
		m["zzz"] = 1
	}
	if data, err := p.Read(); err != nil {
		t.Fail("read", "Read returns the error %v", err)
	} else {
		got := map[string]any{}
		for k, v := range data {
			got[k] = v.Value
		}
		flat := map[string]any{}
		expandTree(flat, "", got, treeOpt{d: "."})
		if !eq(flat, want) {
			t.Fail("read-data", "Read delivers other data: %s", mapDiff(flat, want))
		}
		t.Ok(len(want))
	}
	c := loadAgree(t, p, want, same0)
	if t.Chance(0.3) { // and can be loaded into another store
		_ = c
		loadAgree(t, p, want, same0)
	}
	t.Count("keys delivered", int64(len(want)))
	if err := p.Write([]byte("x")); err == nil {
		t.Fail("write", "Write to a map claims success")
	}
}

// mapPaths counts the paths of a nested map.
func mapPaths(out map[string]int, path string, v any) {
	out[path]++
	switch z := v.(type) {
	case map[string]any:
		for k, x := range z {
			mapPaths(out, path+"."+k, x)
		}
	case map[any]any:
		for k, x := range z {
			mapPaths(out, path+"."+fmt.Sprint(k), x)
		}
	}
}

// mapDiff shows the differences of two flat maps.
func mapDiff(got, want map[string]any) string {
	var r []string
	for k, v := range want {
		if g, ok := got[k]; !ok {
			r = append(r, fmt.Sprintf("%q is lost", k))
		} else if !eq(g, v) {
			r = append(r, fmt.Sprintf("%q is %s, want %s", k, show(g), show(v)))
		}
	}
	for k := range got {
		if _, ok := want[k]; !ok {
			r = append(r, fmt.Sprintf("%q is extra", k))
		}
	}
	sort.Strings(r)
	return strings.Join(r, "; ")
}

// c19Norm is the model of the normalization of nested maps.
func c19Norm(v any) any {
	switch z := v.(type) {
	case map[any]any:
		r := map[string]any{}
		for k, x := range z {
			r[fmt.Sprint(k)] = c19Norm(x)
		}
		return r
	case map[string]any:
		r := map[string]any{}
		for k, x := range z {
			r[k] = c19Norm(x)
		}
		return r
	case []any:
		r := make([]any, len(z))
		for i, x := range z {
			r[i] = c19Norm(x)
		}
		return r
	}
	return v
}

func randBytes(t *T) []byte {
	n := t.Int(300)
	if t.Chance(0.1) {
		n = t.Range(3000, 70000)
	}
	if t.Chance(0.05) {
		n = 0
	}
	if t.Chance(0.004) {
		n = t.Range(70000, 9000000)
	}
	b := make([]byte, n)
	for i := range b {
		if i >= 70000 {
			copy(b[i:], b[:n-i]) // the rest repeats the first ones
			for j := i; j < n; j += 65536 {
				b[j] = byte(t.R.Uint32())
			}
			break
		}
		b[i] = byte(t.R.Uint32())
	}
	return b
}

func c19File(t *T) {
	dir, err := os.MkdirTemp(t.scratch, "c19")
	if err != nil {
		t.Discard("no scratch folder")
		return
	}
	defer os.RemoveAll(dir)
	name := filepath.Join(dir, "f.json")
	path := name
	if t.Chance(0.2) {
		path = filepath.Join(dir, "link.json")
		_ = os.Symlink(name, path)
	}
	data := randBytes(t)
	_ = os.WriteFile(name, data, 0o644)
	t.Op("a file of %d bytes", len(data))

	ro := file.New(path)
	got, err := ro.ReadBytes()
	if err != nil || !bytes.Equal(got, data) {
		t.Fail("file-read", "ReadBytes returns %d bytes, %v; the file has %d", len(got), err, len(data))
	}
	if _, err = ro.Read(); !errors.Is(err, store.ErrNotImplemented) {
		t.Fail("file-kind", "Read of the file provider returns %v", err)
	}
	// not writeable
	if err = ro.Write([]byte("zz")); err == nil {
		t.Fail("file-readonly", "Write claims success for a provider which isn't writeable")
	}
	if now, _ := os.ReadFile(name); !bytes.Equal(now, data) {
		t.Fail("file-readonly", "a provider which isn't writeable changed the file")
	}
	// writeable
	wr := file.New(path, file.WithWriteBackEnabled(true))
	for i := t.Range(1, 3); i > 0; i-- {
		b := randBytes(t)
		if err = wr.Write(b); err != nil {
			t.Fail("file-write", "Write returns the error %v", err)
		}
		t.Op("wrote %d bytes", len(b))
		if now, _ := os.ReadFile(name); !bytes.Equal(now, b) {
			t.Fail("file-write", "after Write of %d bytes the file has %d other ones", len(b), len(now))
		}
		if got, err = wr.ReadBytes(); err != nil || !bytes.Equal(got, b) {
			t.Fail("file-read", "ReadBytes returns %d bytes, %v; %d were written", len(got), err, len(b))
		}
		if got, err = ro.ReadBytes(); err != nil || !bytes.Equal(got, b) {
			t.Fail("file-stale", "ReadBytes of another provider of the file returns %d bytes, %v; the file has %d", len(got), err, len(b))
		}
		t.Ok(3)
	}
	// missing
	for _, n := range []string{filepath.Join(dir, "absent.json"), dir, filepath.Join(dir, "no", "x.json")} {
		if b, err := file.New(n).ReadBytes(); err == nil {
			t.Fail("file-missing", "ReadBytes of the missing file %s returns %d bytes and no error", n, len(b))
		}
		s := store.New()
		s.Set("keep", 1)
		if _, err := s.Load(context.Background(), store.WithProvider(file.New(n)), store.WithCodec(json.New())); err == nil {
			t.Fail("file-missing-load", "Load of the missing file %s returns no error", n)
		}
		if len(snapshot(t, s.(sut))) != 1 {
			t.Fail("file-missing-load", "Load of a missing file changed the store")
		}
		t.Ok(3)
	}
	for _, n := range []string{dir, filepath.Join(dir, "no", "x.json")} {
		if err := file.New(n, file.WithWriteBackEnabled(true)).Write([]byte("x")); err == nil {
			t.Fail("file-write-error", "Write to %s claims success", n)
		}
	}
	// load and save
	m, flat := genTree(t, treeOpt{d: ".", depth: 3, json: true, slices: true, noNil: true})
	b, err := json.New().Marshal(m)
	if err != nil {
		return
	}
	if err = wr.Write(b); err != nil {
		t.Fail("file-write", "Write returns the error %v", err)
	}
	opts := []file.Opt{file.WithWriteBackEnabled(true)}
	if t.Chance(0.5) {
		opts = append(opts, file.WithCodec(json.New()))
	}
	p := file.New(path, opts...)
	t.Op("load %s", show(m))
	c := loadAgree(t, p, flat, same0)
	t.Count("loads", 1)
	_ = c
	// the saved keys come back
	s := store.New()
	w, err := s.Load(context.Background(), store.WithProvider(p), store.WithCodec(json.New()))
	if err != nil || w == nil {
		t.Fail("load-error", "Load returns %v, %v", w, err)
	}
	want := map[string]any{}
	for i := t.Range(1, 4); i > 0; i-- {
		k := pick(t, treeSegs) + ".zz" + fmt.Sprint(i)
		s.Set(k, "new"+fmt.Sprint(i))
		want[k] = "new" + fmt.Sprint(i)
	}
	if err = w.Save(context.Background()); err != nil {
		t.Fail("file-save", "Save returns the error %v", err)
	}
	loadAgree(t, file.New(name), want, same0)
	t.Count("saves", 1)
}

// brokenFS fails to read.
type brokenFS struct {
	iofs.FS
	after int
	err   error
}

type brokenFile struct {
	iofs.File
	n   *int
	err error
}

func (b brokenFS) Open(n string) (iofs.File, error) {
	f, err := b.FS.Open(n)
	if err != nil {
		return nil, err
	}
	k := b.after
	return &brokenFile{f, &k, b.err}, nil
}

func (b *brokenFile) Read(p []byte) (int, error) {
	if *b.n <= 0 {
		return 0, b.err
	}
	if len(p) > *b.n {
		p = p[:*b.n]
	}
	n, err := b.File.Read(p)
	*b.n -= n
	return n, err
}

// chunkFS reads in small pieces.
type chunkFS struct {
	iofs.FS
	size int
}
type chunkFile struct {
	iofs.File
	size int
}

func (b chunkFS) Open(n string) (iofs.File, error) {
	f, err := b.FS.Open(n)
	if err != nil {
		return nil, err
	}
	return &chunkFile{f, b.size}, nil
}

func (b *chunkFile) Read(p []byte) (int, error) {
	if len(p) > b.size {
		p = p[:b.size]
	}
	return b.File.Read(p)
}

func c19FS(t *T) {
	data := randBytes(t)
	m, flat := genTree(t, treeOpt{d: ".", depth: 3, json: true, slices: true, noNil: true})
	js, err := json.New().Marshal(m)
	if err != nil {
		return
	}
	name := pick(t, []string{"f.bin", "sub/f.bin", "a/b/c/é"})
	var f iofs.FS = fstest.MapFS{name: {Data: data}, "cfg.json": {Data: js}, "sub/dir/x": {Data: []byte("x")}}
	if t.Chance(0.2) {
		dir, err := os.MkdirTemp(t.scratch, "c19")
		if err != nil {
			t.Discard("no scratch folder")
			return
		}
		defer os.RemoveAll(dir)
		_ = os.MkdirAll(filepath.Join(dir, filepath.Dir(name)), 0o755)
		_ = os.MkdirAll(filepath.Join(dir, "sub/dir"), 0o755)
		_ = os.WriteFile(filepath.Join(dir, name), data, 0o644)
		_ = os.WriteFile(filepath.Join(dir, "cfg.json"), js, 0o644)
		f = os.DirFS(dir)
	}
	if t.Chance(0.5) {
		f = chunkFS{f, max(t.Range(1, 700), len(data)/500)}
	}
	t.Op("a file of %d bytes", len(data))
	p := fs.New(f, name)
	for i := 0; i < 2; i++ {
		if got, err := p.ReadBytes(); err != nil || !bytes.Equal(got, data) {
			t.Fail("fs-read", "ReadBytes returns %d bytes, %v; the file has %d", len(got), err, len(data))
		}
	}
	for _, n := range []string{"absent", "sub/dir", "../x", "/cfg.json", ""} {
		if b, err := fs.New(f, n).ReadBytes(); err == nil {
			t.Fail("fs-missing", "ReadBytes of the missing file %q returns %d bytes and no error", n, len(b))
		}
	}
	if err := p.Write([]byte("x")); err == nil {
		t.Fail("fs-write", "Write to a read-only filesystem claims success")
	}
	if len(data) > 0 {
		for _, e := range []error{errInjected, io.ErrUnexpectedEOF} {
			if b, err := fs.New(brokenFS{f, t.Int(len(data)), e}, name).ReadBytes(); !errors.Is(err, e) {
				t.Fail("fs-fault", "ReadBytes returns %d bytes and the error %v though the file cannot be read", len(b), err)
			}
			s := store.New()
			if _, err := s.Load(context.Background(), store.WithProvider(fs.New(brokenFS{f, t.Int(len(js)), e}, "cfg.json")), store.WithCodec(json.New())); err == nil || len(snapshot(t, s.(sut))) > 0 {
				t.Fail("fs-fault-load", "Load of a file which cannot be read: error %v, %d keys", err, len(snapshot(t, s.(sut))))
			}
		}
	}
	t.Op("load %s", show(m))
	var opts []fs.Opt
	if t.Chance(0.5) {
		opts = append(opts, fs.WithCodec(json.New()))
	}
	loadAgree(t, fs.New(f, "cfg.json", opts...), flat, same0)
	t.Ok(12)
	t.Count("loads", 1)
}

// anyProvider is what all the providers implement.
type anyProvider interface {
	store.Provider
	store.OnceProvider
	store.StreamProvider
	store.FallbackProvider
}

// c19Contract: a provider keeps its codec and position, what it does not
// support says so, and reading again yields the same.
func c19Contract(t *T) {
	m, _ := genTree(t, treeOpt{d: ".", depth: 2, json: true, slices: true, noNil: true})
	js, err := json.New().Marshal(m)
	if err != nil {
		return
	}
	old := flag.CommandLine
	flag.CommandLine = flag.NewFlagSet("zv", flag.ContinueOnError)
	defer func() { flag.CommandLine = old }()
	flag.Int("zv-num", t.Range(0, 9), "a number")
	flag.String("zv-str", "x", "a text")

	type codecT struct {
		store.Codec
		id int
	}
	given := &codecT{json.New(), 1}
	with, pos := t.Chance(0.5), pick(t, []string{"", "", "app", "a.b"})
	var p anyProvider
	kind := pick(t, []string{"env", "flags", "maps", "file", "fs"})
	switch kind {
	case "env":
		opts := []env.Opt{env.WithPrefix("ZV_")}
		if with {
			opts = append(opts, env.WithCodec(given))
		}
		if pos != "" {
			opts = append(opts, env.WithStorePrefix(pos))
		}
		p = env.New(opts...)
	case "flags":
		opts := []flags.Opt{flags.WithPrefix("zv-")}
		if with {
			opts = append(opts, flags.WithCodec(given))
		}
		if pos != "" {
			opts = append(opts, flags.WithStorePrefix(pos))
		}
		p = flags.New(opts...)
	case "maps":
		var opts []maps.Opt
		if with {
			opts = append(opts, maps.WithCodec(given))
		}
		if pos != "" {
			opts = append(opts, maps.WithPosition(pos))
		}
		p = maps.New(m, ".", opts...)
	case "file":
		dir, err := os.MkdirTemp(t.scratch, "c19")
		if err != nil {
			t.Discard("no scratch folder")
			return
		}
		defer os.RemoveAll(dir)
		name := filepath.Join(dir, "f.json")
		_ = os.WriteFile(name, js, 0o644)
		var opts []file.Opt
		if with {
			opts = append(opts, file.WithCodec(given))
		}
		if pos != "" {
			opts = append(opts, file.WithPosition(pos))
		}
		f := file.New(name, opts...)
		if g := f.String(); g != name {
			t.Fail("string", "the file provider of %q is called %q", name, g)
		}
		p = f
	case "fs":
		var opts []fs.Opt
		if with {
			opts = append(opts, fs.WithCodec(given))
		}
		if pos != "" {
			opts = append(opts, fs.WithPosition(pos))
		}
		p = fs.New(fstest.MapFS{"f.json": {Data: js}}, "f.json", opts...)
	}
	t.Op("%s codec %v position %q", kind, with, pos)
	is := func(what string, c *codecT, want string) {
		t.Ok(2)
		g := p.GetCodec()
		if c == nil && g != nil || c != nil && g != store.Codec(c) {
			t.Fail("codec", "%s: GetCodec returns %v %s", kind, g, what)
		}
		if g := p.GetPosition(); g != want {
			t.Fail("position", "%s: GetPosition returns %q instead of %q %s", kind, g, want, what)
		}
	}
	if with {
		is("of the options", given, pos)
	} else {
		is("of the options", nil, pos)
		given = nil
	}
	// the kinds of reading
	no := func(name string, err error) {
		t.Ok(1)
		if !errors.Is(err, store.ErrNotImplemented) {
			t.Fail("not-implemented", "%s: %s returns the error %v", kind, name, err)
		}
	}
	_, err = p.Reader()
	no("Reader", err)
	bytesKind := kind == "file" || kind == "fs"
	if bytesKind {
		_, err = p.Read()
		no("Read", err)
	} else {
		_, err = p.ReadBytes()
		no("ReadBytes", err)
	}
	if kind != "file" {
		no("Write", p.Write([]byte("x")))
	}
	if kind != "env" && kind != "flags" {
		_, err = p.Keys()
		no("Keys", err)
		_, eol := p.Next()
		v, ok := p.Value("a")
		if !eol || ok || v != nil || p.MustValue("a") != nil || p.Has("a") || p.Count() != 0 {
			t.Fail("not-streamable", "%s: no keys, but Next %v Value %v,%v Has %v Count %d", kind, eol, v, ok, p.Has("a"), p.Count())
		}
	}
	// the options of a loading
	load := func(opts ...store.LoadOpt) map[string]any {
		s := store.New()
		if _, err := s.Load(context.Background(), append([]store.LoadOpt{store.WithProvider(p)}, opts...)...); err != nil {
			t.Fail("load", "%s: Load returns %v", kind, err)
		}
		r := map[string]any{}
		for k, e := range snapshot(t, s.(sut)) {
			r[k] = e.val
		}
		return r
	}
	first := load()
	is("after loading without options", given, pos)
	c2, pos2 := given, pos
	var opts []store.LoadOpt
	if t.Chance(0.6) {
		c2 = &codecT{json.New(), 2}
		opts = append(opts, store.WithCodec(c2))
	}
	if t.Chance(0.6) {
		pos2 = pick(t, []string{"elsewhere", "x.y"})
		opts = append(opts, store.WithPosition(pos2))
	}
	second := load(opts...)
	is("after loading with options", c2, pos2)
	t.Ok(1)
	if df := diffMaps(second, first); df != "" {
		t.Fail("again", "%s: loading again: %s", kind, df)
	}
	c3 := &codecT{json.New(), 3}
	p.WithCodec(c3)
	p.WithPosition("third")
	is("after WithCodec and WithPosition", c3, "third")
	t.Count("contract "+kind, 1)
}
