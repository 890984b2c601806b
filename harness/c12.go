package main

// C12: typed getters. A generated value is stored in several representations
// (own type, other types holding it exactly, text forms, typed and untyped
// lists and maps); every getter whose type can represent the value has to
// return exactly it.

import (
	"fmt"
	"math"
	"math/big"
	"reflect"
	"strconv"
	"strings"
	"time"

	"github.com/hedzr/store"
	"github.com/hedzr/store/radix"
)

func init() {
	register(&Prop{
		ID:   "C12",
		Rule: "reference values: every getter returns the value put in, whichever representation it is stored in",
		Assumptions: []string{
			"conversions which the evendeep dependency does not support are outside the property (DESIGN.md lists them)",
		},
		Groups: []Group{
			{Name: "scalar", Quick: 30000, Thorough: 1500000, Body: c12Scalar},
			{Name: "list", Quick: 20000, Thorough: 1000000, Body: c12List},
			{Name: "map", Quick: 15000, Thorough: 800000, Body: c12Map},
			{Name: "absent", Quick: 8000, Thorough: 300000, Body: c12Absent},
			{Name: "bytes", Quick: 20000, Thorough: 800000, Body: c12Bytes},
		},
	})
}

// getter is the part of Store and Trie the monitor uses.
type getter interface {
	radix.TypedGetters[any]
	Set(path string, data any) (node radix.Node[any], oldData any)
	Get(path string) (data any, found bool)
}

// c12Target is the result type of a getter, by the name used in GetXXX/MustXXX.
type c12Target struct {
	name string
	typ  reflect.Type
}

func typeOf[V any]() reflect.Type { return reflect.TypeFor[V]() }

var c12Targets = []c12Target{
	{"Int", typeOf[int]()}, {"Int8", typeOf[int8]()}, {"Int16", typeOf[int16]()}, {"Int32", typeOf[int32]()}, {"Int64", typeOf[int64]()},
	{"Uint", typeOf[uint]()}, {"Uint8", typeOf[uint8]()}, {"Uint16", typeOf[uint16]()}, {"Uint32", typeOf[uint32]()}, {"Uint64", typeOf[uint64]()},
	{"Float32", typeOf[float32]()}, {"Float64", typeOf[float64]()},
	{"Complex64", typeOf[complex64]()}, {"Complex128", typeOf[complex128]()},
	{"Bool", typeOf[bool]()}, {"String", typeOf[string]()},
	{"Duration", typeOf[time.Duration]()}, {"Time", typeOf[time.Time]()},
}

// c12Val is one value: the representations it may be stored in, and what a
// getter has to return for it (ok: the value is in the getter's domain).
type c12Val struct {
	class string
	reps  []c12Rep
	want  func(rep string, tgt string) (want any, ok bool)
}

type c12Rep struct {
	name string
	val  any
}

// numInto converts an exact number to a target type; ok only if it's exact.
func numInto(x *big.Float, typ reflect.Type) (v any, ok bool) {
	rv := reflect.New(typ).Elem()
	switch typ.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		i, acc := x.Int64()
		if !x.IsInt() || acc != big.Exact || rv.OverflowInt(i) {
			return
		}
		rv.SetInt(i)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		i, acc := x.Uint64()
		if !x.IsInt() || acc != big.Exact || rv.OverflowUint(i) {
			return
		}
		rv.SetUint(i)
	case reflect.Float32:
		f, acc := x.Float32()
		if acc != big.Exact || math.IsInf(float64(f), 0) {
			return
		}
		rv.SetFloat(float64(f))
	case reflect.Float64:
		f, acc := x.Float64()
		if acc != big.Exact || math.IsInf(f, 0) {
			return
		}
		rv.SetFloat(f)
	case reflect.Complex64:
		f, acc := x.Float32()
		if acc != big.Exact || math.IsInf(float64(f), 0) {
			return
		}
		rv.SetComplex(complex(float64(f), 0))
	case reflect.Complex128:
		f, acc := x.Float64()
		if acc != big.Exact || math.IsInf(f, 0) {
			return
		}
		rv.SetComplex(complex(f, 0))
	default:
		return
	}
	return rv.Interface(), true
}

func genInt(t *T) *big.Float {
	var i *big.Int
	switch t.Int(6) {
	case 0:
		i = big.NewInt(int64(t.Range(-2, 3)))
	case 1: // around the limits of the types
		n := pick(t, []uint{7, 8, 15, 16, 24, 31, 32, 53, 62, 63, 64})
		i = new(big.Int).Lsh(big.NewInt(1), n)
		i.Add(i, big.NewInt(int64(t.Range(-2, 2))))
		if t.Chance(0.4) {
			i.Neg(i)
		}
	case 2:
		i = new(big.Int).SetUint64(t.R.Uint64() >> t.Int(64))
	case 3:
		i = big.NewInt(int64(t.R.Uint64()) >> t.Int(64))
	case 4:
		i = new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(t.Int(19))), nil)
		i.Add(i, big.NewInt(int64(t.Range(-1, 1))))
	default:
		i = big.NewInt(int64(t.Range(-300, 300)))
	}
	if !i.IsInt64() && !i.IsUint64() {
		i = big.NewInt(int64(t.Int(100)))
	}
	return new(big.Float).SetPrec(200).SetInt(i)
}

func c12Int(t *T) *c12Val {
	x := genInt(t)
	text := x.Text('f', 0)
	v := &c12Val{class: "int"}
	for _, k := range c12Targets[:14] {
		if r, ok := numInto(x, k.typ); ok {
			v.reps = append(v.reps, c12Rep{k.typ.String(), r})
		}
	}
	v.reps = append(v.reps, c12Rep{"text", text})
	v.want = func(rep, tgt string) (any, bool) {
		switch tgt {
		case "String":
			if isIntType(rep) || rep == "text" {
				return text, true
			}
			if isFloatType(rep) {
				return func(got any) bool { return parsesTo(got.(string), x) }, true
			}
			return nil, false
		case "Duration":
			if d, ok := numInto(x, typeOf[int64]()); ok && (isIntType(rep) || rep == "text") {
				return time.Duration(d.(int64)), true
			}
			return nil, false
		case "Time":
			if d, ok := numInto(x, typeOf[int64]()); ok && isIntType(rep) {
				return time.Unix(d.(int64), 0), true
			}
			return nil, false
		case "Bool":
			if text == "0" || text == "1" {
				return text == "1", true
			}
			return nil, false
		}
		for _, k := range c12Targets[:14] {
			if k.name == tgt {
				return numInto(x, k.typ)
			}
		}
		return nil, false
	}
	return v
}

func isIntType(s string) bool   { return strings.HasPrefix(s, "int") || strings.HasPrefix(s, "uint") }
func isFloatType(s string) bool { return strings.HasPrefix(s, "float") }

func parsesTo(s string, x *big.Float) bool {
	f, err := strconv.ParseFloat(s, 64)
	w, _ := x.Float64()
	return err == nil && f == w
}

func genFloat(t *T) float64 {
	switch t.Int(5) {
	case 0:
		return float64(t.Range(-1000, 1000)) / 8
	case 1:
		return float64(float32(t.R.NormFloat64()))
	case 2:
		return t.R.NormFloat64() * math.Pow(10, float64(t.Range(-30, 30)))
	case 3:
		return pick(t, []float64{math.Pi, -0.1, 1e-7, 1.5e300, math.SmallestNonzeroFloat64, math.MaxFloat64, -math.MaxFloat32, 0.30000000000000004, 123456.789})
	default:
		for {
			if f := math.Float64frombits(t.R.Uint64()); !math.IsNaN(f) && !math.IsInf(f, 0) {
				return f
			}
		}
	}
}

func c12Float(t *T) *c12Val {
	f := genFloat(t)
	x := new(big.Float).SetPrec(1200).SetFloat64(f)
	v := &c12Val{class: "float"}
	for _, k := range c12Targets[10:14] {
		if r, ok := numInto(x, k.typ); ok {
			v.reps = append(v.reps, c12Rep{k.typ.String(), r})
		}
	}
	v.reps = append(v.reps, c12Rep{"text", strconv.FormatFloat(f, pick(t, []byte("gfe")), -1, 64)})
	v.want = func(rep, tgt string) (any, bool) {
		switch tgt {
		case "String":
			if rep == "text" || isFloatType(rep) {
				return func(got any) bool { return parsesTo(got.(string), x) }, true
			}
			return nil, false
		}
		for i, k := range c12Targets[:14] {
			if k.name == tgt && (i >= 10 || rep != "text") {
				return numInto(x, k.typ)
			}
		}
		return nil, false
	}
	return v
}

func c12Complex(t *T) *c12Val {
	c := complex(float64(float32(genFloat(t))), float64(float32(genFloat(t))))
	if math.IsInf(real(c), 0) || math.IsInf(imag(c), 0) {
		c = complex(1.5, -2)
	}
	v := &c12Val{class: "complex", reps: []c12Rep{{"complex64", complex64(c)}, {"complex128", c},
		{"text", strconv.FormatComplex(c, pick(t, []byte("gfe")), -1, 128)}}}
	v.want = func(rep, tgt string) (any, bool) {
		switch tgt {
		case "Complex64":
			return complex64(c), true
		case "Complex128":
			return c, true
		case "String":
			return func(got any) bool {
				g, err := strconv.ParseComplex(got.(string), 128)
				return err == nil && g == c
			}, true
		}
		return nil, false
	}
	return v
}

func c12Bool(t *T) *c12Val {
	b := t.Chance(0.5)
	text := "0 f n no false off False OFF No deny close"
	if b {
		text = "1 t y yes true on True ON Yes ok allow open"
	}
	v := &c12Val{class: "bool", reps: []c12Rep{{"bool", b}, {"text", pick(t, strings.Fields(text))}}}
	v.want = func(rep, tgt string) (any, bool) {
		switch tgt {
		case "Bool":
			return b, true
		case "String":
			if rep == "bool" {
				return strconv.FormatBool(b), true
			}
			return v.reps[1].val, true
		}
		return nil, false
	}
	return v
}

func c12Text(t *T) *c12Val {
	s := pick(t, []string{"", " ", "hello", "a b", "日本語", "true story", "1x", "[x]", "{a}", "\x00", "tab\t", "nl\n", "a,b", "\"q\"", "'q'", "%d%s", "<nil>", "0x10", strings.Repeat("é", 300)})
	if t.Chance(0.3) {
		b := make([]byte, t.Int(20))
		for i := range b {
			b[i] = byte(t.Int(256))
		}
		s = string(b)
	}
	v := &c12Val{class: "text", reps: []c12Rep{{"text", s}}}
	v.want = func(rep, tgt string) (any, bool) { return s, tgt == "String" }
	return v
}

func c12Duration(t *T) *c12Val {
	var d time.Duration
	switch t.Int(4) {
	case 0:
		d = time.Duration(t.Range(-100, 100)) * pick(t, []time.Duration{time.Nanosecond, time.Microsecond, time.Millisecond, time.Second, time.Minute, time.Hour})
	case 1:
		d = time.Duration(t.R.Uint64()) >> t.Int(64)
	case 2:
		d = pick(t, []time.Duration{0, 1, -1, math.MaxInt64, math.MinInt64, math.MinInt64 + 1, 24 * time.Hour, 1500 * time.Millisecond})
	default:
		d = time.Duration(t.R.Int64N(int64(1000 * time.Hour)))
	}
	v := &c12Val{class: "duration", reps: []c12Rep{{"duration", d}, {"text", d.String()}}}
	v.want = func(rep, tgt string) (any, bool) {
		switch tgt {
		case "Duration":
			return d, true
		case "String":
			if rep == "text" {
				return d.String(), true
			}
			return func(got any) bool { g, err := time.ParseDuration(got.(string)); return err == nil && g == d }, true
		case "Int64":
			return int64(d), rep == "duration"
		}
		return nil, false
	}
	return v
}

func c12Time(t *T) *c12Val {
	loc := pick(t, []*time.Location{time.UTC, time.FixedZone("", 8*3600), time.FixedZone("", -5*3600-1800)})
	tm := time.Unix(t.R.Int64N(4e9)-1e9, int64(t.Int(1e9))).In(loc)
	layout := pick(t, []string{time.RFC3339Nano, "2006-01-02 15:04:05.999999999 -0700", "2006-01-02 15:04:05.999999999Z07:00", time.RFC3339, time.RFC1123Z, "2006-01-02 15:04:05", "2006-01-02", "2006/01/02"})
	text := tm.Format(layout)
	parsed, err := time.Parse(layout, text)
	if err != nil {
		t.Fail("harness", "%v", err)
	}
	v := &c12Val{class: "time", reps: []c12Rep{{"time", tm}, {"text", text}}}
	v.want = func(rep, tgt string) (any, bool) {
		switch tgt {
		case "Time":
			if rep == "text" {
				return parsed, true
			}
			return tm, true
		case "String":
			if rep == "text" {
				return text, true
			}
			return func(got any) bool {
				for _, l := range []string{time.RFC3339Nano, "2006-01-02 15:04:05.999999999 -0700", "2006-01-02 15:04:05.999999999Z07:00"} {
					if g, err := time.Parse(l, got.(string)); err == nil && g.Equal(tm) {
						return true
					}
				}
				return false
			}, true
		}
		return nil, false
	}
	return v
}

var c12Gens = []func(t *T) *c12Val{c12Int, c12Int, c12Int, c12Float, c12Float, c12Complex, c12Bool, c12Text, c12Duration, c12Time}

// c12Same compares a result with the expected one.
func c12Same(got, want any) bool {
	switch w := want.(type) {
	case func(any) bool:
		return w(got)
	case time.Time:
		g, ok := got.(time.Time)
		return ok && g.Equal(w)
	case float64:
		g, ok := got.(float64)
		return ok && g == w
	case float32:
		g, ok := got.(float32)
		return ok && g == w
	}
	return reflect.DeepEqual(got, want) || got == want
}

// c12Store makes a store (or tree, or view) and a path for the value.
func c12Store(t *T) (s getter, path string) {
	path = pick(t, []string{"v", "app.v", "app.some.deep.value", "é.ü"})
	switch t.Int(5) {
	case 0:
		s = radix.NewTrie[any]()
	case 1:
		s = store.New(store.WithPrefix("app"))
	case 2:
		s = store.New().WithPrefix("x.y")
	case 3:
		d := pick(t, []rune{'/', ':', '-'})
		path = strings.ReplaceAll(path, ".", string(d))
		s = store.New(store.WithDelimiter(d))
	default:
		s = store.New()
	}
	// some neighbours
	s.Set(path+"x", 77)
	s.Set(path[:1]+"zz", "neighbour")
	return
}

// c12Get calls GetXXX and MustXXX of the store by reflection.
func c12Get(t *T, s getter, name, path string, def ...any) (got any, err error) {
	call := func(m string) []reflect.Value {
		fn := reflect.ValueOf(s).MethodByName(m)
		if !fn.IsValid() {
			t.Fail("harness", "no method %s", m)
		}
		args := []reflect.Value{reflect.ValueOf(path)}
		for _, d := range def {
			args = append(args, reflect.ValueOf(d))
		}
		return fn.Call(args)
	}
	r := call("Get" + name)
	got = r[0].Interface()
	if !r[1].IsNil() {
		err = r[1].Interface().(error)
	}
	if m := call("Must" + name)[0].Interface(); !reflect.DeepEqual(m, got) && fmt.Sprintf("%#v", m) != fmt.Sprintf("%#v", got) {
		t.Fail("must:"+name, "Must%s(%q, %v) = %s, but Get%s = %s", name, path, def, show(m), name, show(got))
	}
	return
}

func c12Scalar(t *T) {
	v := pick(t, c12Gens)(t)
	s, path := c12Store(t)
	for _, rep := range v.reps {
		t.Op("%s stored as %s: %s at %q", v.class, rep.name, show(rep.val), path)
		s.Set(path, rep.val)
		for _, k := range c12Targets {
			want, ok := v.want(rep.name, k.name)
			if !ok || c12Unsupported(v.class, rep.name, k.name) {
				continue
			}
			var def []any
			if t.Chance(0.3) {
				def = []any{reflect.Zero(k.typ).Interface()}
			}
			got, err := c12Get(t, s, k.name, path, def...)
			if err != nil || !c12Same(got, want) {
				t.Fail("scalar:"+v.class+":"+rep.name+":"+k.name, "Get%s of the %s %s = %s, %v; expected %s", k.name, rep.name, show(rep.val), show(got), err, show(want))
			}
			t.Ok(1)
			t.Count("scalar "+v.class, 1)
		}
		if now, ok := s.Get(path); !ok || !(reflect.DeepEqual(now, rep.val) || now == rep.val) {
			t.Fail("scalar:altered", "the stored %s became %s, %v", show(rep.val), show(now), ok)
		}
	}
}

// c12Unsupported: see DESIGN.md, conversions the dependency doesn't do.
func c12Unsupported(class, rep, tgt string) bool {
	return tgt == "Bool" && strings.HasPrefix(rep, "complex") // a boolean from a complex number
}

// c12Elems generates n values of one class.
func c12Elems(t *T, n int) (vs []*c12Val) {
	gen := pick(t, c12Gens)
	for i := 0; i < n; i++ {
		vs = append(vs, gen(t))
	}
	return
}

func (v *c12Val) rep(name string) (any, bool) {
	for _, r := range v.reps {
		if r.name == name {
			return r.val, true
		}
	}
	return nil, false
}

// c12Coll is a collection (list or map) in some representation. reps[i] is
// the representation of the i-th element.
type c12Coll struct {
	name string
	val  any
	reps []string
}

// c12Typed lists the typed representations all elements have.
func c12Typed(vs []*c12Val) (names []string) {
	if len(vs) == 0 {
		return []string{"int", "text", "uint8", "float64", "bool"}
	}
next:
	for _, r := range vs[0].reps {
		for _, v := range vs[1:] {
			if _, ok := v.rep(r.name); !ok {
				continue next
			}
		}
		names = append(names, r.name)
	}
	return
}

func same[V any](n int, v V) (ret []V) {
	for i := 0; i < n; i++ {
		ret = append(ret, v)
	}
	return
}

var c12Zero = map[string]any{"int": 0, "text": "", "uint8": uint8(0), "float64": 0.0, "bool": false}

func c12Lists(t *T, vs []*c12Val) (ret []c12Coll) {
	for _, name := range c12Typed(vs) {
		elem := c12Zero[name]
		if len(vs) > 0 {
			elem, _ = vs[0].rep(name)
		}
		l := reflect.MakeSlice(reflect.SliceOf(reflect.TypeOf(elem)), 0, len(vs))
		for _, v := range vs {
			e, _ := v.rep(name)
			l = reflect.Append(l, reflect.ValueOf(e))
		}
		ret = append(ret, c12Coll{"[]" + name, l.Interface(), same(len(vs), name)})
	}
	c := c12Coll{name: "[]any"}
	l := make([]any, 0, len(vs))
	for _, v := range vs {
		r := pick(t, v.reps)
		l = append(l, r.val)
		c.reps = append(c.reps, r.name)
	}
	c.val = l
	ret = append(ret, c)
	if len(vs) > 0 && vs[0].class != "text" {
		var texts []string
		for _, v := range vs {
			s, _ := v.rep("text")
			texts = append(texts, s.(string))
		}
		sep := pick(t, []string{",", ", ", " , "})
		ret = append(ret, c12Coll{"listtext", "[" + strings.Join(texts, sep) + "]", same(len(vs), "text")})
	}
	return
}

func c12List(t *T) {
	n := t.Int(6)
	if t.Chance(0.05) {
		n = t.Range(10, 200)
	}
	vs := c12Elems(t, n)
	s, path := c12Store(t)
	for _, c := range c12Lists(t, vs) {
		t.Op("stored as %s: %s at %q", c.name, show(c.val), path)
		s.Set(path, c.val)
		backup := deepCopy(c.val)
	target:
		for _, k := range c12Targets {
			wants := make([]any, len(vs))
			for i, v := range vs {
				w, ok := v.want(c.reps[i], k.name)
				if !ok || c12Unsupported(v.class, c.reps[i], k.name) || c12NoList(v, c.name, c.reps[i], k.name, w) {
					continue target
				}
				wants[i] = w
			}
			got, err := c12Get(t, s, k.name+"Slice", path)
			rv := reflect.ValueOf(got)
			sig := "list:" + c.name + ":" + k.name
			if len(vs) > 0 {
				sig = "list:" + vs[0].class + ":" + c.name + ":" + k.name
			}
			if err != nil || rv.Len() != len(vs) {
				t.Fail(sig, "Get%sSlice of the %s %s = %s, %v; expected %d elements", k.name, c.name, show(c.val), show(got), err, len(vs))
			}
			for i := range vs {
				if !c12Same(rv.Index(i).Interface(), wants[i]) {
					t.Fail(sig, "Get%sSlice of the %s %s = %s; element %d is %s (%s), expected %s", k.name, c.name, show(c.val), show(got), i, show(rv.Index(i).Interface()), c.reps[i], show(wants[i]))
				}
			}
			t.Ok(1)
			t.Count("list "+c.name, 1)
		}
		if now, ok := s.Get(path); !ok || !reflect.DeepEqual(now, backup) && fmt.Sprint(now) != fmt.Sprint(backup) {
			t.Fail("list:altered", "the stored %s became %s, %v", show(backup), show(now), ok)
		}
	}
}

// c12NoList: what a list does not support though a scalar does.
func c12NoList(v *c12Val, coll, rep, tgt string, want any) bool {
	switch {
	case strings.HasPrefix(rep, "complex") && !strings.HasPrefix(tgt, "Complex"):
		return true
	case rep == "duration" && tgt == "Int64":
		return true
	case strings.HasPrefix(coll, "[]uint") && strings.HasPrefix(tgt, "Float") && want != nil:
		f, _ := strconv.ParseFloat(fmt.Sprint(want), 64)
		return f > math.MaxInt64/2
	case coll == "listtext" && v.class == "time":
		return strings.Contains(v.reps[1].val.(string), ",") // of the time format
	case coll == "listtext" && tgt == "Complex128" && v.class != "complex":
		return true // parsed with the precision of a complex64
	case coll == "listtext" && v.class == "int" && strings.HasPrefix(tgt, "Uint"):
		u, ok := want.(uint64)
		w, ok2 := want.(uint)
		return ok && u > math.MaxInt64 || ok2 && w > math.MaxInt64
	}
	return false
}

func c12Maps(t *T, keys []string, vs []*c12Val) (ret []c12Coll) {
	for _, name := range c12Typed(vs) {
		elem := c12Zero[name]
		if len(vs) > 0 {
			elem, _ = vs[0].rep(name)
		}
		m := reflect.MakeMap(reflect.MapOf(reflect.TypeFor[string](), reflect.TypeOf(elem)))
		for i, v := range vs {
			e, _ := v.rep(name)
			m.SetMapIndex(reflect.ValueOf(keys[i]), reflect.ValueOf(e))
		}
		ret = append(ret, c12Coll{"map[string]" + name, m.Interface(), same(len(vs), name)})
	}
	c := c12Coll{name: "map[string]any"}
	m, ma := map[string]any{}, map[any]any{}
	for i, v := range vs {
		r := pick(t, v.reps)
		m[keys[i]], ma[keys[i]] = r.val, r.val
		c.reps = append(c.reps, r.name)
	}
	c.val = m
	ret = append(ret, c, c12Coll{"map[any]any", ma, c.reps})
	if vs[0].class != "text" && vs[0].class != "time" {
		var texts []string
		for i, v := range vs {
			s, _ := v.rep("text")
			texts = append(texts, keys[i]+pick(t, []string{":", ": ", " : "})+s.(string))
		}
		ret = append(ret, c12Coll{"maptext", "{" + strings.Join(texts, pick(t, []string{",", ", "})) + "}", same(len(vs), "text")})
	}
	return
}

func c12Map(t *T) {
	vs := c12Elems(t, t.Range(1, 5))
	keys := []string{"a", "b1", "Key", "é", "x-y", "a.b", "_"}
	shuffle(t, keys)
	s, path := c12Store(t)
	for _, c := range c12Maps(t, keys, vs) {
		t.Op("stored as %s: %s at %q", c.name, show(c.val), path)
		s.Set(path, c.val)
		backup := deepCopy(c.val)
	target:
		for _, k := range c12Targets {
			wants := map[string]any{}
			for i, v := range vs {
				w, ok := v.want(c.reps[i], k.name)
				if !ok || c12Unsupported(v.class, c.reps[i], k.name) || c12NoMap(v, c.name, c.reps[i], k.name, w) {
					continue target
				}
				wants[keys[i]] = w
			}
			got, err := c12Get(t, s, k.name+"Map", path)
			rv := reflect.ValueOf(got)
			sig := "map:" + vs[0].class + ":" + c.name + ":" + k.name
			if err != nil || rv.Len() != len(vs) {
				t.Fail(sig, "Get%sMap of the %s %s = %s, %v; expected %d elements", k.name, c.name, show(c.val), show(got), err, len(vs))
			}
			for key, w := range wants {
				e := rv.MapIndex(reflect.ValueOf(key))
				if !e.IsValid() || !c12Same(e.Interface(), w) {
					t.Fail(sig, "Get%sMap of the %s %s = %s; element %q expected %s", k.name, c.name, show(c.val), show(got), key, show(w))
				}
			}
			t.Ok(1)
			t.Count("map "+c.name, 1)
		}
		if now, ok := s.Get(path); !ok || !reflect.DeepEqual(now, backup) && fmt.Sprint(now) != fmt.Sprint(backup) {
			t.Fail("map:altered", "the stored %s became %s, %v", show(backup), show(now), ok)
		}
	}
}

// c12NoMap: what a map does not support though a scalar does.
func c12NoMap(v *c12Val, coll, rep, tgt string, want any) bool {
	switch coll {
	case "map[string]any", "map[any]any", "map[string]text":
		return false
	case "maptext":
		if tgt == "Complex128" && v.class != "complex" {
			return true // parsed with the precision of a complex64
		}
		u, ok := want.(uint64)
		w, ok2 := want.(uint)
		return ok && u > math.MaxInt64 || ok2 && w > math.MaxInt64
	}
	own := coll == "map[string]"+strings.ToLower(tgt)
	num := strings.HasPrefix(tgt, "Int") || strings.HasPrefix(tgt, "Uint") || strings.HasPrefix(tgt, "Float") || strings.HasPrefix(tgt, "Complex")
	return !own && !num || rep == "duration" && tgt == "Int64"
}

func c12Absent(t *T) {
	s, path := c12Store(t)
	d := "."
	if x, ok := s.(interface{ Delimiter() rune }); ok {
		d = string(x.Delimiter())
	}
	if t.Chance(0.6) {
		s.Set(path+"zzz", 1)
	}
	if t.Chance(0.6) {
		s.Set(path+"y"+d+"below", "2")
	}
	probe := path
	switch t.Int(5) {
	case 0: // a key which was removed
		s.Set(path, 42)
		s.(interface{ Remove(path string) bool }).Remove(path)
	case 1: // below a key
		s.Set(path, 42)
		probe = path + d + "child"
	case 2: // a part of a key
		s.Set(path+"abcdef", 42)
		probe = path + "abc"
	case 3: // longer than a key
		s.Set(path, 42)
		probe = path + "longer"
	}
	t.Op("absent %q", probe)
	for _, k := range c12Targets {
		for _, suffix := range []string{"", "Slice", "Map"} {
			name := k.name + suffix
			typ := k.typ
			switch suffix {
			case "Slice":
				typ = reflect.SliceOf(k.typ)
			case "Map":
				typ = reflect.MapOf(reflect.TypeFor[string](), k.typ)
			}
			got, err := c12Get(t, s, name, probe)
			if !store.ErrorIsNotFound(err) {
				t.Fail("absent:err:"+name, "Get%s(%q) of an absent key: %s, error %v is not a not-found error", name, probe, show(got), err)
			}
			if rv := reflect.ValueOf(got); suffix != "" && rv.Len() > 0 || suffix == "" && !rv.IsZero() {
				t.Fail("absent:zero:"+name, "Get%s(%q) of an absent key: %s", name, probe, show(got))
			}
			// defaults
			var def, want []any
			elem := c12Default(t, k)
			switch suffix {
			case "":
				def, want = []any{elem}, []any{elem}
			case "Slice":
				l := reflect.MakeSlice(typ, 0, 3)
				for i := t.Range(1, 3); i > 0; i-- {
					e := c12Default(t, k)
					def = append(def, e)
					l = reflect.Append(l, reflect.ValueOf(e))
				}
				want = []any{l.Interface()}
			case "Map":
				m := reflect.MakeMap(typ)
				m.SetMapIndex(reflect.ValueOf("k"), reflect.ValueOf(elem))
				def, want = []any{m.Interface()}, []any{m.Interface()}
			}
			got, err = c12Get(t, s, name, probe, def...)
			if !reflect.DeepEqual(got, want[0]) {
				t.Fail("absent:default:"+name, "Get%s(%q, %v) of an absent key: %s, %v", name, probe, def, show(got), err)
			}
			t.Ok(2)
		}
	}
	for _, name := range []string{"KibiBytes", "KiloBytes"} {
		if got, err := c12Get(t, s, name, probe); got != uint64(0) || !store.ErrorIsNotFound(err) {
			t.Fail("absent:"+name, "Get%s(%q) of an absent key: %v, %v", name, probe, got, err)
		}
		if got, err := c12Get(t, s, name, probe, uint64(4711)); got != uint64(4711) || !store.ErrorIsNotFound(err) {
			t.Fail("absent:"+name, "Get%s(%q, 4711) of an absent key: %v, %v", name, probe, got, err)
		}
	}
	if _, ok := s.Get(probe); ok {
		t.Fail("absent:created", "the getters created %q", probe)
	}
}

func c12Default(t *T, k c12Target) any {
	n := int64(t.Range(1, 100))
	rv := reflect.New(k.typ).Elem()
	switch {
	case k.name == "Time":
		return time.Unix(n, 0)
	case rv.CanInt():
		rv.SetInt(n)
	case rv.CanUint():
		rv.SetUint(uint64(n))
	case rv.CanFloat():
		rv.SetFloat(float64(n) / 2)
	case rv.CanComplex():
		rv.SetComplex(complex(float64(n), 1))
	case rv.Kind() == reflect.Bool:
		rv.SetBool(true)
	default:
		rv.SetString(fmt.Sprint("default", n))
	}
	return rv.Interface()
}

// c12Bytes: the human readable sizes.
func c12Bytes(t *T) {
	s, path := c12Store(t)
	units := "kmgtpe"
	for i := 0; i < 2; i++ { // any fraction, to the precision of a float64
		kibi := t.Chance(0.5)
		base, name := int64(1000), "KiloBytes"
		if kibi {
			base, name = 1024, "KibiBytes"
		}
		u := t.Int(len(units))
		num := fmt.Sprintf("%d.%0*d", t.Int(pick(t, []int{3, 12, 1000})), t.Range(1, 5), t.Int(10))
		want, _ := new(big.Rat).SetString(num)
		want.Mul(want, new(big.Rat).SetInt(new(big.Int).Exp(big.NewInt(base), big.NewInt(int64(u+1)), nil)))
		w, _ := want.Float64()
		if w > 1e19 {
			continue
		}
		text := num + units[u:u+1]
		t.Op("%s of %q", name, text)
		s.Set(path, text)
		got, err := c12Get(t, s, name, path)
		if g := float64(got.(uint64)); err != nil || math.Abs(g-w) > 1+w/(1<<50) {
			t.Fail("bytes:"+name, "Get%s of %q = %v, %v; expected %s", name, text, got, err, want.FloatString(3))
		}
		t.Ok(1)
	}
	for i := 0; i < 8; i++ {
		kibi := t.Chance(0.5)
		base, name := int64(1000), "KiloBytes"
		tails := []string{"", "B", "b"}
		if kibi {
			base, name = 1024, "KibiBytes"
			tails = []string{"", "iB", "ib", "B", "b"}
		}
		u := t.Range(-1, len(units)-1)
		unit := ""
		mul := big.NewInt(1)
		if u >= 0 {
			unit = units[u : u+1]
			if t.Chance(0.5) {
				unit = strings.ToUpper(unit)
			}
			unit += pick(t, tails)
			mul.Exp(big.NewInt(base), big.NewInt(int64(u+1)), nil)
		}
		var num string
		var want *big.Int
		if t.Chance(0.4) && u >= 0 { // a fraction, exact in binary and decimal
			n, q := int64(t.Int(4000)), pick(t, []int64{2, 4, 8})
			if t.Chance(0.4) {
				n, q = int64(t.Int(1<<30)), 1<<t.Range(1, 12)
			}
			num = strconv.FormatFloat(float64(n)/float64(q), 'f', 12, 64)
			if t.Chance(0.7) {
				num = strings.TrimRight(num, "0")
			}
			want = new(big.Int).Mul(big.NewInt(n), mul)
			if new(big.Int).Mod(want, big.NewInt(q)).Sign() != 0 {
				continue
			}
			want.Div(want, big.NewInt(q))
			if want.BitLen() > 53 && !kibi {
				continue // the floating point product may be rounded
			}
		} else {
			n := int64(t.Int(16))
			switch t.Int(3) {
			case 0:
				n = int64(t.Int(5000))
			case 1:
				n = t.R.Int64() >> t.Int(63)
			}
			if u < 0 && t.Chance(0.2) { // beyond an int64
				want = new(big.Int).SetUint64(t.R.Uint64() | 1<<63)
				num = want.String()
				goto made
			}
			want = new(big.Int).Mul(big.NewInt(n), mul)
			num = strconv.FormatInt(n, 10)
			if h := fmt.Sprintf("%#x", n); t.Chance(0.2) && strings.ContainsAny(h[len(h)-1:], "0123456789") {
				num = h
			} else if t.Chance(0.1) {
				num = fmt.Sprintf("%#o", n)
			}
		}
	made:
		if !want.IsUint64() {
			continue
		}
		text := pick(t, []string{"", "", " "}) + num + pick(t, []string{"", "", " "}) + unit + pick(t, []string{"", "", " ", "\n"})
		var stored any = text
		if unit == "" && t.Chance(0.3) {
			stored = want.Uint64()
		} else if unit == "" {
			stored = strings.TrimSpace(text)
		}
		t.Op("%s of %s", name, show(stored))
		s.Set(path, stored)
		got, err := c12Get(t, s, name, path, uint64(99))
		if err != nil || got != want.Uint64() {
			t.Fail("bytes:"+name, "Get%s of %s = %v, %v; expected %v", name, show(stored), got, err, want)
		}
		if now, _ := s.Get(path); now != stored {
			t.Fail("bytes:altered", "the stored %s became %s", show(stored), show(now))
		}
		t.Ok(1)
		t.Count("bytes "+name, 1)
	}
}
