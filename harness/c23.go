package main

import (
	"fmt"
	"math"
	"strconv"
	"strings"
	"time"

	"github.com/hedzr/store/codecs/all"
	"github.com/hedzr/store/internal/ctx"
	"github.com/hedzr/store/internal/times"

	"github.com/hedzr/store"
)

func init() {
	register(&Prop{
		ID:   "C23",
		Rule: "a case formats a random number or instant, in one of the known layouts and bases, and reads it back; or fills a ctx with values and iterates it; or registers, removes and looks up codecs by extension against a model; distinct = different texts and histories",
		Groups: []Group{
			{Name: "numbers", Quick: 40000, Thorough: 1000000, Body: c23Numbers},
			{Name: "times", Quick: 30000, Thorough: 1000000, Body: c23Times},
			{Name: "ctx", Quick: 15000, Thorough: 300000, Body: c23Ctx},
			{Name: "registry", Quick: 3000, Thorough: 30000, Workers: 1, Body: c23Registry},
		},
		Assumptions: []string{
			"layouts whose texts can also be read in another way (day/month order, two digits of a year) are not judged",
			"a zone is a numeric offset, UTC or GMT",
			"the names given to WithValues are not empty; a value added while iterating is seen after Reset",
		},
	})
}

func c23Numbers(t *T) {
	bits := t.R.Uint64() >> t.Int(64)
	i := int64(bits)
	if t.Chance(0.3) {
		i = pick(t, []int64{0, 1, -1, math.MaxInt64, math.MinInt64, math.MaxInt32, math.MinInt32, 1 << 53, 1<<53 + 1})
	}
	if t.Chance(0.3) {
		i = -i
	}
	text := func(u uint64, neg bool) (s string) {
		switch t.Int(6) {
		case 0:
			s = "0x" + strconv.FormatUint(u, 16)
		case 1:
			s = "0X" + strings.ToUpper(strconv.FormatUint(u, 16))
		case 2:
			s = "0o" + strconv.FormatUint(u, 8)
		case 3:
			s = "0b" + strconv.FormatUint(u, 2)
		default:
			s = strconv.FormatUint(u, 10)
		}
		if neg {
			s = "-" + s
		}
		return
	}
	mag := uint64(i)
	if i < 0 {
		mag = -mag
	}
	s := text(mag, i < 0)
	t.Op("int %q", s)
	if g, err := times.SmartParseInt(s); err != nil || g != i || times.MustSmartParseInt(s) != i {
		t.Fail("int", "SmartParseInt(%q) is %d, %v; want %d", s, g, err, i)
	}
	su := text(bits, false)
	if g, err := times.SmartParseUint(su); err != nil || g != bits || times.MstSmartParseUint(su) != bits {
		t.Fail("uint", "SmartParseUint(%q) is %d, %v; want %d", su, g, err, bits)
	}
	f := math.Float64frombits(t.R.Uint64())
	if t.Chance(0.3) {
		f = float64(t.Range(-100000, 100000)) / 16
	}
	if t.Chance(0.4) { // short decimals
		f = float64(t.Range(-1, 1)*t.Int(int(math.Pow10(t.Range(1, 9))))+t.Int(2)) / math.Pow10(t.Range(0, 8))
	}
	if math.IsNaN(f) {
		f = 0.1
	}
	sf := strconv.FormatFloat(f, pick(t, []byte{'g', 'e', 'f'}), -1, 64)
	if g, err := times.ParseFloat(sf); err != nil || g != f || times.MustParseFloat(sf) != f {
		t.Fail("float", "ParseFloat(%q) is %v, %v; want %v", sf, g, err, f)
	}
	// other ways to write it
	if !math.IsInf(f, 0) {
		alt := strconv.FormatFloat(f, 'x', -1, 64)
		switch t.Int(5) {
		case 0:
			alt = "+" + strconv.FormatFloat(math.Abs(f), 'g', -1, 64)
		case 1:
			alt = strings.Replace(strconv.FormatFloat(f, 'f', -1, 64), "0.", ".", 1)
		case 2:
			alt = strings.ToUpper(strconv.FormatFloat(f, 'e', 30, 64))
		case 3:
			alt = "000" + strconv.FormatFloat(math.Abs(f), 'f', 20, 64) + "000"
		}
		want, err := strconv.ParseFloat(alt, 64)
		t.Op("float text %q", alt)
		t.Ok(1)
		if g, e := times.ParseFloat(alt); (e == nil) != (err == nil) || g != want || times.MustParseFloat(alt) != want {
			t.Fail("float-text", "ParseFloat(%q) is %v, %v; want %v, %v", alt, g, e, want, err)
		}
	}
	im := float64(t.Range(-1<<40, 1<<40)) / 1024
	if !math.IsInf(f, 0) {
		c := complex(f, im)
		sc := strconv.FormatComplex(c, 'g', -1, 128)
		if g, err := times.ParseComplex(sc); err != nil || g != c || times.MustParseComplex(sc) != c {
			t.Fail("complex", "ParseComplex(%q) is %v, %v; want %v", sc, g, err, c)
		}
	}
	t.Ok(4)
	// bad texts
	bad := pick(t, []string{"", "x", "1x", "--1", "0x", "1 2", " 1", "1e", "9999999999999999999999999999", "0b2", "0o8", "1.2.3", "١"})
	t.Op("bad %q", bad)
	t.Ok(4)
	if g, err := times.SmartParseInt(bad); err == nil {
		t.Fail("int-bad", "SmartParseInt(%q) is %d and no error", bad, g)
	}
	if g, err := times.SmartParseUint(bad); err == nil {
		t.Fail("uint-bad", "SmartParseUint(%q) is %d and no error", bad, g)
	}
	if su := "-" + strconv.FormatUint(bits|1, 10); true {
		if g, err := times.SmartParseUint(su); err == nil {
			t.Fail("uint-bad", "SmartParseUint(%q) is %d and no error", su, g)
		}
	}
	if _, e := strconv.ParseFloat(bad, 64); e != nil {
		if g, err := times.ParseFloat(bad); err == nil {
			t.Fail("float-bad", "ParseFloat(%q) is %v and no error", bad, g)
		}
	}
	if _, e := strconv.ParseComplex(bad, 128); e != nil {
		if g, err := times.ParseComplex(bad); err == nil {
			t.Fail("complex-bad", "ParseComplex(%q) is %v and no error", bad, g)
		}
	}
	if d := times.DurationFromFloat(float64(i%1000000) / 8); d != time.Duration(i%1000000)*time.Second/8 {
		t.Fail("seconds", "DurationFromFloat(%v) is %v", float64(i%1000000)/8, d)
	}
	t.Ok(2)
}

// timeLayouts can be read in one way only; prec is what is kept.
var timeLayouts = []struct {
	layout string
	prec   time.Duration
	zone   bool
	date   bool // has a date
	clock  bool // has a time of day
}{
	{"2006-01-02 15:04:05.999999999 -0700", 1, true, true, true},
	{"2006-01-02 15:04:05.999999999Z07:00", 1, true, true, true},
	{"2006-01-02 15:04:05.999999999", 1, false, true, true},
	{"2006-01-02 15:04:05.999", time.Millisecond, false, true, true},
	{"2006-01-02 15:04:05", time.Second, false, true, true},
	{"2006-01-02", time.Second, false, true, false},
	{"2006/01/02", time.Second, false, true, false},
	{"2006-1-2 15:4:5.999999999 -0700", 1, true, true, true},
	{"2006-1-2 15:4:5.999999999", 1, false, true, true},
	{"2006-1-2 15:4:5", time.Second, false, true, true},
	{"2006-1-2", time.Second, false, true, false},
	{"2006/1/2", time.Second, false, true, false},
	{"15:04:05.999999999", 1, false, false, true},
	{"15:04:05", time.Second, false, false, true},
	{"15:04", time.Minute, false, false, true},
	{time.RFC3339, time.Second, true, true, true},
	{time.RFC3339Nano, 1, true, true, true},
	{time.RFC1123Z, time.Second, true, true, true},
	{time.RFC1123, time.Second, false, true, true},
	{time.RubyDate, time.Second, true, true, true},
	{time.UnixDate, time.Second, false, true, true},
	{time.ANSIC, time.Second, false, true, true},
	{"2006-01-02T15:04:05.999999999Z07:00", 1, true, true, true},
}

func c23Times(t *T) {
	l := pick(t, timeLayouts)
	tm := time.Date(t.Range(1000, 9999), time.Month(t.Range(1, 12)), t.Range(1, 31), t.Range(0, 23), t.Range(0, 59), t.Range(0, 59), t.Int(1000000000), time.UTC)
	if t.Chance(0.3) {
		tm = tm.Truncate(time.Second)
	}
	if l.zone && t.Chance(0.7) {
		tm = tm.In(time.FixedZone("", (t.Range(-14*4, 14*4))*900))
	}
	s := tm.Format(l.layout)
	want := tm.Truncate(l.prec)
	y, mo, d := want.Date()
	h, mi, sec := want.Clock()
	ns := want.Nanosecond()
	if !l.date {
		y, mo, d = 0, 1, 1
	}
	if !l.clock {
		h, mi, sec, ns = 0, 0, 0, 0
	}
	want = time.Date(y, mo, d, h, mi, sec, ns, want.Location())
	t.Op("time %q in %q", s, l.layout)
	t.Ok(3)
	g, err := times.SmartParseTime(s)
	if err != nil {
		t.Fail("time", "SmartParseTime(%q): %v", s, err)
	}
	if !g.Equal(want) {
		t.Fail("time", "SmartParseTime(%q) is %v; want %v", s, g, want)
	}
	if g := times.MustSmartParseTime(s); !g.Equal(want) {
		t.Fail("time-must", "MustSmartParseTime(%q) is %v; want %v", s, g, want)
	}
	if g := times.MustSmartParseTimePtr(s); g == nil || !g.Equal(want) {
		t.Fail("time-must", "MustSmartParseTimePtr(%q) is %v; want %v", s, g, want)
	}
	bad := pick(t, []string{"", "x", "2020-13-01", "2020-02-30", "2020-01-01 25:00:00", s + "x", "x" + s, "2020-01-01T", "12:60", "tomorrow", s + " " + s})
	t.Op("bad %q", bad)
	t.Ok(1)
	if g, err := times.SmartParseTime(bad); err == nil {
		t.Fail("time-bad", "SmartParseTime(%q) is %v and no error", bad, g)
	}
}

type ctxName string

func (s ctxName) String() string { return string(s) }

func c23Ctx(t *T) {
	var c ctx.Ctx
	m := map[string]any{}
	switch t.Int(3) {
	case 0:
		c = ctx.TODO()
	case 1:
		m["first"] = 1
		c = ctx.WithValue(nil, "first", 1)
	case 2:
		m["b"], m["a"] = 2, "x"
		c = ctx.WithValues(nil, "b", 2, ctxName("a"), "x")
	}
	names := []string{"a", "b", "ab", "B", "é", "日本", "a b", "z", "a.b", "0"}
	for i := t.Range(1, 6); i > 0; i-- {
		for j := t.Range(0, 4); j > 0; j-- {
			k, v := pick(t, names), any(t.Int(100))
			if t.Chance(0.2) {
				v = nil
			}
			m[k] = v
			t.Op("%q = %v", k, v)
			switch t.Int(4) {
			case 0:
				c.WithValue(k, v)
			case 1:
				k2, v2 := pick(t, names), t.Int(100)
				m[k2] = v2
				t.Op("%q = %v", k2, v2)
				c.WithValues(k, v, ctxName(k2), v2)
			case 2:
				if ctx.WithValue(c, k, v) != c {
					t.Fail("ctx-same", "WithValue returns another ctx")
				}
			case 3:
				if ctx.WithValues(c, k, v) != c {
					t.Fail("ctx-same", "WithValues returns another ctx")
				}
			}
		}
		if c.NamesCount() != len(m) {
			t.Fail("ctx-count", "NamesCount is %d instead of %d", c.NamesCount(), len(m))
		}
		c.Reset()
		if k, v := c.Entry(); k != "" || v != nil || c.Key() != "" || c.Value() != nil {
			t.Fail("ctx-reset", "after Reset the entry is %q %v", k, v)
		}
		var got []string
		n := len(m) + 5
		if t.Chance(0.3) {
			n = t.Int(len(m) + 1)
		}
		for ; n > 0 && c.Next(); n-- {
			k, v := c.Entry()
			if c.Key() != k || !eq(c.Value(), v) {
				t.Fail("ctx-entry", "Entry is %q %v but Key %q and Value %v", k, v, c.Key(), c.Value())
			}
			if w, ok := m[k]; !ok || !eq(w, v) {
				t.Fail("ctx-value", "the value of %q is %v; want %v %v", k, v, w, ok)
			}
			got = append(got, k)
		}
		t.Op("iterated %q", got)
		want := sortedKeys(m)
		if n > 0 {
			if fmt.Sprint(got) != fmt.Sprint(want) {
				t.Fail("ctx-iterate", "iterated %q instead of %q", got, want)
			}
			if c.Next() {
				t.Fail("ctx-iterate", "Next after the end")
			}
		} else if fmt.Sprint(got) != fmt.Sprint(want[:len(got)]) {
			t.Fail("ctx-iterate", "iterated %q of %q", got, want)
		}
		t.Ok(3 + len(got))
	}
}

// c23Registry: codecs by extension.
func c23Registry(t *T) {
	builtin := map[string]string{"toml": "toml", "yaml": "yaml", "yml": "yaml", "gob": "gob", "json": "json", "hjson": "hjson", "tf": "hcl", "hcl": "hcl", "nestedtext": "nestext", "txt": "nestext", "conf": "nestext", "": "nestext"}
	own := map[string]int{}
	type idCodec struct {
		store.Codec
		id int
	}
	defer func() {
		for k := range own {
			all.Deregister(k)
		}
	}()
	for i := t.Range(2, 10); i > 0; i-- {
		ext := pick(t, []string{"x1", "x2", "xyz", "JSON", "json5"})
		switch t.Int(3) {
		case 0:
			id := t.Int(1000)
			t.Op("register %q %d", ext, id)
			all.Register(ext, func() store.Codec { return &idCodec{nil, id} })
			own[ext] = id
		case 1:
			t.Op("deregister %q", ext)
			all.Deregister(ext)
			delete(own, ext)
		}
		for _, e := range []string{"x1", "x2", "xyz", "JSON", "json5", "nope"} {
			g, ok := all.Codec(e)
			id, want := own[e]
			t.Ok(2)
			if ok != want || (g != nil) != want || (all.MustCodec(e) != nil) != want || (all.ExtCodecMap()[e] != nil) != want {
				t.Fail("registry", "the codec of %q: registered %v, found %v", e, want, ok)
			}
			if want {
				if c, isID := g().(*idCodec); !isID || c.id != id {
					t.Fail("registry", "the codec of %q is another one", e)
				}
			}
		}
	}
	ext := pick(t, sortedKeys(builtin))
	g, ok := all.Codec(ext)
	if !ok || g == nil || all.MustCodec(ext) == nil {
		t.Fail("registry", "no codec of %q", ext)
	}
	for _, f := range formats {
		if f.name != builtin[ext] {
			continue
		}
		doc := f.doc(t, 3)
		if f.name == "hcl" {
			doc = map[string]any{"a": f.leaf(t), "b": f.leaf(t)} // blocks are lists for this codec
		}
		t.Op("%q %#v", ext, doc)
		b, err := g().Marshal(doc)
		if err != nil {
			t.Fail("registry-marshal", "%q: %v", ext, err)
		}
		// the bytes are in the format which the extension says
		got, err := f.mk().Unmarshal(b)
		if err != nil {
			t.Fail("registry-format", "%q: %q is not %s: %v", ext, b, f.name, err)
		}
		f.compare(t, got, doc, b)
		if got, err = all.MustCodec(ext)().Unmarshal(b); err != nil {
			t.Fail("registry-unmarshal", "%q: %v", ext, err)
		}
		f.compare(t, got, doc, b)
	}
}
