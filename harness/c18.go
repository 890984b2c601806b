package main

// C18: durations, flattening, normalizing and operation names.

import (
	"encoding/json"
	"fmt"
	"math"
	"reflect"
	"strconv"
	"strings"
	"time"

	"github.com/hedzr/store"
	"github.com/hedzr/store/internal/cvt"
	"github.com/hedzr/store/internal/times"
)

func init() {
	register(&Prop{
		ID:   "C18",
		Rule: "round trips return the original; the standard library's parser decides what a duration text means",
		Groups: []Group{
			{Name: "duration", Quick: 40000, Thorough: 3000000, Body: c18Duration},
			{Name: "parse", Quick: 40000, Thorough: 3000000, Body: c18Parse},
			{Name: "deflate", Quick: 20000, Thorough: 1000000, Body: c18Deflate},
			{Name: "normalize", Quick: 20000, Thorough: 1000000, Body: c18Normalize},
			{Name: "op", Quick: 2000, Thorough: 20000, Body: c18Op},
		},
	})
}

// genDur is heavy at the ends, at unit boundaries and at round values.
func genDur(t *T) time.Duration {
	units := []int64{1, 1e3, 1e6, 1e9, 60e9, 3600e9, 86400e9}
	var d int64
	switch t.Int(8) {
	case 0:
		d = pick(t, []int64{0, 1, -1, math.MaxInt64, math.MinInt64, math.MinInt64 + 1, math.MaxInt64 - 1})
	case 1: // a bit around a multiple of a unit
		u := pick(t, units)
		d = u*int64(t.Int(100)) + int64(t.Range(-1, 1))
	case 2:
		d = int64(t.R.Uint64()) >> t.Int(64)
	case 3: // a sum of few units
		for i := t.Range(1, 4); i > 0; i-- {
			d += pick(t, units) * int64(t.Int(70))
		}
	case 4: // all units
		for _, u := range units {
			d += u * int64(t.Int(60))
		}
	case 5:
		d = int64(t.R.Uint64())
	case 6: // decimal fractions of seconds
		d = int64(t.Int(1e9)) / pick(t, []int64{1, 10, 100, 1000, 10000, 100000, 1000000}) * pick(t, []int64{1, 10, 1000, 1000000})
	default:
		u := pick(t, units)
		d = u * (t.R.Int64N(math.MaxInt64 / u))
	}
	if t.Chance(0.3) {
		d = -d
	}
	return time.Duration(d)
}

func c18Duration(t *T) {
	for i := 0; i < 10; i++ {
		d := genDur(t)
		t.Op("%d", int64(d))
		for _, c := range []struct {
			name, text string
		}{
			{"SmartDurationString", times.SmartDurationString(d)},
			{"SmartDurationStringEx(frac)", times.SmartDurationStringEx(d, true)},
			{"SmartDurationStringEx(no frac)", times.SmartDurationStringEx(d, false)},
			{"Duration.String", d.String()},
		} {
			got, err := times.ParseDuration(c.text)
			if err != nil || got != d {
				t.Fail("duration:"+c.name, "%d ns by %s is %q, parsed back: %d, %v", int64(d), c.name, c.text, int64(got), err)
			}
			if got := times.MustParseDuration(c.text); got != d {
				t.Fail("duration:must", "MustParseDuration(%q) = %d, expected %d", c.text, int64(got), int64(d))
			}
			t.Ok(1)
		}
		// the text is a plain sequence of numbers and units: the days part
		// apart, the standard library agrees
		if s := times.SmartDurationStringEx(d, true); true {
			if got, err := time.ParseDuration(s); err != nil || got != d {
				t.Fail("duration:std", "the standard library reads %q as %d, %v; expected %d", s, int64(got), err, int64(d))
			}
		}
	}
}

func c18Number(t *T) string {
	digits := func(n int) string {
		b := make([]byte, n)
		for i := range b {
			b[i] = byte('0' + t.Int(10))
		}
		return string(b)
	}
	switch t.Int(8) {
	case 0:
		return digits(t.Range(1, 3)) + "." + digits(t.Int(12))
	case 1:
		return "." + digits(t.Range(0, 25))
	case 2:
		return digits(t.Range(15, 21))
	case 3:
		return digits(t.Range(1, 20)) + "." + digits(t.Int(30))
	case 4:
		return pick(t, []string{"9223372036854775807", "9223372036854775808", "9223372036854775809", "2562047", "2562048", "153722867", "9223372036", "0", "00", "007", ""})
	default:
		return strconv.Itoa(t.Int(200))
	}
}

func c18Parse(t *T) {
	for i := 0; i < 10; i++ {
		var sb strings.Builder
		sb.WriteString(pick(t, []string{"", "", "", "-", "+", "--", " "}))
		days := false
		var parts []string
		for j := t.Range(0, 4); j > 0; j-- {
			unit := pick(t, []string{"ns", "us", "µs", "μs", "ms", "s", "m", "h", "d", "s", "h", "m", "", "x", "S", "sec"})
			days = days || unit == "d"
			p := c18Number(t) + unit
			parts = append(parts, p)
			sb.WriteString(p)
		}
		text := sb.String()
		if t.Chance(0.1) {
			b := []byte(text)
			if len(b) > 0 {
				b[t.Int(len(b))] = byte(t.Int(256))
			}
			text = string(b)
			days = days || strings.Contains(text, "d")
		}
		t.Op("%q", text)
		got, err := times.ParseDuration(text)
		if !days {
			want, werr := time.ParseDuration(text)
			if (err != nil) != (werr != nil) || got != want {
				t.Fail("parse:std", "ParseDuration(%q) = %d, %v; the standard library says %d, %v", text, int64(got), err, int64(want), werr)
			}
			t.Ok(1)
			if err == nil {
				t.Count("valid texts", 1)
			}
			continue
		}
		// days: replacing "<n>d" by "<n*24>h" must not change the meaning
		neg := strings.HasPrefix(text, "-")
		whole := true
		var conv strings.Builder
		if neg {
			conv.WriteString("-")
		}
		for _, p := range parts {
			if strings.Trim(p, "0123456789.") == "" {
				whole = false // it's merged with the next part
				break
			}
			if n, ok := strings.CutSuffix(p, "d"); ok {
				v, err := strconv.ParseInt(n, 10, 64)
				if err != nil || v > 106751 {
					whole = false
					break
				}
				p = strconv.FormatInt(v*24, 10) + "h"
			}
			conv.WriteString(p)
		}
		if !whole || text != sb.String() || strings.HasPrefix(text, "--") || strings.HasPrefix(text, " ") || strings.HasPrefix(text, "+") {
			continue
		}
		want, werr := time.ParseDuration(conv.String())
		if (err != nil) != (werr != nil) || got != want {
			t.Fail("parse:days", "ParseDuration(%q) = %d, %v; expected the meaning of %q: %d, %v", text, int64(got), err, conv.String(), int64(want), werr)
		}
		t.Ok(1)
		t.Count("texts with days", 1)
	}
}

func c18Flatten(out map[string]any, path, d string, first bool, m map[string]any) {
	for k, v := range m {
		p := k
		if !first {
			p = path + d + k
		}
		if sub, ok := v.(map[string]any); ok {
			if _, dup := out[p+"\x00"]; dup {
				return
			}
			c18Flatten(out, p, d, false, sub)
			continue
		}
		if _, dup := out[p]; dup {
			out[p] = "DUPLICATED"
			continue
		}
		out[p] = v
	}
}

func c18Deflate(t *T) {
	d := pick(t, []string{".", ".", "/", ":", "-", "::"})
	segs := pick(t, [][]string{{"a", "b", "c"}, {"a", "ab", "abc", ""}, {"x", "é", "日本", "x-y", "x_y", " "}, {"a", "A", "a-", "a!", "0"}})
	in := map[string]any{}
	for i := t.Int(14); i > 0; i-- {
		var p []string
		for j := t.Range(1, 5); j > 0; j-- {
			p = append(p, pick(t, segs))
		}
		var v any = i
		switch t.Int(6) {
		case 0:
			v = nil
		case 1:
			v = []any{1, "x"}
		case 2:
			v = "text"
		}
		in[strings.Join(p, d)] = v
	}
	backup := deepCopy(in).(map[string]any)
	t.Op("deflate by %q: %s", d, show(in))
	out := cvt.Deflate(in, d)
	flat := map[string]any{}
	c18Flatten(flat, "", d, true, out)
	if diff := diffMaps(flat, in); diff != "" {
		t.Fail("deflate", "Deflate(%s, %q) = %s: %s", show(in), d, show(out), diff)
	}
	if !reflect.DeepEqual(in, backup) {
		t.Fail("deflate:input", "Deflate changed its input: %s, was %s", show(in), show(backup))
	}
	// without a key above it, a key is found by its segments
keys:
	for k, v := range in {
		parts := strings.Split(k, d)
		for i := 1; i < len(parts); i++ {
			if _, ok := in[strings.Join(parts[:i], d)]; ok {
				continue keys
			}
		}
		var cur any = out
		for i, p := range parts {
			m, ok := cur.(map[string]any)
			if ok {
				cur, ok = m[p]
			}
			if !ok {
				t.Fail("deflate:nested", "Deflate(%s, %q) = %s: nothing at %q", show(in), d, show(out), parts[:i+1])
			}
		}
		if !eq(cur, v) {
			t.Fail("deflate:nested", "Deflate(%s, %q) = %s: %q is %s", show(in), d, show(out), parts, show(cur))
		}
		t.Ok(1)
	}
	t.Ok(1)
}

// genAnyMap makes a nested value with map[any]any and what it has to be
// after being normalized.
func genAnyMap(t *T, depth int) (in, want any) {
	n := t.Int(4)
	if depth <= 0 {
		n = 5 + t.Int(5)
	}
	switch n {
	case 0, 1:
		m, w := map[any]any{}, map[string]any{}
		for i := t.Int(4); i > 0; i-- {
			k := pick(t, []any{"a", "b.c", 1, int64(77), true, 2.5, "é", nil})
			v, wv := genAnyMap(t, depth-1)
			m[k], w[fmt.Sprint(k)] = v, wv
		}
		return m, w
	case 2:
		return genStrMap(t, depth-1)
	case 3:
		l, w := []any{}, []any{}
		for i := t.Int(4); i > 0; i-- {
			v, wv := genAnyMap(t, depth-1)
			l, w = append(l, v), append(w, wv)
		}
		return l, w
	}
	v := pick(t, []any{1, "text", nil, true, 2.5, []string{"x"}, []byte("b"), time.Second, []int(nil)})
	return v, v
}

func genStrMap(t *T, depth int) (in, want map[string]any) {
	m, w := map[string]any{}, map[string]any{}
	for i := t.Int(5); i > 0; i-- {
		k := pick(t, []string{"a", "b", "c", "d.e", "é", "1", ""})
		m[k], w[k] = genAnyMap(t, depth)
	}
	return m, w
}

func c18Normalize(t *T) {
	in, want := genStrMap(t, t.Range(0, 5))
	t.Op("normalize %s", show(in))
	before := show(in)
	leaves := 0
	var worker func(k string, v any)
	if t.Chance(0.5) {
		worker = func(k string, v any) { leaves++ }
	}
	got := cvt.Normalize(in, worker)
	if !eq(got, want) {
		t.Fail("normalize", "Normalize(%s) = %s, expected %s", before, show(got), show(want))
	}
	t.Ok(1)
	if again := cvt.Normalize(got, nil); !eq(again, want) {
		t.Fail("normalize:again", "a second Normalize changed %s to %s", show(want), show(again))
	}
}

func c18Op(t *T) {
	ops := []store.Op{store.OpCreate, store.OpWrite, store.OpRemove, store.OpRename, store.OpChmod, store.OpNone}
	names := map[string]store.Op{}
	for _, op := range ops {
		o := op
		text, err := o.MarshalText()
		if err != nil {
			t.Fail("op:marshal", "Op %d: %v", op, err)
		}
		if old, dup := names[string(text)]; dup {
			t.Fail("op:unique", "Op %d and %d are both named %q", old, op, text)
		}
		names[string(text)] = op
		forms := []string{string(text), strings.ToLower(string(text)), strings.ToUpper(string(text))}
		mixed := []byte(strings.ToLower(string(text)))
		for i := range mixed {
			if t.Chance(0.5) {
				mixed[i] = strings.ToUpper(string(mixed[i]))[0]
			}
		}
		for _, f := range append(forms, string(mixed)) {
			back := store.Op(t.Int(64))
			t.Op("%q", f)
			if err := back.UnmarshalText([]byte(f)); err != nil || back != op {
				t.Fail("op:parse", "Op %d has the name %q, %q is read as %d, %v", op, text, f, back, err)
			}
			t.Ok(1)
		}
		type holder struct{ Op *store.Op }
		b, err := json.Marshal(holder{&o})
		var h holder
		if err == nil {
			err = json.Unmarshal(b, &h)
		}
		if err != nil || h.Op == nil || *h.Op != op {
			t.Fail("op:json", "Op %d by JSON %s: %v", op, b, err)
		}
	}
	back := store.OpWrite
	bad := pick(t, []string{"", "creat", "createe", "x", " none", "Op(1)", "modify|create", "\x00"})
	if err := back.UnmarshalText([]byte(bad)); err == nil {
		t.Fail("op:bad", "UnmarshalText(%q) = %d without an error", bad, back)
	} else if back != store.OpWrite {
		t.Fail("op:bad", "UnmarshalText(%q) failed but changed the Op to %d", bad, back)
	}
	t.Ok(1)
}
