package main

import (
	"encoding/json"
	"fmt"
	"regexp"
	"strings"
)

func init() {
	register(&Prop{
		ID:   "C21",
		Rule: "a case builds a tree by writes, metadata changes and removals (values and metadata with any printable characters, '%' included), reads its Dump without the colours and compares it line by line with the model: every key once, at its place in the nesting, with its value and metadata; and it decodes the JSON form of the store, of the trie and of their views; distinct = different operation sequences",
		Groups: []Group{
			{Name: "dump", Quick: 30000, Thorough: 600000, Body: c21Dump},
			{Name: "json", Quick: 10000, Thorough: 200000, Body: c21JSON},
		},
		Assumptions: []string{
			"the colours of a Dump and its padding are not judged",
			"values and metadata with line breaks or escape sequences are not generated",
		},
	})
}

var ansiRE = regexp.MustCompile("\x1b\\[[0-9;]*m")

func oddText(t *T) string {
	b := []rune{}
	size := t.Range(1, 10)
	if t.Chance(0.03) {
		size = t.Range(50, 400)
	}
	for n := size; n > 0; n-- {
		switch t.Int(6) {
		case 5:
			b = append(b, ' ')
		case 0:
			b = append(b, pick(t, []rune("%%%<>&'\"\\/|~=[]{}#$@!")))
		case 1:
			b = append(b, pick(t, []rune("äé中文€🙂")))
		default:
			b = append(b, rune('!'+t.Int(94)))
		}
	}
	return string(b)
}

func c21Dump(t *T) {
	d := newDriver(t)
	ops := weighted("set", 8, "setnode", 2, "setex", 1, "update", 1, "comment", 2, "tag", 2, "remove", 3)
	if t.Chance(0.9) {
		d.run(t.Range(1, 30), ops, 0, nil)
	}
	for _, k := range d.m.keys() {
		switch t.Int(6) {
		case 0:
			v := oddText(t)
			t.Op("Set(%q, %q)", k, v)
			d.s.Set(k, v)
			d.m.set(k, v)
		case 1:
			c, ds := oddText(t), oddText(t)
			t.Op("SetComment(%q, %q, %q)", k, ds, c)
			if d.s.SetComment(k, ds, c) {
				e := d.m.m[k]
				e.desc, e.comment = ds, c
			}
		case 2:
			v := oddText(t)
			t.Op("SetTag(%q, %q)", k, v)
			if d.s.SetTag(k, v) {
				d.m.m[k].tag = v
			}
		}
	}
	before := snapshot(t, d.s)
	text := d.s.Dump()
	if again := d.s.Dump(); again != text {
		t.Fail("dump-unstable", "two Dumps of an unchanged tree differ:\n%s\n%s", text, again)
	}
	if after := snapshot(t, d.s); !eq(before, after) {
		t.Fail("dump-changes", "Dump changed the tree")
	}
	c21CheckDump(t, text, d.m)
	t.Count("dumps", 1)
}

// c21Suffix is the part of a line behind the title.
func c21Suffix(k string, e *ent) string {
	s := " " + k + " => " + fmt.Sprint(e.val)
	if e.comment != "" {
		s += " // " + e.comment
	}
	if e.tag != nil {
		s += " | tag = " + fmt.Sprint(e.tag)
	}
	if e.desc != "" {
		s += " ~ " + e.desc
	}
	return s
}

func c21CheckDump(t *T, text string, m *model) {
	plain := ansiRE.ReplaceAllString(text, "")
	for _, e := range m.m {
		if strings.Contains(c21Suffix("", e), "\n") {
			return
		}
	}
	seen := map[string]bool{}
	var stack []string
	for _, line := range strings.Split(strings.TrimSuffix(plain, "\n"), "\n") {
		if strings.TrimSpace(line) == "" {
			continue
		}
		indent := 0
		for strings.HasPrefix(line[indent:], "  ") {
			indent += 2
		}
		lvl := indent / 2
		rest := line[indent:]
		if lvl < 1 || lvl > len(stack)+1 {
			t.Fail("dump-nesting", "the line %q doesn't nest\n%s", line, plain)
			return
		}
		stack = stack[:lvl-1]
		path := strings.Join(stack, "")
		// the piece of this line: up to the title
		hit := false
		for i := 1; i <= len(rest) && !hit; i++ {
			tail := strings.TrimLeft(rest[i:], " ")
			if tail == rest[i:] || !strings.HasPrefix(tail, "<") {
				continue
			}
			piece := rest[:i]
			switch {
			case strings.HasPrefix(tail, "<L>"):
				k := path + piece
				e := m.m[k]
				if e == nil {
					continue
				}
				got := tail[3:]
				if got == c21Suffix(k, e) {
					if seen[k] {
						t.Fail("dump-twice", "%q is shown twice\n%s", k, plain)
					}
					seen[k], hit = true, true
					stack = append(stack, piece)
				}
			case strings.HasPrefix(tail, "<B>"):
				// no key itself; one whose keys were removed may remain
				hit = true
				stack = append(stack, piece)
			}
		}
		if !hit {
			t.Fail("dump-line", "the line %q shows no key of the tree with its value and metadata\n%s", line, plain)
			return
		}
	}
	t.Ok(1 + len(seen))
	for k := range m.m {
		if !seen[k] {
			t.Fail("dump-missing", "%q isn't shown\n%s", k, plain)
			return
		}
	}
}

func c21JSON(t *T) {
	delim := pick(t, append([]rune("\"\\\t'<&:€中"), delims...))
	s := newSut(t, delim)
	prefix := ""
	if t.Chance(0.7) {
		prefix = oddText(t)
		if t.Chance(0.2) {
			prefix += "\n\x01\U0001F642\u2028"
		}
		if t.Chance(0.7) {
			prefix = strings.ReplaceAll(prefix, string(delim), "x")
		} else if t.Chance(0.5) {
			prefix += string(delim)
		} else {
			prefix = string(delim) + prefix
		}
		s.SetPrefix(prefix)
		t.Op("delimiter %q, prefix %q", string(delim), prefix)
		if t.Chance(0.4) {
			s = view(s, "sub")
			prefix += string(delim) + "sub"
		}
	}
	s.Set("some"+string(delim)+"key", 1)
	var doc struct {
		Trie struct {
			Prefix    *string `json:"prefix"`
			Delimiter *string `json:"delimiter"`
			Mode      *string `json:"recursive-mode"`
		} `json:"trie"`
	}
	var b []byte
	var err error
	if t.Chance(0.5) {
		b, err = json.Marshal(s)
	} else {
		b, err = json.Marshal(map[string]any{"a": s})
		if err == nil {
			var w map[string]json.RawMessage
			if err = json.Unmarshal(b, &w); err == nil {
				b = w["a"]
			}
		}
	}
	if err != nil {
		t.Fail("json-invalid", "the JSON form of %T with delimiter %q and prefix %q: %v", s, string(delim), prefix, err)
		return
	}
	if err = json.Unmarshal(b, &doc); err != nil {
		t.Fail("json-invalid", "the JSON form %s: %v", b, err)
		return
	}
	x := doc.Trie
	if x.Prefix == nil || *x.Prefix != prefix || x.Delimiter == nil || *x.Delimiter != string(delim) || x.Mode == nil {
		t.Fail("json-content", "the JSON form of a tree with delimiter %q and prefix %q is %s", string(delim), prefix, b)
	}
	if str, ok := s.(fmt.Stringer); ok {
		if v := str.String(); !strings.Contains(v, prefix) || !strings.Contains(v, string(delim)) {
			t.Fail("string", "the String of a tree with delimiter %q and prefix %q is %s", string(delim), prefix, v)
		}
	}
	t.Ok(3)
	t.Count("JSON forms", 1)
}
