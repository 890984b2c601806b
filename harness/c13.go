package main

import (
	"fmt"
	"runtime"
	"strings"
	"sync"
	"time"

	"github.com/hedzr/store/radix"
)

func init() {
	register(&Prop{
		ID:   "C13",
		Rule: "a case sets TTLs of 2..80 ms on keys and branches of a generated store while other keys are inserted (splitting the nodes with a TTL), overwritten and removed; every expiry callback is logged with its time, node and data, every read before the earliest possible expiry must still see the value, and after all expiries the whole store is compared with the model; a second group closes stores with pending TTLs and counts callbacks and goroutines afterwards; distinct = different histories",
		Assumptions: []string{"the clock is Go's monotonic clock; an expiry is reported as missing only after 20 s",
			"operations which overlap the removal of an expired branch are not generated (the store has no lock for that)"},
		Groups: []Group{
			{Name: "leaf", Quick: 3000, Thorough: 60000, Workers: 48, Body: c13Leaf},
			{Name: "branch", Quick: 2000, Thorough: 40000, Workers: 64, Body: c13Branch},
			{Name: "quiet", Quick: 1200, Thorough: 20000, Workers: 48, Body: c13Quiet},
			{Name: "together", Quick: 800, Thorough: 10000, Workers: 16, Body: c13Together},
			{Name: "close", Quick: 40, Thorough: 600, Workers: 1, Body: c13Close},
			{Name: "again", Quick: 400, Thorough: 8000, Workers: 32, Body: c13Again},
			{Name: "long", Quick: 16, Thorough: 400, Workers: 16, Body: c13Long},
		},
	})
}

const lateLimit = 20 * time.Second

type ring struct {
	at   time.Time
	key  string
	data any
	nilN bool
}

// ttlJob is one SetTTL call.
type ttlJob struct {
	path  string
	dur   time.Duration
	t0    time.Time // before the call
	cb    bool
	mu    sync.Mutex
	rings []ring
	after func(s *radix.TTL[any], nd radix.Node[any])
	loose bool // the tree was changed about when it fired: its node may have been replaced meanwhile
}

func (j *ttlJob) ring(s *radix.TTL[any], nd radix.Node[any]) {
	r := ring{at: time.Now()}
	func() {
		defer func() {
			if e := recover(); e != nil {
				r.key = fmt.Sprint("panic: ", e)
			}
		}()
		if nd == nil {
			r.nilN = true
		} else {
			r.key, r.data = nd.Key(), nd.Data()
		}
	}()
	j.mu.Lock()
	j.rings = append(j.rings, r)
	j.mu.Unlock()
	if j.after != nil {
		j.after(s, nd)
	}
}

func (j *ttlJob) log() []ring {
	j.mu.Lock()
	defer j.mu.Unlock()
	return append([]ring{}, j.rings...)
}

func (j *ttlJob) deadline() time.Time { return j.t0.Add(j.dur) }

func closeSut(s sut) {
	switch z := s.(type) {
	case interface{ Close() }:
		z.Close()
	}
}

// eventually polls until ok, or the late limit passed.
func eventually(ok func() bool) bool {
	end := time.Now().Add(lateLimit)
	for {
		if ok() {
			return true
		}
		if time.Now().After(end) {
			return false
		}
		time.Sleep(3 * time.Millisecond)
	}
}

// arm sets a TTL by one of the API's ways.
func arm(t *T, s sut, path, full string, j *ttlJob) int {
	var cb radix.OnTTLRinging[any]
	if j.cb {
		cb = j.ring
	}
	way := t.Int(4)
	var node radix.Node[any]
	if way >= 2 {
		n, _, partial, found := locate(s, path, nil)
		if !found || partial || n == nil || n.Key() != full {
			way = 0
		}
		node = n
	}
	t.Op("SetTTL(%q, %v) way %d", path, j.dur, way)
	j.t0 = time.Now()
	switch way {
	case 2:
		return s.SetTTLFast(node, j.dur, cb)
	case 3:
		if tr, ok := s.(radix.Trie[any]); ok {
			node.SetTTL(j.dur, tr, cb)
			return 0
		}
		return s.SetTTLFast(node, j.dur, cb)
	}
	return s.SetTTL(path, j.dur, cb)
}

// checkRings judges the callbacks of a finished job. full is its key.
func checkRings(t *T, j *ttlJob, full, dl string, branch bool, values []any, atMost bool) {
	rs := j.log()
	t.Ok(1)
	if j.cb && len(rs) != 1 && !(atMost && len(rs) == 0) {
		t.Fail("cb-count", "the callback of the TTL of %q was called %d times", full, len(rs))
	}
	for _, r := range rs {
		t.Ok(3)
		if r.nilN {
			t.Fail("cb-node", "the callback of the TTL of %q got no node", full)
		}
		if k := r.key; !j.loose && k != full && !(branch && strings.TrimSuffix(k, dl) == full) {
			t.Fail("cb-key", "the callback of the TTL of %q got the node of %q", full, k)
		}
		if r.at.Before(j.deadline()) {
			t.Fail("cb-early", "the callback of the TTL of %q ran %v after SetTTL(%v)", full, r.at.Sub(j.t0), j.dur)
		}
		if !branch && values != nil && !j.loose {
			ok := false
			for _, v := range values {
				ok = ok || eq(v, r.data)
			}
			if !ok {
				t.Fail("cb-data", "the callback of the TTL of %q saw the data %s; none of the values of the key (%d, the last %s)", full, show(r.data), len(values), show(values[len(values)-1]))
			}
		}
	}
}

// c13Setup makes a store with metadata.
func c13Setup(t *T) *driver {
	d := newDriver(t)
	for {
		d.populate(t.Range(2, 3+len(d.u.keys)*2/3))
		if len(d.m.m) > 0 {
			break
		}
	}
	for _, k := range d.m.keys() {
		e := d.m.m[k]
		if e.val == nil {
			e.val = "was nil"
			d.s.Set(k, e.val)
		}
		if t.Chance(0.6) {
			e.desc, e.comment, e.tag = "d"+k, "c"+k, "t"+k
			d.s.SetComment(k, e.desc, e.comment)
			d.s.SetTag(k, e.tag)
		}
	}
	return d
}

// splitters are keys which share leading characters with k.
func splitter(t *T, k, dl string) string {
	rs := []rune(k)
	switch t.Int(6) {
	case 0:
		return k + dl + "kid" + string(rune('a'+t.Int(3)))
	case 1:
		return k + string(rune('a'+t.Int(3)))
	case 2:
		if i := strings.LastIndex(k, dl); i > 0 {
			return k[:i] + dl + "zz" + string(rune('a'+t.Int(3)))
		}
	case 3:
		if i := strings.Index(k, dl); i > 0 {
			return k[:i] // a parent gets a value
		}
	}
	n := t.Range(1, len(rs))
	return string(rs[:n]) + string(rune('q'+t.Int(3)))
}

// c13View is s itself, or a view (of a view) of it which shows k at path.
func c13View(t *T, s sut, k, dl string) (w sut, path string) {
	w, path = s, k
	for i := t.Int(4); i > 0; i-- {
		switch j := strings.Index(path, dl); {
		case j > 0 && t.Chance(0.7):
			t.Op("view %q", path[:j])
			w, path = view(w, path[:j]), path[j+len(dl):]
		default:
			mode := pick(t, []string{"N", "R", "BR"})
			t.Op("view %s()", mode)
			w = modeView(w, mode)
		}
	}
	return
}

func c13Leaf(t *T) {
	d := c13Setup(t)
	m, u := d.m, d.u
	s := d.s
	views := []sut{}
	defer func() {
		closeSut(s)
		for _, v := range views {
			closeSut(v)
		}
	}()
	type target struct {
		jobs   []*ttlJob
		values []any
		gone   bool // removed
		loose  bool // removed and set again
	}
	tg := map[string]*target{}
	keys := m.keys()
	shuffle(t, keys)
	n := t.Range(1, min(5, len(keys)))
	for _, k := range keys[:n] {
		tg[k] = &target{values: []any{m.m[k].val}}
	}
	pend := sortedKeys(tg)
	shuffle(t, pend)
	for i := t.Range(0, 2); i > 0; i-- { // more TTLs on the same key
		pend = append(pend, pick(t, pend))
	}
	// related: k or one of its ancestors has a TTL
	hits := func(k string) bool {
		for p := range tg {
			if p == k || strings.HasPrefix(p, k+u.d) {
				return true
			}
		}
		return false
	}
	var absents []*ttlJob
	touched := func() { // after each change of the tree
		now := time.Now()
		for _, x := range tg {
			for _, j := range x.jobs {
				if !now.Before(j.deadline()) {
					j.loose = true
				}
			}
		}
	}
	read := func(k string) {
		x := tg[k]
		if x.gone || x.loose || len(x.jobs) == 0 {
			return
		}
		first := x.jobs[0].deadline()
		for _, j := range x.jobs {
			if j.deadline().Before(first) {
				first = j.deadline()
			}
		}
		v, ok := s.Get(k)
		tag, err := s.GetTag(k)
		if time.Now().Before(first) {
			t.Ok(2)
			if !ok || !eq(v, m.m[k].val) {
				t.Fail("early", "Get(%q) = %s, %v before the TTL expired; want %s", k, show(v), ok, show(m.m[k].val))
			}
			if err != nil || !eq(tag, m.m[k].tag) {
				t.Fail("early-tag", "GetTag(%q) = %s, %v before the TTL expired; want %s", k, show(tag), err, show(m.m[k].tag))
			}
			t.Count("reads before the expiry", 1)
		}
	}
	for steps := t.Range(2, 30); steps > 0 || len(pend) > 0; steps-- {
		switch c := t.Int(10); {
		case len(pend) > 0 && (c < 3 || steps <= 0):
			k := pend[0]
			pend = pend[1:]
			x := tg[k]
			if x.gone || x.loose {
				continue
			}
			j := &ttlJob{path: k, dur: time.Duration(t.Range(2000, 80000)) * time.Microsecond, cb: t.Chance(0.8)}
			w := s
			if t.Chance(0.3) {
				w, j.path = c13View(t, s, k, u.d)
				views = append(views, w)
			}
			if st := arm(t, w, j.path, k, j); st != 0 {
				t.Fail("state", "SetTTL(%q) on a live key returned %d", k, st)
			}
			x.jobs = append(x.jobs, j)
		case c == 3:
			p := u.probe(t)
			if !okKey(p, u.d) || m.class(p) != absent {
				continue
			}
			j := &ttlJob{path: p, dur: time.Duration(t.Range(1000, 20000)) * time.Microsecond, cb: true}
			w := s
			if t.Chance(0.3) {
				w, j.path = c13View(t, s, p, u.d)
				views = append(views, w)
			}
			t.Op("SetTTL(%q) absent", j.path)
			t.Ok(1)
			if st := w.SetTTL(j.path, j.dur, j.ring); st != -1 {
				t.Fail("absent-state", "SetTTL(%q) on an absent path returned %d", p, st)
			}
			absents = append(absents, j)
		case c == 4:
			k := pick(t, sortedKeys(tg))
			read(k)
		case c == 5 && t.Chance(0.4): // overwrite a key having a TTL
			k := pick(t, sortedKeys(tg))
			x := tg[k]
			if x.gone || x.loose {
				continue
			}
			v := u.value(t)
			if v == nil {
				continue
			}
			t.Op("Set(%q, %s)", k, show(v))
			x.values = append(x.values, v)
			s.Set(k, v)
			m.set(k, v)
			// it may have been cleared before this write, or after it
			if len(x.jobs) > 0 {
				early := true
				for _, j := range x.jobs {
					early = early && time.Now().Before(j.deadline())
				}
				x.loose = !early
			}
		case c == 6 && t.Chance(0.3): // remove it
			k := pick(t, sortedKeys(tg))
			if len(m.below(k)) > 0 || m.m[k] == nil {
				continue
			}
			t.Op("Remove(%q)", k)
			s.Remove(k)
			m.remove(k)
			tg[k].gone, tg[k].loose = true, false
			if t.Chance(0.5) {
				v := u.value(t)
				t.Op("Set(%q, %s) again", k, show(v))
				s.Set(k, v)
				m.set(k, v)
				tg[k].gone, tg[k].loose = false, true
			}
		case c == 7:
			k := pick(t, keys)
			if hits(k) || m.m[k] == nil {
				continue
			}
			t.Op("Remove(%q)", k)
			s.Remove(k)
			m.remove(k)
		default:
			k := pick(t, u.keys)
			if t.Chance(0.7) {
				k = splitter(t, pick(t, sortedKeys(tg)), u.d)
			}
			if tg[k] != nil || !okKey(k, u.d) || strings.Contains(k, " ") {
				continue
			}
			v := u.value(t)
			if t.Chance(0.5) {
				t.Op("Set(%q, %s)", k, show(v))
				s.Set(k, v)
				m.set(k, v)
			} else {
				t.Op("SetNode(%q, %s, tag)", k, show(v))
				s.SetNode(k, v, "T", "D", "C")
				m.set(k, v)
				e := m.m[k]
				e.tag, e.desc, e.comment = "T", "D", "C"
			}
		}
		touched()
		if t.Chance(0.15) {
			time.Sleep(time.Duration(t.Int(4000)) * time.Microsecond)
		}
	}
	// the expiries
	for _, k := range sortedKeys(tg) {
		x := tg[k]
		for _, j := range x.jobs {
			if w := time.Until(j.deadline()); w > 0 {
				if t.Chance(0.5) {
					read(k)
				}
				time.Sleep(time.Until(j.deadline()))
			}
			if j.cb && !x.gone && !x.loose {
				t.Ok(1)
				if !eventually(func() bool { return len(j.log()) > 0 }) {
					t.Fail("cb-missing", "the callback of the TTL of %q (%v) did not run", k, j.dur)
				}
			}
		}
		if len(x.jobs) == 0 || x.gone || x.loose {
			continue
		}
		t.Ok(1)
		if !eventually(func() bool { v, _ := s.Get(k); tag, _ := s.GetTag(k); return v == nil && tag == nil }) {
			v, _ := s.Get(k)
			tag, _ := s.GetTag(k)
			t.Fail("not-cleared", "the TTL of %q expired, but its value is still %s, tag %s", k, show(v), show(tag))
		}
		m.m[k].val, m.m[k].tag = nil, nil
		t.Count("expiries", int64(len(x.jobs)))
	}
	for _, j := range absents {
		if w := time.Until(j.deadline()); w > 0 {
			time.Sleep(w)
		}
	}
	// values set after the expiry stay
	for _, k := range sortedKeys(tg) {
		x := tg[k]
		if len(x.jobs) == 1 && !x.gone && !x.loose && t.Chance(0.5) {
			v := "again " + k
			t.Op("Set(%q) after the expiry", k)
			s.Set(k, v)
			m.set(k, v)
		}
	}
	time.Sleep(time.Duration(t.Range(3, 15)) * time.Millisecond)
	for _, k := range sortedKeys(tg) {
		x := tg[k]
		for i, j := range x.jobs {
			vs := x.values
			if len(x.jobs) > 1 || x.gone || x.loose || i > 0 {
				vs = nil
			}
			checkRings(t, j, k, u.d, false, vs, x.gone || x.loose)
		}
		if x.loose { // unspecified: take what's there
			v, ok := s.Get(k)
			t.Ok(1)
			if !ok || v != nil && !eq(v, m.m[k].val) {
				t.Fail("loose", "Get(%q) = %s, %v; want %s or nothing", k, show(v), ok, show(m.m[k].val))
			}
			g, _ := s.GetTag(k)
			m.m[k].val, m.m[k].tag = v, g
		}
	}
	for _, j := range absents {
		t.Ok(1)
		if len(j.log()) > 0 {
			t.Fail("absent-cb", "the TTL set on the absent path %q fired", j.path)
		}
	}
	checkSnapshot(t, s, m, "after-ttl", true, false)
	for _, k := range u.keys {
		checkPath(t, s, m, k, k)
	}
}

func c13Branch(t *T) {
	d := c13Setup(t)
	m, u, s := d.m, d.u, d.s
	defer closeSut(s)
	for i := t.Range(1, 4); i > 0; i-- { // branches with a node of their own
		b := pick(t, u.keys) + pick(t, []string{"", u.d + "br", "br"})
		if m.m[b] != nil || !okKey(b, u.d) || strings.Contains(b, " ") {
			continue
		}
		for _, k := range []string{b + u.d + "one", b + u.d + "two" + pick(t, []string{"", u.d + "x"})} {
			if okKey(k, u.d) {
				v := u.value(t)
				t.Op("Set(%q, %s)", k, show(v))
				s.Set(k, v)
				m.set(k, v)
			}
		}
	}
	// pure branches
	br := map[string]bool{}
	for _, k := range m.keys() {
		for i := 0; i < len(k); i++ {
			if strings.HasPrefix(k[i:], u.d) && m.class(k[:i]) == branchOnly {
				br[k[:i]] = true
			}
		}
	}
	bs := sortedKeys(br)
	if len(bs) == 0 {
		t.trivial = true
		return
	}
	shuffle(t, bs)
	dur := time.Duration(t.Range(60, 120)) * time.Millisecond
	var jobs []*ttlJob
	var end time.Time
	start := time.Now()
	for _, b := range bs[:t.Range(1, min(3, len(bs)))] {
		j := &ttlJob{path: b, dur: dur, cb: t.Chance(0.8)}
		w, p := s, b
		if t.Chance(0.3) {
			w, p = c13View(t, s, b, u.d)
		}
		st := arm(t, w, p, b, j)
		t.Ok(1)
		if st != 0 && st != -1 {
			t.Fail("state", "SetTTL(%q) returned %d", b, st)
		}
		if st == 0 {
			jobs = append(jobs, j)
		} else {
			t.Count("branches without a node", 1)
		}
	}
	if len(jobs) == 0 {
		t.trivial = true
		return
	}
	for i := t.Range(0, 10); i > 0; i-- {
		k := pick(t, u.keys)
		if t.Chance(0.7) {
			j := pick(t, jobs)
			k = splitter(t, j.path, u.d)
		}
		if !okKey(k, u.d) || strings.Contains(k, " ") {
			continue
		}
		bad := false
		for _, j := range jobs {
			bad = bad || k == j.path
		}
		if bad {
			continue
		}
		v := u.value(t)
		t.Op("Set(%q, %s)", k, show(v))
		s.Set(k, v)
		m.set(k, v)
	}
	for _, j := range jobs {
		for _, k := range m.below(j.path) {
			v, ok := s.Get(k)
			t.Ok(1)
			if time.Now().Before(start.Add(dur)) && (!ok || !eq(v, m.m[k].val)) {
				t.Fail("early", "Get(%q) = %s, %v before the TTL of its branch %q expired", k, show(v), ok, j.path)
			}
		}
		if e := j.deadline(); e.After(end) {
			end = e
		}
	}
	if time.Now().After(start.Add(dur)) {
		t.Discard("the operations took longer than the TTL")
		time.Sleep(50 * time.Millisecond)
		return
	}
	if t.Chance(0.3) { // the prefix matters at SetTTL, not later
		t.Op("SetPrefix(elsewhere) while waiting")
		s.SetPrefix("elsewhere")
	}
	time.Sleep(time.Until(end))
	for _, j := range jobs {
		t.Ok(1)
		if j.cb && !eventually(func() bool { return len(j.log()) > 0 }) {
			t.Fail("cb-missing", "the callback of the TTL of the branch %q did not run", j.path)
		}
	}
	time.Sleep(30 * time.Millisecond)
	s.SetPrefix()
	for _, j := range jobs {
		m.remove(j.path)
	}
	for _, j := range jobs {
		t.Ok(1)
		if !eventually(func() bool {
			ok := true
			s.Walk("", func(path, fragment string, n radix.Node[any]) {
				k := n.Key()
				ok = ok && !(n.IsLeaf() && (k == j.path || strings.HasPrefix(k, j.path+u.d)))
			})
			return ok
		}) {
			t.Fail("not-removed", "the TTL of the branch %q expired, but it's still there", j.path)
		}
		nested := false
		for _, o := range jobs {
			nested = nested || o != j && strings.HasPrefix(j.path, o.path+u.d)
		}
		checkRings(t, j, j.path, u.d, true, nil, nested)
		t.Count("branch expiries", 1)
	}
	checkSnapshot(t, s, m, "after-branch-ttl", true, false)
	for _, k := range u.keys {
		checkPath(t, s, m, k, k)
	}
}

// c13Quiet: the owner waits; the callbacks look into the store, and one of
// them arms the TTL again.
func c13Quiet(t *T) {
	d := c13Setup(t)
	m, s := d.m, d.s
	defer closeSut(s)
	k := pick(t, m.keys())
	e := m.m[k]
	j := &ttlJob{path: k, dur: time.Duration(t.Range(1000, 30000)) * time.Microsecond, cb: true}
	j2 := &ttlJob{path: k, dur: time.Duration(t.Range(1000, 20000)) * time.Microsecond, cb: true}
	if t.Chance(0.3) { // very short ones
		j.dur = time.Microsecond << t.Int(12)
		j2.dur = time.Microsecond << t.Int(12)
	}
	again := t.Chance(0.5)
	var seen, seenTag any
	var found bool
	var st int
	done := make(chan struct{})
	j.after = func(x *radix.TTL[any], nd radix.Node[any]) {
		seen, found = s.Get(k)
		seenTag, _ = s.GetTag(k)
		if again {
			j2.t0 = time.Now()
			st = s.SetTTL(k, j2.dur, j2.ring)
		}
		close(done)
	}
	for i := t.Range(0, 3); i > 0; i-- {
		p := splitter(t, k, d.u.d)
		if okKey(p, d.u.d) && m.m[p] == nil && !strings.Contains(p, " ") {
			t.Op("Set(%q)", p)
			s.Set(p, i)
			m.set(p, i)
		}
	}
	t.Op("re-arm: %v", again)
	if r := arm(t, s, k, k, j); r != 0 {
		t.Fail("state", "SetTTL(%q) returned %d", k, r)
	}
	select {
	case <-done:
	case <-time.After(lateLimit):
		t.Fail("cb-missing", "the callback of the TTL of %q did not run (or blocks)", k)
	}
	t.Ok(3)
	if !found || !eq(seen, e.val) || !eq(seenTag, e.tag) {
		t.Fail("cb-cleared", "within its TTL callback %q reads %s (%v), tag %s; want %s, tag %s", k, show(seen), found, show(seenTag), show(e.val), show(e.tag))
	}
	if !eventually(func() bool { v, _ := s.Get(k); g, _ := s.GetTag(k); return v == nil && g == nil }) {
		t.Fail("not-cleared", "the TTL of %q expired, but its value or tag is still there", k)
	}
	e.val, e.tag = nil, nil
	if again {
		if st != 0 {
			t.Fail("rearm", "SetTTL within the callback returned %d", st)
		}
		if !eventually(func() bool { return len(j2.log()) > 0 }) {
			t.Fail("rearm-missing", "the TTL set within the callback did not fire")
		}
		time.Sleep(2 * time.Millisecond)
		checkRings(t, j2, k, d.u.d, false, nil, false)
	}
	time.Sleep(time.Duration(t.Range(1, 10)) * time.Millisecond)
	checkRings(t, j, k, d.u.d, false, []any{seen}, false)
	checkSnapshot(t, s, m, "after-ttl", true, false)
	t.Count("expiries", 1)
}

// c13Close: many stores are closed with pending TTLs.
func c13Close(t *T) {
	before := runtime.NumGoroutine()
	type st struct {
		d     *driver
		jobs  []*ttlJob
		done  time.Time
		views []sut
	}
	var all []*st
	for i := t.Range(5, 25); i > 0; i-- {
		x := &st{d: c13Setup(t)}
		all = append(all, x)
		keys := x.d.m.keys()
		for n := t.Range(0, 8); n > 0; n-- {
			k := pick(t, keys)
			j := &ttlJob{path: k, dur: time.Duration(t.Range(1, 30)) * time.Millisecond, cb: true}
			if t.Chance(0.4) {
				j.dur = time.Duration(t.Range(90, 140)) * time.Millisecond
			}
			if t.Chance(0.2) {
				j.dur = time.Duration(t.Range(1, 2000)) * time.Hour
			}
			s := x.d.s
			if t.Chance(0.4) {
				s, j.path = c13View(t, s, k, x.d.u.d)
				x.views = append(x.views, s)
			}
			if r := arm(t, s, j.path, k, j); r != 0 {
				t.Fail("state", "SetTTL(%q) returned %d", k, r)
			}
			x.jobs = append(x.jobs, j)
		}
	}
	time.Sleep(time.Duration(t.Int(40)) * time.Millisecond)
	var last time.Time
	for _, x := range all {
		if t.Chance(0.3) { // closing the store is enough for its views
			for _, v := range x.views {
				closeSut(v)
			}
		}
		closeSut(x.d.s)
		x.done = time.Now()
		for _, j := range x.jobs {
			if e := j.deadline(); e.After(last) && j.dur < time.Second {
				last = e
			}
		}
	}
	t.Op("closed %d stores", len(all))
	time.Sleep(time.Until(last) + 10*time.Millisecond)
	for _, x := range all {
		live := map[string]bool{}
		for _, j := range x.jobs {
			rs := j.log()
			t.Ok(1)
			if len(rs) > 1 {
				t.Fail("cb-count", "a TTL callback ran %d times", len(rs))
			}
			// a goroutine which was woken up, but is not running yet, may
			// still be on its way to the callback: allow for a slow machine
			if len(rs) == 1 && j.deadline().After(x.done.Add(30*time.Millisecond)) {
				t.Fail("cb-after-close", "the TTL (%v) of %q fired although the store was closed %v before its expiry", j.dur, j.path, j.deadline().Sub(x.done))
			}
			if j.deadline().After(x.done.Add(30 * time.Millisecond)) {
				t.Count("pending at Close", 1)
			} else {
				t.Count("expired before or near Close", 1)
			}
		}
		// what had no expired TTL is untouched
		for _, k := range x.d.m.keys() {
			live[k] = true
		}
		for _, j := range x.jobs {
			if !j.deadline().After(x.done.Add(30 * time.Millisecond)) {
				for k := range live {
					if k == j.path || strings.HasSuffix(k, x.d.u.d+j.path) {
						delete(live, k)
					}
				}
			}
		}
		for k := range live {
			e := x.d.m.m[k]
			v, ok := x.d.s.Get(k)
			g, _ := x.d.s.GetTag(k)
			t.Ok(1)
			if !ok || !eq(v, e.val) || !eq(g, e.tag) {
				t.Fail("cleared-after-close", "%q reads %s, %v, tag %s after Close; want %s, tag %s", k, show(v), ok, show(g), show(e.val), show(e.tag))
			}
		}
	}
	t.Ok(1)
	if !eventually(func() bool { return runtime.NumGoroutine() <= before }) {
		buf := make([]byte, 1<<16)
		t.Fail("goroutine-leak", "%d goroutines are left after closing all stores; %d before\n%s", runtime.NumGoroutine(), before, buf[:runtime.Stack(buf, true)])
	}
	t.Count("stores closed", int64(len(all)))
}

// c13Together: many branches and keys expire at the same moment.
func c13Together(t *T) {
	delim := pick(t, plainDelims)
	dl := string(delim)
	s := newSut(t, delim)
	defer closeSut(s)
	m := newModel(delim)
	n := t.Range(4, 24)
	root := pick(t, []string{"", "r" + dl, "app" + dl + "x" + dl})
	name := func(i int) string { return fmt.Sprintf("%sb%d", root, i) }
	for i := 0; i < n; i++ {
		for j := t.Range(2, 4); j > 0; j-- {
			k := name(i) + dl + string(rune('a'+j))
			s.Set(k, i*10+j)
			m.set(k, i*10+j)
		}
	}
	for i := 0; i < n; i++ {
		k := fmt.Sprintf("%sleaf%d", root, i)
		s.Set(k, i)
		m.set(k, i)
	}
	end := time.Now().Add(time.Duration(t.Range(15, 40)) * time.Millisecond)
	type tj struct {
		*ttlJob
		branch bool
	}
	var jobs []tj
	views := []sut{s}
	for i := 0; i < n; i++ {
		if t.Chance(0.8) {
			jobs = append(jobs, tj{&ttlJob{path: name(i), cb: true}, true})
		}
		if t.Chance(0.4) {
			jobs = append(jobs, tj{&ttlJob{path: fmt.Sprintf("%sleaf%d", root, i), cb: true}, false})
		}
	}
	if root != "" && t.Chance(0.5) {
		views = append(views, view(s, strings.TrimSuffix(root, dl)))
	}
	t.Op("%d jobs below %q, delimiter %q, %d views", len(jobs), root, dl, len(views))
	for _, j := range jobs {
		w, p := s, j.path
		if len(views) > 1 && t.Chance(0.5) {
			w, p = views[1], strings.TrimPrefix(p, root)
		}
		j.t0 = time.Now()
		j.dur = end.Sub(j.t0)
		if j.dur < time.Millisecond {
			t.Discard("setting the TTLs took too long")
			time.Sleep(50 * time.Millisecond)
			return
		}
		if st := w.SetTTL(p, j.dur, j.ring); st != 0 {
			t.Fail("state", "SetTTL(%q) returned %d", p, st)
		}
	}
	if time.Now().After(end) {
		t.Discard("setting the TTLs took too long")
		time.Sleep(50 * time.Millisecond)
		return
	}
	time.Sleep(time.Until(end))
	for _, j := range jobs {
		if !eventually(func() bool { return len(j.log()) > 0 }) {
			t.Fail("cb-missing", "the callback of the TTL of %q did not run", j.path)
		}
	}
	time.Sleep(20 * time.Millisecond)
	for _, j := range jobs {
		checkRings(t, j.ttlJob, j.path, dl, j.branch, nil, false)
		if j.branch {
			m.remove(j.path)
		} else if e := m.m[j.path]; e != nil {
			e.val = nil
		}
	}
	checkSnapshot(t, s, m, "together", true, false)
	t.Count("simultaneous expiries", int64(len(jobs)))
}

// c13Long: TTLs of seconds.
func c13Long(t *T) {
	delim := pick(t, plainDelims)
	dl := string(delim)
	s := newSut(t, delim)
	defer closeSut(s)
	m := newModel(delim)
	longest := 3300
	if t.thorough() {
		longest = pick(t, []int{3300, 7000, 12000, 62000})
	}
	var jobs []*ttlJob
	n := t.Range(8, 24)
	if t.Chance(0.4) {
		n = t.Range(60, 400)
	}
	for i := 0; i < n; i++ {
		k := fmt.Sprintf("r%sk%d", dl, i)
		s.Set(k, i)
		m.set(k, i)
		for _, c := range "xy" {
			k = fmt.Sprintf("b%d%s%c", i, dl, c)
			s.Set(k, i)
			m.set(k, i)
		}
	}
	branch := map[*ttlJob]bool{}
	branches := t.Chance(0.3) // they are removed in the background, the tree must not be read meanwhile
	for i := 0; i < n; i++ {
		j := &ttlJob{path: fmt.Sprintf("r%sk%d", dl, i), cb: true, dur: time.Duration(t.Range(700, longest))*time.Millisecond + time.Duration(t.Int(1000000))}
		if branches && t.Chance(0.5) {
			j.path = fmt.Sprintf("b%d", i)
			branch[j] = true
		}
		jobs = append(jobs, j)
		if st := arm(t, s, j.path, j.path, j); st != 0 {
			t.Fail("state", "SetTTL(%q) returned %d", j.path, st)
		}
	}
	var end time.Time
	for _, j := range jobs {
		if d := j.deadline(); d.After(end) {
			end = d
		}
	}
	for !branches && time.Now().Before(end) {
		for _, j := range jobs {
			v := s.MustGet(j.path)
			if now := time.Now(); v == nil && now.Before(j.deadline()) {
				t.Fail("early", "%q was cleared %v after SetTTL(%v)", j.path, now.Sub(j.t0), j.dur)
			}
		}
		t.Ok(len(jobs))
		time.Sleep(20 * time.Millisecond)
	}
	for _, j := range jobs {
		if !eventually(func() bool { return len(j.log()) > 0 }) {
			t.Fail("cb-missing", "the callback of the TTL of %q did not run", j.path)
		}
	}
	time.Sleep(50 * time.Millisecond)
	for _, j := range jobs {
		checkRings(t, j, j.path, dl, branch[j], nil, false)
		if branch[j] {
			m.remove(j.path)
		} else if e := m.m[j.path]; e != nil {
			e.val = nil
		}
	}
	checkSnapshot(t, s, m, "long", true, false)
	t.Count("TTLs of seconds", int64(len(jobs)))
}

// c13Again: several TTLs of one key. Each of them clears the value which the
// key has at that time.
func c13Again(t *T) {
	delim := pick(t, plainDelims)
	dl := string(delim)
	s := newSut(t, delim)
	defer closeSut(s)
	k := pick(t, []string{"k", "app" + dl + "x", "日" + dl + "本"})
	for _, o := range []string{k + "y", k + dl + "sub", "zz"} {
		if t.Chance(0.5) {
			s.Set(o, o)
		}
	}
	s.Set(k, 0)
	n := t.Range(2, 5)
	var jobs []*ttlJob
	at := 0
	for i := 0; i < n; i++ {
		at += t.Range(25, 50)
		jobs = append(jobs, &ttlJob{path: k, cb: t.Chance(0.5), dur: time.Duration(at) * time.Millisecond})
	}
	order := append([]*ttlJob{}, jobs...)
	shuffle(t, order)
	for _, j := range order {
		if st := arm(t, s, k, k, j); st != 0 {
			t.Fail("state", "SetTTL(%q) returned %d", k, st)
		}
	}
	for i, j := range jobs {
		// a new value in good time
		v := i + 1
		s.Set(k, v)
		if time.Now().After(j.deadline().Add(-10 * time.Millisecond)) {
			t.Discard("too late for the next TTL")
			time.Sleep(200 * time.Millisecond)
			return
		}
		for {
			g := s.MustGet(k)
			now := time.Now()
			if now.Before(j.deadline()) {
				if g != v {
					t.Fail("again-early", "%q is %v %v after SetTTL(%v), the TTL #%d of %d; want %v", k, g, now.Sub(j.t0), j.dur, i, n, v)
				}
				time.Sleep(time.Millisecond)
				continue
			}
			if g == nil {
				break
			}
			if now.Sub(j.deadline()) > lateLimit {
				t.Fail("again-missing", "%q is still %v after the TTL #%d of %d (%v, callback %v)", k, g, i, n, j.dur, j.cb)
			}
			time.Sleep(time.Millisecond)
		}
		t.Ok(1)
		t.Count("expiries of one key", 1)
	}
	for _, j := range jobs {
		checkRings(t, j, k, dl, false, nil, false)
	}
}
