package main

// The runner: every property is a list of groups; a group is a workload
// generator plus an oracle. A case is identified by (seed, property, group,
// index) and is fully determined by it, so that any case can be replayed.

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand/v2"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Group is a workload of a property.
type Group struct {
	Name            string
	Quick, Thorough int           // number of cases
	Workers         int           // 0: all cores
	Limit           time.Duration // hang limit per case, 0: default
	Body            func(t *T)
}

// Prop is a checked property.
type Prop struct {
	ID          string
	Race        bool // needs a binary built with the race detector
	Level       string
	Rule        string
	Assumptions []string
	Groups      []Group
}

var props = map[string]*Prop{}

func register(p *Prop) {
	if p.Level == "" {
		p.Level = "exploration"
	}
	props[p.ID] = p
}

const maxTrace = 400

// T is the context of one case.
type T struct {
	R     *rand.Rand
	Tier  string
	Group string
	Idx   int

	trace     []string
	dropped   int
	hash      uint64
	observed  int // oracle evaluations
	trivial   bool
	counts    map[string]int64
	discarded bool
	race      bool
	scratch   string
}

type failure struct{ sig, msg string }

// Fail reports a violation and stops the case. sig is a stable signature of
// the kind of failure, msg explains it.
func (t *T) Fail(sig, format string, args ...any) {
	panic(&failure{sig, fmt.Sprintf(format, args...)})
}

// Op records one step of the workload.
func (t *T) Op(format string, args ...any) {
	s := fmt.Sprintf(format, args...)
	h := fnv.New64a()
	var b [8]byte
	binary.LittleEndian.PutUint64(b[:], t.hash)
	_, _ = h.Write(b[:])
	_, _ = h.Write([]byte(s))
	t.hash = h.Sum64()
	if len(s) > 300 {
		s = s[:300] + "..."
	}
	if len(t.trace) < maxTrace {
		t.trace = append(t.trace, s)
	} else {
		copy(t.trace[maxTrace/2:], t.trace[maxTrace/2+1:])
		t.trace[maxTrace-1] = s
		t.dropped++
	}
}

// Ok counts n evaluations of the oracle.
func (t *T) Ok(n int) { t.observed += n }

// Count adds to a named statistic of the run.
func (t *T) Count(name string, n int64) {
	if t.counts == nil {
		t.counts = map[string]int64{}
	}
	t.counts[name] += n
}

// Discard marks the case inconclusive (e.g. the machine was too slow for a
// timing precondition). It's not counted as an evaluation.
func (t *T) Discard(why string) { t.discarded = true; t.Count("discarded: "+why, 1) }

func (t *T) Int(n int) int         { return t.R.IntN(n) }
func (t *T) Range(lo, hi int) int  { return lo + t.R.IntN(hi-lo+1) }
func (t *T) Chance(p float64) bool { return t.R.Float64() < p }
func pick[E any](t *T, s []E) E    { return s[t.R.IntN(len(s))] }
func (t *T) thorough() bool        { return t.Tier == "thorough" }
func shuffle[E any](t *T, s []E)   { t.R.Shuffle(len(s), func(i, j int) { s[i], s[j] = s[j], s[i] }) }
func sortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func caseRand(seed int64, prop, group string, idx int) *rand.Rand {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d|%s|%s", seed, prop, group)
	return rand.New(rand.NewPCG(h.Sum64(), uint64(idx)*0x9e3779b97f4a7c15+1))
}

// Violation is what the child reports to the parent.
type Violation struct {
	Property string   `json:"property"`
	Group    string   `json:"group"`
	Idx      int      `json:"idx"`
	Seed     int64    `json:"seed"`
	Tier     string   `json:"tier"`
	Sig      string   `json:"sig"`
	Msg      string   `json:"msg"`
	Trace    []string `json:"trace"`
	Dropped  int      `json:"trace_dropped,omitempty"`
	Stack    string   `json:"stack,omitempty"`
}

// Sample is an executed case written into the evidence.
type Sample struct {
	Group    string   `json:"group"`
	Idx      int      `json:"idx"`
	Observed int      `json:"oracle_evaluations"`
	Trace    []string `json:"trace"`
}

// Report is the result of one child.
type Report struct {
	Evaluations int64                       `json:"evaluations"`
	Observed    int64                       `json:"observed"`
	Distinct    int64                       `json:"distinct"`
	Discarded   int64                       `json:"discarded"`
	Groups      map[string]map[string]int64 `json:"groups"`
	Counts      map[string]int64            `json:"counts"`
	Samples     []Sample                    `json:"samples"`
	Violations  []Violation                 `json:"violations"`
	Hang        []slotState                 `json:"hang,omitempty"`
	HangStack   string                      `json:"hang_stack,omitempty"`
	Done        bool                        `json:"done"`
}

type slotState struct {
	Group string `json:"group"`
	Idx   int    `json:"idx"`
}

// runner executes the groups of one property inside the child process.
type runner struct {
	prop     *Prop
	seed     int64
	tier     string
	out      string
	progress *os.File
	scratch  string

	mu   sync.Mutex
	rep  Report
	seen map[uint64]struct{}
	sigs map[string]int
	stop atomic.Bool

	firstFail time.Time
	slots     []slot
	slotMax   int
}

type slot struct {
	mu    sync.Mutex
	group string
	idx   int
	since time.Time
	limit time.Duration
}

const defaultHang = 60 * time.Second
const slotSize = 64

func (r *runner) enter(w int, g *Group, idx int) {
	s := &r.slots[w]
	s.mu.Lock()
	s.group, s.idx, s.since, s.limit = g.Name, idx, time.Now(), g.Limit
	if s.limit == 0 {
		s.limit = defaultHang
	}
	s.mu.Unlock()
	if r.progress != nil {
		b := make([]byte, slotSize)
		copy(b, fmt.Sprintf("%s %d", g.Name, idx))
		_, _ = r.progress.WriteAt(b, int64(w*slotSize))
	}
}

func (r *runner) leave(w int) {
	s := &r.slots[w]
	s.mu.Lock()
	s.group = ""
	s.mu.Unlock()
	if r.progress != nil {
		_, _ = r.progress.WriteAt(make([]byte, slotSize), int64(w*slotSize))
	}
}

func (r *runner) runCase(w int, g *Group, idx int) {
	r.enter(w, g, idx)
	defer r.leave(w)
	t := &T{R: caseRand(r.seed, r.prop.ID, g.Name, idx), Tier: r.tier, Group: g.Name, Idx: idx, race: r.prop.Race, scratch: r.scratch}
	var v *Violation
	func() {
		defer func() {
			e := recover()
			if e == nil {
				return
			}
			v = &Violation{Property: r.prop.ID, Group: g.Name, Idx: idx, Seed: r.seed, Tier: r.tier, Trace: t.trace, Dropped: t.dropped}
			if f, ok := e.(*failure); ok {
				v.Sig, v.Msg = f.sig, f.msg
				return
			}
			v.Sig, v.Msg, v.Stack = "panic:"+panicSite(debug.Stack()), fmt.Sprintf("panic: %v", e), string(debug.Stack())
		}()
		g.Body(t)
	}()
	r.mu.Lock()
	defer r.mu.Unlock()
	gs := r.rep.Groups[g.Name]
	if gs == nil {
		gs = map[string]int64{}
		r.rep.Groups[g.Name] = gs
	}
	for k, n := range t.counts {
		r.rep.Counts[k] += n
	}
	if v != nil {
		v.Sig = g.Name + "/" + v.Sig
		r.sigs[v.Sig]++
		if r.sigs[v.Sig] == 1 {
			r.rep.Violations = append(r.rep.Violations, *v)
			r.write() // it counts whatever happens from now on
		}
		if r.firstFail.IsZero() {
			r.firstFail = time.Now()
		}
		if time.Since(r.firstFail) > 20*time.Second {
			r.stop.Store(true)
		}
		if len(r.sigs) >= 4 || r.sigs[v.Sig] > 40 {
			r.stop.Store(true)
		}
		return
	}
	if t.discarded {
		r.rep.Discarded++
		gs["discarded"]++
		return
	}
	r.rep.Evaluations++
	r.rep.Observed += int64(t.observed)
	gs["cases"]++
	gs["oracle_evaluations"] += int64(t.observed)
	if t.observed > 0 && !t.trivial {
		h := fnv.New64a()
		fmt.Fprintf(h, "%s|%d", g.Name, t.hash)
		k := h.Sum64()
		if _, dup := r.seen[k]; !dup {
			r.seen[k] = struct{}{}
			r.rep.Distinct++
			gs["distinct"]++
		}
		if gs["samples"] < 1 && len(t.trace) > 2 {
			gs["samples"]++
			tr := t.trace
			if len(tr) > 40 {
				tr = append(append([]string{}, tr[:30]...), fmt.Sprintf("... %d more steps", len(t.trace)+t.dropped-30))
			}
			r.rep.Samples = append(r.rep.Samples, Sample{g.Name, idx, t.observed, tr})
		}
	}
}

func panicSite(stack []byte) string {
	for _, l := range strings.Split(string(stack), "\n") {
		if strings.HasPrefix(l, "github.com/hedzr/store") && !strings.Contains(l, "zverif") {
			if i := strings.LastIndex(l, "("); i > 0 {
				l = l[:i]
			}
			return l
		}
	}
	return "?"
}

func (r *runner) watchdog(stop chan struct{}) {
	tk := time.NewTicker(time.Second)
	defer tk.Stop()
	last := time.Now()
	for {
		select {
		case <-stop:
			return
		case now := <-tk.C:
			if now.Sub(last) > 5*time.Second { // we were suspended: give everybody a new start
				for i := range r.slots {
					s := &r.slots[i]
					s.mu.Lock()
					s.since = now
					s.mu.Unlock()
				}
			}
			last = now
			var ms runtime.MemStats
			runtime.ReadMemStats(&ms)
			runaway := ms.HeapAlloc > 10<<30
			var hung []slotState
			for i := range r.slots {
				s := &r.slots[i]
				s.mu.Lock()
				if s.group != "" && (now.Sub(s.since) > s.limit || runaway) {
					hung = append(hung, slotState{s.group, s.idx})
				}
				s.mu.Unlock()
			}
			if len(hung) > 0 {
				buf := make([]byte, 1<<20)
				buf = buf[:runtime.Stack(buf, true)]
				r.mu.Lock()
				r.rep.Hang, r.rep.HangStack = hung, string(buf)
				r.write()
				os.Exit(3)
			}
		}
	}
}

func (r *runner) write() {
	b, _ := json.Marshal(&r.rep)
	tmp := r.out + ".tmp"
	if os.WriteFile(tmp, b, 0o644) == nil {
		_ = os.Rename(tmp, r.out)
	}
}

// child runs the property (or a single case of it).
func child(p *Prop, seed int64, tier, out, progress, scratch, only string, onlyIdx int) {
	n := runtime.NumCPU()
	if n > 8 {
		n = 8
	}
	r := &runner{prop: p, seed: seed, tier: tier, out: out, scratch: scratch, seen: map[uint64]struct{}{}, sigs: map[string]int{},
		slots: make([]slot, max(n, 64)), rep: Report{Groups: map[string]map[string]int64{}, Counts: map[string]int64{}}}
	if progress != "" {
		r.progress, _ = os.OpenFile(progress, os.O_CREATE|os.O_RDWR, 0o644)
	}
	if cf, err := os.Create(out + ".crash"); err == nil {
		_ = debug.SetCrashOutput(cf, debug.CrashOptions{})
	}
	debug.SetMaxStack(256 << 20)
	stop := make(chan struct{})
	go r.watchdog(stop)
	for gi := range p.Groups {
		g := &p.Groups[gi]
		if only != "" {
			if g.Name == only {
				r.runCase(0, g, onlyIdx)
			}
			continue
		}
		cases := g.Quick
		if tier == "thorough" {
			cases = g.Thorough
			if cases == 0 {
				cases = g.Quick * 10
			}
		}
		if f, err := strconv.ParseFloat(os.Getenv("VH_SCALE"), 64); err == nil && f > 0 {
			cases = max(1, int(float64(cases)*f)) // shorter or longer runs by hand
		}
		workers := g.Workers
		if workers == 0 {
			workers = n
		}
		workers = min(workers, len(r.slots))
		// a slow machine gets fewer cases instead of a time limit exceeded
		deadline := time.Now().Add(500 * time.Second / time.Duration(len(p.Groups)))
		if tier == "thorough" {
			deadline = time.Now().Add(4 * time.Hour / time.Duration(len(p.Groups)))
		}
		var next atomic.Int64
		var wg sync.WaitGroup
		for w := 0; w < workers; w++ {
			wg.Add(1)
			go func(w int) {
				defer wg.Done()
				for !r.stop.Load() {
					i := int(next.Add(1)) - 1
					if i >= cases || i > 0 && time.Now().After(deadline) {
						return
					}
					r.runCase(w, g, i)
				}
			}(w)
		}
		wg.Wait()
	}
	close(stop)
	r.mu.Lock()
	r.rep.Done = true
	r.write()
	r.mu.Unlock()
	os.Exit(0)
}
