//go:build remote

package main

import (
	"context"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"net/http"
	"net/http/httptest"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/hashicorp/consul/api"
	pb "go.etcd.io/etcd/api/v3/etcdserverpb"
	"go.etcd.io/etcd/api/v3/mvccpb"
	clientv3 "go.etcd.io/etcd/client/v3"

	"github.com/hedzr/store"
	jsoncodec "github.com/hedzr/store/codecs/json"
	"github.com/hedzr/store/providers/consul"
	"github.com/hedzr/store/providers/etcd"
	"github.com/hedzr/store/radix"
)

func init() {
	register(&Prop{
		ID:   "C22",
		Rule: "a case fills a stand-in of a Consul server (HTTP on the loopback interface, with blocking queries) or of an etcd server (its KV and Watcher interfaces) with generated keys, loads it through the real provider and client, and then changes the remote keys one by one or in bursts; the loaded data and, after each change has settled, the whole store are compared with the remote data renamed by the options; finally the store is closed and no goroutine of the provider may remain; distinct = different histories",
		Groups: []Group{
			{Name: "consul-read", Quick: 1500, Thorough: 30000, Body: c22ConsulRead},
			{Name: "consul-watch", Quick: 400, Thorough: 8000, Body: c22ConsulWatch},
			{Name: "etcd-read", Quick: 4000, Thorough: 60000, Body: c22EtcdRead},
			{Name: "etcd-watch", Quick: 2000, Thorough: 30000, Body: c22EtcdWatch},
			{Name: "close-now", Quick: 300, Thorough: 5000, Body: c22CloseNow},
			{Name: "close", Quick: 150, Thorough: 2000, Workers: 1, Body: c22CloseBoth},
		},
		Assumptions: []string{
			"the stand-ins behave as the servers do: consistent reads, a blocking query returns when its index has passed, watch events come in revision order",
			"a remote key is only removed while no other key is below it (the store removes a key with its descendants)",
			"a watched position is not empty (the Consul client refuses it)",
		},
	})
}

// remote is what the monitor knows of a server.
type remote interface {
	put(k, v string)
	del(k string)
	data() map[string]string
}

//
// a Consul server
//

type consulPair struct {
	CreateIndex, ModifyIndex, LockIndex, Flags uint64
	Key, Value                                 string
	Session                                    string `json:",omitempty"`
}

type fakeConsul struct {
	mu     sync.Mutex
	wake   chan struct{}
	idx    uint64
	pairs  map[string]*consulPair
	gone   map[string]uint64
	token  string
	fail   bool
	srv    *httptest.Server
	stop   chan struct{}
	denied int
}

func newConsul() *fakeConsul {
	c := &fakeConsul{wake: make(chan struct{}), idx: 10, pairs: map[string]*consulPair{}, gone: map[string]uint64{}, stop: make(chan struct{})}
	c.srv = httptest.NewServer(c)
	return c
}

func (c *fakeConsul) shut() {
	close(c.stop)
	c.srv.CloseClientConnections()
	c.srv.Close()
}

func (c *fakeConsul) changed() {
	close(c.wake)
	c.wake = make(chan struct{})
}

func (c *fakeConsul) put(k, v string) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.idx++
	p := c.pairs[k]
	if p == nil {
		p = &consulPair{Key: k, CreateIndex: c.idx, Flags: c.idx * 3, LockIndex: c.idx%3*11 + 9}
		if c.idx%2 == 0 {
			p.Session = fmt.Sprintf("s-%d", c.idx)
		}
		c.pairs[k] = p
	}
	p.ModifyIndex, p.Value = c.idx, base64.StdEncoding.EncodeToString([]byte(v))
	c.changed()
}

func (c *fakeConsul) del(k string) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.idx++
	delete(c.pairs, k)
	c.gone[k] = c.idx
	c.changed()
}

func (c *fakeConsul) data() map[string]string {
	c.mu.Lock()
	defer c.mu.Unlock()
	m := map[string]string{}
	for k, p := range c.pairs {
		b, _ := base64.StdEncoding.DecodeString(p.Value)
		m[k] = string(b)
	}
	return m
}

// answer gives the pairs and the index of them.
func (c *fakeConsul) answer(key string, recurse bool) (ret []consulPair, idx uint64) {
	hit := func(k string) bool { return k == key || recurse && strings.HasPrefix(k, key) }
	idx = 1
	for k, p := range c.pairs {
		if hit(k) {
			ret = append(ret, *p)
			idx = max(idx, p.ModifyIndex)
		}
	}
	for k, i := range c.gone {
		if hit(k) {
			idx = max(idx, i)
		}
	}
	if idx == 1 {
		idx = c.idx
	}
	sort.Slice(ret, func(i, j int) bool { return ret[i].Key < ret[j].Key })
	return
}

func (c *fakeConsul) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	if !strings.HasPrefix(r.URL.Path, "/v1/kv/") || r.Method != http.MethodGet {
		http.Error(w, "no such thing", http.StatusNotFound)
		return
	}
	key := strings.TrimPrefix(r.URL.Path, "/v1/kv/")
	_, recurse := r.URL.Query()["recurse"]
	after, _ := strconv.ParseUint(r.URL.Query().Get("index"), 10, 64)
	for {
		c.mu.Lock()
		if c.fail || c.token != r.Header.Get("X-Consul-Token") {
			c.denied++
			c.mu.Unlock()
			http.Error(w, "refused", http.StatusForbidden)
			return
		}
		ps, idx := c.answer(key, recurse)
		wake := c.wake
		c.mu.Unlock()
		if after != 0 && idx <= after {
			select {
			case <-wake:
				continue
			case <-r.Context().Done():
				return
			case <-c.stop:
				return
			}
		}
		w.Header().Set("X-Consul-Index", strconv.FormatUint(idx, 10))
		w.Header().Set("Content-Type", "application/json")
		if len(ps) == 0 {
			w.WriteHeader(http.StatusNotFound)
			return
		}
		_ = json.NewEncoder(w).Encode(ps)
		return
	}
}

//
// an etcd server
//

type etcdWatch struct {
	ch     chan clientv3.WatchResponse
	hit    func(k string) bool
	queue  []*clientv3.Event
	errs   int // error responses to send
	closed bool
	wake   chan struct{}
}

type fakeEtcd struct {
	clientv3.KV // not implemented methods
	mu          sync.Mutex
	rev         int64
	kv          map[string]*mvccpb.KeyValue
	hist        []*clientv3.Event
	watches     []*etcdWatch
	fail        error
	batch       int // events per response
	closed      bool
}

func newEtcd() *fakeEtcd { return &fakeEtcd{rev: 3, kv: map[string]*mvccpb.KeyValue{}, batch: 1} }

func rangeHit(op clientv3.Op) func(k string) bool {
	key, end := string(op.KeyBytes()), string(op.RangeBytes())
	return func(k string) bool {
		switch end {
		case "":
			return k == key
		case "\x00":
			return k >= key
		}
		return k >= key && k < end
	}
}

func (e *fakeEtcd) event(ev *clientv3.Event) {
	e.hist = append(e.hist, ev)
	for _, w := range e.watches {
		if !w.closed && w.hit(string(ev.Kv.Key)) {
			w.queue = append(w.queue, ev)
			select {
			case w.wake <- struct{}{}:
			default:
			}
		}
	}
}

func (e *fakeEtcd) put(k, v string) {
	e.mu.Lock()
	defer e.mu.Unlock()
	e.rev++
	n := &mvccpb.KeyValue{Key: []byte(k), Value: []byte(v), CreateRevision: e.rev, ModRevision: e.rev, Version: 1}
	if o := e.kv[k]; o != nil {
		n.CreateRevision, n.Version = o.CreateRevision, o.Version+1
	}
	e.kv[k] = n
	e.event(&clientv3.Event{Type: clientv3.EventTypePut, Kv: n})
}

func (e *fakeEtcd) del(k string) {
	e.mu.Lock()
	defer e.mu.Unlock()
	if e.kv[k] == nil {
		return
	}
	e.rev++
	delete(e.kv, k)
	e.event(&clientv3.Event{Type: clientv3.EventTypeDelete, Kv: &mvccpb.KeyValue{Key: []byte(k), ModRevision: e.rev}})
}

func (e *fakeEtcd) data() map[string]string {
	e.mu.Lock()
	defer e.mu.Unlock()
	m := map[string]string{}
	for k, v := range e.kv {
		m[k] = string(v.Value)
	}
	return m
}

func (e *fakeEtcd) Get(ctx context.Context, key string, opts ...clientv3.OpOption) (*clientv3.GetResponse, error) {
	if err := ctx.Err(); err != nil {
		return nil, err
	}
	e.mu.Lock()
	defer e.mu.Unlock()
	if e.fail != nil {
		return nil, e.fail
	}
	hit := rangeHit(clientv3.OpGet(key, opts...))
	r := &clientv3.GetResponse{Header: &pb.ResponseHeader{Revision: e.rev}}
	for _, k := range sortedKeys(e.kv) {
		if hit(k) {
			r.Kvs = append(r.Kvs, e.kv[k])
			r.Count++
		}
	}
	return r, nil
}

func (e *fakeEtcd) Watch(ctx context.Context, key string, opts ...clientv3.OpOption) clientv3.WatchChan {
	e.mu.Lock()
	defer e.mu.Unlock()
	if e.closed {
		ch := make(chan clientv3.WatchResponse)
		close(ch)
		return ch
	}
	op := clientv3.OpGet(key, opts...)
	w := &etcdWatch{ch: make(chan clientv3.WatchResponse), hit: rangeHit(op), wake: make(chan struct{}, 1)}
	if rev := op.Rev(); rev > 0 {
		for _, ev := range e.hist {
			if ev.Kv.ModRevision >= rev && w.hit(string(ev.Kv.Key)) {
				w.queue = append(w.queue, ev)
			}
		}
	}
	e.watches = append(e.watches, w)
	go func() {
		defer close(w.ch)
		for {
			e.mu.Lock()
			if w.closed {
				e.mu.Unlock()
				return
			}
			if w.errs > 0 {
				w.errs--
				e.mu.Unlock()
				select {
				case w.ch <- clientv3.WatchResponse{CompactRevision: 1}:
				case <-ctx.Done():
					return
				}
				continue
			}
			n := min(len(w.queue), e.batch)
			evs := w.queue[:n]
			w.queue = w.queue[n:]
			e.mu.Unlock()
			if n == 0 {
				select {
				case <-w.wake:
				case <-ctx.Done():
					return
				}
				continue
			}
			select {
			case w.ch <- clientv3.WatchResponse{Header: &pb.ResponseHeader{Revision: evs[n-1].Kv.ModRevision}, Events: evs}:
			case <-ctx.Done():
				return
			}
		}
	}()
	return w.ch
}

// hiccup makes the watchers see an error response.
func (e *fakeEtcd) hiccup() (n int) {
	e.mu.Lock()
	defer e.mu.Unlock()
	for _, w := range e.watches {
		if !w.closed {
			n++
			w.errs++
			select {
			case w.wake <- struct{}{}:
			default:
			}
		}
	}
	return
}
func (e *fakeEtcd) RequestProgress(context.Context) error { return nil }
func (e *fakeEtcd) Close() error {
	e.mu.Lock()
	defer e.mu.Unlock()
	e.closed = true
	for _, w := range e.watches {
		w.closed = true
		select {
		case w.wake <- struct{}{}:
		default:
		}
	}
	return nil
}

//
// the workloads
//

// lockedProvider serialises the watcher's writes with the monitor's reads.
type lockedProvider struct {
	store.Provider
	mu     sync.Mutex
	events int
	errs   int
}

type watchable interface {
	Watch(ctx context.Context, cb func(event any, err error)) error
	Close()
}

func (p *lockedProvider) Watch(ctx context.Context, cb func(event any, err error)) error {
	return p.Provider.(watchable).Watch(ctx, func(event any, err error) {
		p.mu.Lock()
		defer p.mu.Unlock()
		if err != nil {
			p.errs++
		} else {
			p.events++
		}
		cb(event, err)
	})
}
func (p *lockedProvider) Close() { p.Provider.(watchable).Close() }

type remoteCase struct {
	t                               *T
	r                               remote
	pos, strip, prepend, dl, prefix string
	recursive                       bool
	keys                            []string
	n                               int
	s                               store.Store
	delim                           rune
	mine                            map[string]any  // changes of the user after loading
	touched                         map[string]bool // remote keys changed since Read
	nerr                            int
	client                          *clientv3.Client
}

func newRemoteCase(t *T) *remoteCase {
	c := &remoteCase{t: t, delim: pick(t, []rune{'.', '.', '/', '|'})}
	c.recursive = t.Chance(0.8)
	segs := []string{"a", "ab", "b", "conf", "config", "x1", "日本", "k-1", "k_2", "0", "app", "srv"}
	c.pos = pick(t, []string{"app", "app/conf", "srv"})
	switch t.Int(4) {
	case 0:
		c.strip = c.pos
	case 1:
		c.strip = pick(t, []string{"app", "ap", "nothing", "conf", "a", "app/conf", "srv"})
	}
	if t.Chance(0.7) {
		c.dl = string(c.delim)
		if t.Chance(0.4) {
			c.prepend = pick(t, []string{"remote", "x", "remote/x"})
		}
	}
	if t.Chance(0.5) {
		c.prefix = pick(t, []string{"cfg", "cfg" + string(c.delim) + "in"})
	}
	seen := map[string]bool{}
	if t.Chance(0.5) || !c.recursive {
		seen[c.rename(c.pos)] = true
		c.keys = append(c.keys, c.pos)
	}
	for i := t.Range(1, 12); i > 0; i-- {
		k := pick(t, []string{c.pos, c.pos, c.pos, "app", "other", c.pos + "x"})
		for j := t.Range(0, 3); j > 0; j-- {
			k += "/" + pick(t, segs)
		}
		if n := c.rename(k); !seen[n] && n != "" {
			seen[n] = true
			c.keys = append(c.keys, k)
		}
	}
	t.Op("position %q recursive %v strip %q prepend %q delimiter %q, loaded at %q with delimiter %q", c.pos, c.recursive, c.strip, c.prepend, c.dl, c.prefix, string(c.delim))
	return c
}

// rename is the documented renaming of a remote key.
func (c *remoteCase) rename(k string) string {
	if c.strip != "" && strings.HasPrefix(k, c.strip+"/") {
		k = k[len(c.strip)+1:]
	}
	if c.prepend != "" {
		k = c.prepend + c.dl + k
	}
	if c.dl != "" {
		k = strings.Join(strings.Split(k, "/"), c.dl)
	}
	return k
}

func (c *remoteCase) value() string {
	c.n++
	switch c.t.Int(5) {
	case 0:
		return ""
	case 1:
		return fmt.Sprintf("日本 %d\n%%\x00\xff", c.n)
	case 2:
		return strconv.Itoa(c.n)
	}
	return fmt.Sprintf("value %d", c.n)
}

func (c *remoteCase) selected(k string) bool {
	return k == c.pos || c.recursive && strings.HasPrefix(k, c.pos)
}

func (c *remoteCase) fill() {
	for _, k := range c.keys {
		if c.t.Chance(0.8) {
			c.put(k)
		}
	}
	if c.t.Chance(0.3) && len(c.keys) > 1 {
		for _, k := range c.keys[:2] {
			c.put(k)
		}
	}
}

func (c *remoteCase) put(k string) {
	v := c.value()
	c.touch(k)
	c.t.Op("remote put %q = %q", k, v)
	c.r.put(k, v)
}

func (c *remoteCase) touch(k string) {
	if c.touched != nil {
		c.touched[k] = true
		delete(c.mine, c.full(k))
	}
}

func (c *remoteCase) full(k string) string {
	n := c.rename(k)
	if c.prefix != "" {
		n = c.prefix + string(c.delim) + n
	}
	return n
}

func (c *remoteCase) want(full bool) map[string]any {
	m := map[string]any{}
	for k, v := range c.r.data() {
		if c.selected(k) {
			n := c.rename(k)
			if full && c.prefix != "" {
				n = c.prefix + string(c.delim) + n
			}
			m[n] = v
		}
	}
	if full {
		for k, v := range c.mine {
			m[k] = v
		}
	}
	return m
}

func (c *remoteCase) newConsul(t *T, f *fakeConsul, opts ...consul.Opt) store.Provider {
	cfg := api.DefaultConfig()
	cfg.Address = f.srv.Listener.Addr().String()
	cfg.Token = f.token
	if !c.recursive || t.Chance(0.5) { // it's the default
		opts = append(opts, consul.WithRecursive(c.recursive))
	}
	opts = append([]consul.Opt{consul.WithConsulConfig(cfg), consul.WithPosition(c.pos),
		consul.WithStripPrefix(c.strip), consul.WithPrependPrefix(c.prepend), consul.WithDelimiter(c.dl)}, opts...)
	return consul.New(opts...)
}

func (c *remoteCase) newEtcd(t *T, f *fakeEtcd, watch bool) store.Provider {
	opts := []etcd.Opt{etcd.WithStripPrefix(c.strip), etcd.WithPrependPrefix(c.prepend), etcd.WithDelimiter(c.dl), etcd.WithWatchEnabled(watch)}
	if t.Chance(0.5) {
		opts = append(opts, etcd.WithEndpoints("127.0.0.1:1"))
	} else {
		opts = append(opts, etcd.WithEtcdConfig(clientv3.Config{Endpoints: []string{"127.0.0.1:1"}}))
	}
	switch {
	case !c.recursive:
		opts = append(opts, etcd.WithKey(c.pos))
	case t.Chance(0.5):
		opts = append(opts, etcd.WithStorePrefix(c.pos))
	default:
		opts = append(opts, etcd.WithPosition(c.pos), etcd.WithRecursive(true))
	}
	p := etcd.New(opts...)
	if p.Client == nil {
		t.Fail("no-client", "the etcd provider has no client for a valid config")
		return nil
	}
	if eps := p.Client.Endpoints(); len(eps) != 1 || eps[0] != "127.0.0.1:1" {
		t.Fail("endpoints", "the endpoints are %q", eps)
	}
	p.Client.KV, p.Client.Watcher = f, f
	c.client = p.Client
	return p
}

// accessors of a provider
func (c *remoteCase) accessors(p store.Provider) {
	t := c.t
	t.Ok(5)
	if g := p.GetPosition(); g != c.pos {
		t.Fail("position", "GetPosition is %q instead of %q", g, c.pos)
	}
	rw := p.(interface {
		ReadBytes() ([]byte, error)
		Write(data []byte) error
	})
	if _, err := rw.ReadBytes(); err == nil {
		t.Fail("not-implemented", "ReadBytes gives no error and no data")
	}
	if err := rw.Write([]byte("x")); err == nil {
		t.Fail("not-implemented", "Write stores nothing and gives no error")
	}
	cd := jsoncodec.New()
	p.WithCodec(cd)
	if p.GetCodec() != cd {
		t.Fail("codec", "GetCodec is not the one given")
	}
	p.WithPosition("elsewhere")
	if g := p.GetPosition(); g != "elsewhere" {
		t.Fail("position", "GetPosition is %q after WithPosition", g)
	}
	p.WithPosition(c.pos)
}

func (c *remoteCase) checkRead(p store.Provider) map[string]store.ValPkg {
	t := c.t
	m, err := p.Read()
	if err != nil {
		t.Fail("read-error", "Read: %v", err)
		return nil
	}
	got := map[string]any{}
	for k, v := range m {
		got[k] = v.Value
	}
	t.Ok(1 + len(got))
	if df := diffMaps(got, c.want(false)); df != "" {
		t.Fail("read-data", "Read: %s", df)
	}
	return m
}

func (c *remoteCase) snapshot() map[string]any {
	m := map[string]any{}
	c.s.(sut).Walk("", func(path, fragment string, n radix.Node[any]) {
		if !n.IsBranch() {
			m[path] = n.Data()
		}
	})
	return m
}

func (c *remoteCase) load(p store.Provider, opts ...store.Opt) bool {
	if c.delim != '.' {
		opts = append(opts, store.WithDelimiter(c.delim))
	}
	c.s = store.New(opts...)
	lo := []store.LoadOpt{store.WithProvider(p)}
	if c.prefix != "" {
		lo = append(lo, store.WithStorePrefix(c.prefix))
	}
	_, err := c.s.Load(context.Background(), lo...)
	if err != nil {
		c.t.Fail("load-error", "Load: %v", err)
		return false
	}
	return true
}

func (c *remoteCase) checkLoaded() {
	got := c.snapshot()
	c.t.Ok(1 + len(got))
	if df := diffMaps(got, c.want(true)); df != "" {
		c.t.Fail("load-data", "after Load: %s", df)
	}
}

func c22ConsulRead(t *T) {
	c, f := newRemoteCase(t), newConsul()
	defer f.shut()
	c.r = f
	if t.Chance(0.3) {
		f.token = "secret"
	}
	c.fill()
	meta, cd := t.Chance(0.5), jsoncodec.New()
	opts := []consul.Opt{consul.WithCodec(cd)}
	if !meta || t.Chance(0.5) { // it's the default
		opts = append(opts, consul.WithProcessMeta(meta))
	}
	p := c.newConsul(t, f, opts...)
	if p.GetCodec() != cd {
		t.Fail("codec", "GetCodec is not the one given")
	}
	if t.Chance(0.5) {
		c.accessors(p)
	}
	m := c.checkRead(p)
	for _, x := range f.pairs {
		if !c.selected(x.Key) {
			continue
		}
		tag := m[c.rename(x.Key)].Tag
		if !meta {
			if tag != nil {
				t.Fail("meta", "%q has the tag %v", x.Key, tag)
			}
			continue
		}
		b, _ := base64.StdEncoding.DecodeString(x.Value)
		u := func(n uint64) string { return strconv.FormatUint(n, 10) }
		want := map[string]any{"CreateIndex": u(x.CreateIndex), "ModifyIndex": u(x.ModifyIndex), "LockIndex": u(x.LockIndex), "Flags": u(x.Flags), "Session": x.Session, "Value": string(b)}
		if x.Session == "" {
			want["Session"] = "-"
		}
		t.Ok(1)
		if !eq(tag, want) {
			t.Fail("meta", "%q has the tag %v; want %v", x.Key, tag, want)
		}
	}
	if c.load(p) {
		c.checkLoaded()
		c.s.Close()
	}
	// refused
	f.mu.Lock()
	f.fail = true
	f.mu.Unlock()
	if m, err := p.Read(); err == nil {
		t.Fail("no-error", "Read of a refusing server gives %v and no error", m)
	}
	if p := consul.New(); p != nil {
		if _, err := p.Read(); err == nil {
			t.Fail("no-error", "Read without a config gives no error")
		}
		p.Close()
	}
	for i := t.Range(0, 2); i > 0; i-- { // not watching, or closed already
		p.(watchable).Close()
	}
	t.Ok(2)
	t.Count("consul reads", 1)
}

func c22EtcdRead(t *T) {
	c, f := newRemoteCase(t), newEtcd()
	c.r = f
	c.fill()
	p := c.newEtcd(t, f, false)
	if p == nil {
		return
	}
	defer p.(watchable).Close()
	if t.Chance(0.5) {
		c.accessors(p)
	}
	c.checkRead(p)
	if c.load(p) {
		c.checkLoaded()
	}
	f.fail = fmt.Errorf("refused")
	if m, err := p.Read(); err == nil {
		t.Fail("no-error", "Read of a refusing server gives %v and no error", m)
	}
	if p := etcd.New(); p != nil {
		if _, err := p.Read(); err == nil {
			t.Fail("no-error", "Read without endpoints gives no error")
		}
		p.Close()
	}
	t.Ok(2)
	t.Count("etcd reads", 1)
}

// watchRemote loads with watching and changes the remote keys.
func (c *remoteCase) watchRemote(p store.Provider) (lp *lockedProvider) {
	t := c.t
	lp = &lockedProvider{Provider: p}
	c.mine, c.touched = map[string]any{}, map[string]bool{}
	// changes between Read and the start of watching must not be lost
	if !c.load(&lateWatch{lp, func() {
		if t.Chance(0.5) {
			c.change()
		}
	}}, store.WithWatchEnable(true)) {
		return
	}
	for i := t.Range(2, 8); i > 0; i-- {
		if t.Chance(0.3) {
			c.override(lp)
		}
		if f, ok := c.r.(*fakeEtcd); ok && t.Chance(0.15) {
			t.Op("the server reports an error")
			// the watcher may not have been started yet
			eventually(func() bool {
				c.nerr += f.hiccup()
				return c.nerr > 0
			})
		}
		for j := pick(t, []int{1, 1, 1, 2, 3, 6}); j > 0; j-- {
			c.change()
		}
		if t.Chance(0.2) {
			continue
		}
		c.settle(lp)
	}
	c.settle(lp)
	if c.nerr > 0 {
		t.Ok(1)
		if !eventually(func() bool {
			lp.mu.Lock()
			defer lp.mu.Unlock()
			return lp.errs == c.nerr
		}) {
			t.Fail("watch-error", "%d errors of the server, %d were reported", c.nerr, lp.errs)
		}
	}
	t.Count("watch events", int64(lp.events))
	return
}

// override is a change by the user of a key which the server does not
// change: nothing may undo it.
func (c *remoteCase) override(lp *lockedProvider) {
	d := c.r.data()
	k := pick(c.t, c.keys)
	if _, ok := d[k]; !ok || !c.selected(k) || c.touched[k] {
		return
	}
	lp.mu.Lock()
	defer lp.mu.Unlock()
	n := c.full(k)
	c.n++
	v := fmt.Sprintf("mine %d", c.n)
	c.t.Op("Set(%q, %q)", n, v)
	c.s.Set(n, v)
	c.mine[n] = v
	c.t.Count("user changes while watching", 1)
}

type lateWatch struct {
	*lockedProvider
	before func()
}

func (p *lateWatch) Watch(ctx context.Context, cb func(event any, err error)) error {
	p.before()
	return p.lockedProvider.Watch(ctx, cb)
}

func (c *remoteCase) change() {
	t := c.t
	k := pick(t, c.keys)
	if t.Chance(0.35) {
		n := c.rename(k)
		d := c.r.data()
		if _, ok := d[k]; !ok {
			return
		}
		for o := range d {
			if strings.HasPrefix(c.rename(o), n+string(c.delim)) {
				return
			}
		}
		c.touch(k)
		t.Op("remote delete %q", k)
		c.r.del(k)
		return
	}
	c.put(k)
}

func (c *remoteCase) settle(lp *lockedProvider) {
	t := c.t
	t.Op("settle")
	var df string
	if !eventually(func() bool {
		lp.mu.Lock()
		defer lp.mu.Unlock()
		df = diffMaps(c.snapshot(), c.want(true))
		return df == ""
	}) {
		t.Fail("watch-data", "long after a change (%d events, %d errors): %s", lp.events, lp.errs, df)
	}
	t.Ok(1)
}

func c22ConsulWatch(t *T) {
	c, f := newRemoteCase(t), newConsul()
	defer f.shut()
	c.r = f
	if t.Chance(0.3) {
		f.token = "secret"
	}
	c.fill()
	c.watchRemote(c.newConsul(t, f, consul.WithWatchEnabled(true)))
	c.close()
}

func (c *remoteCase) close() {
	if c.s != nil {
		c.s.Close()
	}
}

func c22EtcdWatch(t *T) {
	c, f := newRemoteCase(t), newEtcd()
	f.batch = t.Range(1, 4)
	c.r = f
	c.fill()
	p := c.newEtcd(t, f, true)
	if p == nil {
		return
	}
	c.watchRemote(p)
	c.close()
}

// c22CloseNow closes a watched store at the moment its watcher starts.
func c22CloseNow(t *T) {
	f := newConsul()
	defer f.shut()
	c := newRemoteCase(t)
	c.r = f
	c.fill()
	for i := 0; i < 15; i++ {
		if !c.load(c.newConsul(t, f, consul.WithWatchEnabled(true)), store.WithWatchEnable(true)) {
			return
		}
		for j := t.Int(40) * t.Int(2); j > 0; j-- {
			runtime.Gosched()
		}
		c.s.Close()
		t.Ok(1)
	}
	t.Count("closed at once", 15)
}

// c22CloseBoth: nothing of the providers remains after Close.
func c22CloseBoth(t *T) {
	busy := func() string {
		buf := make([]byte, 1<<20)
		for _, g := range strings.Split(string(buf[:runtime.Stack(buf, true)]), "\n\n") {
			if strings.Contains(g, "/providers/etcd") || strings.Contains(g, "/providers/consul") {
				return g
			}
		}
		return ""
	}
	// all stores of the other groups are closed too
	if !eventually(func() bool { return busy() == "" }) {
		t.Fail("watcher-left", "a goroutine of a provider remains though all stores are closed:\n%s", busy())
		return
	}
	if t.Chance(0.1) {
		// nobody listens: an error in time
		p := etcd.New(etcd.WithEndpoints("127.0.0.1:1"), etcd.WithDialTimeout(50*time.Millisecond), etcd.WithStorePrefix("x"))
		done := make(chan error, 1)
		start := time.Now()
		go func() { _, err := p.Read(); done <- err }()
		t.Ok(2)
		select {
		case err := <-done:
			if err == nil {
				t.Fail("no-error", "Read of an unreachable server gives no error")
			}
			if d := time.Since(start); d > 4*time.Second {
				t.Fail("dial-timeout", "Read of an unreachable server took %v with a dial timeout of 50 ms", d)
			}
		case <-time.After(lateLimit):
			t.Fail("hangs", "Read of an unreachable server hangs")
		}
		p.Close()
	}
	var ends []func()
	for i := t.Range(1, 3); i > 0; i-- {
		c := newRemoteCase(t)
		if t.Chance(0.4) {
			// closed at once
			f := newConsul()
			ends = append(ends, f.shut)
			c.r = f
			c.fill()
			if c.load(c.newConsul(t, f, consul.WithWatchEnabled(true)), store.WithWatchEnable(true)) {
				time.Sleep(time.Duration(t.Int(300)) * time.Microsecond * time.Duration(t.Int(2)))
				c.s.Close()
				t.Op("Close")
			}
			continue
		}
		if t.Chance(0.5) {
			f := newConsul()
			ends = append(ends, f.shut)
			c.r = f
			c.fill()
			c.watchRemote(c.newConsul(t, f, consul.WithWatchEnabled(true)))
		} else {
			f := newEtcd()
			c.r = f
			c.fill()
			if p := c.newEtcd(t, f, true); p != nil {
				c.watchRemote(p)
			}
		}
		if c.s != nil {
			c.s.Close()
			t.Op("Close")
			if c.client != nil && c.client.Ctx().Err() == nil {
				t.Fail("client-left", "the etcd client is still open after Close")
			}
		}
	}
	t.Ok(1)
	if !eventually(func() bool { return busy() == "" }) {
		t.Fail("watcher-left", "a goroutine of a provider remains after Close:\n%s", busy())
	}
	for _, f := range ends {
		f()
	}
	t.Count("closed", 1)
}
