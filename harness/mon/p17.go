package main

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"hash/fnv"
	mrand "math/rand"
	"net"
	"net/http"
	"net/http/httptest"
	"net/url"
	"runtime"
	"strings"
	"sync"
	"time"

	indexer "github.com/filecoin-project/go-indexer-core"
	fclient "github.com/filecoin-project/storetheindex/api/v0/finder/client/http"
	p2pfclient "github.com/filecoin-project/storetheindex/api/v0/finder/client/libp2p"
	p2piclient "github.com/filecoin-project/storetheindex/api/v0/ingest/client/libp2p"
	"github.com/filecoin-project/storetheindex/config"
	"github.com/filecoin-project/storetheindex/internal/ingest"
	"github.com/filecoin-project/storetheindex/internal/registry"
	"github.com/filecoin-project/storetheindex/internal/registry/discovery"
	findhandler "github.com/filecoin-project/storetheindex/server/finder/handler"
	ingesthandler "github.com/filecoin-project/storetheindex/server/ingest/handler"
	"github.com/filecoin-project/storetheindex/server/reframe"
	"github.com/ipfs/go-cid"
	"github.com/ipfs/go-datastore"
	"github.com/ipfs/go-datastore/query"
	drclient "github.com/ipfs/go-delegated-routing/client"
	drproto "github.com/ipfs/go-delegated-routing/gen/proto"
	"github.com/libp2p/go-libp2p-core/host"
	"github.com/libp2p/go-libp2p-core/peer"
	"github.com/multiformats/go-multiaddr"
	"github.com/multiformats/go-multihash"
)

func init() {
	register("P17", "the race detector watches the indexer's parts under concurrent use: random mixes of explicit, cancelled and re-syncs, announcements, publishing, lookups through the find handler and delegated routing, registration by request and update, removal, discovery, provider import, poll passes, policy, batch size and rate limit changes, worker pool changes, client calls through shared libp2p and HTTP clients, and closing; "+
		"publishers are reached over in-memory connections, and half of the rounds use an index and datastore without common locks, so that the environment does not order accesses that the code leaves unordered; any report whose innermost non-library frame is repository code is a violation; "+
		"distinct counts (scene, roles that ran together) signatures",
		runP17, "only races that occur in the run are seen; accesses inside dependencies are not judged")
}

func runP17(c *Ctx) {
	quiet = true
	p17listen()
	c.RunN("core", c.N(50, 600), 3, func(c *Ctx, i int) { c.p17core(i) })
	c.RunN("registry", c.N(24, 400), 3, func(c *Ctx, i int) { c.p17registry(i) })
	c.RunN("clients", c.N(12, 150), 2, func(c *Ctx, i int) { c.p17clients(i) })
}

// p17listen makes HTTP publishers and clients talk over in-memory connections:
// system calls would order all goroutines that use the network.
func p17listen() {
	var mu sync.Mutex
	ls := map[string]*memListener{}
	port := 10000
	pubListen = func() net.Listener {
		mu.Lock()
		defer mu.Unlock()
		port++
		l := &memListener{ch: make(chan net.Conn), done: make(chan struct{}), addr: &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: port}}
		ls[l.addr.String()] = l
		return l
	}
	t := http.DefaultTransport.(*http.Transport)
	t.MaxIdleConnsPerHost = 4
	t.DialContext = func(ctx context.Context, network, addr string) (net.Conn, error) {
		mu.Lock()
		l := ls[addr]
		mu.Unlock()
		if l == nil {
			var d net.Dialer
			return d.DialContext(ctx, network, addr)
		}
		a, b := net.Pipe()
		select {
		case l.ch <- b:
			return a, nil
		case <-l.done:
			return nil, errors.New("connection refused")
		case <-ctx.Done():
			return nil, ctx.Err()
		}
	}
}

type memListener struct {
	ch   chan net.Conn
	done chan struct{}
	once sync.Once
	addr *net.TCPAddr
}

func (l *memListener) Accept() (net.Conn, error) {
	select {
	case c := <-l.ch:
		return c, nil
	case <-l.done:
		return nil, net.ErrClosed
	}
}
func (l *memListener) Close() error   { l.once.Do(func() { close(l.done) }); return nil }
func (l *memListener) Addr() net.Addr { return l.addr }

// shardDS is a datastore whose operations on different keys share no lock.
type shardDS struct{ s [512]dsShard }
type dsShard struct {
	mu sync.Mutex
	m  map[datastore.Key][]byte
}

func (d *shardDS) sh(k datastore.Key) *dsShard {
	h := fnv.New32a()
	_, _ = h.Write([]byte(k.String()))
	return &d.s[h.Sum32()%uint32(len(d.s))]
}
func (d *shardDS) Get(_ context.Context, k datastore.Key) ([]byte, error) {
	s := d.sh(k)
	s.mu.Lock()
	defer s.mu.Unlock()
	v, ok := s.m[k]
	if !ok {
		return nil, datastore.ErrNotFound
	}
	return append([]byte(nil), v...), nil
}
func (d *shardDS) Has(ctx context.Context, k datastore.Key) (bool, error) {
	_, err := d.Get(ctx, k)
	return err == nil, nil
}
func (d *shardDS) GetSize(ctx context.Context, k datastore.Key) (int, error) {
	v, err := d.Get(ctx, k)
	return len(v), err
}
func (d *shardDS) Put(_ context.Context, k datastore.Key, v []byte) error {
	s := d.sh(k)
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.m == nil {
		s.m = map[datastore.Key][]byte{}
	}
	s.m[k] = append([]byte(nil), v...)
	return nil
}
func (d *shardDS) Delete(_ context.Context, k datastore.Key) error {
	s := d.sh(k)
	s.mu.Lock()
	defer s.mu.Unlock()
	delete(s.m, k)
	return nil
}
func (d *shardDS) Query(_ context.Context, q query.Query) (query.Results, error) {
	var es []query.Entry
	for i := range d.s {
		s := &d.s[i]
		s.mu.Lock()
		for k, v := range s.m {
			es = append(es, query.Entry{Key: k.String(), Value: append([]byte(nil), v...), Size: len(v)})
		}
		s.mu.Unlock()
	}
	return query.NaiveQueryApply(q, query.ResultsWithEntries(q, es)), nil
}
func (d *shardDS) Sync(context.Context, datastore.Key) error { return nil }
func (d *shardDS) Close() error                              { return nil }
func (d *shardDS) Batch(context.Context) (datastore.Batch, error) {
	return datastore.NewBasicBatch(d), nil
}

// bareIX answers every lookup with a record of each of its providers and
// shares nothing between calls.
type bareIX struct{ provs []peer.ID }

func (x bareIX) Get(m multihash.Multihash) ([]indexer.Value, bool, error) {
	var out []indexer.Value
	for _, p := range x.provs {
		out = append(out, indexer.Value{ProviderID: p, ContextID: []byte("c"), MetadataBytes: []byte{0x80, 0x12}})
	}
	return out, true, nil
}
func (x bareIX) Put(v indexer.Value, ms ...multihash.Multihash) error {
	// As a store does, read everything.
	n := 0
	for _, m := range ms {
		n += len(m) + int(m[0])
	}
	_ = n + len(v.ContextID) + len(v.MetadataBytes)
	return nil
}
func (x bareIX) Remove(indexer.Value, ...multihash.Multihash) error { return nil }
func (x bareIX) RemoveProvider(context.Context, peer.ID) error      { return nil }
func (x bareIX) RemoveProviderContext(p peer.ID, ctx []byte) error  { return nil }
func (x bareIX) Size() (int64, error)                               { return 1, nil }
func (x bareIX) Flush() error                                       { return nil }
func (x bareIX) Close() error                                       { return nil }
func (x bareIX) Iter() (indexer.Iterator, error)                    { return nil, errors.New("none") }

type world17 struct {
	c    *Ctx
	h    host.Host
	ix   indexer.Interface
	reg  *registry.Registry
	ing  *ingest.Ingester
	ids  []Ident
	pubs []*Pub
	u    []string
	find *findhandler.FinderHandler
	ingH *ingesthandler.IngestHandler
	ref  *drclient.Client
	list *url.URL
}

type disc17 struct{}

func (disc17) Discover(ctx context.Context, id peer.ID, addr string) (*discovery.Discovered, error) {
	if strings.HasSuffix(addr, "7") {
		return nil, errors.New("no such miner")
	}
	return &discovery.Discovered{AddrInfo: peer.AddrInfo{ID: id, Addrs: []multiaddr.Multiaddr{testAddr(len(addr))}}}, nil
}

func newWorld17(c *Ctx, r *mrand.Rand, i int, bare, ingester bool) *world17 {
	w := &world17{c: c, h: newHost(false), ids: newIdents(r, 5)}
	var ds datastore.Batching = memDS()
	w.ix = newCore(0)
	if bare {
		ds = &shardDS{}
		x := bareIX{}
		for _, id := range w.ids {
			x.provs = append(x.provs, id.ID)
		}
		w.ix = x
	}
	dc := regConfig()
	dc.RediscoverWait = config.Duration(time.Microsecond)
	var err error
	w.reg, err = registry.NewRegistry(bg, dc, ds, disc17{})
	must(err)
	o := GenOpts{NCtx: 3, NMh: 30, MaxMhs: 6, MaxChunk: 2, Hamt: true, Salt: fmt.Sprint("p17-", i)}
	w.u = universe(o)
	if ingester {
		ic := ingestConfig()
		ic.IngestWorkerCount = 3
		ic.SyncSegmentDepthLimit = 1 + r.Intn(4)
		w.ing, err = ingest.NewIngester(ic, w.h, w.ix, w.reg, ds)
		must(err)
		for k := 0; k < 3; k++ {
			// The third publishes for a provider of its own and another.
			var p *Pub
			if k == 2 {
				p = newPub(w.ids[2], w.ids[3])
				o.NProv = 2
			} else {
				p = newPub(w.ids[k])
			}
			p.PublishAll(genChain(r, 4, o, w.u))
			o.NProv = 0
			w.pubs = append(w.pubs, p)
		}
		w.ingH = ingesthandler.NewIngestHandler(w.ix, w.ing, w.reg)
	}
	w.find = findhandler.NewFinderHandler(w.ix, w.reg)
	q, err := drproto.New_DelegatedRouting_Client("http://reframe/", drproto.DelegatedRouting_Client_WithHTTPClient(&http.Client{Transport: handlerTripper{reframe.NewReframeHTTPHandler(w.ix, w.reg)}}))
	must(err)
	w.ref = drclient.NewClient(q)
	// A listing to import from.
	l := pubListen()
	body, err := json.Marshal([]map[string]interface{}{
		{"AddrInfo": map[string]interface{}{"ID": w.ids[4].ID.String(), "Addrs": []string{testAddr(4).String()}}, "Publisher": map[string]interface{}{"ID": w.ids[3].ID.String(), "Addrs": []string{testAddr(8).String()}}},
		{"AddrInfo": map[string]interface{}{"ID": w.ids[1].ID.String(), "Addrs": []string{testAddr(5).String()}}}})
	must(err)
	srv := &http.Server{Handler: http.HandlerFunc(func(rw http.ResponseWriter, _ *http.Request) { _, _ = rw.Write(body) })}
	go func() { _ = srv.Serve(l) }()
	w.list, err = url.Parse("http://" + l.Addr().String())
	must(err)
	return w
}

func (w *world17) close() {
	if w.ing != nil {
		_ = w.ing.Close()
	}
	_ = w.reg.Close()
	_ = w.h.Close()
	for _, p := range w.pubs {
		p.Close()
	}
}

// handlerTripper gives requests to a handler without a network.
type handlerTripper struct{ h http.Handler }

func (t handlerTripper) RoundTrip(q *http.Request) (*http.Response, error) {
	w := httptest.NewRecorder()
	t.h.ServeHTTP(w, q)
	return w.Result(), nil
}

// touch reads everything in a provider record.
func touch(p *registry.ProviderInfo) int {
	if p == nil {
		return 0
	}
	n := len(p.DiscoveryAddr) + len(p.LastAdvertisement.Bytes()) + p.LastAdvertisementTime.Nanosecond() + len(p.Publisher)
	if p.PublisherAddr != nil {
		n += len(p.PublisherAddr.Bytes())
	}
	for _, a := range p.AddrInfo.Addrs {
		n += len(a.Bytes())
	}
	if p.Deleted() || p.Inactive() {
		n++
	}
	b, _ := json.Marshal(p)
	return n + len(b)
}

type role17 struct {
	name string
	f    func(w *world17, r *mrand.Rand)
}

func seqNow() uint64 { return uint64(time.Now().UnixNano()) }

var registryRoles = []role17{
	{"register", func(w *world17, r *mrand.Rand) {
		id := w.ids[r.Intn(len(w.ids))].ID
		_ = w.reg.Register(bg, &registry.ProviderInfo{AddrInfo: peer.AddrInfo{ID: id, Addrs: []multiaddr.Multiaddr{testAddr(r.Intn(50))}}, Publisher: id, PublisherAddr: testAddr(r.Intn(50))})
	}},
	{"update", func(w *world17, r *mrand.Rand) {
		id, pub := w.ids[r.Intn(len(w.ids))].ID, w.ids[r.Intn(len(w.ids))].ID
		_ = w.reg.RegisterOrUpdate(bg, id, []string{testAddr(r.Intn(50)).String()}, testCid(fmt.Sprint(r.Intn(99))), peer.AddrInfo{ID: pub, Addrs: []multiaddr.Multiaddr{testAddr(r.Intn(50))}})
	}},
	{"update-bare", func(w *world17, r *mrand.Rand) {
		_ = w.reg.RegisterOrUpdate(bg, w.ids[r.Intn(len(w.ids))].ID, nil, testCid(fmt.Sprint(r.Intn(99))), peer.AddrInfo{ID: w.ids[r.Intn(len(w.ids))].ID})
	}},
	{"remove", func(w *world17, r *mrand.Rand) { _ = w.reg.RemoveProvider(bg, w.ids[r.Intn(len(w.ids))].ID) }},
	{"get", func(w *world17, r *mrand.Rand) {
		id := w.ids[r.Intn(len(w.ids))].ID
		touch(w.reg.ProviderInfo(id))
		w.reg.IsRegistered(id)
	}},
	{"list", func(w *world17, r *mrand.Rand) {
		for _, p := range w.reg.AllProviderInfo() {
			touch(p)
		}
	}},
	{"policy", func(w *world17, r *mrand.Rand) {
		id := w.ids[r.Intn(len(w.ids))].ID
		switch r.Intn(4) {
		case 0:
			w.reg.AllowPeer(id)
		case 1:
			w.reg.BlockPeer(id)
			w.reg.AllowPeer(id)
		case 2:
			_ = w.reg.SetPolicy(config.Policy{Allow: true, Except: []string{w.ids[4].ID.String()}, Publish: r.Intn(2) == 0, PublishExcept: []string{id.String()}})
		default:
			_ = w.reg.SetPolicy(config.Policy{Allow: true, Publish: true})
		}
	}},
	{"allowed", func(w *world17, r *mrand.Rand) {
		w.reg.Allowed(w.ids[r.Intn(len(w.ids))].ID)
		w.reg.PublishAllowed(w.ids[r.Intn(len(w.ids))].ID, w.ids[r.Intn(len(w.ids))].ID)
	}},
	{"sequence", func(w *world17, r *mrand.Rand) {
		_ = w.reg.CheckSequence(w.ids[r.Intn(len(w.ids))].ID, seqNow())
	}},
	{"discover", func(w *world17, r *mrand.Rand) {
		_ = w.reg.Discover(w.ids[r.Intn(len(w.ids))].ID, fmt.Sprint("m", r.Intn(9)), r.Intn(2) == 0)
	}},
	{"import", func(w *world17, r *mrand.Rand) {
		if r.Intn(4) == 0 {
			_, _ = w.reg.ImportProviders(bg, w.list)
		}
	}},
	{"poll", func(w *world17, r *mrand.Rand) {
		if registry.VerifHooks && r.Intn(2) == 0 {
			d := time.Duration(r.Intn(3)) * time.Millisecond
			w.reg.VerifPoll(registry.VerifPolling{Interval: d, RetryAfter: d, StopAfter: 50 * time.Millisecond}, map[peer.ID]registry.VerifPolling{w.ids[0].ID: {Interval: time.Hour, RetryAfter: time.Hour, StopAfter: time.Hour}})
			w.reg.VerifCleanup()
		}
	}},
	{"find", func(w *world17, r *mrand.Rand) {
		var q []multihash.Multihash
		for k := 0; k < 1+r.Intn(3); k++ {
			q = append(q, multihash.Multihash(w.u[r.Intn(len(w.u))]))
		}
		if fr, err := w.find.Find(q); err == nil {
			_, _ = json.Marshal(fr)
		}
	}},
	{"find-providers", func(w *world17, r *mrand.Rand) {
		switch r.Intn(3) {
		case 0:
			_, _ = w.find.ListProviders()
		case 1:
			_, _ = w.find.GetProvider(w.ids[r.Intn(len(w.ids))].ID)
		default:
			_, _ = w.find.GetStats()
		}
	}},
	{"reframe", func(w *world17, r *mrand.Rand) {
		_, _ = w.ref.FindProviders(bg, cid.NewCidV1(cid.Raw, multihash.Multihash(w.u[r.Intn(len(w.u))])))
	}},
}

var ingestRoles = []role17{
	{"sync", func(w *world17, r *mrand.Rand) {
		p := w.pubs[r.Intn(len(w.pubs))]
		ctx, cancel := context.WithCancel(bg)
		defer cancel()
		out, err := w.ing.Sync(ctx, p.ID, p.addr, []int{0, 0, 2}[r.Intn(3)], r.Intn(4) == 0)
		if err != nil {
			return
		}
		if r.Intn(3) == 0 {
			for k := r.Intn(50); k > 0; k-- {
				runtime.Gosched()
			}
			cancel()
		}
		for range out {
		}
	}},
	{"announce", func(w *world17, r *mrand.Rand) {
		p := w.pubs[r.Intn(len(w.pubs))]
		_ = w.ing.Announce(bg, p.Head(), p.AddrInfo())
		time.Sleep(time.Duration(r.Intn(2000)) * time.Microsecond)
	}},
	{"publish", func(w *world17, r *mrand.Rand) {
		p := w.pubs[r.Intn(2)]
		p17pub.Lock()
		if len(p.Ads) < 12 {
			p.Publish(AdSpec{Ctx: fmt.Sprint("c", r.Intn(3)), Meta: fmt.Sprint("m", r.Intn(9)), ChunkLen: 2, Mhs: []string{w.u[r.Intn(len(w.u))], w.u[r.Intn(len(w.u))]}})
		}
		p17pub.Unlock()
		time.Sleep(time.Duration(r.Intn(2000)) * time.Microsecond)
	}},
	{"settings", func(w *world17, r *mrand.Rand) {
		w.ing.SetBatchSize(1 + r.Intn(5))
		_ = w.ing.BatchSize()
		_ = w.ing.SetRateLimit(config.RateLimit{Apply: r.Intn(2) == 0, Except: []string{w.ids[r.Intn(3)].ID.String()}, BlocksPerSecond: []int{0, 100000}[r.Intn(2)], BurstSize: 100000})
	}},
	{"latest", func(w *world17, r *mrand.Rand) { _, _ = w.ing.GetLatestSync(w.ids[r.Intn(3)].ID) }},
	{"request-register", func(w *world17, r *mrand.Rand) {
		v := w.ids[r.Intn(len(w.ids))]
		_ = w.ingH.RegisterProvider(bg, reqSpec{what: "register", prov: v.ID, seq: seqNow(), addrs: []string{testAddr(r.Intn(50)).String()}}.sign(v))
	}},
	{"request-index", func(w *world17, r *mrand.Rand) {
		v := w.ids[r.Intn(len(w.ids))]
		_ = w.ingH.IndexContent(bg, reqSpec{what: "index", prov: v.ID, seq: seqNow(), addrs: []string{testAddr(r.Intn(50)).String()}, mh: multihash.Multihash(w.u[r.Intn(len(w.u))]), ctxID: "direct", meta: string([]byte{0x80, 0x12, byte(r.Intn(9))})}.sign(v))
	}},
	{"request-discover", func(w *world17, r *mrand.Rand) {
		v := w.ids[r.Intn(len(w.ids))]
		_ = w.ingH.DiscoverProvider(reqSpec{what: "discover", prov: v.ID, seq: seqNow(), disc: fmt.Sprint("m", r.Intn(9))}.sign(v))
	}},
}

var p17pub sync.Mutex

// run17 runs each chosen role in goroutines of its own for n steps.
func (w *world17) run17(r *mrand.Rand, roles []role17, per, n int) *sync.WaitGroup {
	var wg sync.WaitGroup
	for _, ro := range roles {
		for k := 0; k < per; k++ {
			wg.Add(1)
			ro, seed := ro, r.Int63()
			go func() {
				defer wg.Done()
				r := mrand.New(mrand.NewSource(seed))
				for j := 0; j < n; j++ {
					ro.f(w, r)
				}
			}()
			w.c.Count("op "+ro.name, int64(n))
		}
	}
	return &wg
}

func pick17(r *mrand.Rand, roles []role17, n int) ([]role17, string) {
	var out []role17
	var names []string
	for _, k := range r.Perm(len(roles)) {
		if len(out) == n {
			break
		}
		out = append(out, roles[k])
		names = append(names, roles[k].name)
	}
	return out, strings.Join(dedup(names), ",")
}

func (c *Ctx) p17wait(wg *sync.WaitGroup, what string) bool {
	done := make(chan struct{})
	go func() { wg.Wait(); close(done) }()
	select {
	case <-done:
		return true
	case <-time.After(3 * time.Minute):
		c.Inconclusive("%s does not end: %s", what, repoStacks())
		return false
	}
}

func (c *Ctx) p17core(i int) {
	r := c.Rng("core", i)
	w := newWorld17(c, r, i, i%2 == 0, true)
	for _, p := range w.pubs {
		_ = w.reg.Register(bg, &registry.ProviderInfo{AddrInfo: peer.AddrInfo{ID: p.ID, Addrs: []multiaddr.Multiaddr{p.addr}}, Publisher: p.ID, PublisherAddr: p.addr})
	}
	ir, n1 := pick17(r, ingestRoles, 5)
	rr, n2 := pick17(r, registryRoles, 6)
	wg := w.run17(r, ir, 2, 12)
	wg2 := w.run17(r, rr, 2, 60)
	// The daemon's main loop changes the number of workers.
	for _, n := range []int{4, 2, 3} {
		w.ing.RunWorkers(n)
	}
	early := r.Intn(2) == 0
	if early {
		// Closing while requests are being made. Requests made of a closed
		// registry are not part of this.
		time.Sleep(time.Duration(r.Intn(60)) * time.Millisecond)
		_ = w.ing.Close()
	}
	if !c.p17wait(wg, "ingestion") || !c.p17wait(wg2, "registry use") {
		return
	}
	w.close()
	c.Eval(1)
	c.Seen(fmt.Sprintf("core bare=%v early=%v", i%2 == 0, early))
	c.Seen(n1)
	c.Seen(n2)
}

func (c *Ctx) p17registry(i int) {
	r := c.Rng("registry", i)
	w := newWorld17(c, r, i, i%3 != 0, false)
	dr := newDrain(w.reg)
	rr, names := pick17(r, registryRoles, 8)
	wg := w.run17(r, rr, 2, 200)
	if !c.p17wait(wg, "registry use") {
		return
	}
	w.close()
	_ = dr
	c.Eval(1)
	c.Seen("registry " + names)
}

func (c *Ctx) p17clients(i int) {
	r := c.Rng("clients", i)
	rig := newRig(RigOpts{Listen: true, Discoverer: disc17{}})
	s := newSrv(rig, srvOpts{})
	defer s.Stop()
	defer rig.Abandon()
	ids := newIdents(r, 3)
	ch := newHost(false)
	defer ch.Close()
	fc, err := p2pfclient.New(ch, rig.H.ID())
	must(err)
	must(fc.ConnectAddrs(bg, rig.H.Addrs()...))
	ic, err := p2piclient.New(ch, rig.H.ID())
	must(err)
	hc, err := fclient.New(s.FindURL)
	must(err)
	var us []multihash.Multihash
	for k := 0; k < 20; k++ {
		us = append(us, testMh(fmt.Sprint("p17c", k)))
	}
	w := &world17{c: c, ids: ids}
	call := func(f func(ctx context.Context, r *mrand.Rand)) func(*world17, *mrand.Rand) {
		return func(_ *world17, r *mrand.Rand) {
			ctx, cancel := context.WithTimeout(bg, time.Minute)
			defer cancel()
			if r.Intn(8) == 0 {
				go func() {
					runtime.Gosched()
					cancel()
				}()
			}
			f(ctx, r)
		}
	}
	roles := []role17{
		{"p2p-find", call(func(ctx context.Context, r *mrand.Rand) { _, _ = fc.Find(ctx, us[r.Intn(len(us))]) })},
		{"p2p-batch", call(func(ctx context.Context, r *mrand.Rand) { _, _ = fc.FindBatch(ctx, us[:1+r.Intn(5)]) })},
		{"p2p-providers", call(func(ctx context.Context, r *mrand.Rand) { _, _ = fc.ListProviders(ctx) })},
		{"p2p-stats", call(func(ctx context.Context, r *mrand.Rand) { _, _ = fc.GetStats(ctx) })},
		{"p2p-register", call(func(ctx context.Context, r *mrand.Rand) {
			v := ids[r.Intn(3)]
			_ = ic.Register(ctx, v.ID, v.Priv, []string{testAddr(r.Intn(50)).String()})
		})},
		{"p2p-index", call(func(ctx context.Context, r *mrand.Rand) {
			v := ids[r.Intn(3)]
			_ = ic.IndexContent(ctx, v.ID, v.Priv, us[r.Intn(len(us))], []byte("c"), []byte{1}, []string{testAddr(r.Intn(50)).String()})
		})},
		{"http-find", call(func(ctx context.Context, r *mrand.Rand) { _, _ = hc.Find(ctx, us[r.Intn(len(us))]) })},
		{"http-providers", call(func(ctx context.Context, r *mrand.Rand) { _, _ = hc.ListProviders(ctx) })},
		{"admin", call(func(ctx context.Context, r *mrand.Rand) {
			id := ids[r.Intn(3)].ID.String()
			switch r.Intn(3) {
			case 0:
				s.HTTP("PUT", s.AdminURL+"/ingest/allow/"+id, nil)
			case 1:
				s.HTTP("GET", s.FindURL+"/multihash/"+us[r.Intn(len(us))].B58String(), nil)
			default:
				s.HTTP("GET", s.FindURL+"/providers/"+id, nil)
			}
		})},
	}
	rr, names := pick17(r, roles, 6)
	if !c.p17wait(w.run17(r, rr, 3, 20), "client calls") {
		return
	}
	c.Eval(1)
	c.Seen("clients " + names)
}
