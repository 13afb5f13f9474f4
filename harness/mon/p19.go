package main

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/filecoin-project/storetheindex/api/v0/finder/model"
	"github.com/filecoin-project/storetheindex/config"
	"github.com/filecoin-project/storetheindex/internal/registry"
	"github.com/filecoin-project/storetheindex/internal/registry/discovery"
	"github.com/ipfs/go-cid"
	"github.com/ipfs/go-datastore"
	"github.com/libp2p/go-libp2p-core/peer"
	"github.com/multiformats/go-multiaddr"
	"github.com/multiformats/go-multihash"
)

func init() {
	register("P19", "the ingester and registry are closed (sometimes twice, concurrently) at a chosen index or datastore operation, block fetch, or moment of a workload of syncs, announcements, stalled publishers, lookups and libp2p transfers; "+
		"Close must return (a quiescent process with Close pending is a violation), all sync channels must end, no index or datastore mutation may happen after it returned, later requests must fail without crashing, "+
		"and a new instance on the same stores must report everything that was reported before and complete the chains; distinct counts (kind of moment, ordinal, transport, what was in progress) signatures",
		runP19, "no registry calls once the registry is being closed", "libp2p publishers answer while the subscriber closes (go-legs waits for them)")
}

func runP19(c *Ctx) {
	c.jitterLogs(10, 300)
	c.RunN("http", c.N(220, 4000), 8, func(c *Ctx, i int) { c.p19close(i, false) })
	c.RunN("dt", c.N(16, 200), 4, func(c *Ctx, i int) { c.p19close(i, true) })
	c.RunN("registry", c.N(40, 600), 8, func(c *Ctx, i int) { c.p19registry(i) })
	c.RunN("servers", c.N(24, 300), 4, func(c *Ctx, i int) { c.p19servers(i) })
	c.RunN("idle", c.N(8, 40), 4, func(c *Ctx, i int) { c.p19idle(i) })
}

func (c *Ctx) p19close(i int, dt bool) {
	r := c.Rng("close", dt, i)
	np := 1 + r.Intn(4)
	ids := newIdents(r, np)
	o := GenOpts{NCtx: 2, NMh: 24, MaxMhs: 6, MaxChunk: 2, Hamt: true, Salt: fmt.Sprint("c", dt, i)}
	u := universe(o)
	store, core := memDS(), newCore(0)
	when := []string{"index", "datastore", "fetch", "time"}[r.Intn(4)]
	at := int64(1 + r.Intn(40))
	if dt && when != "datastore" {
		// At the start of a data transfer, known by its log message.
		when = "open"
		at = int64(1 + r.Intn(12))
	}
	var n int64
	trigger := make(chan struct{})
	var tonce sync.Once
	fire := func() { tonce.Do(func() { close(trigger) }) }
	var rmu sync.Mutex
	rr := c.Rng("close-d", dt, i)
	hit := func(kind string) {
		if kind == when && atomic.AddInt64(&n, 1) == at {
			fire()
			rmu.Lock()
			d := rr.Intn(3000)
			rmu.Unlock()
			if kind == "open" {
				d *= 200 // past what Close waits for first
			}
			time.Sleep(time.Duration(d) * time.Microsecond)
		}
	}
	var ingClosed int32
	var late atomic.Value
	resyncs := r.Intn(3) == 0 // a re-sync moves the latest back
	workers := 1 + r.Intn(3)
	seg := []int{-1, 1, 2000}[r.Intn(3)]
	mk := func(first bool) *Rig {
		return newRig(RigOpts{Store: store, Core: core, Listen: dt,
			Ingest: func(ic *config.Ingest) {
				ic.IngestWorkerCount = workers
				ic.StoreBatchSize = 2
				ic.SyncSegmentDepthLimit = seg
			},
			IXHook: func(op *IxOp) error {
				if first {
					if atomic.LoadInt32(&ingClosed) == 1 {
						late.Store(op.String())
					}
					hit("index")
				}
				return nil
			},
			DSHook: func(op string, k datastore.Key, v []byte) error {
				if first && (op == "put" || op == "delete") {
					if atomic.LoadInt32(&ingClosed) == 1 {
						late.Store(op + " " + k.String())
					}
					hit("datastore")
				}
				return nil
			}})
	}
	rig := mk(true)
	if when == "open" {
		defer onLog(func(msg string) {
			if !strings.HasPrefix(msg, "Opening graphsync request to ") {
				return
			}
			for _, x := range ids {
				if strings.Contains(msg, x.ID.String()) {
					hit("open")
				}
			}
		})()
	}
	var pubs []*Pub
	var addrs []multiaddr.Multiaddr
	stallNever := make(chan struct{})
	defer close(stallNever)
	for k := 0; k < np; k++ {
		p := newPub(ids[k])
		defer p.Close()
		ok := o
		ok.Salt += fmt.Sprint("-", k)
		p.PublishAll(genChain(r, 3+r.Intn(10), ok, u))
		addr := p.addr
		if dt {
			d := newDtPub(p)
			defer d.Close()
			d.Refresh()
			addr = d.Addr()
		}
		stall := ""
		if !dt && r.Intn(4) == 0 {
			a := p.Ads[r.Intn(len(p.Ads))]
			stall = a.Cid.String()
			if len(a.Blocks) > 0 && r.Intn(2) == 0 {
				stall = a.Blocks[r.Intn(len(a.Blocks))].String()
			}
			if r.Intn(4) == 0 {
				stall = "head"
			}
		}
		p.SetHook(func(name string, n int) FetchVerdict {
			hit("fetch")
			if name == stall {
				return FetchVerdict{Wait: stallNever}
			}
			return FetchVerdict{}
		})
		pubs = append(pubs, p)
		addrs = append(addrs, addr)
	}
	var outs []<-chan cid.Cid
	var omu sync.Mutex
	reported := map[peer.ID]cid.Cid{}
	stop := make(chan struct{})
	var wg sync.WaitGroup
	busy := int64(0)
	for w := 0; w < 2+r.Intn(3); w++ {
		wr := c.Rng("close-client", dt, i, w)
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := 0; j < 60; j++ {
				select {
				case <-stop:
					return
				default:
				}
				k := wr.Intn(len(pubs))
				p := pubs[k]
				switch wr.Intn(4) {
				case 0:
					_ = rig.Ing.Announce(bg, p.Head(), peer.AddrInfo{ID: p.ID, Addrs: []multiaddr.Multiaddr{addrs[k]}})
				case 1, 2:
					ctx := bg
					if wr.Intn(4) == 0 {
						cx, cancel := context.WithCancel(bg)
						ctx = cx
						time.AfterFunc(time.Duration(wr.Intn(3000))*time.Microsecond, cancel)
					}
					out, err := rig.Ing.Sync(ctx, p.ID, addrs[k], 0, resyncs && wr.Intn(5) == 0)
					if err == nil {
						atomic.AddInt64(&busy, 1)
						omu.Lock()
						outs = append(outs, out)
						omu.Unlock()
					}
				default:
					l := rig.Latest(p.ID)
					omu.Lock()
					// Only ever forward, but two clients may race here.
					if adIndex(p, l) > adIndex(p, reported[p.ID]) {
						reported[p.ID] = l
					}
					omu.Unlock()
				}
				time.Sleep(time.Duration(wr.Intn(3000)) * time.Microsecond)
			}
		}()
	}
	if when == "time" {
		time.Sleep(time.Duration(r.Intn(15000)) * time.Microsecond)
		fire()
	}
	// If the moment never comes, close at the end of the workload.
	wdone := make(chan struct{})
	go func() { wg.Wait(); close(wdone) }()
	select {
	case <-trigger:
	case <-wdone:
	}
	ncl := 1 + r.Intn(2)
	var closers int64 = int64(ncl)
	for k := 0; k < ncl; k++ {
		go func() {
			_ = rig.Ing.Close()
			tick()
			atomic.AddInt64(&closers, -1)
		}()
	}
	where := fmt.Sprintf("close at %s %d, %d publishers, libp2p %v, %d workers, segment %d", when, at, np, dt, workers, seg)
	if !c.Await("close-stuck", where+": closing the ingester", func() bool { return atomic.LoadInt64(&closers) == 0 }) {
		close(stop)
		return
	}
	if ncl == 1 {
		_ = rig.Ing.Close()
	}
	atomic.StoreInt32(&ingClosed, 1)
	c.Eval(1)
	// Requests to the closed ingester.
	for k, p := range pubs {
		if out, err := rig.Ing.Sync(bg, p.ID, addrs[k], 0, false); err == nil {
			omu.Lock()
			outs = append(outs, out)
			omu.Unlock()
		}
		_ = rig.Ing.Announce(bg, p.Head(), peer.AddrInfo{ID: p.ID, Addrs: []multiaddr.Multiaddr{addrs[k]}})
	}
	close(stop)
	if !c.Await("clients-stuck", where+": requests to the closed ingester", func() bool { return isDone(wdone) }) {
		return
	}
	for _, out := range outs {
		if _, ok := rig.awaitSync(c, out); !ok {
			return
		}
		c.Eval(1)
	}
	settle()
	time.Sleep(2 * time.Millisecond)
	if l := late.Load(); l != nil {
		c.Violate("mutation-after-close", "%s: %v happened after Close had returned", where, l)
		return
	}
	atomic.StoreInt32(&ingClosed, 2)
	latest := map[peer.ID]cid.Cid{}
	for _, p := range pubs {
		latest[p.ID] = rig.Latest(p.ID)
	}
	rig.Ing = nil
	if !rig.Close(c) {
		return
	}
	c.Count("requests_in_progress", atomic.LoadInt64(&busy))
	// A new instance on the same stores.
	for _, p := range pubs {
		p.SetHook(nil)
	}
	rig2 := mk(false)
	defer rig2.Close(c)
	m := newModel()
	for k, p := range pubs {
		l := rig2.Latest(p.ID)
		if l != latest[p.ID] || !resyncs && adIndex(p, l) < adIndex(p, reported[p.ID]) {
			c.Violate("latest-lost", "%s: latest was %s before, %s at close, %s after restart", where, reported[p.ID], latest[p.ID], l)
			return
		}
		// An interrupted re-sync is completed by a re-sync.
		out, err := rig2.Ing.Sync(bg, p.ID, addrs[k], 0, resyncs)
		must(err)
		got, ok := rig2.awaitSync(c, out)
		if !ok {
			return
		}
		if got != p.Head() {
			c.Violate("restart-sync", "%s: sync after restart delivered %s", where, got)
			return
		}
		p.ModelAll(m)
	}
	d, k := diffIndex(core, m, u, nil)
	c.Eval(k)
	if d != "" {
		c.Violate("restart-index", "%s: after restart and sync: %s", where, d)
		return
	}
	c.Seen(fmt.Sprint(where, len(outs)))
	c.Sample("%s, %d sync requests made", where, len(outs))
}

// p19idle closes instances that are idle or have only a stalled entries fetch.
func (c *Ctx) p19idle(i int) {
	r := c.Rng("idle", i)
	rig := newRig(RigOpts{})
	if i%2 == 1 {
		u := universe(GenOpts{NMh: 4, Salt: "idle"})
		p := newPub(newIdent(r))
		defer p.Close()
		p.Publish(AdSpec{Ctx: "a", Meta: "a", Mhs: u, ChunkLen: 2})
		var in int32
		never := make(chan struct{})
		defer close(never)
		blk := p.Ads[0].Blocks[i/2%2].String()
		p.SetHook(func(name string, n int) FetchVerdict {
			if name == blk {
				atomic.StoreInt32(&in, 1)
				return FetchVerdict{Wait: never}
			}
			return FetchVerdict{}
		})
		out, err := rig.Ing.Sync(bg, p.ID, p.addr, 0, false)
		must(err)
		if await(func() bool { return atomic.LoadInt32(&in) == 1 }) != waitOK {
			c.Inconclusive("the block was never fetched")
			return
		}
		if !rig.Close(c) {
			return
		}
		if _, ok := rig.awaitSync(c, out); !ok {
			return
		}
		c.Seen(fmt.Sprint("stalled", i/2%2))
	} else {
		if !rig.Close(c) {
			return
		}
		c.Seen("idle")
	}
	c.Eval(1)
}

// slowDiscoverer blocks until released or cancelled.
type slowDiscoverer struct {
	started int64
	release chan struct{}
}

func (d *slowDiscoverer) Discover(ctx context.Context, p peer.ID, addr string) (*discovery.Discovered, error) {
	atomic.AddInt64(&d.started, 1)
	tick()
	select {
	case <-d.release:
	case <-ctx.Done():
		return nil, ctx.Err()
	}
	return nil, errors.New("verifmon: nobody there")
}

// p19registry closes a registry while registrations, removals, polls, lookups
// and discoveries are in progress; calls stop being issued when Close starts.
func (c *Ctx) p19registry(i int) {
	r := c.Rng("registry", i)
	store := memDS()
	dc := config.NewDiscovery()
	dc.LotusGateway = ""
	dc.PollInterval = config.Duration(time.Millisecond)
	dc.PollRetryAfter = config.Duration(time.Millisecond)
	dc.PollStopAfter = config.Duration(time.Hour)
	dc.Timeout = config.Duration(time.Minute)
	dc.RediscoverWait = 0
	var closed int32
	var late atomic.Value
	slow := delays(c.Rng("registry-d", i), 2, 500)
	ds := &DS{inner: store, onOp: func(op string, k datastore.Key, v []byte) error {
		if atomic.LoadInt32(&closed) == 1 && (op == "put" || op == "delete") {
			late.Store(op + " " + k.String())
		}
		slow()
		return nil
	}}
	disc := &slowDiscoverer{release: make(chan struct{})}
	var dd discovery.Discoverer
	if i%2 == 0 {
		dd = disc
	}
	reg, err := registry.NewRegistry(bg, dc, ds, dd)
	must(err)
	newDrain(reg) // as the ingester does
	ids := newIdents(r, 7)
	mk := func(k, v int) *registry.ProviderInfo {
		a, _ := multiaddr.NewMultiaddr(fmt.Sprintf("/ip4/127.0.0.1/tcp/%d", 1000+v))
		return &registry.ProviderInfo{AddrInfo: peer.AddrInfo{ID: ids[k].ID, Addrs: []multiaddr.Multiaddr{a}}}
	}
	var stop int32
	var wg sync.WaitGroup
	var acked [6]int64
	for w := 0; w < 6; w++ {
		wr := c.Rng("registry-w", i, w)
		w := w
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := 1; atomic.LoadInt32(&stop) == 0 && j < 200; j++ {
				switch wr.Intn(9) {
				case 0:
					reg.AllProviderInfo()
				case 1:
					reg.IsRegistered(ids[wr.Intn(6)].ID)
				case 2:
					reg.ProviderInfo(ids[wr.Intn(6)].ID)
				case 3:
					_ = reg.Discover(ids[wr.Intn(6)].ID, fmt.Sprint("addr", j), false)
				case 4:
					_ = reg.RemoveProvider(bg, ids[6].ID)
				case 5:
					_ = reg.RegisterOrUpdate(bg, ids[6].ID, []string{"/ip4/127.0.0.1/tcp/99"}, cid.Undef, peer.AddrInfo{})
				default:
					if err := reg.Register(bg, mk(w, j)); err == nil {
						atomic.StoreInt64(&acked[w], int64(j))
					}
				}
				tick()
			}
		}()
	}
	time.Sleep(time.Duration(r.Intn(5000)) * time.Microsecond)
	if dd != nil {
		// Close waits for a discovery in progress.
		go func() { _ = reg.Discover(ids[0].ID, "addr", i%4 == 0) }()
		upTo(time.Second, func() bool { return atomic.LoadInt64(&disc.started) > 0 })
	}
	atomic.StoreInt32(&stop, 1)
	wdone := make(chan struct{})
	go func() { wg.Wait(); close(wdone) }()
	if !c.Await("registry-op-stuck", "registry operations", func() bool { return isDone(wdone) }) {
		return
	}
	time.AfterFunc(time.Duration(r.Intn(3000))*time.Microsecond, func() { close(disc.release) })
	var closers int64 = 2
	for k := 0; k < 2; k++ {
		go func() { _ = reg.Close(); tick(); atomic.AddInt64(&closers, -1) }()
	}
	if !c.Await("registry-close-stuck", "closing the registry", func() bool { return atomic.LoadInt64(&closers) == 0 }) {
		return
	}
	atomic.StoreInt32(&closed, 1)
	settle()
	if l := late.Load(); l != nil {
		c.Violate("registry-mutation-after-close", "%v after the registry was closed", l)
		return
	}
	reg2, err := registry.NewRegistry(bg, dc, store, nil)
	must(err)
	defer reg2.Close()
	for w := range acked {
		c.Eval(1)
		j := atomic.LoadInt64(&acked[w])
		if j == 0 {
			continue
		}
		info := reg2.ProviderInfo(ids[w].ID)
		want := fmt.Sprintf("/ip4/127.0.0.1/tcp/%d", 1000+j)
		if info == nil || len(info.AddrInfo.Addrs) != 1 || info.AddrInfo.Addrs[0].String() != want {
			c.Violate("registry-lost", "registration %s was acknowledged before Close but is %v after restart", want, info)
			return
		}
	}
	c.Seen(fmt.Sprint("registry", i%4, acked))
}

// p19servers shuts the servers down while requests are being handled: they are
// still answered, new ones are not accepted, and nothing happens afterwards.
func (c *Ctx) p19servers(i int) {
	r := c.Rng("servers", i)
	hold := make(chan struct{})
	var held, released, late int32
	wait := func() {
		if atomic.LoadInt32(&late) == 1 {
			atomic.StoreInt32(&late, 2)
		}
		atomic.AddInt32(&held, 1)
		tick()
		<-hold
	}
	ids := newIdents(r, 3)
	var armed int32
	rig := newRig(RigOpts{IXHook: func(op *IxOp) error {
		if atomic.LoadInt32(&armed) == 1 {
			wait()
		}
		return nil
	}, DSHook: func(op string, _ datastore.Key, _ []byte) error {
		if op == "put" && atomic.LoadInt32(&armed) == 1 {
			wait()
		}
		return nil
	}})
	s := newSrv(rig, srvOpts{})
	defer s.Stop()
	defer func() {
		if atomic.LoadInt32(&released) == 0 {
			close(hold)
		}
	}()
	m := testMh(fmt.Sprint("srv", i))
	u := AdSpec{Ctx: "c", Meta: "m", Mhs: []string{string(m)}, ChunkLen: 1}
	p := newPub(ids[0])
	defer p.Close()
	p.Publish(u)
	if _, ok := rig.SyncWait(c, bg, p, 0, false); !ok {
		return
	}
	rig.IX.onGet = func(multihash.Multihash) error {
		if atomic.LoadInt32(&armed) == 1 {
			wait()
		}
		return nil
	}
	file := filepath.Join(c.Scratch, fmt.Sprint("p19srv", i))
	must(os.WriteFile(file, []byte(cid.NewCidV1(cid.Raw, testMh(fmt.Sprint("imp", i))).String()+"\n"), 0o600))
	imp, err := json.Marshal(map[string][]byte{"file": []byte(file), "context_id": []byte("x"), "metadata": []byte("y")})
	must(err)
	type rq struct {
		what string
		f    func() reply
		want int
	}
	all := []rq{
		{"find", func() reply { return s.HTTP("GET", s.FindURL+"/multihash/"+m.B58String(), nil) }, 200},
		{"find batch", func() reply {
			b, err := model.MarshalFindRequest(&model.FindRequest{Multihashes: []multihash.Multihash{m}})
			must(err)
			return s.HTTP("POST", s.FindURL+"/multihash", b, "Content-Type", "application/json")
		}, 200},
		{"register", func() reply {
			return s.Ingest("http", "register", reqSpec{what: "register", prov: ids[1].ID, seq: seqNow(), addrs: []string{"/ip4/127.0.0.1/tcp/9"}}.sign(ids[1]))
		}, 200},
		{"import", func() reply {
			return s.HTTP("POST", s.AdminURL+"/import/cidlist/"+ids[0].ID.String(), imp)
		}, 200},
	}
	atomic.StoreInt32(&armed, 1)
	var picked []rq
	for k := 1 + r.Intn(4); k > 0; k-- {
		x := all[r.Intn(len(all))]
		if x.what == "register" {
			for _, y := range picked {
				if y.what == "register" {
					x = all[0]
				}
			}
		}
		picked = append(picked, x)
	}
	type res struct {
		x rq
		r reply
	}
	answers := make(chan res, len(picked))
	for _, x := range picked {
		x := x
		go func() { answers <- res{x, x.f()}; tick() }()
	}
	// All are being handled.
	if await(func() bool { return int(atomic.LoadInt32(&held)) == len(picked) }) != waitOK {
		c.Inconclusive("servers %d: %d of %d requests are handled", i, atomic.LoadInt32(&held), len(picked))
		return
	}
	s.hc.CloseIdleConnections()
	var what []string
	for _, x := range picked {
		what = append(what, x.what)
	}
	where := fmt.Sprintf("servers %d: shutdown during %v", i, what)
	early := r.Intn(3) == 0
	if early {
		// A shutdown that may not wait ends with its context.
		ctx, cancel := context.WithCancel(bg)
		var n int64 = int64(len(s.stop))
		for _, f := range s.stop {
			f := f
			go func() { _ = f(ctx); tick(); atomic.AddInt64(&n, -1) }()
		}
		time.Sleep(time.Duration(r.Intn(2000)) * time.Microsecond)
		cancel()
		if !c.Await("shutdown-stuck", where+": Shutdown whose context was cancelled", func() bool { return atomic.LoadInt64(&n) == 0 }) {
			return
		}
	}
	errs := make([]error, len(s.stop))
	var pending int64 = int64(len(s.stop))
	for k, f := range s.stop {
		k, f := k, f
		go func() { errs[k] = f(bg); tick(); atomic.AddInt64(&pending, -1) }()
	}
	time.Sleep(time.Duration(r.Intn(3000)) * time.Microsecond)
	atomic.StoreInt32(&released, 1)
	close(hold)
	for range picked {
		var a res
		got := false
		if !c.Await("request-lost", where+": a request being handled is not answered", func() bool {
			select {
			case a = <-answers:
				got = true
			default:
			}
			return got
		}) {
			return
		}
		c.Eval(1)
		if a.r.Err != nil || a.r.Status != a.x.want {
			c.Violate("request-lost", "%s: the %s request that was being handled got: %s", where, a.x.what, a.r)
			return
		}
	}
	if !c.Await("shutdown-stuck", where+": shutting the servers down", func() bool { return atomic.LoadInt64(&pending) == 0 }) {
		return
	}
	for _, err := range errs {
		c.Eval(1)
		if err != nil {
			c.Violate("shutdown-error", "%s: %v", where, err)
			return
		}
	}
	atomic.StoreInt32(&late, 1)
	for _, u := range []string{s.FindURL + "/multihash/" + m.B58String(), s.IngestURL + "/health", s.AdminURL + "/healthcheck"} {
		c.Eval(1)
		if rp := s.HTTP("GET", u, nil); rp.Err == nil {
			c.Violate("served-after-shutdown", "%s: %s is answered after Shutdown returned: %s", where, u, rp)
			return
		}
	}
	if atomic.LoadInt32(&late) == 2 {
		c.Violate("served-after-shutdown", "%s: the index was used after Shutdown returned", where)
		return
	}
	for _, f := range s.stop {
		if err := f(bg); err != nil {
			c.Violate("shutdown-error", "%s: a second Shutdown: %v", where, err)
			return
		}
	}
	c.Seen(fmt.Sprint("servers", what, early))
}
