package main

import (
	"fmt"
	"net/http"
	"strings"
	"sync/atomic"
	"time"

	httpclient "github.com/filecoin-project/storetheindex/api/v0/ingest/client/http"
	"github.com/filecoin-project/storetheindex/config"
	httpingestserver "github.com/filecoin-project/storetheindex/server/ingest/http"
	"github.com/ipfs/go-cid"
	"github.com/ipfs/go-datastore"
	"github.com/libp2p/go-libp2p-core/peer"
	"github.com/multiformats/go-multiaddr"
)

func init() {
	register("P20", "publishers announce heads, directly, over the ingest HTTP server and by gossip, while their provider is idle, held at a random index operation, held in a fetch, or failing, with the last announcement made strictly last; "+
		"without any explicit sync the last announced head must become the latest sync and the index must equal the model (a quiescent process without it is a violation); afterwards re-announcements must not change anything; "+
		"distinct counts (case kind, hold point, announcements while busy, operations) signatures",
		runP20, "fetching from the publisher succeeds once it is not held any more")
}

func runP20(c *Ctx) {
	c.RunN("edge", c.N(12, 200), 3, func(c *Ctx, i int) { c.p20edge(i) })
	c.jitterLogs(8, 400)
	c.RunN("busy", c.N(60, 1500), 6, func(c *Ctx, i int) { c.p20busy(i) })
	c.RunN("stress", c.N(40, 800), 6, func(c *Ctx, i int) { c.p20stress(i) })
	c.RunN("http", c.N(16, 200), 4, func(c *Ctx, i int) { c.p20http(i) })
	c.RunN("gossip", c.N(6, 60), 3, func(c *Ctx, i int) { c.p20gossip(i) })
}

// announced waits until the publisher's head has been ingested and compares
// the index with the model.
func (c *Ctx) announced(rig *Rig, p *Pub, u []string, what string) bool {
	if !c.Await("announce-lost", fmt.Sprintf("%s: head %s (advertisement %d of %d) was announced last, latest sync is advertisement %d", what, shortCid(p.Head()), len(p.Ads), len(p.Ads), adIndex(p, rig.Latest(p.ID))+1),
		func() bool { return rig.Latest(p.ID) == p.Head() }) {
		return false
	}
	m := newModel()
	p.ModelAll(m)
	provs := map[peer.ID]bool{}
	for _, id := range p.Provs {
		provs[id.ID] = true
	}
	if len(p.Provs) > 1 {
		// Other providers' advertisements may still be in progress.
		settle()
		await(func() bool { d, _ := diffIndex(rig.Core, m, u, provs); return d == "" })
	}
	d, n := diffIndex(rig.Core, m, u, provs)
	c.Eval(n + 1)
	if d != "" {
		c.Violate("index-differs", "%s: %s", what, d)
		return false
	}
	return true
}

// reannounce announces heads that are ingested already; nothing may change.
func (c *Ctx) reannounce(rig *Rig, p *Pub, u []string, what string, announce func(cid.Cid) error) bool {
	n := len(rig.IX.Log())
	for k := 0; k < 2; k++ {
		if err := announce(p.Head()); err != nil {
			c.Violate("reannounce-error", "%s: announcing the ingested head again: %v", what, err)
			return false
		}
		settle()
	}
	if len(p.Ads) > 1 {
		// An older head that is ingested already.
		if err := announce(p.Ads[len(p.Ads)-2].Cid); err != nil {
			c.Violate("reannounce-error", "%s: announcing an ingested advertisement: %v", what, err)
			return false
		}
		settle()
	}
	c.Eval(1)
	if l := rig.IX.Log(); len(l) != n {
		c.Violate("reannounce-applied", "%s: re-announcing ingested advertisements made index changes: %v", what, l[n])
		return false
	}
	if l := rig.Latest(p.ID); l != p.Head() {
		c.Violate("reannounce-latest", "%s: latest sync is advertisement %d after re-announcements", what, adIndex(p, l)+1)
		return false
	}
	return true
}

// p20busy holds processing at a point while announcements arrive.
func (c *Ctx) p20busy(i int) {
	r := c.Rng("busy", i)
	ids := newIdents(r, 2)
	o := GenOpts{NCtx: 2, NMh: 30, MaxMhs: 6, MaxChunk: 2, Hamt: true, Salt: fmt.Sprint("b", i)}
	u := universe(o)
	kind := []string{"index-op", "index-op", "head-fetch", "ad-fetch", "entry-fetch", "ds-op"}[r.Intn(6)]
	p := newPub(ids[0])
	defer p.Close()
	chain := genChain(r, 14, o, u)
	n := 2 + r.Intn(4)
	p.PublishAll(chain[:n])
	hold := make(chan struct{})
	var held int32
	at := int64(1 + r.Intn(6))
	var nop int64
	point := func() bool {
		if atomic.AddInt64(&nop, 1) == at {
			atomic.StoreInt32(&held, 1)
			tick()
			return true
		}
		return false
	}
	if kind == "head-fetch" || kind == "ad-fetch" || kind == "entry-fetch" {
		entry := map[string]bool{}
		for _, a := range p.Ads {
			for _, b := range a.Blocks {
				entry[b.String()] = true
			}
		}
		if kind == "head-fetch" {
			at = 1
		} else if at > 3 {
			at -= 3
		}
		p.SetHook(func(name string, _ int) FetchVerdict {
			var match bool
			switch kind {
			case "head-fetch":
				match = name == "head"
			case "ad-fetch":
				match = name != "head" && !entry[name]
			default:
				match = entry[name]
			}
			if match && point() {
				return FetchVerdict{Wait: hold}
			}
			return FetchVerdict{}
		})
	}
	workers := 1 + r.Intn(3)
	rig := newRig(RigOpts{
		Ingest: func(ic *config.Ingest) { ic.IngestWorkerCount = workers; ic.StoreBatchSize = 1 + r.Intn(3) },
		IXHook: func(op *IxOp) error {
			if kind == "index-op" && point() {
				<-hold
			}
			return nil
		},
	})
	if kind == "ds-op" {
		rig.DS.after = func(op string, k datastore.Key) {
			if op == "put" && strings.HasPrefix(k.String(), "/adProcessed/") && point() {
				<-hold
			}
		}
		at = 1 + at%3
	}
	closed, released := false, false
	defer func() {
		if !released {
			close(hold)
		}
		if !closed {
			rig.Abandon()
		}
	}()
	first := "sync"
	var out <-chan cid.Cid
	if r.Intn(2) == 0 && kind != "head-fetch" {
		first = "announce"
		if err := rig.Ing.Announce(bg, p.Head(), p.AddrInfo()); err != nil {
			c.Violate("announce-error", "Announce: %v", err)
			return
		}
	} else {
		var err error
		out, err = rig.Ing.Sync(bg, p.ID, p.addr, 0, false)
		must(err)
	}
	upTo(300*time.Millisecond, func() bool { return atomic.LoadInt32(&held) == 1 || rig.Latest(p.ID) == p.Head() })
	wasHeld := atomic.LoadInt32(&held) == 1
	na := 1 + r.Intn(4)
	annDone := make(chan error, 1)
	go func() {
		for k := 0; k < na && n < len(chain); k++ {
			p.Publish(chain[n])
			n++
			if err := rig.Ing.Announce(bg, p.Head(), p.AddrInfo()); err != nil {
				annDone <- err
				return
			}
			tick()
			if k%2 == 0 {
				time.Sleep(time.Duration(i%5) * time.Millisecond)
			}
		}
		annDone <- nil
	}()
	// An announcement must not wait for the held processing to finish.
	var aerr error
	got := false
	if !c.Await("announce-blocks", fmt.Sprintf("Announce while the provider is held at %s %d", kind, at), func() bool {
		select {
		case aerr = <-annDone:
			got = true
		default:
		}
		return got
	}) {
		return
	}
	if aerr != nil {
		c.Violate("announce-error", "Announce while busy (%s): %v", kind, aerr)
		return
	}
	released = true
	close(hold)
	what := fmt.Sprintf("busy %d: %s, held=%v at %s %d, %d workers, %d announcements meanwhile", i, first, wasHeld, kind, at, workers, na)
	if !c.announced(rig, p, u, what) {
		return
	}
	if out != nil {
		if _, ok := rig.awaitSync(c, out); !ok {
			return
		}
	}
	if !c.checkOrder(rig, []*Pub{p}, what) {
		return
	}
	settle()
	if !c.reannounce(rig, p, u, what, func(x cid.Cid) error { return rig.Ing.Announce(bg, x, p.AddrInfo()) }) {
		return
	}
	if wasHeld {
		c.Count("announced_while_held", 1)
		c.Seen(fmt.Sprint(kind, at, first, workers, na, len(rig.IX.Log())))
	}
	c.Sample("%s: head ingested after release", what)
	closed = rig.Close(c)
}

// p20stress announces many heads in quick succession, with random delays in
// the stores, possibly for several providers, and with failing fetches of
// earlier heads.
func (c *Ctx) p20stress(i int) {
	r := c.Rng("stress", i)
	np := 1 + r.Intn(3)
	ids := newIdents(r, 2*np)
	d := delays(c.Rng("delay", i), 2, 1500)
	workers := 1 + r.Intn(4)
	rig := newRig(RigOpts{
		Ingest: func(ic *config.Ingest) {
			ic.IngestWorkerCount = workers
			ic.StoreBatchSize = 1 + r.Intn(3)
			ic.SyncSegmentDepthLimit = []int{-1, 1, 2, 2000}[r.Intn(4)]
		},
		IXHook: func(op *IxOp) error { d(); return nil },
	})
	closed := false
	defer func() {
		if !closed {
			rig.Abandon()
		}
	}()
	type job struct {
		p     *Pub
		chain []AdSpec
		u     []string
		multi bool
	}
	var jobs []*job
	for k := 0; k < np; k++ {
		o := GenOpts{NCtx: 2, NMh: 24, MaxMhs: 5, MaxChunk: 2, Hamt: true, Salt: fmt.Sprintf("st%d-%d", i, k)}
		j := &job{u: universe(o)}
		if r.Intn(4) == 0 {
			j.multi = true
			j.p = newPub(ids[2*k], ids[2*k+1])
			// All for the other provider: the announced publisher and the
			// processed provider differ.
			j.chain = genChain(r, 6+r.Intn(10), o, j.u)
			for x := range j.chain {
				j.chain[x].Prov = 1
			}
		} else {
			j.p = newPub(ids[2*k])
			j.chain = genChain(r, 6+r.Intn(10), o, j.u)
		}
		defer j.p.Close()
		jobs = append(jobs, j)
	}
	done := make(chan error, np)
	for k, j := range jobs {
		j, pr := j, c.Rng("ann", i, k)
		// Early heads may be announced while their blocks cannot be fetched.
		var broken int32
		j.p.SetHook(func(name string, _ int) FetchVerdict {
			if atomic.LoadInt32(&broken) == 1 {
				return FetchVerdict{Status: http.StatusServiceUnavailable}
			}
			return FetchVerdict{}
		})
		go func() {
			brk := pr.Intn(3) == 0
			for x, a := range j.chain {
				j.p.Publish(a)
				last := x == len(j.chain)-1
				if brk {
					atomic.StoreInt32(&broken, int32(pr.Intn(2)))
				}
				if last {
					atomic.StoreInt32(&broken, 0)
					if brk {
						// Let a failing sync end, so that it cannot be the
						// last announcement that fails.
						time.Sleep(20 * time.Millisecond)
					}
				}
				if last || pr.Intn(3) != 0 {
					if err := rig.Ing.Announce(bg, j.p.Head(), j.p.AddrInfo()); err != nil {
						done <- err
						return
					}
					tick()
				}
				if us := pr.Intn(4000); us > 1500 {
					time.Sleep(time.Duration(us) * time.Microsecond)
				}
			}
			done <- nil
		}()
	}
	for range jobs {
		if err := <-done; err != nil {
			c.Violate("announce-error", "stress %d: Announce: %v", i, err)
			return
		}
	}
	for k, j := range jobs {
		what := fmt.Sprintf("stress %d: publisher %d of %d (other provider: %v), %d workers, %d heads", i, k+1, np, j.multi, workers, len(j.chain))
		if !c.announced(rig, j.p, j.u, what) {
			return
		}
		settle()
		if !c.reannounce(rig, j.p, j.u, what, func(x cid.Cid) error { return rig.Ing.Announce(bg, x, j.p.AddrInfo()) }) {
			return
		}
	}
	c.Seen(fmt.Sprint("stress", np, workers, len(rig.IX.Log())))
	closed = rig.Close(c)
}

// p20edge makes each announcement at the moment the processing of the one
// before ends, a random few microseconds after its progress was recorded.
func (c *Ctx) p20edge(i int) {
	r := c.Rng("edge", i)
	p := newPub(newIdent(r))
	defer p.Close()
	n := 500 + 500*(1-i%2)
	for k := 0; k < n; k++ {
		p.Publish(AdSpec{Ctx: "edge", Rm: true})
	}
	u := universe(GenOpts{NMh: 3, Salt: fmt.Sprint("e", i)})
	p.Publish(AdSpec{Ctx: "edge", Meta: "m", Mhs: u})
	var latest atomic.Value
	latest.Store(cid.Undef)
	rig := newRig(RigOpts{Ingest: func(ic *config.Ingest) { ic.IngestWorkerCount = 1 + r.Intn(2) }})
	rig.DS.after = func(op string, k datastore.Key) {
		if op == "put" && strings.HasPrefix(k.String(), "/sync/") {
			l, err := rig.Ing.GetLatestSync(p.ID)
			must(err)
			latest.Store(l)
			// Give the next announcement a head start.
			for start := time.Now(); time.Since(start) < 25*time.Microsecond; {
			}
		}
	}
	closed := false
	defer func() {
		if !closed {
			rig.Abandon()
		}
	}()
	// The announcements are steered to the moment at which the worker is done:
	// one that returns faster than it can be acted on was deferred and made too
	// early, and the others too late.
	var direct, d time.Duration = time.Hour, 30 * time.Microsecond
	step := 8 * time.Microsecond
	early := 0
	for k := 0; k < len(p.Ads); k++ {
		if k < 10 {
			settleShort()
		} else if i%2 == 0 && k+1 < len(p.Ads) {
			// An announcement that is deferred and due when the next is made.
			if err := rig.Ing.Announce(bg, p.Ads[k].Cid, p.AddrInfo()); err != nil {
				c.Violate("announce-error", "edge %d: Announce: %v", i, err)
				return
			}
			k++
			for start := time.Now(); time.Since(start) < d; {
			}
		}
		x := p.Ads[k].Cid
		t0 := time.Now()
		if err := rig.Ing.Announce(bg, x, p.AddrInfo()); err != nil {
			c.Violate("announce-error", "edge %d: Announce: %v", i, err)
			return
		}
		took := time.Since(t0)
		tick()
		switch {
		case k < 10:
			if took < direct {
				direct = took
			}
		case took < direct/2:
			early++
			d += time.Duration(r.Int63n(int64(step)))
		default:
			d -= time.Duration(r.Int63n(int64(step)))
		}
		if k%40 > 37 && step > 500 {
			step = step * 2 / 3
		}
		if d < 0 {
			d = 0
		}
		for start := time.Now(); latest.Load().(cid.Cid) != x; {
			if time.Since(start) > 20*time.Millisecond {
				if !c.Await("announce-lost", fmt.Sprintf("edge %d: advertisement %d was announced when the processing of the one before ended; latest sync is advertisement %d", i, k+1, adIndex(p, rig.Latest(p.ID))+1),
					func() bool { return latest.Load().(cid.Cid) == x }) {
					return
				}
				break
			}
		}
		c.Eval(1)
		for start := time.Now(); i%2 == 1 && time.Since(start) < d; {
		}
	}
	c.Count("announced_while_ending", int64(early))
	if verbose {
		fmt.Println("edge", i, "direct", direct, "delay", d, "early", early)
	}
	c.Count("announced_at_end_of_processing", int64(len(p.Ads)))
	if !c.announced(rig, p, u, fmt.Sprintf("edge %d", i)) {
		return
	}
	c.Seen(fmt.Sprint("edge", i))
	closed = rig.Close(c)
}

// p2pAddr is the publisher's address with its peer ID, as announce messages
// carry it.
func (p *Pub) p2pAddr() multiaddr.Multiaddr {
	a, err := multiaddr.NewMultiaddr(p.addr.String() + "/p2p/" + p.ID.String())
	must(err)
	return a
}

func (c *Ctx) p20http(i int) {
	r := c.Rng("http", i)
	ids := newIdents(r, 1)
	o := GenOpts{NCtx: 2, NMh: 24, MaxMhs: 5, MaxChunk: 2, Hamt: true, Salt: fmt.Sprint("h", i)}
	u := universe(o)
	p := newPub(ids[0])
	defer p.Close()
	d := delays(c.Rng("delay", i), 2, 3000)
	rig := newRig(RigOpts{Ingest: func(ic *config.Ingest) { ic.IngestWorkerCount = 1 + r.Intn(2); ic.StoreBatchSize = 2 },
		IXHook: func(op *IxOp) error { d(); return nil }})
	closed := false
	defer func() {
		if !closed {
			rig.Abandon()
		}
	}()
	srv, err := httpingestserver.New("127.0.0.1:0", rig.IX, rig.Ing, rig.Reg)
	must(err)
	go func() { _ = srv.Start() }()
	defer func() { _ = srv.Shutdown(bg) }()
	cl, err := httpclient.New(srv.URL())
	must(err)
	dead, err := multiaddr.NewMultiaddr("/ip4/127.0.0.1/tcp/1")
	must(err)
	ann := func(x cid.Cid) error {
		defer tick()
		// Every address counts: the one that serves need not be the first.
		addrs := []multiaddr.Multiaddr{p.addr}
		if i%2 == 1 {
			addrs = []multiaddr.Multiaddr{dead, p.addr}
		}
		return cl.Announce(bg, &peer.AddrInfo{ID: p.ID, Addrs: addrs}, x)
	}
	chain := genChain(r, 6+r.Intn(8), o, u)
	for k, a := range chain {
		p.Publish(a)
		if k == len(chain)-1 || r.Intn(2) == 0 {
			if err := ann(p.Head()); err != nil {
				c.Violate("announce-error", "http %d: announcement refused: %v", i, err)
				return
			}
			if r.Intn(3) == 0 {
				time.Sleep(time.Duration(r.Intn(5000)) * time.Microsecond)
			}
		}
	}
	what := fmt.Sprintf("http %d: %d heads", i, len(chain))
	if !c.announced(rig, p, u, what) {
		return
	}
	settle()
	if !c.reannounce(rig, p, u, what, ann) {
		return
	}
	c.Seen(fmt.Sprint("http", len(rig.IX.Log())))
	closed = rig.Close(c)
}

// p20gossip announces over pubsub: the indexer is connected to the publisher
// and follows the topic. Delivery of one message is not guaranteed, and one
// that was sent before is not sent again, so new heads are announced until one
// is taken up.
func (c *Ctx) p20gossip(i int) {
	r := c.Rng("gossip", i)
	ids := newIdents(r, 1)
	o := GenOpts{NCtx: 2, NMh: 24, MaxMhs: 5, MaxChunk: 2, Salt: fmt.Sprint("g", i)}
	u := universe(o)
	p := newPub(ids[0])
	defer p.Close()
	d := newDtPub(p)
	defer d.Close()
	rig := newRig(RigOpts{Listen: true, Ingest: func(ic *config.Ingest) { ic.IngestWorkerCount = 2; ic.StoreBatchSize = 3 }})
	closed := false
	defer func() {
		if !closed {
			rig.Abandon()
		}
	}()
	if !d.awaitSubscriber(peer.AddrInfo{ID: rig.H.ID(), Addrs: rig.H.Addrs()}) {
		c.Violate("announce-lost", "gossip %d: a connected publisher does not learn, on 6 connections, that the indexer follows the announcement topic", i)
		return
	}
	for part := 0; part < 2; part++ {
		p.PublishAll(genChain(r, 3, o, u))
		ok := func() bool { return rig.Latest(p.ID) == p.Head() }
		for k := 0; k < 20 && !ok(); k++ {
			p.PublishAll(genChain(r, 1, o, u))
			must(d.updateRoot(p.Head()))
			tick()
			upTo(time.Duration(2+k)*time.Second, ok)
		}
		if !c.announced(rig, p, u, fmt.Sprintf("gossip %d", i)) {
			return
		}
	}
	c.Count("gossip_announced", 1)
	c.Seen(fmt.Sprint("gossip", len(rig.IX.Log())))
	closed = rig.Close(c)
}
