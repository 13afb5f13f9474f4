package main

import (
	"fmt"
	"math/rand"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/filecoin-project/storetheindex/config"
	"github.com/ipfs/go-cid"
	"github.com/libp2p/go-libp2p-core/peer"
)

func init() {
	register("P02", "3 to 5 publishers publish while announcements and explicit syncs arrive concurrently, with delays injected into index and datastore operations; the recorded index operations of each provider are checked online "+
		"for overlap, chain order and repeated application, and after a final sync of each publisher the index is compared with the sequential model; distinct counts different orders in which the providers' index operations interleaved",
		runP02, "each publisher publishes for itself only; depth-limited syncs and re-syncs are not mixed in (documented to reorder)")
}

// orderMonitor checks one provider's index operations against its chain. Every
// advertisement has unique metadata, so a put identifies its advertisement;
// removals are identified by their context.
type orderMonitor struct {
	ads []AdSpec
	cur int // index of the advertisement last seen to be applied
	n   int
}

// feed returns a description of the problem, or "".
func (o *orderMonitor) feed(op *IxOp) string {
	if op.Inflight != 0 {
		return fmt.Sprintf("index operation %v started while %d other operations of the same provider were in progress", op, op.Inflight)
	}
	o.n++
	match := func(a AdSpec) bool {
		switch op.Kind {
		case "put":
			return !a.Rm && a.Ctx == op.Ctx && a.Meta == op.Meta
		case "rmctx":
			return a.Rm && a.Ctx == op.Ctx
		}
		return false
	}
	// A put belongs to the current advertisement or a later one; a removal to
	// a later one (a removal is a single operation).
	start := o.cur
	if op.Kind == "rmctx" {
		start = o.cur + 1
	}
	if start < 0 {
		start = 0
	}
	for i := start; i < len(o.ads); i++ {
		if match(o.ads[i]) {
			o.cur = i
			return ""
		}
	}
	for i := 0; i < start && i < len(o.ads); i++ {
		if match(o.ads[i]) {
			return fmt.Sprintf("operation %v of advertisement %d (%v) was applied after advertisement %d had been reached", op, i, o.ads[i], o.cur)
		}
	}
	return fmt.Sprintf("operation %v belongs to no advertisement of the chain", op)
}

func runP02(c *Ctx) {
	c.jitterLogs(10, 300)
	c.Run("staged-replaced", func(c *Ctx) { c.p02staged() })
	c.RunN("mix", c.N(60, 1500), 6, func(c *Ctx, i int) { c.p02mix(i) })
	c.RunN("busy", c.N(24, 400), 6, func(c *Ctx, i int) { c.p02busy(i) })
}

// checkOrder feeds the log of a rig to per-provider monitors.
func (c *Ctx) checkOrder(rig *Rig, pubs []*Pub, what string) bool {
	mons := map[peer.ID]*orderMonitor{}
	for _, p := range pubs {
		m := &orderMonitor{cur: -1}
		for _, a := range p.Ads {
			m.ads = append(m.ads, a.Spec)
		}
		mons[p.ID] = m
	}
	for _, op := range rig.IX.Log() {
		m := mons[op.Prov]
		if m == nil {
			c.Violate("unknown-provider", "%s: operation %v for unknown provider", what, op)
			return false
		}
		c.Eval(1)
		if d := m.feed(op); d != "" {
			key := "order"
			if strings.Contains(d, "in progress") {
				key = "overlap"
			}
			c.Violate(key, "%s: %s; chain: %s", what, d, chainString(m.ads))
			return false
		}
	}
	return true
}

// interleaving is a signature of how the providers' operations interleaved.
func interleaving(rig *Rig, pubs []*Pub) (string, int) {
	idx := map[peer.ID]int{}
	for i, p := range pubs {
		idx[p.ID] = i
	}
	var sb strings.Builder
	switches := 0
	last := -1
	for _, op := range rig.IX.Log() {
		i := idx[op.Prov]
		if i != last {
			switches++
			last = i
		}
		sb.WriteByte(byte('a' + i))
	}
	return sb.String(), switches
}

// delays returns index and datastore hooks that delay operations.
func delays(r *rand.Rand, one, maxUs int) func() {
	var mu sync.Mutex
	return func() {
		mu.Lock()
		d := 0
		if r.Intn(one) == 0 {
			d = r.Intn(maxUs)
		}
		mu.Unlock()
		if d > 0 {
			time.Sleep(time.Duration(d) * time.Microsecond)
		}
	}
}

func (c *Ctx) p02mix(i int) {
	r := c.Rng("mix", i)
	np := 3 + r.Intn(3)
	ids := newIdents(r, np)
	o := GenOpts{NCtx: 1 + r.Intn(3), NMh: 40, MaxMhs: 10, MaxChunk: 4, Hamt: true, Salt: fmt.Sprint("x", i)}
	u := universe(o)
	var pubs []*Pub
	var chains [][]AdSpec
	for k := 0; k < np; k++ {
		p := newPub(ids[k])
		defer p.Close()
		pubs = append(pubs, p)
		ok := o
		ok.Salt = fmt.Sprintf("x%d-%d", i, k)
		chains = append(chains, genChain(r, 6+r.Intn(16), ok, u))
	}
	d := delays(c.Rng("delay", i), 1+r.Intn(3), 2000)
	workers := []int{1, 2, 3, 8}[r.Intn(4)]
	rig := newRig(RigOpts{
		Ingest: func(ic *config.Ingest) {
			ic.IngestWorkerCount = workers
			ic.StoreBatchSize = 1 + r.Intn(5)
			ic.SyncSegmentDepthLimit = []int{-1, 1, 2, 2000}[r.Intn(4)]
		},
		IXHook: func(op *IxOp) error { d(); return nil },
	})
	closed := false
	defer func() {
		if !closed {
			rig.Abandon()
		}
	}()
	var wg sync.WaitGroup
	var outs []<-chan cid.Cid
	var omu sync.Mutex
	for k := range pubs {
		p, specs := pubs[k], chains[k]
		pr := c.Rng("pub", i, k)
		var head atomic.Value
		var finished int32
		wg.Add(1)
		go func() { // publisher
			defer wg.Done()
			for _, a := range specs {
				pa := p.Publish(a)
				head.Store(pa.Cid)
				time.Sleep(time.Duration(pr.Intn(3000)) * time.Microsecond)
			}
			atomic.StoreInt32(&finished, 1)
		}()
		for w := 0; w < 2; w++ {
			wr := c.Rng("client", i, k, w)
			wg.Add(1)
			go func(w int) { // client
				defer wg.Done()
				n := 4 + wr.Intn(8)
				for j := 0; j < n; j++ {
					time.Sleep(time.Duration(wr.Intn(6000)) * time.Microsecond)
					if w == 0 || wr.Intn(3) == 0 {
						if h, ok := head.Load().(cid.Cid); ok {
							_ = rig.Ing.Announce(bg, h, p.AddrInfo())
							tick()
						}
						continue
					}
					out, err := rig.Ing.Sync(bg, p.ID, p.addr, 0, false)
					if err != nil {
						c.Violate("sync-error", "Sync: %v", err)
						return
					}
					tick()
					omu.Lock()
					outs = append(outs, out)
					omu.Unlock()
				}
			}(w)
		}
	}
	wg.Wait()
	c.Count("explicit_syncs", int64(len(outs)))
	for _, out := range outs {
		if _, ok := rig.awaitSync(c, out); !ok {
			return
		}
	}
	if !c.p02final(rig, pubs, u, fmt.Sprintf("mix %d", i)) {
		return
	}
	sig, sw := interleaving(rig, pubs)
	c.Count("index_operations", int64(len(sig)))
	c.Count("provider_switches", int64(sw))
	if sw > len(pubs) {
		c.Seen(sig)
	}
	c.Sample("%d publishers, %d workers: operations of providers interleaved as %.80s", np, workers, sig)
	closed = rig.Close(c)
}

// p02final syncs every publisher once more and checks the final index and the
// recorded order.
func (c *Ctx) p02final(rig *Rig, pubs []*Pub, u []string, what string) bool {
	m := newModel()
	for _, p := range pubs {
		// Announcements may still be in progress; a sync may fail because of
		// them, but not once nothing else is going on.
		var got cid.Cid
		for try := 0; try < 4 && got != p.Head(); try++ {
			settle()
			var ok bool
			got, ok = rig.SyncWait(c, bg, p, 0, false)
			if !ok {
				return false
			}
		}
		if got != p.Head() {
			c.Violate("final-sync", "%s: final sync delivered %s, not the head %s", what, got, p.Head())
			return false
		}
		p.ModelAll(m)
	}
	// The head has been processed; nothing older can be outstanding.
	for _, p := range pubs {
		if l := rig.Latest(p.ID); l != p.Head() {
			c.Violate("final-latest", "%s: latest sync is %s after a sync of head %s", what, l, p.Head())
			return false
		}
	}
	if !c.checkOrder(rig, pubs, what) {
		return false
	}
	d, n := diffIndex(rig.Core, m, u, nil)
	c.Eval(n)
	if d != "" {
		c.Violate("index-differs", "%s: %s", what, d)
		return false
	}
	return true
}

// p02busy holds a provider's processing at an index operation while further
// syncs and announcements of the same publisher arrive, then lets it go on.
func (c *Ctx) p02busy(i int) {
	r := c.Rng("busy", i)
	ids := newIdents(r, 2)
	o := GenOpts{NCtx: 2, NMh: 30, MaxMhs: 6, MaxChunk: 3, Salt: fmt.Sprint("b", i)}
	u := universe(o)
	p, q := newPub(ids[0]), newPub(ids[1])
	defer p.Close()
	defer q.Close()
	hold := make(chan struct{})
	var held int32
	holdAt := int64(1 + r.Intn(5))
	var nop int64
	workers := 2 + r.Intn(3)
	rig := newRig(RigOpts{
		Ingest: func(ic *config.Ingest) { ic.IngestWorkerCount = workers; ic.StoreBatchSize = 2 },
		IXHook: func(op *IxOp) error {
			if op.Prov == p.ID && atomic.AddInt64(&nop, 1) == holdAt {
				atomic.StoreInt32(&held, 1)
				<-hold
			}
			return nil
		},
	})
	closed := false
	defer func() {
		if !closed {
			rig.Abandon()
		}
	}()
	chain := genChain(r, 12, o, u)
	o2 := o
	o2.Salt += "q"
	q.PublishAll(genChain(r, 5, o2, u))
	n := 3 + r.Intn(5)
	p.PublishAll(chain[:n])
	var outs []<-chan cid.Cid
	sync := func(x *Pub) {
		out, err := rig.Ing.Sync(bg, x.ID, x.addr, 0, false)
		must(err)
		outs = append(outs, out)
	}
	sync(p)
	sync(q)
	await(func() bool { return atomic.LoadInt32(&held) == 1 || (len(outs[0]) > 0) })
	for n < len(chain) {
		k := 1 + r.Intn(3)
		for ; k > 0 && n < len(chain); k-- {
			p.Publish(chain[n])
			n++
		}
		if r.Intn(3) == 0 {
			_ = rig.Ing.Announce(bg, p.Head(), p.AddrInfo())
		} else {
			sync(p)
		}
		time.Sleep(time.Duration(r.Intn(4000)) * time.Microsecond)
	}
	close(hold)
	for _, out := range outs {
		if _, ok := rig.awaitSync(c, out); !ok {
			return
		}
	}
	if atomic.LoadInt32(&held) == 1 {
		c.Count("held_while_syncing", 1)
	}
	if !c.p02final(rig, []*Pub{p, q}, u, fmt.Sprintf("busy %d", i)) {
		return
	}
	sig, _ := interleaving(rig, []*Pub{p, q})
	c.Seen(fmt.Sprint("busy", holdAt, workers, sig))
	closed = rig.Close(c)
}

// p02staged: a chain with advertisements of two providers is staged while one
// of them is being processed, then another sync replaces the staged work.
func (c *Ctx) p02staged() {
	r := c.Rng("staged")
	ids := newIdents(r, 2)
	u := universe(GenOpts{NMh: 12, Salt: "st"})
	p := newPub(ids[0], ids[1])
	defer p.Close()
	hold := make(chan struct{})
	var held int32
	rig := newRig(RigOpts{
		Ingest: func(ic *config.Ingest) { ic.IngestWorkerCount = 3 },
		IXHook: func(op *IxOp) error {
			if op.Prov == ids[1].ID && atomic.CompareAndSwapInt32(&held, 0, 1) {
				<-hold
			}
			return nil
		},
	})
	defer rig.Abandon()
	pub := func(prov int, k int) {
		p.Publish(AdSpec{Prov: prov, Ctx: fmt.Sprint("c", k), Meta: fmt.Sprint("m", k), Mhs: u[k : k+2]})
	}
	sync := func() <-chan cid.Cid {
		out, err := rig.Ing.Sync(bg, p.ID, p.addr, 0, false)
		must(err)
		return out
	}
	pub(1, 0)
	var outs []<-chan cid.Cid
	outs = append(outs, sync())
	if !c.Await("stuck", "first advertisement to reach the index", func() bool { return atomic.LoadInt32(&held) == 1 }) {
		return
	}
	pub(1, 2)
	pub(0, 4)
	outs = append(outs, sync())
	if _, ok := rig.awaitSync(c, outs[1]); !ok { // the head is provider 0's
		return
	}
	pub(1, 6)
	outs = append(outs, sync())
	// Wait until the third sync has fetched its advertisement.
	upTo(time.Second, func() bool {
		for _, x := range p.Fetches() {
			if x == p.Head() {
				return true
			}
		}
		return false
	})
	time.Sleep(50 * time.Millisecond)
	close(hold)
	if _, ok := rig.awaitSync(c, outs[2]); !ok {
		return
	}
	m := newModel()
	p.ModelAll(m)
	d, n := diffIndex(rig.Core, m, u, nil)
	c.Eval(n)
	if d != "" {
		c.Violate("staged-lost", "advertisements staged for a provider that is being processed were lost when a later sync was staged: %s", d)
	}
	c.Seen("staged")
}
