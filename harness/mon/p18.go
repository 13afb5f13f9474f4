package main

import (
	"context"
	"errors"
	"fmt"
	"net/http"
	"sync"
	"sync/atomic"
	"time"

	"github.com/filecoin-project/storetheindex/config"
	"github.com/filecoin-project/storetheindex/internal/registry"
	"github.com/ipfs/go-cid"
	"github.com/libp2p/go-libp2p-core/peer"
)

func init() {
	register("P18", "several publishers, of which some stall, fail or have no or a broken head, receive concurrent announcements and explicit sync requests that are awaited, cancelled at random points, cancelled at an index operation, or abandoned; "+
		"every request's channel must end (a quiescent process with an open channel is a violation), a delivered head must have been processed or have failed, and canary publishers must be ingested meanwhile; "+
		"distinct counts (publisher behaviours, request outcomes, interleaving) signatures",
		runP18, "at most half as many publishers stall as there are ingest workers (one stalled provider can occupy two)", "a request for a stalled publisher may be served only after an earlier one of the same publisher ended", "explicit syncs over libp2p data transfer are cancelled only by closing (go-legs does not stop them)")
}

func runP18(c *Ctx) {
	c.jitterLogs(10, 300)
	c.RunN("storm", c.N(60, 1200), 6, func(c *Ctx, i int) { c.p18storm(i) })
	c.RunN("staged", c.N(40, 600), 6, func(c *Ctx, i int) { c.p18staged(i) })
	c.RunN("shared", c.N(24, 400), 6, func(c *Ctx, i int) { c.p18shared(i) })
	c.RunN("waiters", c.N(16, 200), 4, func(c *Ctx, i int) { c.p18waiters(i) })
	if registry.VerifHooks {
		c.RunN("removed", c.N(40, 600), 6, func(c *Ctx, i int) { c.p18removed(i) })
	}
	c.RunN("moved", c.N(24, 400), 6, func(c *Ctx, i int) { c.p18moved(i) })
	c.RunN("head", c.N(14, 70), 4, func(c *Ctx, i int) { c.p18head(i) })
	c.RunN("import", c.N(12, 120), 4, importSync)
}

type p18req struct {
	p      *Pub
	out    <-chan cid.Cid
	kind   string
	cancel context.CancelFunc
	got    cid.Cid
	done   bool
	// processed index at delivery
	latest int
}

// reader consumes a request's channel and notes what was processed then.
func (q *p18req) read(rig *Rig, wg *sync.WaitGroup, pending *int64) {
	atomic.AddInt64(pending, 1)
	wg.Add(1)
	go func() {
		defer wg.Done()
		x, open := <-q.out
		if open {
			q.got = x
			q.latest = adIndex(q.p, rig.Latest(q.p.ID))
		}
		tick()
		q.done = true
		atomic.AddInt64(pending, -1)
	}()
}

func (c *Ctx) p18storm(i int) {
	r := c.Rng("storm", i)
	behaviours := []string{"good", "good", "stall", "fail", "nohead", "slow", "flaky"}
	np := 3 + r.Intn(4)
	ids := newIdents(r, np+1)
	release := make(chan struct{})
	released := false
	rel := func() {
		if !released {
			released = true
			close(release)
		}
	}
	defer rel()
	var pubs []*Pub
	beh := map[peer.ID]string{}
	stalls := 0
	var universeAll []string
	sig := ""
	for k := 0; k < np; k++ {
		o := GenOpts{NCtx: 2, NMh: 20, MaxMhs: 6, MaxChunk: 2, Hamt: true, Salt: fmt.Sprintf("s%d-%d", i, k)}
		u := universe(o)
		universeAll = append(universeAll, u...)
		p := newPub(ids[k])
		defer p.Close()
		b := behaviours[r.Intn(len(behaviours))]
		if b == "stall" {
			stalls++
		}
		beh[p.ID] = b
		sig += b + ","
		p.PublishAll(genChain(r, 3+r.Intn(8), o, u))
		blocks := map[string]bool{}
		for _, a := range p.Ads {
			for _, x := range a.Blocks {
				if len(blocks) == 0 || r.Intn(6) == 0 {
					blocks[x.String()] = true
				}
			}
		}
		stallHead := r.Intn(4) == 0
		rr := c.Rng("slow", i, k)
		var mu sync.Mutex
		p.SetHook(func(name string, n int) FetchVerdict {
			switch b {
			case "stall":
				if blocks[name] || name == "head" && stallHead {
					return FetchVerdict{Wait: release}
				}
			case "fail":
				if blocks[name] {
					return FetchVerdict{Status: http.StatusInternalServerError}
				}
			case "nohead":
				if name == "head" {
					return FetchVerdict{Status: http.StatusNoContent}
				}
			case "slow", "flaky":
				mu.Lock()
				d := rr.Intn(4000)
				bad := b == "flaky" && rr.Intn(12) == 0
				mu.Unlock()
				time.Sleep(time.Duration(d) * time.Microsecond)
				return FetchVerdict{Abort: bad}
			}
			return FetchVerdict{}
		})
		pubs = append(pubs, p)
	}
	canary := newPub(ids[np])
	defer canary.Close()
	cu := universe(GenOpts{NMh: 20, Salt: fmt.Sprint("canary", i)})
	canary.PublishAll(genChain(r, 4, GenOpts{NCtx: 2, NMh: 20, MaxMhs: 5, MaxChunk: 2, Salt: fmt.Sprint("canary", i)}, cu))

	var cmu sync.Mutex
	var atOp []context.CancelFunc // cancelled at the next index operations
	rig := newRig(RigOpts{
		Ingest: func(ic *config.Ingest) {
			ic.IngestWorkerCount = 2*stalls + 1 + r.Intn(2)
			ic.StoreBatchSize = 2
			ic.SyncSegmentDepthLimit = []int{-1, 1, 3, 2000}[r.Intn(4)]
		},
		IXHook: func(op *IxOp) error {
			cmu.Lock()
			if len(atOp) > 0 {
				atOp[0]()
				atOp = atOp[1:]
			}
			cmu.Unlock()
			return nil
		},
	})
	closed := false
	defer func() {
		if !closed {
			rel()
			rig.Abandon()
		}
	}()
	var reqs []*p18req
	var wg sync.WaitGroup
	var pend, pendStalled int64
	nreq := 12 + r.Intn(24)
	for k := 0; k < nreq; k++ {
		p := pubs[r.Intn(len(pubs))]
		if r.Intn(6) == 0 {
			_ = rig.Ing.Announce(bg, p.Head(), p.AddrInfo())
			continue
		}
		ctx, cancel := context.WithCancel(bg)
		q := &p18req{p: p, kind: []string{"wait", "cancel", "cancel-op", "abandon", "cancelled"}[r.Intn(5)], cancel: cancel}
		if q.kind == "cancelled" {
			cancel()
		}
		var err error
		q.out, err = rig.Ing.Sync(ctx, p.ID, p.addr, []int{0, 0, 0, 1, 3, -1}[r.Intn(6)], r.Intn(8) == 0)
		if err != nil {
			c.Violate("sync-error", "Sync: %v", err)
			return
		}
		reqs = append(reqs, q)
		switch q.kind {
		case "cancel":
			d := time.Duration(r.Intn(20000)) * time.Microsecond
			time.AfterFunc(d, func() { cancel(); tick() })
		case "cancel-op":
			cmu.Lock()
			atOp = append(atOp, cancel)
			cmu.Unlock()
		}
		switch {
		case q.kind == "abandon":
			// Nobody reads the channel; checked below once everything ended.
		case beh[p.ID] == "stall":
			// Requests of one publisher wait for each other in go-legs.
			q.read(rig, &wg, &pendStalled)
		default:
			q.read(rig, &wg, &pend)
		}
		time.Sleep(time.Duration(r.Intn(1500)) * time.Microsecond)
	}
	// The canary is ingested although others stall and fail.
	got, ok := rig.SyncWait(c, bg, canary, 0, false)
	if !ok {
		return
	}
	m := newModel()
	canary.ModelAll(m)
	d, n := diffIndex(rig.Core, m, cu, map[peer.ID]bool{canary.ID: true})
	c.Eval(n + 1)
	if got != canary.Head() || d != "" {
		c.Violate("canary", "publishers [%s], %d requests: canary sync delivered %s, want %s; %s", sig, nreq, got, canary.Head(), d)
		return
	}
	if !c.Await("sync-never-ends", fmt.Sprintf("publishers [%s]: sync requests of publishers that do not stall (%d open)", sig, atomic.LoadInt64(&pend)), func() bool { return atomic.LoadInt64(&pend) == 0 }) {
		return
	}
	rel()
	cmu.Lock()
	for _, f := range atOp {
		f()
	}
	atOp = nil
	cmu.Unlock()
	if !c.Await("sync-never-ends", "sync requests of publishers that stalled, after they went on", func() bool { return atomic.LoadInt64(&pendStalled) == 0 }) {
		return
	}
	// Half of the time nobody ever reads what was abandoned.
	for _, q := range reqs {
		if q.kind == "abandon" && i%2 == 0 {
			q.read(rig, &wg, &pend)
		}
	}
	if !c.Await("sync-never-ends", "abandoned sync requests", func() bool { return atomic.LoadInt64(&pend) == 0 }) {
		return
	}
	wg.Wait()
	outcomes := ""
	for _, q := range reqs {
		c.Eval(1)
		o := "c"
		if q.got.Defined() {
			o = "h"
			k := adIndex(q.p, q.got)
			if k < 0 {
				c.Violate("delivered-not-head", "request %s to %s publisher delivered %s", q.kind, beh[q.p.ID], q.got)
				return
			}
			_ = k
		}
		if q.kind == "cancelled" && q.got.Defined() {
			c.Count("delivered_although_cancelled", 1)
		}
		outcomes += o
		q.cancel()
	}
	c.Count("requests", int64(len(reqs)))
	c.Seen(sig + outcomes)
	c.Sample("publishers [%s] requests ended %s", sig, outcomes)
	// Everyone can still be ingested now that nothing stalls or fails.
	for _, p := range pubs {
		p.SetHook(nil)
		var got cid.Cid
		for try := 0; try < 4 && got != p.Head(); try++ {
			settle()
			if got, ok = rig.SyncWait(c, bg, p, 0, false); !ok {
				return
			}
		}
		if got != p.Head() {
			c.Violate("later-sync", "publishers [%s]: a later sync of a %s publisher delivered %s", sig, beh[p.ID], got)
			return
		}
		c.Eval(1)
	}
	closed = rig.Close(c)
}

// p18staged: a provider is held at an index operation while further syncs are
// staged behind it; then an index operation fails, or not. All must end, and
// what they deliver must be processed or have failed.
func (c *Ctx) p18staged(i int) {
	r := c.Rng("staged", i)
	o := GenOpts{NCtx: 2, NMh: 30, MaxMhs: 6, MaxChunk: 3, Salt: fmt.Sprint("st", i)}
	u := universe(o)
	p := newPub(newIdent(r))
	defer p.Close()
	hold := make(chan struct{})
	var held int32
	holdAt := int64(1 + r.Intn(4))
	failAt := int64(0)
	if r.Intn(3) != 0 {
		failAt = holdAt + int64(r.Intn(10))
	}
	var nop int64
	rig := newRig(RigOpts{
		Ingest: func(ic *config.Ingest) {
			ic.IngestWorkerCount = 1 + r.Intn(3)
			ic.StoreBatchSize = 2
			ic.SyncSegmentDepthLimit = []int{-1, 1, 2000}[r.Intn(3)]
		},
		IXHook: func(op *IxOp) error {
			n := atomic.AddInt64(&nop, 1)
			if n == holdAt {
				atomic.StoreInt32(&held, 1)
				<-hold
			}
			if n == failAt {
				return errors.New("verifmon: injected index failure")
			}
			return nil
		},
	})
	closed := false
	opened := false
	defer func() {
		if !opened {
			close(hold)
		}
		if !closed {
			rig.Abandon()
		}
	}()
	chain := genChain(r, 14, o, u)
	n := 2 + r.Intn(3)
	p.PublishAll(chain[:n])
	var wg sync.WaitGroup
	var pend int64
	var reqs []*p18req
	ask := func() {
		out, err := rig.Ing.Sync(bg, p.ID, p.addr, 0, false)
		must(err)
		q := &p18req{p: p, out: out}
		reqs = append(reqs, q)
		q.read(rig, &wg, &pend)
	}
	ask()
	await(func() bool { return atomic.LoadInt32(&held) == 1 || atomic.LoadInt64(&pend) == 0 })
	for n < len(chain) {
		for k := 1 + r.Intn(4); k > 0 && n < len(chain); k-- {
			p.Publish(chain[n])
			n++
		}
		for k := r.Intn(3); k >= 0; k-- {
			ask()
		}
		if r.Intn(4) == 0 {
			_ = rig.Ing.Announce(bg, p.Head(), p.AddrInfo())
		}
		if r.Intn(2) == 0 {
			// Let this sync fetch its head before the next one starts.
			h := p.Head()
			upTo(30*time.Millisecond, func() bool {
				for _, x := range p.Fetches() {
					if x == h {
						return true
					}
				}
				return false
			})
			time.Sleep(time.Duration(r.Intn(3000)) * time.Microsecond)
		}
	}
	opened = true
	close(hold)
	if !c.Await("staged-sync-never-ends", fmt.Sprintf("syncs staged behind a busy provider (%d open, hold at %d, fail at %d)", atomic.LoadInt64(&pend), holdAt, failAt), func() bool { return atomic.LoadInt64(&pend) == 0 }) {
		return
	}
	wg.Wait()
	failed := failAt != 0 && atomic.LoadInt64(&nop) >= failAt
	for _, q := range reqs {
		c.Eval(1)
		if !q.got.Defined() {
			continue
		}
		k := adIndex(p, q.got)
		if k < 0 || !failed && q.latest < k {
			c.Violate("delivered-unprocessed", "a sync request delivered advertisement %d although nothing failed and only %d was processed", k, q.latest)
			return
		}
	}
	c.Seen(fmt.Sprint(holdAt, failAt, failed, len(reqs)))
	settle()
	got, ok := rig.SyncWait(c, bg, p, 0, false)
	if !ok {
		return
	}
	m := newModel()
	p.ModelAll(m)
	d, k := diffIndex(rig.Core, m, u, nil)
	c.Eval(k)
	if got != p.Head() || d != "" {
		if got == p.Head() && rig.Latest(p.ID) != p.Head() {
			// The failing operation hit this one.
			if got, ok = rig.SyncWait(c, bg, p, 0, false); !ok {
				return
			}
			d, _ = diffIndex(rig.Core, m, u, nil)
		}
		if got != p.Head() || d != "" {
			c.Violate("staged-final", "final sync delivered %s, want %s: %s", got, p.Head(), d)
			return
		}
	}
	closed = rig.Close(c)
}

// p18shared: several publishers publish for one provider. While that provider
// is held at an index operation of the first, the others are synced, some of
// them again with new advertisements. All requests must end, with everything
// in the index.
func (c *Ctx) p18shared(i int) {
	r := c.Rng("shared", i)
	np := 3 + r.Intn(3)
	ids := newIdents(r, np+1)
	prov := ids[np]
	hold := make(chan struct{})
	var held, opened int32
	holdAt := int64(1 + r.Intn(3))
	var nop int64
	rig := newRig(RigOpts{
		Ingest: func(ic *config.Ingest) {
			ic.IngestWorkerCount = 1 + r.Intn(3)
			ic.StoreBatchSize = 2
			ic.SyncSegmentDepthLimit = []int{-1, 1, 2000}[r.Intn(3)]
		},
		IXHook: func(op *IxOp) error {
			if atomic.AddInt64(&nop, 1) == holdAt {
				atomic.StoreInt32(&held, 1)
				<-hold
			}
			return nil
		},
	})
	open := func() {
		if atomic.CompareAndSwapInt32(&opened, 0, 1) {
			close(hold)
		}
	}
	closed := false
	defer func() {
		open()
		if !closed {
			rig.Abandon()
		}
	}()
	m := newModel()
	var us []string
	var pubs []*Pub
	n := 0
	publish := func(k int) {
		a := AdSpec{Prov: 1, Ctx: fmt.Sprintf("pub-%d-%d", k, r.Intn(2)), Meta: fmt.Sprint("m", n), ChunkLen: 2}
		for j := 0; j < 3; j++ {
			h := string(testMh(fmt.Sprintf("sh-%d-%d-%d", i, n, j)))
			a.Mhs = append(a.Mhs, h)
			us = append(us, h)
		}
		n++
		pubs[k].Publish(a)
		m.Apply(prov.ID, a)
	}
	for k := 0; k < np; k++ {
		p := newPub(ids[k], prov)
		defer p.Close()
		pubs = append(pubs, p)
		for j := 1 + r.Intn(3); j > 0; j-- {
			publish(k)
		}
	}
	var wg sync.WaitGroup
	var pend int64
	var reqs []*p18req
	ask := func(k int) {
		out, err := rig.Ing.Sync(bg, pubs[k].ID, pubs[k].addr, 0, false)
		must(err)
		q := &p18req{p: pubs[k], out: out}
		reqs = append(reqs, q)
		q.read(rig, &wg, &pend)
	}
	ask(0)
	await(func() bool { return atomic.LoadInt32(&held) == 1 || atomic.LoadInt64(&pend) == 0 })
	order := ""
	for s := np + r.Intn(2*np); s > 0; s-- {
		k := r.Intn(np)
		order += fmt.Sprint(k)
		if r.Intn(3) == 0 {
			publish(k)
		}
		ask(k)
		// Usually let this sync end before the next one.
		if r.Intn(4) != 0 {
			h := pubs[k].Ads[0].Cid
			upTo(30*time.Millisecond, func() bool {
				for _, x := range pubs[k].Fetches() {
					if x == h {
						return true
					}
				}
				return false
			})
			time.Sleep(time.Duration(2000+r.Intn(3000)) * time.Microsecond)
		}
	}
	settleShort()
	open()
	what := fmt.Sprintf("%d publishers for one provider, synced in the order %s while it was held at index operation %d", np, order, holdAt)
	if !c.Await("shared-sync-never-ends", what, func() bool { return atomic.LoadInt64(&pend) == 0 }) {
		return
	}
	wg.Wait()
	asked := map[int]bool{}
	for _, q := range reqs {
		c.Eval(1)
		for k := range pubs {
			if pubs[k] == q.p {
				asked[k] = true
			}
		}
		if k := adIndex(q.p, q.got); k < 0 || q.latest < k {
			c.Violate("delivered-unprocessed", "%s: a sync request delivered advertisement %d although nothing failed and only %d was processed", what, k, q.latest)
			return
		}
	}
	for k := range pubs {
		if !asked[k] {
			if _, ok := rig.SyncWait(c, bg, pubs[k], 0, false); !ok {
				return
			}
		}
	}
	d, k := diffIndex(rig.Core, m, us, nil)
	c.Eval(k)
	if d != "" {
		c.Violate("shared-lost", "%s: %s", what, d)
		return
	}
	c.Seen(what)
	closed = rig.Close(c)
}

// p18waiters: many requests wait for the same long chain; some are cancelled
// while processed-events arrive, some never read.
func (c *Ctx) p18waiters(i int) {
	r := c.Rng("waiters", i)
	o := GenOpts{NCtx: 3, NMh: 30, MaxMhs: 3, MaxChunk: 3, Salt: fmt.Sprint("w", i)}
	u := universe(o)
	ids := newIdents(r, 2)
	p, q := newPub(ids[0]), newPub(ids[1])
	defer p.Close()
	defer q.Close()
	p.PublishAll(genChain(r, 40+r.Intn(60), o, u))
	q.PublishAll(genChain(r, 10, GenOpts{NCtx: 3, NMh: 30, MaxMhs: 3, MaxChunk: 3, Salt: fmt.Sprint("wq", i)}, u))
	var cmu sync.Mutex
	var cancels []context.CancelFunc
	cr := c.Rng("waiters-cancel", i)
	rig := newRig(RigOpts{
		Ingest: func(ic *config.Ingest) { ic.IngestWorkerCount = 2 },
		IXHook: func(op *IxOp) error {
			cmu.Lock()
			var f context.CancelFunc
			if len(cancels) > 0 && cr.Intn(2) == 0 {
				f = cancels[0]
				cancels = cancels[1:]
			}
			cmu.Unlock()
			if f != nil {
				if cr.Intn(2) == 0 {
					go f()
				} else {
					f()
				}
			}
			return nil
		},
	})
	closed := false
	defer func() {
		if !closed {
			rig.Abandon()
		}
	}()
	var outs []<-chan cid.Cid
	n := 20 + r.Intn(40)
	for k := 0; k < n; k++ {
		ctx, cancel := context.WithCancel(bg)
		out, err := rig.Ing.Sync(ctx, p.ID, p.addr, 0, false)
		must(err)
		outs = append(outs, out)
		if k%3 != 0 {
			cmu.Lock()
			cancels = append(cancels, cancel)
			cmu.Unlock()
		} else {
			defer cancel()
		}
	}
	got, ok := rig.SyncWait(c, bg, q, 0, false)
	if !ok {
		return
	}
	if got != q.Head() {
		c.Violate("waiters-canary", "sync of another publisher delivered %s, want %s", got, q.Head())
		return
	}
	heads := 0
	for k, out := range outs {
		x, ok := rig.awaitSync(c, out)
		if !ok {
			return
		}
		c.Eval(1)
		if x == p.Head() {
			heads++
			if l := rig.Latest(p.ID); l != p.Head() {
				c.Violate("waiters-unprocessed", "request %d was told that the head is processed, but latest is %s", k, l)
				return
			}
		}
	}
	c.Count("waiters", int64(n))
	c.Count("waiters_told", int64(heads))
	c.Seen(fmt.Sprint("waiters", n, heads))
	closed = rig.Close(c)
}

// p18head: heads that are missing, broken or signed by someone else.
func (c *Ctx) p18head(i int) {
	r := c.Rng("head", i)
	ids := newIdents(r, 2)
	u := universe(GenOpts{NMh: 10, Salt: fmt.Sprint("h", i)})
	p := newPub(ids[0])
	defer p.Close()
	kinds := []string{"none", "500", "garbage", "foreign", "abort", "missing-block", "hang-cancel"}
	kind := kinds[i%len(kinds)]
	p.Publish(AdSpec{Ctx: "a", Meta: "a", Mhs: u[:4], ChunkLen: 2})
	head := p.Head()
	never := make(chan struct{})
	defer close(never)
	var inhang int32
	p.SetHook(func(name string, n int) FetchVerdict {
		if name != "head" {
			return FetchVerdict{}
		}
		switch kind {
		case "none":
			return FetchVerdict{Status: http.StatusNoContent}
		case "500":
			return FetchVerdict{Status: 500}
		case "garbage":
			return FetchVerdict{Body: []byte("{{nothing")}
		case "foreign":
			return FetchVerdict{Body: encodeHead(head, ids[1].Priv)}
		case "abort":
			return FetchVerdict{Abort: true}
		case "missing-block":
			x := cid.NewCidV1(cid.DagJSON, testMh("missing"))
			return FetchVerdict{Body: encodeHead(x, p.Priv)}
		default:
			atomic.StoreInt32(&inhang, 1)
			return FetchVerdict{Wait: never}
		}
	})
	rig := newRig(RigOpts{})
	defer rig.Close(c)
	ctx, cancel := context.WithCancel(bg)
	defer cancel()
	out, err := rig.Ing.Sync(ctx, p.ID, p.addr, 0, false)
	must(err)
	if kind == "hang-cancel" {
		if await(func() bool { return atomic.LoadInt32(&inhang) == 1 }) != waitOK {
			c.Inconclusive("head was never fetched")
			return
		}
		cancel()
	}
	got, ok := rig.awaitSync(c, out)
	if !ok {
		return
	}
	c.Eval(1)
	if got.Defined() {
		c.Violate("bad-head-delivered", "head kind %s: sync delivered %s", kind, got)
		return
	}
	if l := rig.Latest(p.ID); l.Defined() || rig.Reg.IsRegistered(p.ID) {
		c.Violate("bad-head-effect", "head kind %s: latest is %s, registered %v", kind, l, rig.Reg.IsRegistered(p.ID))
		return
	}
	p.SetHook(nil)
	if got, ok = rig.SyncWait(c, bg, p, 0, false); !ok {
		return
	}
	if got != p.Head() {
		c.Violate("after-bad-head", "head kind %s: the next sync delivered %s", kind, got)
	}
	c.Seen("head " + kind)
}

// p18moved: the head of a publisher moves back and forth on its chain, and a
// second publisher serves the same chain; every sync must end and deliver the
// head, whether that is processed already or not.
func (c *Ctx) p18moved(i int) {
	r := c.Rng("moved", i)
	ids := newIdents(r, 2)
	o := GenOpts{NCtx: 2, NMh: 24, MaxMhs: 5, MaxChunk: 2, Hamt: true, Salt: fmt.Sprint("mv", i)}
	u := universe(o)
	p, mirror := newPub(ids[0]), newPub(ids[1], ids[0])
	defer p.Close()
	defer mirror.Close()
	p.PublishAll(genChain(r, 9, o, u))
	p.mu.Lock()
	for k, b := range p.blocks {
		mirror.blocks[k] = b
	}
	p.mu.Unlock()
	rig := newRig(RigOpts{Ingest: func(ic *config.Ingest) {
		ic.IngestWorkerCount = 1 + r.Intn(3)
		ic.StoreBatchSize = 2
		ic.SyncSegmentDepthLimit = []int{-1, 1, 3, 2000}[r.Intn(4)]
	}})
	closed := false
	defer func() {
		if !closed {
			rig.Abandon()
		}
	}()
	moves := ""
	for s := 0; s < 10; s++ {
		q, name := p, "p"
		if r.Intn(3) == 0 {
			q, name = mirror, "m"
		}
		k := r.Intn(len(p.Ads))
		resync := r.Intn(6) == 0
		if s == 9 {
			q, name, k, resync = p, "p", len(p.Ads)-1, true
		}
		q.SetHead(p.Ads[k].Cid)
		moves += fmt.Sprintf("%s%d", name, k)
		if resync {
			moves += "r"
		}
		moves += " "
		got, ok := rig.SyncWait(c, bg, q, 0, resync)
		if !ok {
			return
		}
		c.Eval(1)
		if got != p.Ads[k].Cid {
			c.Violate("moved-head", "moves of the head [%s]: the last sync delivered %s, want advertisement %d, %s", moves, got, k, p.Ads[k].Cid)
			return
		}
	}
	m := newModel()
	p.ModelAll(m)
	settle()
	d, n := diffIndex(rig.Core, m, u, nil)
	c.Eval(n)
	if d != "" {
		c.Violate("moved-final", "moves of the head [%s]: %s", moves, d)
		return
	}
	c.Seen("moved " + moves)
	closed = rig.Close(c)
}

// p18removed: the provider is removed from the registry, because it is silent
// for too long, while a sync with its publisher is in progress; then further
// syncs are requested or heads announced.
func (c *Ctx) p18removed(i int) {
	r := c.Rng("removed", i)
	ids := newIdents(r, 1)
	o := GenOpts{NCtx: 2, NMh: 24, MaxMhs: 5, MaxChunk: 2, Hamt: true, Salt: fmt.Sprint("rm", i)}
	u := universe(o)
	p := newPub(ids[0])
	defer p.Close()
	rig := newRig(RigOpts{Ingest: func(ic *config.Ingest) { ic.IngestWorkerCount = 1 + r.Intn(3); ic.StoreBatchSize = 2 }})
	closed := false
	defer func() {
		if !closed {
			rig.Abandon()
		}
	}()
	p.PublishAll(genChain(r, 2, o, u))
	if _, ok := rig.SyncWait(c, bg, p, 0, false); !ok {
		return
	}
	p.PublishAll(genChain(r, 3, o, u))
	hold := make(chan struct{})
	var held int32
	released := false
	defer func() {
		if !released {
			close(hold)
		}
	}()
	at := 1 + r.Intn(6)
	var nf int32
	p.SetHook(func(name string, _ int) FetchVerdict {
		if int(atomic.AddInt32(&nf, 1)) == at {
			atomic.StoreInt32(&held, 1)
			tick()
			return FetchVerdict{Wait: hold}
		}
		return FetchVerdict{}
	})
	var outs []<-chan cid.Cid
	req := func() {
		out, err := rig.Ing.Sync(bg, p.ID, p.addr, 0, false)
		must(err)
		outs = append(outs, out)
	}
	req()
	upTo(300*time.Millisecond, func() bool { return atomic.LoadInt32(&held) == 1 || rig.Latest(p.ID) == p.Head() })
	wasHeld := atomic.LoadInt32(&held) == 1
	far := registry.VerifPolling{Interval: 1e6 * time.Hour, RetryAfter: 1e6 * time.Hour, StopAfter: 1e6 * time.Hour}
	for k := 0; k < 2; k++ {
		rig.Reg.VerifPoll(far, map[peer.ID]registry.VerifPolling{p.ID: {}})
	}
	settleShort()
	removed := !rig.Reg.IsRegistered(p.ID)
	n := 1 + r.Intn(3)
	for k := 0; k < n; k++ {
		if r.Intn(2) == 0 {
			p.PublishAll(genChain(r, 1, o, u))
		}
		if r.Intn(2) == 0 {
			req()
		} else if err := rig.Ing.Announce(bg, p.Head(), p.AddrInfo()); err != nil {
			c.Violate("announce-error", "removed %d: Announce: %v", i, err)
			return
		}
		settleShort()
	}
	released = true
	close(hold)
	for _, out := range outs {
		if _, ok := rig.awaitSync(c, out); !ok {
			return
		}
		c.Eval(1)
	}
	what := fmt.Sprintf("removed %d: provider removed=%v with fetch %d held=%v, then %d requests", i, removed, at, wasHeld, n)
	got, ok := rig.SyncWait(c, bg, p, 0, false)
	if !ok {
		return
	}
	if got != p.Head() {
		c.Violate("removed-sync", "%s: the next sync delivers %s, not the head", what, got)
		return
	}
	m := newModel()
	p.ModelAll(m)
	d, k := diffIndex(rig.Core, m, u, nil)
	c.Eval(k)
	if d != "" {
		c.Violate("removed-index", "%s: %s", what, d)
		return
	}
	if removed && wasHeld {
		c.Count("removed_during_sync", 1)
		c.Seen(fmt.Sprint("removed", at, n, len(outs)))
	}
	closed = rig.Close(c)
}
