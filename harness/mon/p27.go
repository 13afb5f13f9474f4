package main

import (
	"fmt"
	"net/http"
	"strings"
	"sync/atomic"
	"time"

	"github.com/filecoin-project/storetheindex/config"
	"github.com/ipfs/go-cid"
	"github.com/multiformats/go-multiaddr"
)

func init() {
	register("P27", "random histories of publishing, syncing, redundant and concurrent syncing, announcing, re-syncing, restarting and transient fetch and index failures over chunked, HAMT, shared and removed entries, over HTTP and libp2p; "+
		"whenever the head has been ingested and nothing is in progress, the keys left in the indexer's datastore are listed: only progress and registry records may remain; distinct counts different (history, blocks fetched) pairs",
		runP27, "blocks of entries that can never be decoded are not covered")
}

func runP27(c *Ctx) {
	c.RunN("history", c.N(200, 4000), 8, func(c *Ctx, i int) { c.p27history(i) })
	c.RunN("concurrent", c.N(40, 800), 8, func(c *Ctx, i int) { c.p27concurrent(i) })
}

// noLeftovers lists what is left, after giving work in progress time to end.
func (c *Ctx) noLeftovers(rig *Rig, p *Pub, what string) bool {
	var left []string
	if len(p.Provs) > 1 {
		await(func() bool { left = leftovers(rig.Store, p); return len(left) == 0 })
	} else {
		upTo(500*time.Millisecond, func() bool { left = leftovers(rig.Store, p); return len(left) == 0 })
	}
	c.Eval(len(dsKeys(rig.Store)) + 1)
	if len(left) == 0 {
		return true
	}
	var desc []string
	for _, k := range left {
		d := k
		for n, a := range p.Ads {
			if "/"+a.Cid.String() == k {
				d = fmt.Sprintf("advertisement %d (%v)", n+1, a.Spec)
			}
			for b, x := range a.Blocks {
				if "/"+x.String() == k {
					d = fmt.Sprintf("entries block %d of %d of advertisement %d (%v)", b+1, len(a.Blocks), n+1, a.Spec)
				}
			}
		}
		desc = append(desc, d)
	}
	if len(desc) > 5 {
		desc = desc[:5]
	}
	c.Violate("leftover", "%s: %d blocks left in the datastore: %s", what, len(left), strings.Join(desc, "; "))
	return false
}

func (c *Ctx) p27history(i int) {
	r := c.Rng("history", i)
	nprov := 1
	if r.Intn(5) == 0 {
		nprov = 2
	}
	ids := newIdents(r, nprov)
	o := GenOpts{NProv: nprov, NCtx: 1 + r.Intn(4), NMh: 40, MaxMhs: 1 + r.Intn(20), MaxChunk: 1 + r.Intn(6), Hamt: true, Invalid: r.Intn(3) == 0, Salt: fmt.Sprint("k", i)}
	u := universe(o)
	p := newPub(ids[0], ids[1:]...)
	defer p.Close()
	dt := r.Intn(6) == 0
	batch, seg, workers := 1+r.Intn(8), []int{-1, 1, 2, 3, 2000}[r.Intn(5)], 1+r.Intn(3)
	store, core := memDS(), newCore(0)
	var failIx, failFetch int32 // countdown to one failure
	mk := func() *Rig {
		return newRig(RigOpts{Store: store, Core: core, Listen: dt, Ingest: func(ic *config.Ingest) {
			ic.StoreBatchSize, ic.SyncSegmentDepthLimit, ic.IngestWorkerCount = batch, seg, workers
		}, IXHook: func(op *IxOp) error {
			if atomic.LoadInt32(&failIx) > 0 && atomic.AddInt32(&failIx, -1) == 0 {
				return errFault
			}
			return nil
		}})
	}
	rig := mk()
	defer func() { rig.Abandon() }()
	var d *DtPub
	if dt {
		d = newDtPub(p)
		defer d.Close()
	} else {
		p.SetHook(func(name string, n int) FetchVerdict {
			if atomic.LoadInt32(&failFetch) > 0 && atomic.AddInt32(&failFetch, -1) == 0 {
				return FetchVerdict{Status: http.StatusInternalServerError}
			}
			return FetchVerdict{}
		})
	}
	addr := func() multiaddr.Multiaddr {
		if d != nil {
			d.Refresh()
			return d.Addr()
		}
		return p.addr
	}
	var hist []string
	note := func(f string, a ...interface{}) { hist = append(hist, fmt.Sprintf(f, a...)) }
	what := func() string {
		return fmt.Sprintf("[%s] batch=%d segment=%d workers=%d libp2p=%v", strings.Join(hist, "; "), batch, seg, workers, dt)
	}
	doSync := func(depth int, resync bool) (cid.Cid, bool) {
		out, err := rig.Ing.Sync(bg, p.ID, addr(), depth, resync)
		if err != nil {
			c.Violate("sync-error", "%s: %v", what(), err)
			return cid.Undef, false
		}
		return rig.awaitSync(c, out)
	}
	specs := genChain(r, 4+r.Intn(12), o, u)
	steps := 3 + r.Intn(5)
	for s := 0; s < steps; s++ {
		if len(p.Ads) < len(specs) {
			k := 1 + r.Intn(4)
			for ; k > 0 && len(p.Ads) < len(specs); k-- {
				p.Publish(specs[len(p.Ads)])
			}
			note("publish to %d", len(p.Ads))
		}
		failed := false
		if r.Intn(2) == 0 && nprov == 1 {
			failed = true
			if r.Intn(2) == 0 || dt {
				atomic.StoreInt32(&failIx, int32(1+r.Intn(6)))
				note("index fails once")
			} else {
				atomic.StoreInt32(&failFetch, int32(1+r.Intn(10)))
				note("fetch fails once")
			}
			if _, ok := doSync(0, false); !ok {
				return
			}
			if r.Intn(4) == 0 {
				note("restart")
				if !rig.Close(c) {
					return
				}
				rig = mk()
			}
			atomic.StoreInt32(&failIx, 0)
			atomic.StoreInt32(&failFetch, 0)
		}
		kind := r.Intn(8)
		switch {
		case kind == 0 && !failed:
			note("announce")
			ai := p.AddrInfo()
			ai.Addrs = []multiaddr.Multiaddr{addr()}
			if err := rig.Ing.Announce(bg, p.Head(), ai); err != nil {
				c.Violate("announce-error", "%s: %v", what(), err)
				return
			}
			if nprov == 1 && !c.Await("announce-lost", what(), func() bool { return rig.Latest(p.ID) == p.Head() }) {
				return
			}
			if nprov > 1 {
				if _, ok := doSync(0, false); !ok {
					return
				}
			}
		case kind == 1 && len(hist) > 2 && nprov == 1:
			note("re-sync")
			if _, ok := doSync(0, false); !ok {
				return
			}
			if _, ok := doSync(0, true); !ok {
				return
			}
		default:
			note("sync")
		}
		got, ok := doSync(0, false)
		if !ok {
			return
		}
		if got != p.Head() {
			c.Violate("sync-no-head", "%s: sync delivered %s", what(), got)
			return
		}
		if !c.noLeftovers(rig, p, what()) {
			return
		}
	}
	c.Count("fetches", int64(len(p.Fetches())))
	c.Seen(fmt.Sprint(what(), len(p.Fetches())))
	c.Sample("%s: nothing left of %d fetches", what(), len(p.Fetches()))
	rig.Close(c)
}

// p27concurrent syncs and announces the same publisher from several clients.
func (c *Ctx) p27concurrent(i int) {
	r := c.Rng("concurrent", i)
	ids := newIdents(r, 1)
	o := GenOpts{NCtx: 2, NMh: 30, MaxMhs: 8, MaxChunk: 3, Hamt: true, Salt: fmt.Sprint("kc", i)}
	u := universe(o)
	p := newPub(ids[0])
	defer p.Close()
	dl := delays(c.Rng("delay", i), 2, 1500)
	rig := newRig(RigOpts{Ingest: func(ic *config.Ingest) {
		ic.IngestWorkerCount = 1 + r.Intn(3)
		ic.StoreBatchSize = 2
		ic.SyncSegmentDepthLimit = []int{-1, 1, 2, 2000}[r.Intn(4)]
	}, IXHook: func(*IxOp) error { dl(); return nil }})
	closed := false
	defer func() {
		if !closed {
			rig.Abandon()
		}
	}()
	var outs []<-chan cid.Cid
	n := 0
	for _, a := range genChain(r, 8+r.Intn(8), o, u) {
		p.Publish(a)
		for k := r.Intn(3); k > 0; k-- {
			n++
			if r.Intn(3) == 0 {
				_ = rig.Ing.Announce(bg, p.Head(), p.AddrInfo())
				continue
			}
			out, err := rig.Ing.Sync(bg, p.ID, p.addr, 0, false)
			must(err)
			outs = append(outs, out)
		}
		time.Sleep(time.Duration(r.Intn(2500)) * time.Microsecond)
	}
	for _, out := range outs {
		if _, ok := rig.awaitSync(c, out); !ok {
			return
		}
	}
	what := fmt.Sprintf("concurrent %d: %d advertisements, %d requests", i, len(p.Ads), n)
	if !c.p02final(rig, []*Pub{p}, u, what) {
		return
	}
	settle()
	if !c.noLeftovers(rig, p, what) {
		return
	}
	c.Seen(fmt.Sprint(what, len(p.Fetches())))
	closed = rig.Close(c)
}
