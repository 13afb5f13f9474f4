package main

import (
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sync/atomic"
	"time"

	indexer "github.com/filecoin-project/go-indexer-core"
	"github.com/filecoin-project/go-indexer-core/engine"
	"github.com/filecoin-project/go-indexer-core/store/storethehash"
	"github.com/filecoin-project/storetheindex/config"
	"github.com/ipfs/go-cid"
	"github.com/multiformats/go-multihash"
)

func init() {
	register("P03", "for each random chain, the mutating datastore and index operations of an uninterrupted ingestion are counted, and ingestion is then stopped just before the k-th such operation for every k or, in long chains, an evenly spaced sample (at most 160 quick, 1000 thorough), "+
		"then, restarted on the surviving state, and checked: the effects of everything up to the reported latest advertisement are in the index, and a further sync brings the index to the model's state; also stops during "+
		"incremental syncs, during recovery (two and three stops) and during re-syncs; distinct counts (chain, stop point) pairs that interrupted ingestion",
		runP03, "one provider per publisher", "each datastore or index operation is atomic and durable once it returned (see the known finding for the index store's write buffer)")
}

type p03plan struct {
	pre    int     // advertisements ingested before the interrupted sync
	stops  []int64 // stop points, one per life
	resync bool
	more   int // advertisements published while down
	seg    int
	batch  int
	ann    bool
}

func runP03(c *Ctx) {
	n := c.N(60, 600)
	c.RunN("chain", n, 8, func(c *Ctx, i int) {
		r := c.Rng("chain", i)
		o := GenOpts{NCtx: 1 + r.Intn(4), NMh: 24, MaxMhs: 8, MaxChunk: 4, Hamt: true, Salt: fmt.Sprint("k", i)}
		u := universe(o)
		specs := genChain(r, 3+r.Intn(9), o, u)
		id := newIdent(r)
		plan := p03plan{seg: []int{-1, 1, 2, 2000}[r.Intn(4)], batch: []int{1, 2, 5, 100}[r.Intn(4)], resync: i%4 == 3, ann: i%4 == 2}
		if r.Intn(2) == 0 {
			plan.pre = r.Intn(len(specs))
		}
		if plan.resync {
			plan.pre = len(specs)
		}
		if r.Intn(3) == 0 && !plan.resync {
			plan.more = 1 + r.Intn(2)
		}
		plan.more = min(plan.more, len(specs)-1)
		total := c.p03run(id, specs, u, plan, true)
		if total < 0 {
			return
		}
		c.Count("operations_of_uninterrupted_runs", total)
		step := int64(1)
		if lim := int64(c.N(160, 1000)); total > lim {
			step = total/lim + 1
		}
		for k := int64(1); k <= total && !c.Failed(); k += step {
			p := plan
			p.stops = []int64{k}
			switch r.Intn(6) {
			case 0:
				p.stops = append(p.stops, 1+r.Int63n(total))
			case 1:
				p.stops = append(p.stops, 1+r.Int63n(total), 1+r.Int63n(total))
			}
			c.p03run(id, specs, u, p, false)
		}
	})
	c.Run("unflushed", func(c *Ctx) { c.p03flush() })
}

type mhT = multihash.Multihash

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

// p03run plays one plan. It returns the number of mutating operations of the
// (last) interrupted sync, or -1 after a violation.
func (c *Ctx) p03run(id Ident, specs []AdSpec, u []string, plan p03plan, count bool) int64 {
	p := newPub(id)
	defer p.Close()
	store := memDS()
	core := newCore(0)
	opts := func(g *Gate) RigOpts {
		return RigOpts{Store: store, Core: core, Gate: g, Ingest: func(ic *config.Ingest) {
			ic.SyncSegmentDepthLimit = plan.seg
			ic.StoreBatchSize = plan.batch
			ic.IngestWorkerCount = 1
		}}
	}
	where := func() string { return fmt.Sprintf("chain [%s] plan %+v", chainString(specs), plan) }
	// Distinct chains per run would make CIDs differ; the same identity and
	// specs give the same chain each time.
	pub := len(specs) - plan.more
	if plan.pre > pub {
		plan.pre = pub
	}
	p.PublishAll(specs[:plan.pre])
	if plan.pre > 0 {
		rig := newRig(opts(nil))
		got, ok := rig.SyncWait(c, bg, p, 0, false)
		if !ok || got != p.Head() {
			c.Violate("sync", "%s: initial sync delivered %s", where(), got)
			rig.Abandon()
			return -1
		}
		if !rig.Close(c) {
			return -1
		}
	}
	p.PublishAll(specs[plan.pre:pub])
	var ops int64
	interrupted := 0
	for life := 0; life <= len(plan.stops); life++ {
		last := life == len(plan.stops)
		g := &Gate{}
		stopped := make(chan struct{})
		g.onCut = func() { close(stopped) }
		if !last {
			atomic.StoreInt64(&g.at, plan.stops[life])
		}
		if life > 0 && life == len(plan.stops) {
			p.PublishAll(specs[pub:])
			pub = len(specs)
		}
		if last && !count {
			break
		}
		rig, err := tryRig(opts(g))
		if err != nil {
			if g.IsCut() {
				interrupted++
				continue
			}
			c.Violate("restart", "%s: restart failed: %v", where(), err)
			return -1
		}
		if life > 0 && !plan.resync {
			if !c.p03state(rig, p, u, where) {
				rig.Abandon()
				return -1
			}
		}
		var out <-chan cid.Cid
		if plan.ann && life == 0 && !count {
			if err := rig.Ing.Announce(bg, p.Head(), p.AddrInfo()); err != nil {
				c.Violate("announce", "%s: %v", where(), err)
				return -1
			}
			ch := make(chan cid.Cid)
			out = ch
		} else {
			o, err := rig.Ing.Sync(bg, p.ID, p.addr, 0, plan.resync)
			must(err)
			out = o
		}
		ended := false
		okw := c.Await("sync-stuck", "sync to end or the stop point: "+where(), func() bool {
			if isDone(stopped) {
				return true
			}
			select {
			case <-out:
				ended = true
			default:
			}
			if plan.ann && life == 0 && !count {
				if l, err := rig.Ing.GetLatestSync(p.ID); err == nil && l == p.Head() {
					ended = true
				}
			}
			return ended
		})
		if !okw {
			return -1
		}
		if isDone(stopped) {
			interrupted++
			// What the stopped process still does can have no effect.
			rig.Abandon()
			continue
		}
		ops = g.Ops()
		g.Cut()
		if !rig.Close(c) {
			return -1
		}
	}
	// The last life: check, sync, check.
	if pub < len(specs) {
		p.PublishAll(specs[pub:])
	}
	rig, err := tryRig(opts(nil))
	if err != nil {
		c.Violate("restart", "%s: restart failed: %v", where(), err)
		return -1
	}
	// An interrupted re-sync is repeated by requesting it again.
	if !plan.resync && !c.p03state(rig, p, u, where) {
		rig.Abandon()
		return -1
	}
	got, ok := rig.SyncWait(c, bg, p, 0, plan.resync)
	if !ok {
		return -1
	}
	if got != p.Head() {
		c.Violate("recovery-sync", "%s: the sync after the restart delivered %s, not the head %s", where(), got, p.Head())
		rig.Abandon()
		return -1
	}
	m := newModel()
	p.ModelAll(m)
	d, n := diffIndex(core, m, u, nil)
	c.Eval(n)
	if d != "" {
		c.Violate("recovered-index-differs", "%s: after restart and sync: %s", where(), d)
	} else if !rig.Reg.IsRegistered(p.ID) {
		c.Violate("recovered-registry", "%s: the provider is not registered after restart and sync", where())
	}
	if interrupted > 0 {
		c.Count("interruptions", int64(interrupted))
		c.Seen(where())
		if interrupted > 1 {
			c.Count("repeated_interruptions", 1)
		}
		c.Sample("%s", where())
	}
	if !rig.Close(c) {
		return -1
	}
	return ops
}

// p03state checks that everything up to the reported latest advertisement has
// its effects in the index.
func (c *Ctx) p03state(rig *Rig, p *Pub, u []string, where func() string) bool {
	l := rig.Latest(p.ID)
	if l == cid.Undef {
		return true
	}
	at := -1
	for i, a := range p.Ads {
		if a.Cid == l {
			at = i
		}
	}
	if at < 0 {
		c.Violate("latest-unknown", "%s: reported latest %s is not in the chain", where(), l)
		return false
	}
	m := newModel()
	for _, a := range p.Ads[:at+1] {
		m.Apply(a.Prov, a.Spec)
	}
	later := map[string]bool{}
	for _, a := range p.Ads[at+1:] {
		later[a.Spec.Ctx] = true
	}
	// Compare only contexts that no later advertisement touches.
	for k := range m.recs {
		if later[k.ctx] {
			delete(m.recs, k)
		}
	}
	d, n := diffIndex(ctxFilter{rig.Core, later}, m, u, nil)
	c.Eval(n)
	c.Count("states_after_restart", 1)
	if d != "" {
		c.Violate("reported-but-missing", "%s: latest synced is reported as advertisement %d, but its or older effects are not in the index: %s", where(), at, d)
		return false
	}
	return true
}

// ctxFilter hides records of some contexts.
type ctxFilter struct {
	g    getter
	hide map[string]bool
}

func (f ctxFilter) Get(m mhT) ([]indexer.Value, bool, error) {
	vals, found, err := f.g.Get(m)
	var out []indexer.Value
	for _, v := range vals {
		if !f.hide[string(v.ContextID)] {
			out = append(out, v)
		}
	}
	return out, found && len(out) > 0, err
}

// p03flush: the index store buffers writes; a process that is killed after an
// advertisement was reported as ingested loses what was not flushed.
func (c *Ctx) p03flush() {
	r := c.Rng("flush")
	dir := filepath.Join(c.Scratch, "flush")
	must(os.MkdirAll(dir, 0o755))
	open := func(d string) indexer.Interface {
		vs, err := storethehash.New(bg, d, storethehash.IndexBitSize(8), storethehash.SyncInterval(time.Hour))
		must(err)
		return engine.New(nil, vs)
	}
	u := universe(GenOpts{NMh: 8, Salt: "flush"})
	p := newPub(newIdent(r))
	defer p.Close()
	p.Publish(AdSpec{Ctx: "a", Meta: "m", Mhs: u})
	core := open(dir)
	store := memDS()
	rig := newRig(RigOpts{Core: core, Store: store})
	got, ok := rig.SyncWait(c, bg, p, 0, false)
	if !ok || got != p.Head() {
		c.Violate("sync", "sync delivered %s", got)
		return
	}
	// The disk as a killed process leaves it.
	snap := filepath.Join(c.Scratch, "flush-snap")
	must(exec.Command("cp", "-a", dir, snap).Run())
	snapStore := cloneDS(store)
	rig.Close(c)
	_ = core.Close()
	core2 := open(snap)
	defer core2.Close()
	rig2 := newRig(RigOpts{Core: core2, Store: snapStore})
	defer rig2.Close(c)
	m := newModel()
	p.ModelAll(m)
	c.Eval(len(u))
	if rig2.Latest(p.ID) == p.Head() {
		if d, _ := diffIndex(core2, m, u, nil); d != "" {
			c.Violate("known:index-not-flushed", "advertisement reported as latest synced before the index store was flushed; killed process: %s", d)
		}
	}
}
