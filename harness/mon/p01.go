package main

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"reflect"
	"strings"

	indexer "github.com/filecoin-project/go-indexer-core"
	"github.com/filecoin-project/go-indexer-core/cache"
	"github.com/filecoin-project/go-indexer-core/cache/radixcache"
	"github.com/filecoin-project/go-indexer-core/engine"
	"github.com/filecoin-project/go-indexer-core/store/pogreb"
	"github.com/filecoin-project/go-indexer-core/store/storethehash"
	adminhttpclient "github.com/filecoin-project/storetheindex/api/v0/admin/client/http"
	"github.com/filecoin-project/storetheindex/config"
	"github.com/ipfs/go-cid"
)

func init() {
	register("P01", "random advertisement chains (additions, metadata-only updates, removals with and without entries, re-additions, shared and empty entries, invalid multihashes, several contexts, chunked and HAMT entries) "+
		"are ingested by the real ingester under several configurations each (batch size, segment size, worker count, result cache, value store, HTTP or libp2p transport, one or many syncs, announce or explicit sync) and every multihash of the universe is looked up "+
		"and compared with a reference model after every sync; distinct counts (chain, configuration) pairs whose final model is non-empty and which had at least one update or removal",
		runP01,
		"the result cache is exercised without eviction (see DESIGN.md)", "persistent value stores are exercised on chains that do not re-add a removed context (known dependency limitation, see DESIGN.md)")
}

// openCore opens an index over a value store kind.
func openCore(kind string, dir string, cacheSize int) indexer.Interface {
	var c cache.Interface
	if cacheSize > 0 {
		c = radixcache.New(cacheSize)
	}
	switch kind {
	case "mem":
		return newCore(cacheSize)
	case "sth":
		must(os.MkdirAll(dir, 0o755))
		vs, err := storethehash.New(bg, dir, storethehash.IndexBitSize(8))
		must(err)
		return engine.New(c, vs)
	case "pogreb":
		must(os.MkdirAll(dir, 0o755))
		vs, err := pogreb.New(dir)
		must(err)
		return engine.New(c, vs)
	}
	panic("verifmon harness: core kind " + kind)
}

// noReadd drops advertisements that would add to a context again after it was
// removed.
func noReadd(specs []AdSpec) []AdSpec {
	removed := map[string]bool{}
	var out []AdSpec
	for _, a := range specs {
		k := fmt.Sprint(a.Prov, a.Ctx)
		if removed[k] && !a.Rm {
			continue
		}
		if a.Rm {
			removed[k] = true
		}
		out = append(out, a)
	}
	return out
}

type p01cfg struct {
	batch, seg, workers, cache int
	kind, transport, mode      string
	splits                     int
	hamtSeg                    int
}

func (v p01cfg) String() string {
	return fmt.Sprintf("batch=%d seg=%d workers=%d cache=%d store=%s transport=%s mode=%s syncs=%d", v.batch, v.seg, v.workers, v.cache, v.kind, v.transport, v.mode, v.splits)
}

func randP01cfg(r *rand.Rand, n int) p01cfg {
	pick := func(xs ...int) int { return xs[r.Intn(len(xs))] }
	v := p01cfg{
		batch: pick(1, 2, 3, 7, 64, 4096), seg: pick(-1, 1, 2, 3, 5, 2000), workers: pick(1, 2, 8),
		cache: pick(0, 0, 100000), kind: "mem", transport: "http", mode: "sync", splits: 1,
	}
	if r.Intn(4) == 0 {
		v.mode = "announce"
	}
	if r.Intn(2) == 0 {
		v.splits = 1 + r.Intn(n)
	}
	switch r.Intn(12) {
	case 0, 1:
		v.kind = "sth"
	case 2:
		v.kind = "pogreb"
	}
	if r.Intn(5) == 0 {
		v.transport = "dt"
	}
	return v
}

func runP01(c *Ctx) {
	variants := c.N(4, 6)
	c.RunN("chain", c.N(250, 3000), 8, func(c *Ctx, i int) {
		r := c.Rng("chain", i)
		nprov := 1
		if i%5 == 4 {
			nprov = 3
		}
		o := GenOpts{NProv: nprov, NCtx: 1 + r.Intn(5), NMh: 30 + r.Intn(60), MaxMhs: 24, MaxChunk: 8, Hamt: true, Invalid: r.Intn(2) == 0, Odd: i%4 == 3, Salt: fmt.Sprint("c", i)}
		u := universe(o)
		specs := genChain(r, 4+r.Intn(18), o, u)
		ids := newIdents(r, nprov)
		for v := 0; v < variants && !c.Failed(); v++ {
			cfg := randP01cfg(r, len(specs))
			if nprov > 1 || cfg.mode == "announce" {
				// Completion is awaited by looking up, and lookups while
				// ingesting can leave stale cache entries (see DESIGN.md).
				cfg.cache = 0
			}
			sp := specs
			if cfg.kind != "mem" {
				sp = noReadd(specs)
			}
			c.p01one(r, fmt.Sprintf("%d-%d", i, v), ids, sp, u, cfg)
		}
	})
	c.RunN("admin", c.N(4, 40), 4, func(c *Ctx, i int) { c.p01admin(i) })
	c.Run("large-chain", func(c *Ctx) {
		r := c.Rng("large")
		o := GenOpts{NCtx: 40, NMh: 4000, MaxMhs: 400, MaxChunk: 90, Hamt: true, Invalid: true, Salt: "large"}
		u := universe(o)
		specs := genChain(r, c.N(60, 400), o, u)
		c.p01one(r, "large", newIdents(r, 1), specs, u, p01cfg{batch: 50, seg: 7, workers: 4, kind: "mem", transport: "http", mode: "sync", splits: 2})
	})
	c.Run("readd-storethehash", func(c *Ctx) {
		// Dependency limitation, recorded as a known finding: re-adding a
		// removed context revives its old multihashes in persistent stores.
		r := c.Rng("readd")
		u := universe(GenOpts{NMh: 6, Salt: "readd"})
		ids := newIdents(r, 1)
		specs := []AdSpec{{Ctx: "a", Meta: "m1", Mhs: u[:2]}, {Ctx: "a", Rm: true}, {Ctx: "a", Meta: "m2", Mhs: u[2:4]}}
		p := newPub(ids[0])
		defer p.Close()
		p.PublishAll(specs)
		core := openCore("sth", filepath.Join(c.Scratch, "readd"), 0)
		rig := newRig(RigOpts{Core: core})
		defer core.Close()
		defer rig.Close(c)
		// One advertisement at a time, so that the removed one is applied.
		for _, a := range p.Ads {
			p.SetHead(a.Cid)
			if _, ok := rig.SyncWait(c, bg, p, 0, false); !ok {
				return
			}
		}
		m := newModel()
		p.ModelAll(m)
		if d, _ := diffIndex(core, m, u, nil); d != "" {
			// Exactly the old multihashes reappear with the new metadata; any
			// other difference is a new violation.
			m2 := newModel()
			m2.Apply(ids[0].ID, AdSpec{Ctx: "a", Meta: "m2", Mhs: u[:4]})
			if d2, _ := diffIndex(core, m2, u, nil); d2 == "" {
				c.Violate("known:sth-readd-revives-removed", "add(a,{1,2}); rm(a); add(a,{3,4}) on storethehash: %s", d)
			} else {
				c.Violate("readd-wrong", "add(a,{1,2}); rm(a); add(a,{3,4}) on storethehash: %s", d2)
			}
		}
		c.Eval(len(u))
	})
}

// p01admin has an administrator's client ask for the syncs, and for the full
// re-sync that reproduces a lost index.
func (c *Ctx) p01admin(i int) {
	r := c.Rng("admin", i)
	o := GenOpts{NCtx: 3, NMh: 40, MaxMhs: 10, MaxChunk: 4, Hamt: true, Salt: fmt.Sprint("adm", i)}
	u := universe(o)
	specs := genChain(r, 5+r.Intn(6), o, u)
	p := newPub(newIdents(r, 1)[0])
	defer p.Close()
	rig := newRig(RigOpts{Ingest: func(ic *config.Ingest) { ic.StoreBatchSize = 3; ic.IngestWorkerCount = 1 + r.Intn(3) }})
	defer rig.Close(c)
	srv := newSrv(rig, srvOpts{noFind: true, noIngest: true, noP2P: true})
	defer srv.Stop()
	cl, err := adminhttpclient.New(srv.AdminURL)
	must(err)
	m := newModel()
	sync := func(resync bool, what string) bool {
		if err := cl.Sync(bg, p.ID, p.addr, int64(-(i % 2)), resync); err != nil {
			c.Violate("sync-error", "admin %d, %s: %v", i, what, err)
			return false
		}
		tick()
		diff, n := "", 0
		if !c.Await("index-differs", fmt.Sprintf("admin %d, chain [%s]: %s asked for over the admin server does not give the model's index", i, chainString(specs), what), func() bool {
			diff, n = diffIndex(rig.IX, m, u, nil)
			return diff == "" && rig.Latest(p.ID) == p.Head()
		}) {
			return false
		}
		c.Eval(n)
		return true
	}
	half := len(specs) / 2
	for k, part := range [][]AdSpec{specs[:half], specs[half:]} {
		p.PublishAll(part)
		for _, a := range part {
			m.Apply(p.ID, a)
		}
		if !sync(false, fmt.Sprint("sync ", k)) {
			return
		}
	}
	settle()
	core := newCore(0)
	defer core.Close()
	rig.IX.mu.Lock()
	rig.IX.inner = core
	rig.IX.mu.Unlock()
	if !sync(true, "full re-sync into an empty index") {
		return
	}
	c.Count("resyncs_by_administrator", 1)
	c.Seen(chainString(specs) + "admin")
}

// p01one ingests one chain under one configuration and compares with the
// model after every sync.
func (c *Ctx) p01one(r *rand.Rand, label string, ids []Ident, specs []AdSpec, u []string, cfg p01cfg) {
	p := newPub(ids[0], ids[1:]...)
	defer p.Close()
	if k := r.Intn(5 * len(oddProtos)); k < len(oddProtos) {
		p.lp = &oddProtos[k]
		c.Seen(fmt.Sprint("links ", k))
	}
	dir := filepath.Join(c.Scratch, "core-"+label)
	core := openCore(cfg.kind, dir, cfg.cache)
	defer func() {
		_ = core.Close()
		_ = os.RemoveAll(dir)
	}()
	rig := newRig(RigOpts{Core: core, Listen: cfg.transport == "dt", Ingest: func(ic *config.Ingest) {
		ic.StoreBatchSize = cfg.batch
		ic.SyncSegmentDepthLimit = cfg.seg
		ic.IngestWorkerCount = cfg.workers
	}})
	// shadow is the index as the operations applied so far make it. Waiting
	// looks at it and not at the store: lookups while ingesting can damage a
	// storethehash or pogreb store (see DESIGN.md).
	shadow := newModel()
	rig.IX.after = func(op *IxOp) {
		switch op.Kind {
		case "put":
			shadow.Apply(op.Prov, AdSpec{Ctx: op.Ctx, Meta: op.Meta, Mhs: op.Mhs, NoEnts: len(op.Mhs) == 0})
		case "rmctx":
			shadow.Apply(op.Prov, AdSpec{Ctx: op.Ctx, Rm: true})
		}
	}
	var dt *DtPub
	if cfg.transport == "dt" {
		dt = newDtPub(p)
		defer dt.Close()
	}
	defer rig.Close(c)
	where := func() string {
		return fmt.Sprintf("chain [%s] config [%s]", chainString(specs), cfg)
	}
	m := newModel()
	done := 0
	bounds := []int{len(specs)}
	for len(bounds) < cfg.splits {
		bounds = append(bounds, 1+r.Intn(len(specs)))
	}
	// sort ascending
	for i := range bounds {
		for j := i + 1; j < len(bounds); j++ {
			if bounds[j] < bounds[i] {
				bounds[i], bounds[j] = bounds[j], bounds[i]
			}
		}
	}
	kinds := map[string]bool{}
	ingest := func(resync bool, step string) bool {
		addr := p.addr
		if dt != nil {
			dt.Refresh()
			addr = dt.Addr()
		}
		if cfg.mode == "announce" && !resync {
			ai := p.AddrInfo()
			ai.Addrs[0] = addr
			if err := rig.Ing.Announce(bg, p.Head(), ai); err != nil {
				c.Violate("announce-error", "%s: %v", where(), err)
				return false
			}
			if len(ids) == 1 && !c.Await("announce-stuck", "announced head to be ingested: "+where(), func() bool { return rig.Latest(p.ID) == p.Head() }) {
				return false
			}
		} else {
			// Any depth below one means no limit.
			noLimit := -(len(p.Ads) % 3)
			out, err := rig.Ing.Sync(bg, p.ID, addr, noLimit, resync)
			if err != nil {
				c.Violate("sync-error", "%s: %v", where(), err)
				return false
			}
			got, ok := rig.awaitSync(c, out)
			if !ok {
				return false
			}
			if got != p.Head() {
				c.Violate("sync-no-head", "%s %s: sync of a valid chain delivered %s, not the head %s", where(), step, got, p.Head())
				return false
			}
		}
		if len(ids) > 1 || (cfg.mode == "announce" && resync) {
			// Other providers' advertisements may finish after the head, and
			// a re-sync started right after the announced head was recorded
			// may be told about that one's completion.
			want := m.Expect()
			for {
				if await(func() bool { return reflect.DeepEqual(shadow.Expect(), want) }) == waitUnknown {
					c.Inconclusive("timed out waiting for %s %s", where(), step)
					return false
				}
				n0 := len(rig.IX.Log())
				d, n := diffIndex(core, m, u, nil)
				if d == "" || len(rig.IX.Log()) == n0 {
					c.Eval(n)
					if d != "" {
						c.Violate("index-differs", "%s %s: %s", where(), step, d)
					}
					return d == ""
				}
			}
		}
		d, n := diffIndex(core, m, u, nil)
		c.Eval(n)
		if d != "" {
			c.Violate("index-differs", "%s %s: %s", where(), step, d)
			return false
		}
		return true
	}
	for bi, b := range bounds {
		if b == done && bi != 0 {
			// A redundant sync.
			if !ingest(false, "after redundant sync") {
				return
			}
			continue
		}
		for ; done < b; done++ {
			p.Publish(specs[done])
			m.Apply(p.Provs[specs[done].Prov].ID, specs[done])
			kinds[strings.SplitN(strings.SplitN(specs[done].String(), " ", 2)[1], "(", 2)[0]] = true
		}
		if !ingest(false, fmt.Sprintf("after advertisement %d", done)) {
			return
		}
	}
	if len(ids) == 1 && (cfg.mode == "sync" || cfg.kind == "mem") {
		if !ingest(true, "after full re-sync") {
			return
		}
		c.Count("resyncs", 1)
	}
	if cfg.kind == "mem" && r.Intn(2) == 0 {
		// The index is lost, and a full re-sync reproduces it from nothing.
		settle()
		_ = core.Close()
		core = newCore(cfg.cache)
		rig.IX.mu.Lock()
		rig.IX.inner = core
		rig.IX.mu.Unlock()
		shadow = newModel()
		if !ingest(true, "after full re-sync into an empty index") {
			return
		}
		c.Count("resyncs_from_nothing", 1)
	}
	c.Count("advertisements", int64(len(specs)))
	c.Count("index_operations", int64(len(rig.IX.Log())))
	if p.Head() == cid.Undef {
		return
	}
	if len(m.Expect()) > 0 && (kinds["rm"] || kinds["meta"]) {
		c.Seen(chainString(specs) + cfg.String())
	}
	c.Sample("%s", where())
}
