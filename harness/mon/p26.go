package main

import (
	"context"
	"encoding/json"
	"fmt"
	mrand "math/rand"
	"sync"
	"time"

	"github.com/filecoin-project/storetheindex/api/v0/finder/model"
	"github.com/filecoin-project/storetheindex/config"
	"github.com/ipfs/go-cid"
	"github.com/libp2p/go-libp2p-core/peer"
	"github.com/multiformats/go-multihash"
)

func init() {
	register("P26", "an ingester (and the real daemon, through configuration reloads) fetches generated chains of several publishers over HTTP and libp2p under random sequences of valid and invalid rate limit settings, by explicit sync and by announcement, also while another publisher is being held back; "+
		"request times at a limited publisher never exceed the token bucket of the settings in force when the sync began, in any window of one sync; a publisher that is not limited (the configured rate being one block per second) never shows five successive requests each delayed by the limit's interval; invalid settings are refused at run time and the previous ones stay in force; the index equals the model afterwards; "+
		"distinct counts (settings, route, direction of change, limited or not) signatures",
		runP26, "the monotonic clock is right; the limit holds per sync (the fetch of the chain, or of one advertisement's entries after the first block), which is how the limiter is scoped")
}

func runP26(c *Ctx) {
	c.RunN("hist", c.N(24, 300), 8, func(c *Ctx, i int) { c.p26hist(i) })
	c.RunN("dt", c.N(4, 40), 4, func(c *Ctx, i int) { c.p26dt(i) })
	c.RunN("dthamt", c.N(1, 4), 4, func(c *Ctx, i int) { c.p26dthamt(i) })
	c.RunN("daemon", c.N(3, 30), 3, func(c *Ctx, i int) { c.p26daemon(i) })
}

type arrival struct {
	name string
	t    time.Time
}

// pub26 is a publisher with the arrival times of requests.
type pub26 struct {
	*Pub
	r   *mrand.Rand
	mu  sync.Mutex
	log []arrival
	nCt int
	u   []string
}

func newPub26(r *mrand.Rand, id Ident, salt string) *pub26 {
	p := &pub26{Pub: newPub(id), r: r}
	for k := 0; k < 60; k++ {
		p.u = append(p.u, string(testMh(fmt.Sprint(salt, "-", k))))
	}
	p.SetHook(func(name string, _ int) FetchVerdict {
		now := time.Now()
		p.mu.Lock()
		p.log = append(p.log, arrival{name, now})
		p.mu.Unlock()
		return FetchVerdict{}
	})
	return p
}

// big adds many multihashes, enough for a HAMT of several levels.
func (p *pub26) big() []string {
	for k := len(p.u); k < 300; k++ {
		p.u = append(p.u, string(testMh(fmt.Sprint(p.ID, "-", k))))
	}
	return p.u[60:]
}

func (p *pub26) mark() int {
	p.mu.Lock()
	defer p.mu.Unlock()
	return len(p.log)
}

func (p *pub26) since(n int) []arrival {
	p.mu.Lock()
	defer p.mu.Unlock()
	return append([]arrival(nil), p.log[n:]...)
}

// grow publishes n advertisements, the last one perhaps with many chunks.
func (p *pub26) grow(n int, chunks int) {
	for k := 0; k < n; k++ {
		p.nCt++
		sp := AdSpec{Ctx: fmt.Sprint("c", p.nCt), Meta: fmt.Sprint("m", p.r.Intn(9)), ChunkLen: 1}
		cnt := 1
		if k == n-1 && chunks > 0 {
			cnt = chunks
		} else if p.r.Intn(4) == 0 {
			sp.Hamt = true
			cnt = 3
		}
		off := p.r.Intn(len(p.u))
		for j := 0; j < cnt; j++ {
			sp.Mhs = append(sp.Mhs, p.u[(off+j)%len(p.u)])
		}
		p.Publish(sp)
	}
}

// groups splits requests into those that one sync made.
func (p *pub26) groups(log []arrival) map[string][]arrival {
	of := map[string]string{}
	uses := map[string]int{}
	for _, a := range p.Ads {
		for _, b := range a.Blocks {
			uses[b.String()]++
		}
	}
	for i, a := range p.Ads {
		of[a.Cid.String()] = "chain"
		if a.Spec.Hamt {
			continue
		}
		for j := range a.Blocks {
			// The blocks are listed in the order in which they were made, the
			// chunk that is fetched first being the last one.
			b := a.Blocks[j]
			if j == len(a.Blocks)-1 || uses[b.String()] > 1 {
				continue
			}
			of[b.String()] = fmt.Sprint("entries ", i)
		}
	}
	of["head"] = "chain"
	g := map[string][]arrival{}
	for _, a := range log {
		if k, ok := of[a.name]; ok {
			g[k] = append(g[k], a)
		}
	}
	return g
}

// tooFast looks for a window in which more requests arrived than rate and
// burst allow. Requests of one sync are made one after the other, so that all
// requests after the j-th were admitted after it arrived.
func tooFast(log []arrival, t0 time.Time, rate, burst int) string {
	for i := range log {
		for j := -1; j < i; j++ {
			from := t0
			if j >= 0 {
				from = log[j].t
			}
			w := log[i].t.Sub(from) + 2*time.Millisecond
			if float64(i-j) > float64(burst)+float64(rate)*w.Seconds()+0.01 {
				return fmt.Sprintf("%d blocks requested within %v", i-j, log[i].t.Sub(from))
			}
		}
	}
	return ""
}

// heldBack finds requests that are spaced as if by a limit of one per second.
func heldBack(log []arrival) bool {
	run := 0
	for i := 1; i < len(log); i++ {
		if log[i].t.Sub(log[i-1].t) >= 800*time.Millisecond {
			if run++; run >= 5 {
				return true
			}
		} else {
			run = 0
		}
	}
	return false
}

type rl26 struct {
	apply  bool
	except map[peer.ID]bool
	bps    int
	burst  int
}

func (l rl26) limited(id peer.ID) bool { return l.bps > 0 && l.apply != l.except[id] }
func (l rl26) config() config.RateLimit {
	cfg := config.RateLimit{Apply: l.apply, BlocksPerSecond: l.bps, BurstSize: l.burst}
	for id := range l.except {
		cfg.Except = append(cfg.Except, id.String())
	}
	return cfg
}
func (l rl26) String() string {
	return fmt.Sprintf("apply=%v except=%d bps=%d burst=%d", l.apply, len(l.except), l.bps, l.burst)
}

// genRL makes settings under which the publisher target is limited or not.
func genRL(r *mrand.Rand, ids []peer.ID, target int, limit bool) rl26 {
	l := rl26{apply: r.Intn(2) == 0, except: map[peer.ID]bool{}}
	for k, id := range ids {
		if k == target {
			if l.apply != limit {
				l.except[id] = true
			}
		} else if r.Intn(2) == 0 {
			l.except[id] = true
		}
	}
	if limit {
		l.bps, l.burst = []int{20, 40, 100, 200}[r.Intn(4)], 1+r.Intn(4)
	} else {
		l.bps, l.burst = 1, 1
		if r.Intn(5) == 0 {
			l.bps, l.burst = 0, r.Intn(3) // disabled
			l.apply = true
		}
	}
	return l
}

func invalidRL(r *mrand.Rand, id peer.ID) (config.RateLimit, string) {
	// Each would change the treatment of everyone.
	cfg := config.RateLimit{Apply: r.Intn(2) == 0, BlocksPerSecond: []int{1, 100000}[r.Intn(2)], BurstSize: []int{1, 100000}[r.Intn(2)]}
	switch r.Intn(3) {
	case 0:
		cfg.BlocksPerSecond = -cfg.BlocksPerSecond
		return cfg, "negative rate"
	case 1:
		cfg.BurstSize = -cfg.BurstSize
		return cfg, "negative burst"
	default:
		cfg.Except = []string{id.String(), "nopeer"}
		return cfg, "bad peer"
	}
}

func (c *Ctx) p26index(rig *Rig, ps []*pub26, what string) bool {
	for _, p := range ps {
		m := newModel()
		p.ModelAll(m)
		d, n := diffIndex(rig.Core, m, p.u, map[peer.ID]bool{p.ID: true})
		c.Eval(n)
		if d != "" {
			c.Violate("index-differs", "%s: %s", what, d)
			return false
		}
	}
	return true
}

func (c *Ctx) p26hist(i int) {
	r := c.Rng("hist", i)
	ids := newIdents(r, 3)
	var ps []*pub26
	var pids []peer.ID
	for k, id := range ids {
		p := newPub26(r, id, fmt.Sprint("p26-", i, "-", k))
		defer p.Close()
		ps, pids = append(ps, p), append(pids, id.ID)
	}
	cfg := ingestConfig()
	cfg.IngestWorkerCount = 4
	cfg.SyncSegmentDepthLimit = []int{0, 1, 3, 2000}[r.Intn(4)]
	cur := genRL(r, pids, 0, r.Intn(2) == 0)
	cfg.RateLimit = cur.config()
	rig := newRig(RigOpts{Ingest: func(x *config.Ingest) { *x = cfg }})
	defer rig.Close(c)
	var hist []string
	for step := 0; step < 5; step++ {
		t := r.Intn(len(ps))
		p := ps[t]
		limit := r.Intn(2) == 0
		prev := cur
		if step > 0 {
			cur = genRL(r, pids, t, limit)
			if cur.bps == 0 {
				// Going from a slow limit to none.
				prev = rl26{apply: true, bps: 1, burst: 1}
				if err := rig.Ing.SetRateLimit(prev.config()); err != nil {
					c.Violate("valid-refused", "settings %v: %v", prev, err)
					return
				}
			}
			if err := rig.Ing.SetRateLimit(cur.config()); err != nil {
				c.Violate("valid-refused", "settings %v: %v", cur, err)
				return
			}
		}
		hist = append(hist, cur.String())
		if r.Intn(3) == 0 {
			bad, what := invalidRL(r, p.ID)
			err := rig.Ing.SetRateLimit(bad)
			c.Eval(1)
			if err == nil {
				c.Violate("invalid-accepted", "settings with %s are accepted: %+v", what, bad)
				return
			}
			hist = append(hist, "refused "+what)
		}
		limit = cur.limited(p.ID)
		if limit && cur.bps == 1 {
			continue // too slow to wait for
		}
		// Blocks for about a quarter second at the limit.
		n := 8 + r.Intn(4)
		if limit {
			n = cur.burst + cur.bps/5 + 3
		}
		chunks := 0
		if r.Intn(2) == 0 {
			chunks, n = n, 1+r.Intn(3)
		}
		// Another publisher held back meanwhile.
		var slow *pub26
		var slowDone chan struct{}
		cancel := func() {}
		if !limit && cur.bps == 1 && r.Intn(2) == 0 {
			for k, q := range ps {
				if k != t && cur.limited(q.ID) {
					slow = q
					break
				}
			}
			if slow != nil {
				slow.grow(6, 0)
				var ctx context.Context
				ctx, cancel = context.WithCancel(bg)
				m := slow.mark()
				out, err := rig.Ing.Sync(ctx, slow.ID, slow.addr, 0, false)
				if err != nil {
					cancel()
					c.Violate("sync-error", "sync of a limited publisher: %v", err)
					return
				}
				slowDone = make(chan struct{})
				go func() {
					for range out {
					}
					close(slowDone)
				}()
				upTo(5*time.Second, func() bool { return slow.mark() > m })
			}
		}
		p.grow(n, chunks)
		m := p.mark()
		route := []string{"sync", "announce"}[r.Intn(2)]
		t0 := time.Now()
		held := func() bool { return !limit && heldBack(p.since(m)) }
		switch route {
		case "sync":
			out, err := rig.Ing.Sync(bg, p.ID, p.addr, 0, false)
			if err != nil {
				c.Violate("sync-error", "%v", err)
				cancel()
				return
			}
			got := cid.Undef
			if !c.Await("sync-stuck", "sync does not end", func() bool {
				select {
				case got = <-out:
					return true
				default:
					return held()
				}
			}) {
				cancel()
				return
			}
			if got != p.Head() && !held() {
				c.Violate("sync-failed", "settings %v: sync of a chain of %d (last with %d chunks) ended with %s, head is %s; history %v", cur, n, chunks, got, p.Head(), hist)
				cancel()
				return
			}
		default:
			if err := rig.Ing.Announce(bg, p.Head(), p.AddrInfo()); err != nil {
				c.Violate("announce-error", "%v", err)
				cancel()
				return
			}
			if !c.Await("announce-lost", fmt.Sprintf("settings %v: announced head is not ingested", cur), func() bool { return held() || rig.Latest(p.ID) == p.Head() }) {
				cancel()
				return
			}
		}
		log := p.since(m)
		c.Eval(1)
		c.Count("requests timed", int64(len(log)))
		if limit {
			for k, g := range p.groups(log) {
				if s := tooFast(g, t0, cur.bps, cur.burst); s != "" {
					c.Violate("too-fast", "settings %v, before them %v, %s, %s: %s; history %v", cur, prev, route, k, s, hist)
					cancel()
					return
				}
				c.Count("limited syncs timed", 1)
			}
		} else if heldBack(log) {
			c.Violate("held-back", "settings %v do not limit the publisher (before them %v), yet its requests are spaced by a second; %s; other publisher held back: %v; history %v", cur, prev, route, slow != nil, hist)
			cancel()
			return
		}
		c.Seen(fmt.Sprintf("%v bps=%d burst=%d apply=%v was(bps=%d lim=%v) %s chunks=%v slow=%v", limit, cur.bps, cur.burst, cur.apply, prev.bps, prev.limited(p.ID), route, chunks > 0, slow != nil))
		if !c.p26index(rig, []*pub26{p}, fmt.Sprintf("settings %v", cur)) {
			cancel()
			return
		}
		if slow != nil {
			cancel()
			if !c.Await("sync-stuck", "cancelled sync does not end", func() bool { return isDone(slowDone) }) {
				return
			}
			// With other settings it is ingested completely.
			cur = rl26{apply: false, except: map[peer.ID]bool{slow.ID: true}, bps: 500, burst: 2}
			if r.Intn(2) == 0 {
				cur = rl26{}
			}
			if err := rig.Ing.SetRateLimit(cur.config()); err != nil {
				c.Violate("valid-refused", "settings %v: %v", cur, err)
				return
			}
			m := slow.mark()
			done := false
			var got cid.Cid
			out, err := rig.Ing.Sync(bg, slow.ID, slow.addr, 0, false)
			if err != nil {
				c.Violate("sync-error", "%v", err)
				return
			}
			if !c.Await("sync-stuck", "sync does not end", func() bool {
				select {
				case got = <-out:
					done = true
				default:
				}
				return done || heldBack(slow.since(m))
			}) {
				return
			}
			if !done {
				c.Violate("stale-limit", "a sync begun after the settings changed to %v is still held to one block per second", cur)
				return
			}
			if got != slow.Head() {
				c.Violate("sync-failed", "sync after a held back one was cancelled ended with %v, head is %v", got, slow.Head())
				return
			}
			if !c.p26index(rig, []*pub26{slow}, "after the limit was lifted") {
				return
			}
			c.Count("held back publishers", 1)
		}
	}
}

// p26dt: the same over libp2p, judged by the time a whole sync takes.
func (c *Ctx) p26dt(i int) {
	r := c.Rng("dt", i)
	id := newIdents(r, 1)[0]
	p := newPub26(r, id, fmt.Sprint("p26dt-", i))
	defer p.Close()
	cfg := ingestConfig()
	cfg.RateLimit = config.RateLimit{BlocksPerSecond: 1, BurstSize: 1}
	rig := newRig(RigOpts{Ingest: func(x *config.Ingest) { *x = cfg }, Listen: true})
	defer rig.Abandon()
	d := newDtPub(p.Pub)
	defer d.Close()
	limit := i%2 == 0
	for step := 0; step < 3; step++ {
		l := rl26{apply: r.Intn(2) == 0, except: map[peer.ID]bool{}, bps: 1, burst: 1}
		if limit {
			l.bps, l.burst = 40, 2+r.Intn(3)
		}
		if l.apply != limit {
			l.except[p.ID] = true
		}
		if err := rig.Ing.SetRateLimit(l.config()); err != nil {
			c.Violate("valid-refused", "settings %v: %v", l, err)
			return
		}
		n := 12
		for k := 0; k < n; k++ {
			p.nCt++
			p.Publish(AdSpec{Ctx: fmt.Sprint("c", p.nCt), Meta: "m", ChunkLen: 1, Mhs: []string{p.u[r.Intn(len(p.u))]}})
		}
		d.Refresh()
		t0 := time.Now()
		out, err := rig.Ing.Sync(bg, p.ID, d.Addr(), 0, false)
		if err != nil {
			c.Violate("sync-error", "%v", err)
			return
		}
		got, ok := rig.awaitSync(c, out)
		if !ok {
			return
		}
		took := time.Since(t0)
		if got != p.Head() {
			c.Violate("sync-failed", "libp2p, settings %v: sync ended with %v, head is %v", l, got, p.Head())
			return
		}
		c.Eval(1)
		c.Seen(fmt.Sprintf("dt limit=%v apply=%v burst=%d", limit, l.apply, l.burst))
		if limit {
			// Half of the bound: blocks received beyond the stop are not
			// counted again.
			if min := time.Duration(float64(n-l.burst) / float64(l.bps) / 2 * float64(time.Second)); took < min {
				c.Violate("too-fast", "libp2p, settings %v: %d advertisements fetched in %v", l, n, took)
				return
			}
		} else if min := time.Duration(n-2) * time.Second; took > min {
			// At one block per second, with a burst of one, the transfer of
			// each block waits a second.
			c.Violate("held-back", "libp2p, settings %v do not limit the publisher, yet %d advertisements took %v", l, n, took)
			return
		}
		if !c.p26index(rig, []*pub26{p}, fmt.Sprintf("libp2p, settings %v", l)) {
			return
		}
		limit = !limit
	}
}

// p26dthamt: a HAMT of several levels over libp2p, limited. What is not
// ingested under the limit must be ingested once the limit is lifted.
func (c *Ctx) p26dthamt(i int) {
	r := c.Rng("dthamt", i)
	id := newIdents(r, 1)[0]
	p := newPub26(r, id, fmt.Sprint("p26dh-", i))
	defer p.Close()
	cfg := ingestConfig()
	l := rl26{apply: true, except: map[peer.ID]bool{}, bps: 40, burst: 3}
	cfg.RateLimit = l.config()
	rig := newRig(RigOpts{Ingest: func(x *config.Ingest) { *x = cfg }, Listen: true})
	defer rig.Abandon()
	d := newDtPub(p.Pub)
	defer d.Close()
	p.Publish(AdSpec{Ctx: "c", Meta: "m", Hamt: true, Mhs: p.big()})
	d.Refresh()
	diff := func() (string, bool) {
		out, err := rig.Ing.Sync(bg, p.ID, d.Addr(), 0, false)
		if err != nil {
			c.Violate("sync-error", "%v", err)
			return "", false
		}
		if _, ok := rig.awaitSync(c, out); !ok {
			return "", false
		}
		m := newModel()
		p.ModelAll(m)
		d, n := diffIndex(rig.Core, m, p.u, map[peer.ID]bool{p.ID: true})
		c.Eval(n)
		return d, true
	}
	df, ok := diff()
	if !ok {
		return
	}
	if df != "" {
		c.Violate("known:hamt-libp2p-limited", "libp2p, settings %v: a HAMT is not ingested: %s", l, df)
	}
	must(rig.Ing.SetRateLimit(config.RateLimit{}))
	if df, ok = diff(); ok && df != "" {
		c.Violate("limited-lost", "libp2p, settings %v: a HAMT that was not ingested under the limit is not ingested after it is lifted: %s", l, df)
	}
}

// p26daemon: settings in the configuration file of a running daemon.
func (c *Ctx) p26daemon(i int) {
	r := c.Rng("daemon", i)
	d := newDaemon(c, r)
	defer d.Cleanup()
	d.args = []string{"--watch-config=false"}
	ids := newIdents(r, 2)
	var ps []*pub26
	var pids []peer.ID
	for k, id := range ids {
		p := newPub26(r, id, fmt.Sprint("p26d-", i, "-", k))
		defer p.Close()
		ps, pids = append(ps, p), append(pids, id.ID)
	}
	limit := r.Intn(2) == 0
	cur := genRL(r, pids, 0, limit)
	d.cfg.Ingest.RateLimit = cur.config()
	if !d.Start() {
		return
	}
	var hist []string
	for step := 0; step < 5; step++ {
		t := 0
		if step > 0 {
			t = r.Intn(len(ps))
			limit = r.Intn(2) == 0
			cur = genRL(r, pids, t, limit)
			d.cfg.Ingest.RateLimit = cur.config()
			d.putCfg(d.cfg)
			if rp := d.do("POST", d.admin+"/reloadconfig", nil); rp.Err != nil || rp.Status != 200 {
				if d.Alive() {
					c.Violate("valid-refused", "reload with settings %v: %s", cur, rp)
				}
				return
			}
		}
		hist = append(hist, cur.String())
		if r.Intn(3) == 0 {
			bad := copyCfg(d.cfg)
			var what string
			bad.Ingest.RateLimit, what = invalidRL(r, pids[t])
			d.putCfg(bad)
			rp := d.do("POST", d.admin+"/reloadconfig", nil)
			c.Eval(1)
			if rp.Err != nil || rp.Status < 400 {
				if d.Alive() {
					c.Violate("invalid-accepted", "reload with %s in the rate limit: %s", what, rp)
				}
				return
			}
			hist = append(hist, "refused "+what)
		}
		p := ps[t]
		limit = cur.limited(p.ID)
		if limit && cur.bps == 1 {
			continue
		}
		n := 8
		if limit {
			n = cur.burst + cur.bps/5 + 3
		}
		p.grow(n, 0)
		m := p.mark()
		t0 := time.Now()
		addr, err := json.Marshal(p.addr.String())
		must(err)
		rp := d.do("POST", d.admin+"/ingest/sync/"+p.ID.String(), addr)
		if rp.Err != nil || !rp.ok() {
			if d.Alive() {
				c.Violate("sync-error", "sync request: %s", rp)
			}
			return
		}
		last := p.Ads[len(p.Ads)-1]
		want := last.Spec.Mhs[0]
		held := func() bool { return !limit && heldBack(p.since(m)) }
		res := d.await(func() bool {
			if isDone(d.done) || held() {
				return true
			}
			rp := d.get(d.find + "/multihash/" + b58(want))
			return rp.Err == nil && rp.Status == 200 && hasCtx(rp.Body, p.ID, last.Spec.Ctx)
		})
		if res != waitOK {
			d.undecided(res, "sync-stuck", "content is not ingested")
			return
		}
		if !d.Alive() {
			return
		}
		log := p.since(m)
		c.Eval(1)
		c.Seen(fmt.Sprintf("daemon limit=%v bps=%d apply=%v", limit, cur.bps, cur.apply))
		if limit {
			if s := tooFast(p.groups(log)["chain"], t0, cur.bps, cur.burst); s != "" {
				c.Violate("too-fast", "daemon, settings %v: %s; history %v", cur, s, hist)
				return
			}
		} else if heldBack(log) {
			c.Violate("held-back", "daemon, settings %v do not limit the publisher, yet its requests are spaced by a second; history %v", cur, hist)
			return
		}
	}
	d.Stop(2)
}

func b58(m string) string { return multihash.Multihash(m).B58String() }

// hasCtx says whether a find response has a record of the provider and context.
func hasCtx(body []byte, prov peer.ID, ctx string) bool {
	var fr model.FindResponse
	if json.Unmarshal(body, &fr) != nil {
		return false
	}
	for _, mr := range fr.MultihashResults {
		for _, pr := range mr.ProviderResults {
			if pr.Provider.ID == prov && string(pr.ContextID) == ctx {
				return true
			}
		}
	}
	return false
}
