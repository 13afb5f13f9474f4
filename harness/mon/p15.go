package main

import (
	"errors"
	"fmt"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	indexer "github.com/filecoin-project/go-indexer-core"
	"github.com/filecoin-project/storetheindex/internal/registry"
	"github.com/ipfs/go-cid"
	"github.com/libp2p/go-libp2p-core/peer"
	"github.com/multiformats/go-multiaddr"
	"github.com/multiformats/go-multihash"
)

func init() {
	register("P15", "histories of queries by every route mixed with registration, removal, inactivity and re-registration of providers that share multihashes; the log of index removals and the whole index are compared with a reference after every step, and every answer with what may be answered; "+
		"then the same with many queries at once, where every removal must be of a record whose provider was removed after the record was stored; then with content ingested from publishers before and after a removal. distinct counts (state of provider, route, purged or not)",
		runP15, "content re-published under the same context while queries that began before the re-registration are still running is not judged")
}

func runP15(c *Ctx) {
	c.RunN("hist", c.N(60, 1500), 8, func(c *Ctx, i int) { c.p15(i) })
	c.RunN("conc", c.N(16, 300), 4, func(c *Ctx, i int) { c.p15conc(i) })
	c.RunN("real", c.N(16, 300), 8, func(c *Ctx, i int) { c.p15real(i) })
}

func (c *Ctx) p15(i int) {
	r := c.Rng("hist", i)
	rig := newRig(RigOpts{Listen: true, NoIngester: true})
	newDrain(rig.Reg)
	s := newSrv(rig, srvOpts{noIngest: true, noAdmin: true})
	defer s.Stop()
	a := newAsker(s)
	provs := newIdents(r, 4)
	mhs := testMhs(r, fmt.Sprint("p15-", i, "-"), 10)
	w := &findWorld{m: newModel(), addrs: map[peer.ID][]multiaddr.Multiaddr{}}
	reg, gone := map[peer.ID]bool{}, map[recKey]bool{}
	gen := map[peer.ID]int{} // contexts are not reused after a removal: a purge may still be under way
	var hist []string
	logged := 0
	bad := func(key, format string, args ...interface{}) {
		h := hist
		if len(h) > 14 {
			h = h[len(h)-14:]
		}
		c.Violate(key, "%s; history %v", fmt.Sprintf(format, args...), h)
	}
	uni := mhStrings(mhs)
	// check compares the index and the log of removals.
	check := func() bool {
		l := s.IX.Log()
		for _, op := range l[logged:] {
			c.Eval(1)
			if op.Kind != "rmctx" || reg[op.Prov] {
				bad("removal", "a query made the indexer do %s for provider %s, registered=%v", op, shortPeer(op.Prov), reg[op.Prov])
				return false
			}
			if !gone[recKey{op.Prov, op.Ctx}] {
				bad("removal", "removal of context %q of %s, which no query touched", op.Ctx, shortPeer(op.Prov))
				return false
			}
		}
		logged = len(l)
		d, n := diffIndex(s.Core, w.m, uni, nil)
		c.Eval(n)
		if d != "" {
			bad("index", "%s", d)
			return false
		}
		return true
	}
	for step := 0; step < 30; step++ {
		v := provs[r.Intn(len(provs))]
		switch x := r.Intn(12); {
		case x < 2: // new content
			if !reg[v.ID] {
				continue
			}
			sp := AdSpec{Ctx: fmt.Sprint("c", r.Intn(3), "-", gen[v.ID]), Meta: fmt.Sprint("m", step)}
			var l []multihash.Multihash
			for _, m := range mhs {
				if r.Intn(3) == 0 {
					l = append(l, m)
				}
			}
			if len(l) == 0 {
				l = mhs[:1]
			}
			sp.Mhs = mhStrings(l)
			must(s.Core.Put(indexer.Value{ProviderID: v.ID, ContextID: []byte(sp.Ctx), MetadataBytes: []byte(sp.Meta)}, l...))
			w.m.Apply(v.ID, sp)
			delete(gone, recKey{v.ID, sp.Ctx})
			hist = append(hist, fmt.Sprintf("put %s %q %d", shortPeer(v.ID), sp.Ctx, len(l)))
		case x < 5:
			as := randMaddrs(r, 1)
			must(s.Reg.RegisterOrUpdate(bg, v.ID, addrStrings(as), cid.Undef, peer.AddrInfo{ID: v.ID, Addrs: as[:1]}))
			reg[v.ID], w.addrs[v.ID] = true, as
			hist = append(hist, "register "+shortPeer(v.ID))
		case x == 5:
			if !reg[v.ID] {
				continue
			}
			must(s.Reg.RemoveProvider(bg, v.ID))
			delete(reg, v.ID)
			delete(w.addrs, v.ID)
			gen[v.ID]++
			hist = append(hist, "remove "+shortPeer(v.ID))
		case x < 8:
			if !reg[v.ID] || !registry.VerifHooks {
				continue
			}
			huge := registry.VerifPolling{Interval: far, RetryAfter: far, StopAfter: far}
			over := map[peer.ID]registry.VerifPolling{v.ID: {StopAfter: far}}
			s.Reg.VerifPoll(huge, over)
			s.Reg.VerifPoll(huge, over)
			delete(w.addrs, v.ID)
			hist = append(hist, "inactive "+shortPeer(v.ID))
		default:
			var q []multihash.Multihash
			for j := 0; j < 1+r.Intn(4); j++ {
				q = append(q, mhs[r.Intn(len(mhs))])
			}
			route := append(append([]string(nil), singleRoutes...), batchRoutes...)[r.Intn(8)]
			reframe := r.Intn(9) == 0
			if reframe || !strings.Contains(route, "batch") {
				q = q[:1]
			}
			// What the query touches of removed providers is to be discarded.
			var purge []recKey
			w.m.mu.Lock()
			for k, rc := range w.m.recs {
				if reg[k.prov] {
					continue
				}
				for _, m := range q {
					if _, ok := rc.mhs[string(m)]; ok && !gone[k] {
						purge = append(purge, k)
						gone[k] = true
					}
				}
			}
			w.m.mu.Unlock()
			hist = append(hist, fmt.Sprintf("ask %s %d", route, len(q)))
			if reframe {
				got, err := a.Reframe(r, q[0])
				if err != nil {
					c.Inconclusive("reframe: %v", err)
					return
				}
				c.Eval(1)
				for _, g := range got {
					if _, may := w.reframe(q[0]); !may[g] {
						bad("answer", "delegated routing gave %s", g)
						return
					}
				}
			} else {
				res, status, err := a.Ask(r, route, q)
				if err != nil {
					var ae *askErr
					if errors.As(err, &ae) {
						bad("answer", "by %s: %v", route, err)
					} else {
						c.Inconclusive("%s: %v", route, err)
					}
					return
				}
				if !c.judgeFind(route, q, res, status, func(m multihash.Multihash) ([]string, func([]string) bool) { return w.expect(m), nil }, bad) {
					return
				}
			}
			for _, k := range purge {
				w.m.Apply(k.prov, AdSpec{Ctx: k.ctx, Rm: true})
				c.Eval(1)
				k := k
				if !c.Await("not-purged", fmt.Sprintf("purge of %q of removed provider %s", k.ctx, shortPeer(k.prov)), func() bool {
					for _, m := range mhs {
						vs, _, _ := s.Core.Get(m)
						for _, x := range vs {
							if x.ProviderID == k.prov && string(x.ContextID) == k.ctx {
								return false
							}
						}
					}
					return true
				}) {
					return
				}
			}
			if len(purge) > 0 {
				settleShort()
			}
			c.Count("purges", int64(len(purge)))
			inact := 0
			for id := range reg {
				if w.addrs[id] == nil {
					inact++
				}
			}
			c.Seen(fmt.Sprint(route, reframe, len(purge) > 0, inact, len(reg)))
		}
		if !check() {
			return
		}
	}
	if i == 0 {
		c.Sample("%v", hist)
	}
}

// p15conc: queries run all the time; two providers are never removed (but go
// inactive), two are removed and registered again in epochs.
func (c *Ctx) p15conc(i int) {
	r := c.Rng("conc", i)
	provs := newIdents(r, 4)
	mhs := testMhs(r, fmt.Sprint("p15c-", i, "-"), 12)
	var mu sync.Mutex
	removing := map[peer.ID]int{} // last epoch whose removal has begun
	var viol string
	rig := newRig(RigOpts{Listen: true, NoIngester: true})
	rig.IX.onOp = func(op *IxOp) error {
		mu.Lock()
		defer mu.Unlock()
		c.Eval(1)
		var e int
		if op.Kind == "rmctx" {
			_, _ = fmt.Sscanf(op.Ctx, "e%d", &e)
		}
		if op.Kind != "rmctx" || op.Prov == provs[0].ID || op.Prov == provs[1].ID || removing[op.Prov] < e {
			if viol == "" {
				viol = fmt.Sprintf("%s for %s, last removed after epoch %d", op, shortPeer(op.Prov), removing[op.Prov])
			}
		}
		return nil
	}
	newDrain(rig.Reg)
	s := newSrv(rig, srvOpts{noIngest: true, noAdmin: true})
	defer s.Stop()
	a := newAsker(s)
	put := func(id peer.ID, e int) {
		for k := 0; k < 2; k++ {
			var l []multihash.Multihash
			for j, m := range mhs {
				if j == 0 || (j+k+e)%2 == 0 {
					l = append(l, m)
				}
			}
			must(s.Core.Put(indexer.Value{ProviderID: id, ContextID: []byte(fmt.Sprintf("e%d-%d", e, k)), MetadataBytes: []byte("m")}, l...))
		}
	}
	addr := randMaddrs(r, 1)[:1]
	regNow := func(id peer.ID) {
		must(s.Reg.RegisterOrUpdate(bg, id, addrStrings(addr), cid.Undef, peer.AddrInfo{ID: id, Addrs: addr}))
	}
	for _, v := range provs {
		regNow(v.ID)
		put(v.ID, 1)
	}
	// For the removed ones: a phase counter, odd while removed for certain.
	phase := map[peer.ID]*int64{}
	for _, v := range provs {
		phase[v.ID] = new(int64)
	}
	var stop int32
	var wg sync.WaitGroup
	epochs := make([]int, 4)
	for k := 2; k < 4; k++ {
		k := k
		wg.Add(1)
		go func() {
			defer wg.Done()
			id := provs[k].ID
			tr := c.Rng("conc-t", i, k)
			for e := 1; ; e++ {
				epochs[k] = e
				if atomic.LoadInt32(&stop) == 1 {
					return
				}
				time.Sleep(time.Duration(tr.Intn(2000)) * time.Microsecond)
				mu.Lock()
				removing[id] = e
				mu.Unlock()
				must(s.Reg.RemoveProvider(bg, id))
				atomic.AddInt64(phase[id], 1)
				time.Sleep(time.Duration(tr.Intn(3000)) * time.Microsecond)
				atomic.AddInt64(phase[id], 1)
				regNow(id)
				put(id, e+1)
			}
		}()
	}
	if registry.VerifHooks {
		wg.Add(1)
		go func() {
			defer wg.Done()
			tr := c.Rng("conc-i", i)
			huge := registry.VerifPolling{Interval: far, RetryAfter: far, StopAfter: far}
			for atomic.LoadInt32(&stop) == 0 {
				id := provs[tr.Intn(2)].ID
				over := map[peer.ID]registry.VerifPolling{id: {StopAfter: far}}
				s.Reg.VerifPoll(huge, over)
				s.Reg.VerifPoll(huge, over)
				time.Sleep(time.Duration(tr.Intn(1500)) * time.Microsecond)
				regNow(id)
			}
		}()
	}
	parallel(c.N(300, 800), 8, func(n int) {
		if c.Failed() {
			return
		}
		qr := c.Rng("conc-q", i, n)
		route := append(append([]string(nil), singleRoutes...), batchRoutes...)[qr.Intn(8)]
		var q []multihash.Multihash
		for j := 0; j < 1+qr.Intn(4); j++ {
			q = append(q, mhs[qr.Intn(len(mhs))])
		}
		if !strings.Contains(route, "batch") {
			q = q[:1]
		}
		ph := map[peer.ID]int64{}
		for id, p := range phase {
			ph[id] = atomic.LoadInt64(p)
		}
		res, _, err := a.Ask(qr, route, q)
		if err != nil {
			var ae *askErr
			if errors.As(err, &ae) {
				c.Violate("answer", "concurrently by %s: %v", route, err)
			} else {
				c.Inconclusive("%s: %v", route, err)
			}
			return
		}
		c.Eval(len(q))
		for _, x := range res {
			for _, p := range x.ProviderResults {
				id := p.Provider.ID
				if phase[id] == nil || ph[id]%2 == 1 && atomic.LoadInt64(phase[id]) == ph[id] {
					c.Violate("answer", "concurrently by %s: answer holds a record of %s, which is not registered", route, shortPeer(id))
					return
				}
			}
		}
		c.Seen(fmt.Sprint("conc", route, ph[provs[2].ID]%2, ph[provs[3].ID]%2, len(res)))
	})
	atomic.StoreInt32(&stop, 1)
	wg.Wait()
	for _, v := range provs {
		regNow(v.ID)
	}
	settle()
	mu.Lock()
	if viol != "" {
		c.Violate("removal", "concurrently: %s", viol)
	}
	mu.Unlock()
	// The newest content of everybody is there and is served.
	for k, v := range provs {
		e := 1
		if k >= 2 {
			e = epochs[k]
		}
		for x := 0; x < 2; x++ {
			want := fmt.Sprintf("e%d-%d", e, x)
			res, _, err := a.Ask(r, "http-mh", mhs[:1])
			if err != nil {
				c.Inconclusive("%v", err)
				return
			}
			c.Eval(1)
			ok := false
			for _, y := range res {
				for _, p := range y.ProviderResults {
					ok = ok || p.Provider.ID == v.ID && string(p.ContextID) == want
				}
			}
			if !ok {
				c.Violate("lost", "content stored under %s for %s (removed %d times before) is not served", want, shortPeer(v.ID), e-1)
				return
			}
		}
	}
	c.Count("epochs", int64(epochs[2]+epochs[3]))
	c.Count("purges", int64(len(s.IX.Log())))
}

// p15real: content is ingested from publishers before and after a removal.
func (c *Ctx) p15real(i int) {
	r := c.Rng("real", i)
	rig := newRig(RigOpts{Listen: true})
	s := newSrv(rig, srvOpts{noIngest: true, noAdmin: true})
	defer s.Stop()
	a := newAsker(s)
	ids := newIdents(r, 2)
	pubs := []*Pub{newPub(ids[0]), newPub(ids[1])}
	defer pubs[0].Close()
	defer pubs[1].Close()
	mhs := testMhs(r, fmt.Sprint("p15r-", i, "-"), 8)
	sync := func(p *Pub, ctx string, l []multihash.Multihash) bool {
		p.Publish(AdSpec{Ctx: ctx, Meta: "m-" + ctx, Mhs: mhStrings(l)})
		_, ok := s.SyncWait(c, bg, p, 0, false)
		return ok
	}
	ask := func(m multihash.Multihash) (map[string]bool, bool) {
		route := append(append([]string(nil), singleRoutes...), batchRoutes...)[r.Intn(8)]
		res, _, err := a.Ask(r, route, []multihash.Multihash{m})
		if err != nil {
			c.Inconclusive("%v", err)
			return nil, false
		}
		out := map[string]bool{}
		for _, x := range res {
			for _, p := range x.ProviderResults {
				out[shortPeer(p.Provider.ID)+string(p.ContextID)+"/"+string(p.Metadata)] = true
			}
		}
		return out, true
	}
	expect := func(when string, m multihash.Multihash, want ...string) bool {
		got, ok := ask(m)
		if !ok {
			return false
		}
		c.Eval(1)
		if len(got) != len(want) {
			c.Violate("answer", "%s: answer %v, want %v", when, got, want)
			return false
		}
		for _, x := range want {
			if !got[x] {
				c.Violate("answer", "%s: answer %v, want %v", when, got, want)
				return false
			}
		}
		return true
	}
	tag := func(k int, ctx string) string { return shortPeer(ids[k].ID) + ctx + "/m-" + ctx }
	if !sync(pubs[0], "a", mhs[:4]) || !sync(pubs[1], "b", mhs[2:6]) {
		return
	}
	rounds := 1 + r.Intn(3)
	last := "a"
	for n := 0; n < rounds; n++ {
		if !expect("before removal", mhs[3], tag(0, last), tag(1, "b")) {
			return
		}
		must(s.Reg.RemoveProvider(bg, ids[0].ID))
		// All records of the removed provider get purged by asking for them.
		for _, m := range mhs[:4] {
			if _, ok := ask(m); !ok {
				return
			}
		}
		if !expect("after removal", mhs[3], tag(1, "b")) || !expect("after removal", mhs[0]) {
			return
		}
		if !c.Await("not-purged", "purge of a removed provider's records", func() bool {
			for _, m := range mhs[:4] {
				vs, _, _ := s.Core.Get(m)
				for _, v := range vs {
					if v.ProviderID == ids[0].ID {
						return false
					}
				}
			}
			return true
		}) {
			return
		}
		settleShort()
		// It comes back with new content, under a new context.
		ctx := fmt.Sprint("a", n)
		if !sync(pubs[0], ctx, mhs[:4]) {
			return
		}
		last = ctx
		if !expect("after re-registration", mhs[3], tag(0, last), tag(1, "b")) || !expect("after re-registration", mhs[0], tag(0, last)) || !expect("other provider", mhs[5], tag(1, "b")) {
			return
		}
		c.Seen(fmt.Sprint("real", n))
	}
}
