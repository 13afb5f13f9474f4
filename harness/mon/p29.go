package main

import (
	"fmt"
	"math/rand"
	"sync"
	"time"

	"github.com/filecoin-project/storetheindex/config"
	"github.com/filecoin-project/storetheindex/internal/registry"
	"github.com/ipfs/go-cid"
	"github.com/libp2p/go-libp2p-core/peer"
	"github.com/multiformats/go-multiaddr"
)

func init() {
	register("P29", "after every register or update call the registration equals the reference record built from the calls so far; refused updates change nothing",
		runP29, "the record kept for a publisher equal to the provider may use a provider address where no publisher address was given")
}

func runP29(c *Ctx) {
	c.RunN("updates", c.N(120, 2000), 6, p29Updates)
	c.RunN("concurrent", c.N(60, 600), 4, p29Concurrent)
	c.RunN("ingest", c.N(24, 240), 4, p29Ingest)
}

// regUpdate is one RegisterOrUpdate call.
type regUpdate struct {
	addrs []string
	ad    cid.Cid
	pub   peer.AddrInfo
}

// refUpdate says what an update does to a record: the new record, or refused.
func refUpdate(old *regRec, id peer.ID, u regUpdate, badAddr bool, allowed func(pub peer.ID) bool) (*regRec, bool) {
	if badAddr {
		return old, false
	}
	n := &regRec{id: id}
	check := old == nil
	if old != nil {
		*n = *old
	}
	if u.pub.ID.Validate() == nil {
		if n.pub != u.pub.ID {
			n.pub, n.pubAddr = u.pub.ID, ""
			check = true
		}
		if len(u.pub.Addrs) != 0 {
			n.pubAddr = u.pub.Addrs[0].String()
		}
	}
	if len(u.addrs) != 0 {
		n.addrs = u.addrs
	}
	if u.ad != cid.Undef && u.ad != n.ad {
		n.ad = u.ad
		n.adTime = -1 // set by the call
	}
	if check {
		if len(n.addrs) == 0 {
			return old, false
		}
		if n.pub != "" && n.pub != id && !allowed(n.pub) {
			return old, false
		}
	}
	return n, true
}

// settleRec resolves what the reference leaves to the registry: the time of a
// new advertisement (within the call) and the publisher address of a provider
// that is its own publisher.
func settleRec(c *Ctx, when string, want *regRec, old *regRec, got *regRec, t0, t1 time.Time) bool {
	if want == nil || got == nil {
		return true
	}
	if want.adTime == -1 {
		if got.adTime < t0.UnixNano() || got.adTime > t1.UnixNano() {
			c.Violate("ad-time", "%s: last advertisement time %d is not within the call [%d,%d]", when, got.adTime, t0.UnixNano(), t1.UnixNano())
			return false
		}
		want.adTime = got.adTime
	}
	if want.pub == want.id && want.pubAddr == "" {
		ok := got.pubAddr == ""
		cands := append([]string(nil), want.addrs...)
		if old != nil {
			cands = append(cands, old.addrs...)
		}
		for _, a := range cands {
			ok = ok || a == got.pubAddr
		}
		if ok {
			want.pubAddr = got.pubAddr
		}
	}
	return true
}

func p29Updates(c *Ctx, n int) {
	r := c.Rng("updates", n)
	var ids, pubs []peer.ID
	for _, x := range newIdents(r, 3) {
		ids = append(ids, x.ID)
	}
	for _, x := range newIdents(r, 4) {
		pubs = append(pubs, x.ID)
	}
	blocked := pubs[3]
	wb := newWB(nil)
	reg := newReg(wb, func(dc *config.Discovery) {
		dc.Policy.Except = []string{blocked.String()}
	})
	defer func() { reg.Close() }()
	newDrain(reg)
	allowed := func(p peer.ID) bool { return p != blocked }
	want := map[peer.ID]*regRec{}
	inactive := map[peer.ID]bool{}
	var hist []string
	huge := registry.VerifPolling{Interval: 1e6 * time.Hour, RetryAfter: 1e6 * time.Hour, StopAfter: 1e6 * time.Hour}
	for step := 0; step < 24; step++ {
		id := ids[r.Intn(len(ids))]
		// Sometimes a whole record is registered, as discovery does.
		if r.Intn(8) == 0 {
			info := randInfo(r, id, pubs[:3], step)
			info.DiscoveryAddr = fmt.Sprint("t0", step)
			must(reg.Register(bg, info))
			want[id] = recOf(info)
			delete(inactive, id)
			hist = append(hist, "registered "+want[id].String())
		}
		// Sometimes let the provider go inactive first: its registration is kept.
		if registry.VerifHooks && want[id] != nil && want[id].pub.Validate() == nil && r.Intn(6) == 0 {
			over := map[peer.ID]registry.VerifPolling{id: {StopAfter: 2e6 * time.Hour}}
			reg.VerifPoll(huge, over)
			reg.VerifPoll(huge, over)
			inactive[id] = true
			hist = append(hist, "inactive "+shortPeer(id))
		}
		u := regUpdate{}
		bad := false
		if r.Intn(2) == 0 {
			u.addrs = addrStrings(randMaddrs(r, 1))
			if r.Intn(6) == 0 {
				bad = true
				u.addrs[r.Intn(len(u.addrs))] = []string{"", "nonsense", "/ip4/999.1.1.1/tcp/1", "/ip4/1.1.1.1/tcp", "\x00"}[r.Intn(5)]
			}
		}
		if r.Intn(3) != 0 {
			u.ad = testCid(fmt.Sprint("a", r.Intn(6)))
		}
		switch r.Intn(5) {
		case 0:
			u.pub.ID = id
		case 1, 2:
			u.pub.ID = pubs[r.Intn(len(pubs))]
		case 3:
			if want[id] != nil {
				u.pub.ID = want[id].pub
			}
		}
		if u.pub.ID != "" && r.Intn(3) != 0 {
			u.pub.Addrs = randMaddrs(r, 1)
		}
		old := want[id]
		exp, acc := refUpdate(old, id, u, bad, allowed)
		var before *regRec
		if exp != nil {
			cp := *exp
			before = &cp
		}
		t0 := time.Now().Round(0)
		err := reg.RegisterOrUpdate(bg, id, u.addrs, u.ad, u.pub)
		t1 := time.Now().Round(0)
		what := fmt.Sprintf("update %s addrs=%v ad=%s pub=%s@%v", shortPeer(id), u.addrs, shortCidU(u.ad), shortPeer(u.pub.ID), u.pub.Addrs)
		hist = append(hist, what)
		if len(hist) > 6 {
			hist = hist[len(hist)-6:]
		}
		c.Eval(1)
		c.Seen(fmt.Sprintf("old=%v inact=%v addrs=%v bad=%v ad=%v pub=%v pa=%v acc=%v", old != nil, inactive[id], len(u.addrs) > 0, bad, u.ad != cid.Undef, u.pub.ID != "", len(u.pub.Addrs), acc))
		if (err == nil) != acc {
			c.Violate("answer", "%v: %s answered %v, expected accepted=%v (record before: %s)", hist, what, err, acc, old)
			return
		}
		if acc {
			delete(inactive, id)
			want[id] = before
			got := recOf(reg.ProviderInfo(id))
			if !settleRec(c, what, want[id], old, got, t0, t1) {
				return
			}
		}
		vis := map[peer.ID]*regRec{}
		for k, v := range want {
			if !inactive[k] {
				vis[k] = v
			}
		}
		if d := diffViews(regView(reg, ids), vis); d != "" {
			c.Violate("record", "after %v: %s", hist, d)
			return
		}
		lv, _ := listView(reg)
		if d := diffViews(lv, vis); d != "" {
			c.Violate("record", "listing after %v: %s", hist, d)
			return
		}
		for _, k := range ids {
			if reg.IsRegistered(k) != (want[k] != nil) {
				c.Violate("record", "after %v: IsRegistered(%s) is not %v", hist, shortPeer(k), want[k] != nil)
				return
			}
		}
		c.Eval(3)
	}
	if n < 2 {
		c.Sample("%v -> %v", hist, want[ids[0]])
	}
	c.Count("updates", 24)
}

// p29Concurrent makes concurrent updates of different parts of one record:
// none may get lost.
func p29Concurrent(c *Ctx, n int) {
	r := c.Rng("conc", n)
	id, pub := newIdent(r).ID, newIdent(r).ID
	reg := newReg(newWB(nil), nil)
	defer reg.Close()
	newDrain(reg)
	must(reg.RegisterOrUpdate(bg, id, []string{testAddr(1).String()}, testCid("first"), peer.AddrInfo{ID: pub, Addrs: []multiaddr.Multiaddr{testAddr(2)}}))
	const rounds = 12
	for round := 0; round < rounds; round++ {
		w := &regRec{id: id, pub: pub, addrs: []string{testAddr(100 + 3*round).String()}, ad: testCid(fmt.Sprint("c", round)), pubAddr: testAddr(101 + 3*round).String()}
		fs := []func() error{
			func() error { return reg.RegisterOrUpdate(bg, id, w.addrs, cid.Undef, peer.AddrInfo{}) },
			func() error { return reg.RegisterOrUpdate(bg, id, nil, w.ad, peer.AddrInfo{}) },
			func() error {
				return reg.RegisterOrUpdate(bg, id, nil, cid.Undef, peer.AddrInfo{ID: pub, Addrs: []multiaddr.Multiaddr{testAddr(101 + 3*round)}})
			},
		}
		r.Shuffle(len(fs), func(i, j int) { fs[i], fs[j] = fs[j], fs[i] })
		var wg sync.WaitGroup
		errs := make([]error, len(fs))
		start := make(chan struct{})
		for i := range fs {
			wg.Add(1)
			go func(i int, q *rand.Rand) {
				defer wg.Done()
				<-start
				errs[i] = fs[i]()
			}(i, nil)
		}
		close(start)
		wg.Wait()
		for _, e := range errs {
			if e != nil {
				c.Violate("answer", "concurrent update refused: %v", e)
				return
			}
		}
		got := recOf(reg.ProviderInfo(id))
		if got != nil {
			w.adTime = got.adTime
		}
		c.Eval(1)
		if !w.same(got) {
			c.Violate("lost-update", "three concurrent updates of addresses, advertisement and publisher address were acknowledged; record is %s, want %s", got, w)
			return
		}
	}
	c.Count("concurrent rounds", rounds)
}
