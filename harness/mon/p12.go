package main

import (
	"fmt"
	"sync"
	"time"

	"github.com/filecoin-project/storetheindex/config"
	"github.com/filecoin-project/storetheindex/internal/registry"
	"github.com/ipfs/go-cid"
	"github.com/libp2p/go-libp2p-core/peer"
	"github.com/multiformats/go-multiaddr"
)

func init() {
	register("P12", "every poll pass polls, deactivates and removes exactly the providers whose own schedule says so, judged by lower and upper bounds of the time since contact; contact restores the registration",
		runP12, "times between the bounds decide nothing; one poll pass is one run of the registry's timer")
}

const far = 1000 * time.Hour

// pollProv is what the reference knows about one provider.
type pollProv struct {
	rec      *regRec
	inactive bool
	// contact lies in [c0,c1]; noContact: none since start, nor a pass.
	c0, c1    time.Time
	noContact bool
}

type tri int

const (
	no tri = iota
	yes
	maybe
)

// atLeast says whether a duration within [lo,hi] is at least x.
func atLeast(lo, hi, x time.Duration) tri {
	if lo >= x {
		return yes
	}
	if hi < x {
		return no
	}
	return maybe
}

func runP12(c *Ctx) {
	var wg sync.WaitGroup
	wg.Add(1)
	go func() {
		defer wg.Done()
		c.Run("timer", p12Timer)
	}()
	if !registry.VerifHooks {
		c.Count("passes_left_out", 1)
		wg.Wait()
		return
	}
	c.RunN("passes", c.N(120, 1500), 5, p12Passes)
	c.RunN("unread", c.N(20, 200), 5, p12Unread)
	c.RunN("answer", c.N(24, 300), 4, p12Answer)
	c.RunN("contact", c.N(20, 200), 4, p12Contact)
	wg.Wait()
}

func p12Passes(c *Ctx, n int) {
	r := c.Rng("passes", n)
	var ids []peer.ID
	for _, x := range newIdents(r, 4) {
		ids = append(ids, x.ID)
	}
	pub := newIdent(r).ID
	wb := newWB(nil)
	reg := newReg(wb, nil)
	defer func() { reg.Close() }()
	st := map[peer.ID]*pollProv{}
	// The polling interval of each provider stays the same; retry and stop
	// times vary from pass to pass, which stands for time passing.
	short := 3 * time.Millisecond
	intervals := []time.Duration{0, short, 40 * time.Millisecond, far}
	base := intervals[r.Intn(4)]
	over := map[peer.ID]time.Duration{}
	for _, id := range ids {
		if r.Intn(2) == 0 {
			over[id] = intervals[r.Intn(4)]
		}
	}
	ivl := func(id peer.ID) time.Duration {
		if o, ok := over[id]; ok {
			return o
		}
		return base
	}
	waits := []time.Duration{0, short, far, far}
	var hist []string
	say := func(f string, a ...interface{}) {
		hist = append(hist, fmt.Sprintf(f, a...))
		if len(hist) > 12 {
			hist = hist[1:]
		}
	}
	check := func(when string) bool {
		want := map[peer.ID]*regRec{}
		for id, p := range st {
			if !p.inactive {
				want[id] = p.rec
			}
		}
		c.Eval(len(ids))
		if d := diffViews(regView(reg, ids), want); d != "" {
			c.Violate("visible", "%s: %s; history %v", when, d, hist)
			return false
		}
		lv, _ := listView(reg)
		if d := diffViews(lv, want); d != "" {
			c.Violate("visible", "%s: listing: %s; history %v", when, d, hist)
			return false
		}
		for _, id := range ids {
			if reg.IsRegistered(id) != (st[id] != nil) {
				c.Violate("visible", "%s: IsRegistered(%s) is not %v; history %v", when, shortPeer(id), st[id] != nil, hist)
				return false
			}
		}
		return true
	}
	for step := 0; step < 20; step++ {
		id := ids[r.Intn(len(ids))]
		switch x := r.Intn(10); {
		case x < 2: // direct registration: no contact with the publisher yet
			info := &registry.ProviderInfo{AddrInfo: peer.AddrInfo{ID: id, Addrs: randMaddrs(r, 1)}}
			if r.Intn(4) != 0 {
				info.Publisher, info.PublisherAddr = pub, testAddr(r.Intn(1000))
			}
			must(reg.Register(bg, info))
			st[id] = &pollProv{rec: recOf(info), noContact: true}
			say("register %s pub=%v", shortPeer(id), info.Publisher != "")
			if !check("after registering") {
				return
			}
		case x < 5: // contact
			ad := cid.Undef
			if r.Intn(2) == 0 {
				ad = testCid(fmt.Sprint(n, step))
			}
			var addrs []string
			p := st[id]
			if p == nil {
				addrs = addrStrings(randMaddrs(r, 1))
			}
			pi := peer.AddrInfo{}
			if p == nil || r.Intn(2) == 0 {
				pi = peer.AddrInfo{ID: pub, Addrs: []multiaddr.Multiaddr{testAddr(7)}}
			}
			var old *regRec
			if p != nil {
				old = p.rec
			}
			exp, _ := refUpdate(old, id, regUpdate{addrs, ad, pi}, false, func(peer.ID) bool { return true })
			c0 := time.Now()
			err := reg.RegisterOrUpdate(bg, id, addrs, ad, pi)
			c1 := time.Now()
			if err != nil {
				c.Violate("contact-refused", "contact from %s refused: %v; history %v", shortPeer(id), err, hist)
				return
			}
			got := recOf(reg.ProviderInfo(id))
			if got == nil {
				c.Violate("contact-inactive", "%s is not returned after contact; history %v", shortPeer(id), hist)
				return
			}
			if exp.adTime == -1 {
				exp.adTime = got.adTime
			}
			st[id] = &pollProv{rec: exp, c0: c0, c1: c1}
			say("contact %s", shortPeer(id))
			if !check("after contact") {
				return
			}
		case x < 6:
			time.Sleep(time.Duration(r.Intn(12)) * time.Millisecond)
			say("sleep")
		case x < 7 && r.Intn(2) == 0: // restart: contact times are forgotten
			reg.Close()
			wb = newWB(wb.All())
			reg = newReg(wb, nil)
			for _, p := range st {
				p.inactive, p.noContact = false, true
			}
			say("restart")
			if !check("after restart") {
				return
			}
		default:
			retry, stop := waits[r.Intn(4)], waits[r.Intn(4)]
			om := map[peer.ID]registry.VerifPolling{}
			for o, iv := range over {
				om[o] = registry.VerifPolling{Interval: iv, RetryAfter: waits[r.Intn(4)], StopAfter: waits[r.Intn(4)]}
			}
			bp := registry.VerifPolling{Interval: base, RetryAfter: retry, StopAfter: stop}
			before := map[peer.ID]bool{}
			for o := range st {
				before[o] = true
			}
			say("pass base=%v over=%v", bp, len(om))
			t0 := time.Now()
			reg.VerifPoll(bp, om)
			reg.IsRegistered(id) // the pass is over when this returns
			t1 := time.Now()
			var evs []drainEv
		drainLoop:
			for {
				select {
				case i := <-reg.SyncChan():
					evs = append(evs, drainEv{i, recOf(i), i.Deleted()})
				default:
					break drainLoop
				}
			}
			c.Count("passes", 1)
			polled := map[peer.ID]int{}
			for _, e := range evs {
				polled[e.rec.id]++
			}
			nDue, nMaybe := 0, 0
			for _, o := range ids {
				p := st[o]
				if p == nil {
					if polled[o] != 0 {
						c.Violate("poll-unregistered", "%s polled but not registered; history %v", shortPeer(o), hist)
						return
					}
					continue
				}
				pl := bp
				if x, ok := om[o]; ok {
					pl = x
				}
				var due, gone, silent tri
				switch {
				case p.rec.pub.Validate() != nil:
				case p.noContact:
					// The first pass after start gives it until the next one.
					p.noContact = false
					p.c0, p.c1 = t0.Add(-ivl(o)), t1.Add(-ivl(o))
				default:
					lo, hi := t0.Sub(p.c1), t1.Sub(p.c0)
					due = atLeast(lo, hi, pl.Interval)
					if due != no {
						gone = atLeast(lo-pl.Interval, hi-pl.Interval, pl.StopAfter)
						silent = atLeast(lo-pl.Interval, hi-pl.Interval, 2*pl.RetryAfter)
						if silent == no && atLeast(lo-pl.Interval, hi-pl.Interval, pl.RetryAfter) != no {
							silent = maybe // past the retry time, not yet past two
						}
						if due == maybe {
							if gone == yes {
								gone = maybe
							}
							if silent == yes {
								silent = maybe
							}
						}
					}
				}
				is := reg.IsRegistered(o)
				act := reg.ProviderInfo(o) != nil
				desc := fmt.Sprintf("provider %s (schedule %v, override %v, no contact for [%s,%s], inactive %v)", shortPeer(o), pl, func() bool { _, ok := om[o]; return ok }(), t0.Sub(p.c1), t1.Sub(p.c0), p.inactive)
				c.Eval(3)
				if polled[o] > 0 && due == no {
					c.Violate("polled-early", "%s was polled; history %v", desc, hist)
					return
				}
				if !is && gone == no {
					c.Violate("removed-early", "%s was removed; history %v", desc, hist)
					return
				}
				if is && gone == yes {
					c.Violate("not-removed", "%s was not removed; history %v", desc, hist)
					return
				}
				if is && act && (p.inactive || silent == yes) {
					c.Violate("not-inactive", "%s is still returned; history %v", desc, hist)
					return
				}
				if is && !act && !p.inactive && silent == no {
					c.Violate("inactive-early", "%s is no longer returned; history %v", desc, hist)
					return
				}
				if due == yes {
					nDue++
				}
				if due == maybe {
					nMaybe++
				}
				c.Seen(fmt.Sprint("due", due, "gone", gone, "silent", silent, "was", p.inactive, "over", len(om)))
				if !is {
					delete(st, o)
				} else {
					p.inactive = !act
				}
			}
			if nDue > 0 && len(evs) == 0 {
				c.Violate("not-polled", "%d providers are due, none was polled; history %v", nDue, hist)
				return
			}
			for _, e := range evs {
				o := e.rec.id
				if polled[o] > 1 {
					c.Violate("polled-twice", "%s polled %d times in one pass; history %v", shortPeer(o), polled[o], hist)
					return
				}
				if e.deleted != (st[o] == nil) {
					c.Violate("event", "poll of %s says deleted=%v, registered=%v; history %v", shortPeer(o), e.deleted, st[o] != nil, hist)
					return
				}
			}
			c.Count("polls seen", int64(len(evs)))
			if !check("after a pass") {
				return
			}
		}
	}
	if n < 2 {
		c.Sample("%v", hist)
	}
}

// p12Unread runs passes whose polls nobody takes: other operations go on.
func p12Unread(c *Ctx, n int) {
	r := c.Rng("unread", n)
	reg := newReg(newWB(nil), nil)
	var ids []peer.ID
	for _, x := range newIdents(r, 5) {
		ids = append(ids, x.ID)
		must(reg.RegisterOrUpdate(bg, x.ID, []string{testAddr(1).String()}, cid.Undef, peer.AddrInfo{ID: x.ID, Addrs: randMaddrs(r, 1)}))
	}
	done := make(chan struct{})
	go func() {
		defer close(done)
		for i := 0; i < 4; i++ {
			reg.VerifPoll(registry.VerifPolling{RetryAfter: far, StopAfter: far}, nil)
			for _, id := range ids {
				reg.IsRegistered(id)
				reg.ProviderInfo(id)
			}
			reg.AllProviderInfo()
			_ = reg.RegisterOrUpdate(bg, ids[i], nil, testCid("x"), peer.AddrInfo{})
			reg.VerifCleanup()
			tick()
		}
		reg.VerifPoll(registry.VerifPolling{}, nil) // everything is removed
		for _, id := range ids {
			if reg.IsRegistered(id) {
				c.Violate("not-removed", "provider past its stop time is still registered when nobody takes polls")
			}
		}
		reg.Close()
	}()
	c.Eval(1)
	c.Await("blocked", "registry operations while nobody takes polls", func() bool { return isDone(done) })
	c.Count("unread passes", 5)
}

// p12Timer lets the registry's own timer run its first pass, with the
// schedules coming from the configuration.
func p12Timer(c *Ctx) {
	r := c.Rng("timer")
	ids := make([]peer.ID, 9)
	for i, x := range newIdents(r, 9) {
		ids[i] = x.ID
	}
	D := func(d time.Duration) config.Duration { return config.Duration(d) }
	wb := newWB(nil)
	cfg := func(dc *config.Discovery) {
		dc.PollInterval, dc.PollRetryAfter, dc.PollStopAfter = D(0), D(far), D(far)
		dc.PollOverrides = []config.Polling{
			{ProviderID: ids[1].String(), Interval: D(0), RetryAfter: D(0), StopAfter: D(far)},
			{ProviderID: ids[2].String(), Interval: D(far), RetryAfter: D(0), StopAfter: D(0)},
			{ProviderID: ids[3].String(), Interval: D(0), RetryAfter: D(far), StopAfter: D(0)},
			// All times count from their own starting points: a pass is never
			// earlier than a minute after the start.
			{ProviderID: ids[6].String(), Interval: D(50 * time.Second), RetryAfter: D(far), StopAfter: D(5 * time.Second)},
			{ProviderID: ids[7].String(), Interval: D(50 * time.Second), RetryAfter: D(2 * time.Second), StopAfter: D(far)},
			{ProviderID: ids[8].String(), Interval: D(50 * time.Second), RetryAfter: D(far), StopAfter: D(far)},
		}
	}
	// Provider 5 was registered before a restart.
	pre := newReg(wb, nil)
	must(pre.RegisterOrUpdate(bg, ids[5], []string{testAddr(5).String()}, cid.Undef, peer.AddrInfo{ID: ids[5], Addrs: randMaddrs(r, 1)}))
	pre.Close()
	reg := newReg(newWB(wb.All()), cfg)
	dr := newDrain(reg)
	defer reg.Close()
	for _, i := range []int{0, 1, 2, 3, 6, 7, 8} {
		must(reg.RegisterOrUpdate(bg, ids[i], []string{testAddr(i).String()}, cid.Undef, peer.AddrInfo{ID: ids[i], Addrs: randMaddrs(r, 1)}))
	}
	regDone := time.Now()
	must(reg.Register(bg, &registry.ProviderInfo{AddrInfo: peer.AddrInfo{ID: ids[4], Addrs: randMaddrs(r, 1)}})) // no publisher
	// The timer runs at most once a minute; the removal of 3 shows that it did.
	deadline := time.Now().Add(4 * time.Minute)
	var before time.Time // the pass was later than this
	for {
		t := time.Now()
		if !reg.IsRegistered(ids[3]) {
			break
		}
		before = t
		time.Sleep(200 * time.Millisecond)
		if c.Failed() {
			return
		}
		if time.Now().After(deadline) {
			c.Violate("timer", "a provider past its stop time was not removed within minutes")
			return
		}
	}
	reg.IsRegistered(ids[0])
	c.Eval(8)
	silent := before.Sub(regDone)
	if silent > 56*time.Second {
		if reg.IsRegistered(ids[6]) {
			c.Violate("timer", "a provider silent for %s is still registered after a pass; its interval is 50s and its stop time 5s", silent)
		}
		if reg.ProviderInfo(ids[7]) != nil {
			c.Violate("timer", "a provider silent for %s is still returned after a pass; its interval is 50s and its retry time 2s", silent)
		}
		c.Count("timer passes with short overrides", 1)
	}
	if reg.ProviderInfo(ids[8]) == nil || !reg.IsRegistered(ids[7]) {
		c.Violate("timer", "a provider was removed or made inactive early")
	}
	for i, want := range []bool{true, false, true, false, true, true} {
		if got := reg.ProviderInfo(ids[i]) != nil; got != want {
			c.Violate("timer", "after the timer's first pass provider %d is returned: %v, want %v", i, got, want)
		}
		if got := reg.IsRegistered(ids[i]); got != (i != 3) {
			c.Violate("timer", "after the timer's first pass provider %d is registered: %v", i, got)
		}
	}
	for _, e := range dr.all() {
		for i, ok := range []bool{true, true, false, true, false, false} {
			if e.rec.id == ids[i] && !ok {
				c.Violate("timer", "the timer's first pass polled provider %d, which is not due", i)
			}
			if e.deleted && e.rec.id != ids[3] && e.rec.id != ids[6] {
				c.Violate("timer", "the timer's first pass reported provider %s deleted", shortPeer(e.rec.id))
			}
			if e.rec.id == ids[i] && e.deleted != (i == 3) {
				c.Violate("timer", "the timer's first pass reported provider %d deleted=%v", i, e.deleted)
			}
		}
	}
	if len(dr.all()) == 0 {
		c.Violate("timer", "the timer's first pass polled nobody")
	}
	c.Count("timer passes", 1)
}
