package main

import (
	"fmt"
	"math"
	mrand "math/rand"
	"runtime"
	"sync"
	"sync/atomic"
	"time"

	"github.com/libp2p/go-libp2p-core/peer"
)

func init() {
	register("P08", "several providers send signed register, discover and index-content requests over HTTP and libp2p with fresh, equal, lower, too old, just young enough, far-future and extreme sequence numbers, with forged requests and clean-up passes in between; every reply is compared with a per-provider reference; "+
		"in the concurrent part many workers send copies and close sequence numbers at once and each provider's recorded history of acceptances and refusals is checked for linearizability against a strictly increasing register; distinct counts reference states and history shapes",
		runP08, "the acceptance window is 48 hours; numbers within an hour of its edge are not used")
}

func runP08(c *Ctx) {
	c.RunN("seq", c.N(60, 1200), 4, func(c *Ctx, i int) { c.p08seq(i) })
	c.RunN("race", c.N(8, 100), 1, func(c *Ctx, i int) { c.p08race(i) })
	c.RunN("conc", c.N(120, 2500), 3, func(c *Ctx, i int) { c.p08conc(i) })
}

var p08disc int64

func p08req(r *mrand.Rand, id peer.ID, seq uint64) (reqSpec, string) {
	n := atomic.AddInt64(&p08disc, 1)
	q := reqSpec{what: []string{"register", "discover", "index"}[r.Intn(3)], prov: id, seq: seq, addrs: []string{fmt.Sprintf("/ip4/10.1.%d.%d/tcp/%d", n/200%200, n%200, 2000+n%1000)},
		disc: fmt.Sprint("q-", n), mh: testMh(fmt.Sprint("p08-", n)), ctxID: fmt.Sprint("c", n), meta: "m"}
	via := []string{"http", "p2p"}[r.Intn(2)]
	if q.what == "index" {
		via = "p2p"
	}
	return q, via
}

func (c *Ctx) p08seq(i int) {
	r := c.Rng("seq", i)
	disc := &askDisc{}
	rig := newRig(RigOpts{Listen: true, Discoverer: disc})
	s := newSrv(rig, srvOpts{noAdmin: true, noFind: true})
	defer s.Stop()
	provs := newIdents(r, 4)
	var refused []reqSpec
	att := newIdent(r)
	high := map[peer.ID]uint64{}
	const hour = uint64(time.Hour)
	var hist []string
	for n := 0; n < 70; n++ {
		p := provs[r.Intn(len(provs))]
		now := uint64(time.Now().UnixNano())
		h, known := high[p.ID]
		var sq uint64
		cls := []string{"fresh", "fresh", "equal", "lower", "below", "old", "ancient", "young", "future", "zero", "next", "wrap", "forged", "cleanup"}[r.Intn(14)]
		switch cls {
		case "fresh":
			sq = now
		case "equal":
			sq = h
		case "lower":
			sq = h - 1
		case "below":
			sq = h - uint64(r.Int63n(int64(hour)))
		case "next":
			sq = h + 1
		case "old":
			sq = now - 49*hour - uint64(r.Intn(1000))*hour
		case "ancient":
			sq = uint64(r.Intn(1 << 30))
		case "young":
			sq = now - hour - uint64(r.Int63n(int64(46*hour)))
		case "future":
			sq = now + uint64(r.Intn(1000))*hour
		case "zero":
			sq = 0
		case "wrap":
			// numbers beyond the signed range
			sq = math.MaxUint64 - uint64(r.Intn(1000000))
			if n < 40 {
				continue
			}
		case "forged":
			// An attacker names the provider with a large number.
			q, via := p08req(r, p.ID, now+uint64(r.Intn(3000))*hour)
			rp := s.Ingest(via, q.what, q.sign(att))
			c.Eval(1)
			if rp.ok() {
				c.Violate("forged", "request of %s signed by somebody else was accepted", shortPeer(p.ID))
				return
			}
			hist = append(hist, "forged "+shortPeer(p.ID))
			continue
		case "cleanup":
			rig.Reg.VerifCleanup()
			hist = append(hist, "cleanup")
			continue
		}
		if !known && (cls == "equal" || cls == "lower" || cls == "below" || cls == "next") {
			continue
		}
		floor := now - 48*hour
		if sq > floor-hour && sq < floor+hour {
			continue // too near the edge to judge
		}
		want := sq > floor && (!known || sq > h)
		q, via := p08req(r, p.ID, sq)
		rp := s.Ingest(via, q.what, q.sign(p))
		if rp.Err != nil {
			c.Inconclusive("request failed: %v", rp.Err)
			return
		}
		hist = append(hist, fmt.Sprintf("%s %s %s %d (%s)", via, q.what, shortPeer(p.ID), int64(sq-now), cls))
		c.Eval(1)
		if rp.ok() != want {
			if len(hist) > 25 {
				hist = hist[len(hist)-25:]
			}
			c.Violate("sequence", "sequence %d of %s, highest accepted %d (known %v), time %d: accepted=%v, want %v: %s; history (offsets in ns) %v", sq, shortPeer(p.ID), h, known, now, rp.ok(), want, rp, hist)
			return
		}
		if want {
			high[p.ID] = sq
		} else {
			refused = append(refused, q)
		}
		c.Count(map[bool]string{true: "accepted", false: "refused"}[want], 1)
		c.Seen(fmt.Sprint(cls, q.what, via, want, known))
	}
	// What was refused had no effect.
	settleShort()
	for _, q := range refused {
		c.Eval(1)
		trace := ""
		disc.mu.Lock()
		for _, x := range disc.calls {
			if x == q.prov.String()+" "+q.disc {
				trace = "started a discovery"
			}
		}
		disc.mu.Unlock()
		if v, found, err := rig.Core.Get(q.mh); err != nil || found {
			trace = fmt.Sprintf("indexed %v (%v)", v, err)
		}
		if pi := rig.Reg.ProviderInfo(q.prov); pi != nil {
			for _, a := range pi.AddrInfo.Addrs {
				if a.String() == q.addrs[0] {
					trace = "changed the registration"
				}
			}
		}
		if trace != "" {
			c.Violate("refused-effect", "a %s request of %s that was refused because of its sequence number %s", q.what, shortPeer(q.prov), trace)
			return
		}
	}
	if i == 0 {
		c.Sample("%v", hist[:12])
	}
}

type p08op struct {
	seq      uint64
	inv, ret int64
	ok       bool
	what     string
}

func (c *Ctx) p08conc(i int) {
	r := c.Rng("conc", i)
	rig := newRig(RigOpts{Listen: true, Discoverer: &askDisc{}})
	s := newSrv(rig, srvOpts{noAdmin: true, noFind: true})
	defer s.Stop()
	nProv := 1 + r.Intn(3)
	provs := newIdents(r, nProv)
	base := uint64(time.Now().UnixNano())
	var clock int64
	var mu sync.Mutex
	hist := map[peer.ID][]p08op{}
	workers, per := 6+r.Intn(6), 8
	mode := r.Intn(3)
	// copies: requests signed once, sent by several workers
	type signed struct {
		p    Ident
		q    reqSpec
		via  string
		data []byte
	}
	var pool []signed
	for k := 0; k < workers*per; k++ {
		p := provs[r.Intn(nProv)]
		span := 3 * per
		if mode == 1 {
			span = 1 << 20
		}
		q, via := p08req(r, p.ID, base+uint64(r.Intn(span)))
		if mode == 2 {
			q.seq = base + uint64(k/workers) // waves of equal numbers
		}
		pool = append(pool, signed{p, q, via, q.sign(p)})
	}
	var wg sync.WaitGroup
	start := make(chan struct{})
	var fail int32
	for w := 0; w < workers; w++ {
		wg.Add(1)
		q := c.Rng("conc", i, "w", w)
		w := w
		go func() {
			defer wg.Done()
			<-start
			for k := 0; k < per; k++ {
				x := pool[q.Intn(len(pool))]
				if mode == 2 {
					x = pool[k*workers+w]
					if w%2 == 0 {
						x = pool[k*workers] // exact copies
					}
				}
				op := p08op{seq: x.q.seq, inv: atomic.AddInt64(&clock, 1), what: x.via + " " + x.q.what}
				rp := s.Ingest(x.via, x.q.what, x.data)
				op.ret = atomic.AddInt64(&clock, 1)
				op.ok = rp.ok()
				if rp.Err != nil {
					atomic.StoreInt32(&fail, 1)
				}
				mu.Lock()
				hist[x.p.ID] = append(hist[x.p.ID], op)
				mu.Unlock()
				if q.Intn(10) == 0 {
					rig.Reg.VerifCleanup()
				}
			}
		}()
	}
	close(start)
	wg.Wait()
	if fail != 0 {
		c.Inconclusive("a request got no answer")
		return
	}
	for id, ops := range hist {
		c.Eval(len(ops))
		if d := p08judge(ops); d != "" {
			c.Violate("history", "provider %s: %s", shortPeer(id), d)
			return
		}
		acc := 0
		over := 0
		for a := range ops {
			if ops[a].ok {
				acc++
			}
			for b := range ops[:a] {
				if ops[a].inv < ops[b].ret && ops[b].inv < ops[a].ret {
					over++
				}
			}
		}
		c.Count("overlapping_pairs", int64(over))
		c.Seen(fmt.Sprint("hist", mode, len(ops), acc, over))
	}
}

// p08race: requests with one number, or close ones, are checked at the same
// moment, many times.
func (c *Ctx) p08race(i int) {
	r := c.Rng("race", i)
	reg := newReg(memDS(), nil)
	defer reg.Close()
	ids := newIdents(r, 2)
	const n, rounds = 6, 1500
	base := uint64(time.Now().UnixNano())
	var round int64
	var oks [n]int64 // the number of the round in which it was accepted
	var done sync.WaitGroup
	var arrived int64
	for w := 0; w < n; w++ {
		w := w
		done.Add(1)
		go func() {
			defer done.Done()
			for k := int64(1); k <= rounds; k++ {
				for spin := 0; atomic.LoadInt64(&round) < k; spin++ {
					if spin > 2000 {
						runtime.Gosched()
					}
				}
				sq := base + uint64(k)*4
				if i%2 == 1 {
					sq += uint64(w % 2)
				}
				if reg.CheckSequence(ids[k%2].ID, sq) == nil {
					atomic.StoreInt64(&oks[w], k)
				}
				atomic.AddInt64(&arrived, 1)
			}
		}()
	}
	bad := ""
	for k := int64(1); k <= rounds; k++ {
		atomic.StoreInt64(&round, k)
		for atomic.LoadInt64(&arrived) < n*k {
			runtime.Gosched()
		}
		var acc [2]int
		for w := range oks {
			if atomic.LoadInt64(&oks[w]) == k {
				acc[w%2*(i%2)]++
			}
		}
		c.Eval(1)
		if acc[0] > 1 || acc[1] > 1 || acc[0]+acc[1] == 0 {
			bad = fmt.Sprintf("round %d: of %d simultaneous requests with %d different numbers, these counts were accepted: %v", k, n, 1+i%2, acc)
		}
	}
	done.Wait()
	if bad != "" {
		c.Violate("accepted-twice", "%s", bad)
		return
	}
	c.Seen(fmt.Sprint("race", i))
}

// p08judge decides whether a history of one provider is linearizable with
// respect to a register that accepts strictly increasing numbers only.
func p08judge(ops []p08op) string {
	// earliest point of an accepted operation: all accepted with smaller
	// numbers come before it
	early := func(a p08op) int64 {
		e := a.inv
		for _, b := range ops {
			if b.ok && b.seq < a.seq && b.inv > e {
				e = b.inv
			}
		}
		return e
	}
	for x, a := range ops {
		if !a.ok {
			// some accepted number at least as large must come before
			best := int64(-1)
			for _, b := range ops {
				if b.ok && b.seq >= a.seq {
					if e := early(b); best < 0 || e < best {
						best = e
					}
				}
			}
			if best < 0 || best >= a.ret {
				return fmt.Sprintf("%+v was refused although no accepted number can account for it", a)
			}
			continue
		}
		for y, b := range ops {
			if x == y || !b.ok {
				continue
			}
			if b.seq == a.seq {
				return fmt.Sprintf("number accepted twice: %+v and %+v", a, b)
			}
			if b.seq > a.seq && b.ret < a.inv {
				return fmt.Sprintf("%+v was accepted after %+v had been", a, b)
			}
		}
	}
	return ""
}
