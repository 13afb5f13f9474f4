package main

import (
	"fmt"
	"math/rand"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/filecoin-project/storetheindex/internal/registry"
	"github.com/ipfs/go-cid"
	"github.com/ipfs/go-datastore"
	"github.com/libp2p/go-libp2p-core/peer"
)

func init() {
	register("P11", "every recorded concurrent history of register, update, remove, lookup, list and is-registered has a sequential order consistent with real time; returned records never change afterwards",
		runP11, "histories of up to 44 operations on 3 providers; unique values per write identify what each read returned")
}

// linState is the abstract registry: for each provider the writes that its
// address, advertisement and publisher address come from (0: none).
type linState [3]struct{ addr, ad, pub int16 }

func (s linState) has(p int) bool { return s[p].addr != 0 }

type linOp struct {
	kind      string // reg upd rm get is list
	prov      int
	addr      int16 // write id of each field written; 0: not written
	ad, pub   int16
	call, ret int64
	err       bool
	got       linState // for get (only prov), list
	found     bool
	str       string
}

// apply returns the state after op, and whether its result is consistent.
func (o *linOp) apply(s linState) (linState, bool) {
	switch o.kind {
	case "reg":
		s[o.prov].addr, s[o.prov].ad, s[o.prov].pub = o.addr, o.ad, o.pub
		return s, true
	case "upd":
		if !s.has(o.prov) && o.addr == 0 {
			// A new provider without addresses is refused.
			return s, o.err
		}
		if o.err {
			return s, false
		}
		if o.addr != 0 {
			s[o.prov].addr = o.addr
		}
		if o.ad != 0 {
			s[o.prov].ad = o.ad
		}
		if o.pub != 0 {
			s[o.prov].pub = o.pub
		}
		return s, true
	case "rm":
		s[o.prov].addr, s[o.prov].ad, s[o.prov].pub = 0, 0, 0
		return s, true
	case "get":
		if !o.found {
			return s, !s.has(o.prov)
		}
		return s, s[o.prov] == o.got[o.prov]
	case "is":
		return s, o.found == s.has(o.prov)
	case "list":
		return s, s == o.got
	}
	panic("verifmon harness: op")
}

// linearizable searches for an order (Wing and Gong, with memoisation).
func linearizable(ops []*linOp) (bool, int) {
	n := len(ops)
	sort.Slice(ops, func(i, j int) bool { return ops[i].call < ops[j].call })
	type key struct {
		done uint64
		s    linState
	}
	seen := map[key]bool{}
	var rec func(done uint64, s linState) bool
	rec = func(done uint64, s linState) bool {
		if done == 1<<uint(n)-1 {
			return true
		}
		k := key{done, s}
		if seen[k] {
			return false
		}
		seen[k] = true
		// An operation can be next if no other pending one returned before
		// it was called.
		minRet := int64(1) << 62
		for i, o := range ops {
			if done&(1<<uint(i)) == 0 && o.ret < minRet {
				minRet = o.ret
			}
		}
		for i, o := range ops {
			if done&(1<<uint(i)) != 0 {
				continue
			}
			if o.call > minRet {
				break
			}
			if s2, ok := o.apply(s); ok && rec(done|1<<uint(i), s2) {
				return true
			}
		}
		return false
	}
	return rec(0, linState{}), len(seen)
}

func runP11(c *Ctx) {
	c.RunN("lin", c.N(250, 4000), 4, p11Lin)
}

func p11Lin(c *Ctx, n int) {
	r := c.Rng("lin", n)
	ids := make([]peer.ID, 3)
	for i, x := range newIdents(r, 3) {
		ids[i] = x.ID
	}
	idx := map[peer.ID]int{ids[0]: 0, ids[1]: 1, ids[2]: 2}
	pub := newIdent(r).ID
	var ds datastore.Datastore
	if n%3 != 0 {
		w := newWB(nil)
		var ctr int64
		w.fail = func(op string, k datastore.Key) error {
			switch atomic.AddInt64(&ctr, 1) % 5 {
			case 0:
				time.Sleep(30 * time.Microsecond)
			case 2:
				runtime.Gosched()
			}
			return nil
		}
		ds = w
	}
	reg := newReg(ds, nil)
	newDrain(reg)

	// Values are unique per write: number k has its own address and CID.
	const maxW = 64
	adOf := map[cid.Cid]int16{}
	addrOf := map[string]int16{}
	pubOf := map[string]int16{}
	for k := 1; k <= maxW; k++ {
		adOf[testCid(fmt.Sprint("w", k))] = int16(k)
		addrOf[testAddr(4*k).String()] = int16(k)
		pubOf[testAddr(4*k+1).String()] = int16(k)
	}
	var kept []*registry.ProviderInfo
	var keptS []string
	var keptMu sync.Mutex
	snap := func(i *registry.ProviderInfo) string {
		return fmt.Sprint(recOf(i), i.Deleted(), i.Inactive())
	}
	bad := ""
	decode := func(i *registry.ProviderInfo) (int, linState) {
		keptMu.Lock()
		defer keptMu.Unlock()
		kept = append(kept, i)
		keptS = append(keptS, snap(i))
		var s linState
		p, ok := idx[i.AddrInfo.ID]
		if !ok || len(i.AddrInfo.Addrs) != 1 || i.PublisherAddr == nil {
			bad = "a record that nobody registered: " + recOf(i).String()
			return 0, s
		}
		s[p].addr, s[p].ad, s[p].pub = addrOf[i.AddrInfo.Addrs[0].String()], adOf[i.LastAdvertisement], pubOf[i.PublisherAddr.String()]
		if s[p].addr == 0 || s[p].pub == 0 {
			bad = "a record that nobody registered: " + recOf(i).String()
		}
		return p, s
	}
	var clock int64
	now := func() int64 { return atomic.AddInt64(&clock, 1) }
	workers := 2 + r.Intn(4)
	per := 44 / workers
	if per > 9 {
		per = 9
	}
	nProv := 1 + r.Intn(3)
	var mu sync.Mutex
	var ops []*linOp
	var wnum int32
	rngs := make([]*rand.Rand, workers)
	for i := range rngs {
		rngs[i] = rand.New(rand.NewSource(r.Int63()))
	}
	start := make(chan struct{})
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func(q *rand.Rand) {
			defer wg.Done()
			<-start
			for i := 0; i < per; i++ {
				o := &linOp{prov: q.Intn(nProv)}
				id := ids[o.prov]
				x := q.Intn(20)
				k := int16(0)
				if x < 10 {
					k = int16(atomic.AddInt32(&wnum, 1))
				}
				if q.Intn(3) == 0 {
					runtime.Gosched()
				}
				switch {
				case x < 5:
					o.kind, o.addr, o.ad, o.pub = "reg", k, k, k
					info := &registry.ProviderInfo{AddrInfo: peer.AddrInfo{ID: id, Addrs: randMaddrs(q, 1)[:1]}, Publisher: pub}
					info.AddrInfo.Addrs[0] = testAddr(4 * int(k))
					if q.Intn(3) == 0 {
						o.ad = 0
					} else {
						info.LastAdvertisement = testCid(fmt.Sprint("w", k))
						info.LastAdvertisementTime = time.Now()
					}
					if q.Intn(2) == 0 {
						info.DiscoveryAddr = fmt.Sprint("t0", k)
					}
					info.PublisherAddr = testAddr(4*int(k) + 1)
					o.call = now()
					err := reg.Register(bg, info)
					o.ret = now()
					o.err = err != nil
				case x < 10:
					o.kind = "upd"
					var as []string
					ad := cid.Undef
					pi := peer.AddrInfo{}
					// A new record needs an address and a publisher address.
					what := q.Intn(3)
					if what == 0 {
						o.addr, o.ad, o.pub = k, k, k
					} else if what == 1 {
						o.ad = k
					} else {
						o.ad, o.pub = k, k
					}
					if o.addr != 0 {
						as = []string{testAddr(4 * int(k)).String()}
					}
					if o.ad != 0 {
						ad = testCid(fmt.Sprint("w", k))
					}
					if o.pub != 0 {
						pi = peer.AddrInfo{ID: pub, Addrs: randMaddrs(q, 1)[:1]}
						pi.Addrs[0] = testAddr(4*int(k) + 1)
					}
					o.call = now()
					err := reg.RegisterOrUpdate(bg, id, as, ad, pi)
					o.ret = now()
					o.err = err != nil
				case x < 13:
					o.kind = "rm"
					o.call = now()
					err := reg.RemoveProvider(bg, id)
					o.ret = now()
					o.err = err != nil
				case x < 16:
					o.kind = "get"
					o.call = now()
					i := reg.ProviderInfo(id)
					o.ret = now()
					if i != nil {
						o.found = true
						_, o.got = decode(i)
					}
				case x < 17:
					o.kind = "is"
					o.call = now()
					o.found = reg.IsRegistered(id)
					o.ret = now()
				default:
					o.kind = "list"
					o.call = now()
					l := reg.AllProviderInfo()
					o.ret = now()
					for _, i := range l {
						p, s := decode(i)
						if o.got[p].addr != 0 {
							keptMu.Lock()
							bad = "listed twice: " + recOf(i).String()
							keptMu.Unlock()
						}
						o.got[p] = s[p]
					}
				}
				mu.Lock()
				ops = append(ops, o)
				mu.Unlock()
			}
		}(rngs[w])
	}
	close(start)
	wg.Wait()
	reg.Close()
	c.Eval(len(ops))
	c.Count("operations", int64(len(ops)))
	if bad != "" {
		c.Violate("unknown-record", "%s", bad)
		return
	}
	for _, o := range ops {
		if o.err && o.kind != "upd" {
			c.Violate("op-failed", "%s failed", o.kind)
			return
		}
	}
	conc := 0
	for i, a := range ops {
		for _, b := range ops[i+1:] {
			if a.call < b.ret && b.call < a.ret {
				conc++
			}
		}
	}
	c.Count("overlapping pairs", int64(conc))
	ok, states := linearizable(ops)
	c.Count("search states", int64(states))
	var d []string
	for _, o := range ops {
		d = append(d, fmt.Sprintf("[%d-%d %s p%d w=%d/%d/%d found=%v err=%v got=%v]", o.call, o.ret, o.kind, o.prov, o.addr, o.ad, o.pub, o.found, o.err, o.got))
	}
	c.Seen(fmt.Sprint(conc, "/", states, "/", len(kept)))
	if !ok {
		c.Violate("not-linearizable", "no sequential order explains the history: %s", strings.Join(d, " "))
		return
	}
	for i := range kept {
		c.Eval(1)
		if s := snap(kept[i]); s != keptS[i] {
			c.Violate("record-changed", "a returned record changed from %s to %s", keptS[i], s)
			return
		}
	}
	if n < 2 {
		c.Sample("%d operations, %d overlapping pairs, %d search states", len(ops), conc, states)
	}
}
