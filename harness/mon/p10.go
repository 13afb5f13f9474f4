package main

import (
	"errors"
	"fmt"
	"math/rand"
	"strings"
	"time"

	"github.com/filecoin-project/storetheindex/config"
	"github.com/filecoin-project/storetheindex/internal/registry"
	"github.com/ipfs/go-cid"
	"github.com/ipfs/go-datastore"
	"github.com/libp2p/go-libp2p-core/peer"
	"github.com/multiformats/go-multiaddr"
)

func init() {
	register("P10", "every acknowledged registry change is there after an orderly or abrupt stop and reopening on the same datastore, and a failed write is reported",
		runP10, "an abrupt stop keeps exactly what the datastore was asked to sync; acknowledged means the call returned without error")
}

func runP10(c *Ctx) {
	c.RunN("history", c.N(40, 400), 6, p10History)
	c.RunN("faults", c.N(40, 400), 6, p10Faults)
	c.RunN("blocked", c.N(20, 200), 6, p10Blocked)
}

// p10Blocked removes providers from a registry whose policy, changed between
// runs, keeps some of them from being loaded, and then lets all in again: what
// was removed stays away and the rest is still there as it was.
func p10Blocked(c *Ctx, n int) {
	r := c.Rng("blocked", n)
	var ids []peer.ID
	for _, x := range newIdents(r, 5) {
		ids = append(ids, x.ID)
	}
	wb := newWB(nil)
	reg := newReg(wb, nil)
	newDrain(reg)
	want := map[peer.ID]*regRec{}
	for k, id := range ids {
		info := randInfo(r, id, ids, k)
		must(reg.Register(bg, info))
		want[id] = recOf(info)
	}
	must(reg.Close())
	var hist []string
	for round := 0; round < 3; round++ {
		block := map[peer.ID]bool{}
		wb = newWB(wb.All())
		reg = newReg(wb, func(d *config.Discovery) {
			d.Policy = config.Policy{Allow: true, Publish: true}
			for _, id := range ids {
				if r.Intn(2) == 0 {
					block[id] = true
					d.Policy.Except = append(d.Policy.Except, id.String())
				}
			}
		})
		newDrain(reg)
		for _, id := range ids {
			if r.Intn(4) != 0 {
				continue
			}
			err := reg.RemoveProvider(bg, id)
			hist = append(hist, fmt.Sprintf("remove %s (blocked %v)", shortPeer(id), block[id]))
			if err != nil {
				c.Violate("op-failed", "%v failed: %v", hist, err)
				return
			}
			delete(want, id)
			c.Seen(fmt.Sprint("blocked removal", block[id]))
		}
		abrupt := r.Intn(2) == 0
		state := wb.Durable()
		if !abrupt {
			must(reg.Close())
			state = wb.All()
		}
		c.Eval(1)
		if !p10Reopen(c, "blocked", fmt.Sprintf("reopened with everyone allowed (abrupt stop %v), history %v", abrupt, hist), state, ids, want) {
			return
		}
		if abrupt {
			must(reg.Close())
		}
		wb = newWB(state)
	}
}

// reopen opens a registry on a copy of the stored state and compares it.
func p10Reopen(c *Ctx, key, when string, state map[datastore.Key][]byte, ids []peer.ID, want map[peer.ID]*regRec) bool {
	reg := newReg(newWB(state), nil)
	defer reg.Close()
	return checkReg(c, key, when, reg, ids, want)
}

func randMaddrs(r *rand.Rand, min int) []multiaddr.Multiaddr {
	var out []multiaddr.Multiaddr
	for n := min + r.Intn(3); n > 0; n-- {
		out = append(out, testAddr(r.Intn(4000)))
	}
	return out
}

func randInfo(r *rand.Rand, id peer.ID, pubs []peer.ID, n int) *registry.ProviderInfo {
	i := &registry.ProviderInfo{AddrInfo: peer.AddrInfo{ID: id, Addrs: randMaddrs(r, 1)}}
	if r.Intn(3) == 0 {
		i.DiscoveryAddr = fmt.Sprintf("t0%d", r.Intn(100))
	}
	if r.Intn(2) == 0 {
		i.LastAdvertisement = testCid(fmt.Sprint("ad", n, r.Intn(50)))
		i.LastAdvertisementTime = time.Now().Add(-time.Duration(r.Intn(1e9)))
	}
	switch r.Intn(3) {
	case 0:
		i.Publisher = pubs[r.Intn(len(pubs))]
		if r.Intn(4) != 0 {
			i.PublisherAddr = testAddr(r.Intn(4000))
		}
	case 1:
		i.Publisher = id
		if r.Intn(2) == 0 {
			i.PublisherAddr = i.AddrInfo.Addrs[0]
		}
	}
	return i
}

func p10History(c *Ctx, n int) {
	r := c.Rng("history", n)
	var ids, pubs []peer.ID
	for _, x := range newIdents(r, 4) {
		ids = append(ids, x.ID)
	}
	for _, x := range newIdents(r, 3) {
		pubs = append(pubs, x.ID)
	}
	// Other data lives in the same datastore, some of it under similar keys.
	wb := newWB(map[datastore.Key][]byte{
		datastore.NewKey("/sync/" + ids[0].String()):          []byte("x"),
		datastore.NewKey("/registry/other"):                   []byte("y"),
		datastore.NewKey("/registrypinfo/" + ids[1].String()): []byte("z"),
		datastore.NewKey("/adProcessed/foo"):                  {1},
	})
	foreign := wb.All()
	reg := newReg(wb, nil)
	dr := newDrain(reg)
	want := map[peer.ID]*regRec{}
	var hist []string
	removed := 0
	for step := 0; step < 14; step++ {
		id := ids[r.Intn(len(ids))]
		var err error
		what := ""
		switch x := r.Intn(10); {
		case x < 4:
			info := randInfo(r, id, pubs, step)
			what = "register"
			err = reg.Register(bg, info)
			want[id] = recOf(info)
		case x < 7:
			var addrs []string
			if want[id] == nil || r.Intn(2) == 0 {
				addrs = addrStrings(randMaddrs(r, 1))
			}
			ad := cid.Undef
			if r.Intn(3) != 0 {
				ad = testCid(fmt.Sprint("upd", step))
			}
			pub := peer.AddrInfo{}
			if r.Intn(2) == 0 {
				pub.ID = append(pubs, id)[r.Intn(len(pubs)+1)]
				pub.Addrs = randMaddrs(r, 0)
			}
			what = fmt.Sprintf("update(%d addrs, ad %v, pub %s)", len(addrs), ad != cid.Undef, shortPeer(pub.ID))
			err = reg.RegisterOrUpdate(bg, id, addrs, ad, pub)
			// What the update means is P29's business; here only that it stays.
			want[id] = recOf(reg.ProviderInfo(id))
			if err == nil && want[id] == nil {
				c.Violate("update-lost", "after %v: %s of %s acknowledged, but there is no registration", hist, what, shortPeer(id))
				return
			}
		case x < 9 || !registry.VerifHooks:
			what = "remove"
			if want[id] != nil {
				removed++
			}
			err = reg.RemoveProvider(bg, id)
			delete(want, id)
		default:
			// The provider is given up by polling: removed by its own stop time.
			what = "stop"
			over := map[peer.ID]registry.VerifPolling{id: {}}
			reg.VerifPoll(registry.VerifPolling{Interval: 1e6 * time.Hour, RetryAfter: 1e6 * time.Hour, StopAfter: 1e6 * time.Hour}, over)
			reg.VerifPoll(registry.VerifPolling{Interval: 1e6 * time.Hour, RetryAfter: 1e6 * time.Hour, StopAfter: 1e6 * time.Hour}, over)
			if want[id] != nil && want[id].pub.Validate() == nil {
				delete(want, id)
			}
		}
		hist = append(hist, what+" "+shortPeer(id))
		if err != nil {
			c.Violate("op-failed", "%s of %s failed without a fault: %v (history %v)", what, shortPeer(id), err, hist)
			return
		}
		if !checkReg(c, "current", fmt.Sprintf("after %v", hist), reg, ids, want) {
			return
		}
		c.Seen(strings.Split(what, "(")[0] + fmt.Sprint(len(want)))
		if !p10Reopen(c, "abrupt", fmt.Sprintf("reopened after abrupt stop, history %v", hist), wb.Durable(), ids, want) {
			return
		}
		if r.Intn(4) == 0 {
			// Orderly restart; go on with the reopened registry.
			all := wb
			if err := reg.Close(); err != nil {
				c.Violate("close", "closing the registry: %v", err)
				return
			}
			wb = newWB(all.All())
			reg = newReg(wb, nil)
			dr = newDrain(reg)
			c.Count("restarts", 1)
			if !checkReg(c, "orderly", fmt.Sprintf("reopened after orderly stop, history %v", hist), reg, ids, want) {
				return
			}
			hist = append(hist, "restart")
		}
		c.Count("steps", 1)
	}
	_ = dr
	reg.Close()
	for k, v := range foreign {
		if string(wb.All()[k]) != string(v) {
			c.Violate("foreign", "datastore entry %s, which is not the registry's, changed (history %v)", k, hist)
			return
		}
	}
	if n < 2 {
		c.Sample("history %v: %d removals, all reopened states equal", hist, removed)
	}
}

var errInjected = errors.New("injected failure")

func p10Faults(c *Ctx, n int) {
	r := c.Rng("faults", n)
	var ids, pubs []peer.ID
	for _, x := range newIdents(r, 3) {
		ids = append(ids, x.ID)
	}
	pubs = append(pubs, newIdent(r).ID)
	wb := newWB(nil)
	reg := newReg(wb, func(dc *config.Discovery) {})
	defer reg.Close()
	newDrain(reg)
	want := map[peer.ID]*regRec{}
	for step := 0; step < 12; step++ {
		id := ids[r.Intn(len(ids))]
		old := want[id]
		// First make sure the provider has an acknowledged registration.
		if old == nil || r.Intn(2) == 0 {
			info := randInfo(r, id, pubs, step)
			if err := reg.Register(bg, info); err != nil {
				c.Violate("op-failed", "register failed without a fault: %v", err)
				return
			}
			old = recOf(info)
			want[id] = old
		}
		target := []string{"put", "sync", "delete"}[r.Intn(3)]
		hit := false
		wb.mu.Lock()
		wb.fail = func(op string, k datastore.Key) error {
			if op == target {
				hit = true
				return errInjected
			}
			return nil
		}
		wb.mu.Unlock()
		var err error
		var neu *regRec
		what := ""
		switch r.Intn(3) {
		case 0:
			what = "register"
			info := randInfo(r, id, pubs, step+100)
			neu = recOf(info)
			err = reg.Register(bg, info)
		case 1:
			what = "update"
			err = reg.RegisterOrUpdate(bg, id, addrStrings(randMaddrs(r, 1)), testCid(fmt.Sprint("f", step)), peer.AddrInfo{})
			neu = recOf(reg.ProviderInfo(id))
		default:
			what = "remove"
			err = reg.RemoveProvider(bg, id)
		}
		wb.mu.Lock()
		wb.fail = nil
		wb.mu.Unlock()
		c.Eval(1)
		c.Seen(what + "/" + target + "/" + fmt.Sprint(hit))
		if hit && err == nil {
			c.Violate("unreported", "%s of %s returned no error although the datastore failed to %s", what, shortPeer(id), target)
			return
		}
		if !hit {
			if err != nil {
				c.Violate("op-failed", "%s failed although the datastore did not: %v", what, err)
				return
			}
			if neu == nil {
				delete(want, id)
			} else {
				want[id] = neu
			}
			if !p10Reopen(c, "abrupt", fmt.Sprintf("after %s with failing %s not reached", what, target), wb.Durable(), ids, want) {
				return
			}
			continue
		}
		c.Count("failed writes", 1)
		// Not acknowledged: the stored state has the old or the new record.
		w2 := newReg(newWB(wb.Durable()), nil)
		got := regView(w2, ids)
		w2.Close()
		if g := got[id]; !g.same(old) && !g.same(neu) {
			c.Violate("torn", "after a failed %s (%s) the stored registration is neither old nor new: %s, old %s, new %s", what, target, g, old, neu)
			return
		}
		for _, o := range ids {
			if o != id && !got[o].same(want[o]) {
				c.Violate("bystander", "after a failed %s of %s another provider changed: %s, want %s", what, shortPeer(id), got[o], want[o])
				return
			}
		}
		// A following successful registration is durable again.
		info := randInfo(r, id, pubs, step+200)
		if err := reg.Register(bg, info); err != nil {
			c.Violate("op-failed", "register after a failed %s: %v", what, err)
			return
		}
		want[id] = recOf(info)
		if !checkReg(c, "current", "after recovery from a failed "+what, reg, ids, want) ||
			!p10Reopen(c, "abrupt", "after recovery from a failed "+what, wb.Durable(), ids, want) {
			return
		}
		if r.Intn(3) == 0 {
			if err := reg.RemoveProvider(bg, id); err != nil {
				c.Violate("op-failed", "remove: %v", err)
				return
			}
			delete(want, id)
			if !p10Reopen(c, "abrupt", "after removal", wb.Durable(), ids, want) {
				return
			}
		}
	}
	// A datastore that cannot be read must not look like an empty registry.
	st := newWB(wb.Durable())
	st.fail = func(op string, k datastore.Key) error {
		if op == "query" {
			return errInjected
		}
		return nil
	}
	c.Eval(1)
	if r2, err := registry.NewRegistry(bg, regConfig(), st, nil); err == nil {
		r2.Close()
		c.Violate("load-unreported", "opening the registry on an unreadable datastore returned no error")
	}
}
