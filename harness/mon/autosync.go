package main

import (
	"encoding/json"
	"fmt"
	"net/http"
	"sync"
	"time"

	"github.com/filecoin-project/storetheindex/api/v0/finder/model"
	"github.com/filecoin-project/storetheindex/internal/registry"
	"github.com/ipfs/go-cid"
	"github.com/libp2p/go-libp2p-core/peer"
	"github.com/multiformats/go-multiaddr"
)

// p12Answer runs poll passes in a whole indexer: the publishers of polled
// providers answer, have news, fail or do not answer at all.
func p12Answer(c *Ctx, n int) {
	r := c.Rng("answer", n)
	const np = 3
	ids := newIdents(r, 2*np)
	rig := newRig(RigOpts{})
	closed := false
	defer func() {
		if !closed {
			rig.Abandon()
		}
	}()
	var pubs []*Pub
	var all []peer.ID
	prov := map[*Pub]peer.ID{}
	m := newModel()
	var mu sync.Mutex
	heads := map[*Pub]int{}
	mode := map[*Pub]string{}
	hold := make(chan struct{})
	opened := false
	open := func() {
		if !opened {
			opened = true
			close(hold)
		}
	}
	defer open()
	var uni []string
	nad := 0
	publish := func(p *Pub) {
		nad++
		mh := string(testMh(fmt.Sprint("p12a-", n, "-", nad)))
		uni = append(uni, mh)
		a := AdSpec{Ctx: fmt.Sprint("c", nad), Meta: fmt.Sprint("m", nad), Mhs: []string{mh}}
		if prov[p] != p.ID {
			a.Prov = 1
		}
		p.Publish(a)
	}
	for k := 0; k < np; k++ {
		var p *Pub
		if r.Intn(3) == 0 { // publishes for another provider
			p = newPub(ids[k], ids[np+k])
			prov[p] = ids[np+k].ID
		} else {
			p = newPub(ids[k])
			prov[p] = p.ID
		}
		defer p.Close()
		p.SetHook(func(name string, _ int) FetchVerdict {
			mu.Lock()
			defer mu.Unlock()
			if name != "head" {
				return FetchVerdict{}
			}
			heads[p]++
			switch mode[p] {
			case "fail":
				return FetchVerdict{Status: http.StatusInternalServerError}
			case "abort":
				return FetchVerdict{Abort: true}
			case "hang":
				return FetchVerdict{Wait: hold}
			}
			return FetchVerdict{}
		})
		publish(p)
		pubs = append(pubs, p)
		all = append(all, prov[p])
		if _, ok := rig.SyncWait(c, bg, p, 0, false); !ok {
			return
		}
		if rig.Reg.ProviderInfo(prov[p]) == nil {
			c.Violate("answer", "provider is not registered after its first sync")
			return
		}
	}
	nheads := func(p *Pub) int {
		mu.Lock()
		defer mu.Unlock()
		return heads[p]
	}
	far3 := registry.VerifPolling{Interval: far, RetryAfter: far, StopAfter: far}
	var hist []string
	gone := map[peer.ID]bool{}
	hung := map[*Pub]bool{}
	for step := 0; step < 6; step++ {
		p := pubs[r.Intn(np)]
		id := prov[p]
		if gone[id] || hung[p] {
			continue
		}
		md := []string{"", "", "", "news", "fail", "abort", "hang"}[r.Intn(7)]
		mu.Lock()
		mode[p] = md
		mu.Unlock()
		if md == "news" {
			publish(p)
		}
		before := recOf(rig.Reg.ProviderInfo(id))
		hist = append(hist, fmt.Sprintf("poll %s: %q", shortPeer(id), md))
		// A pass in which only this provider is due, long past its retry time.
		// It is not offered while an earlier poll waits to be taken.
		polled := false
		for try := 0; try < 20 && !polled; try++ {
			h := nheads(p)
			rig.Reg.VerifPoll(far3, map[peer.ID]registry.VerifPolling{id: {StopAfter: far}})
			rig.Reg.IsRegistered(id)
			polled = upTo(500*time.Millisecond, func() bool { return nheads(p) > h })
		}
		if !polled {
			c.Violate("not-polled", "a provider that is due was not polled at its publisher's address in 20 passes; history %v", hist)
			return
		}
		c.Count("polls answered as "+map[string]string{"": "nothing new"}[md]+md, 1)
		c.Eval(2)
		switch md {
		case "", "news":
			if !c.Await("answered-inactive", fmt.Sprintf("a provider whose publisher answered a poll (%q) to be returned again; history %v", md, hist), func() bool { return rig.Reg.ProviderInfo(id) != nil }) {
				return
			}
			if md == "news" {
				if !c.Await("news", "the news of a polled publisher to be ingested", func() bool { return rig.Latest(p.ID) == p.Head() }) {
					return
				}
			} else if after := recOf(rig.Reg.ProviderInfo(id)); before != nil && !before.same(after) {
				c.Violate("answer-changed", "the answer to a poll changed the registration from %s to %s; history %v", before, after, hist)
				return
			}
		case "fail", "abort":
			settle()
			if rig.Reg.ProviderInfo(id) != nil {
				c.Violate("dead-active", "a provider whose publisher failed (%q) after its retry time is still returned; history %v", md, hist)
				return
			}
		case "hang":
			hung[p] = true
			if r.Intn(2) == 0 {
				// Removed before the answer arrives: it stays removed.
				done := make(chan struct{})
				go func() {
					defer close(done)
					_ = rig.Reg.RemoveProvider(bg, id)
				}()
				if !c.Await("remove-blocked", "removing a provider whose publisher does not answer", func() bool { return isDone(done) }) {
					return
				}
				gone[id] = true
				hist = append(hist, "removed")
			}
		}
		for _, x := range all {
			if rig.Reg.IsRegistered(x) == gone[x] {
				c.Violate("answer", "IsRegistered(%s) is %v; history %v", shortPeer(x), gone[x], hist)
				return
			}
		}
		c.Seen(fmt.Sprint("answer", md, prov[p] == p.ID, len(hung), before == nil))
	}
	open()
	for p := range hung {
		id := prov[p]
		if gone[id] {
			continue
		}
		if !c.Await("answered-inactive", fmt.Sprintf("a provider whose publisher answered late to be returned again; history %v", hist), func() bool { return rig.Reg.ProviderInfo(id) != nil }) {
			return
		}
	}
	settle()
	for _, x := range all {
		c.Eval(1)
		if rig.Reg.IsRegistered(x) == gone[x] {
			c.Violate("answer", "IsRegistered(%s) is %v at the end; history %v", shortPeer(x), gone[x], hist)
			return
		}
	}
	for _, p := range pubs {
		p.ModelAll(m)
		if mode[p] == "news" {
			continue
		}
	}
	d, k := diffIndex(rig.Core, m, uni, nil)
	c.Eval(k)
	if d != "" {
		c.Violate("answer-index", "index after polls: %s; history %v", d, hist)
		return
	}
	if n < 2 {
		c.Sample("%v", hist)
	}
	closed = rig.Close(c)
}

// importSync imports a listing into a whole indexer: the content of each new
// provider is fetched from the listed publisher address, no matter that some
// of the other publishers do not answer.
func importSync(c *Ctx, n int) {
	r := c.Rng("importsync", n)
	np := 3 + r.Intn(3)
	ids := newIdents(r, 2*np)
	rig := newRig(RigOpts{})
	closed := false
	defer func() {
		if !closed {
			rig.Abandon()
		}
	}()
	hold := make(chan struct{})
	opened := false
	open := func() {
		if !opened {
			opened = true
			close(hold)
		}
	}
	defer open()
	var pubs []*Pub
	var list []*model.ProviderInfo
	prov := map[*Pub]peer.ID{}
	bad := map[*Pub]string{}
	var uni []string
	for k := 0; k < np; k++ {
		p := newPub(ids[k])
		prov[p] = p.ID
		a := AdSpec{Ctx: "c", Meta: fmt.Sprint("m", k)}
		if r.Intn(3) == 0 {
			p.Close()
			p = newPub(ids[k], ids[np+k])
			prov[p] = ids[np+k].ID
			a.Prov = 1
		}
		defer p.Close()
		for j := 1 + r.Intn(3); j > 0; j-- {
			mh := string(testMh(fmt.Sprint("isync-", n, "-", k, "-", j)))
			uni = append(uni, mh)
			a.Ctx = fmt.Sprint("c", j)
			a.Mhs = []string{mh}
			p.Publish(a)
		}
		if x := r.Intn(4); x == 0 || k == 0 && x < 3 {
			b := []string{"hang", "fail"}[r.Intn(2)]
			if k == 0 {
				b = "hang"
			}
			bad[p] = b
			p.SetHook(func(name string, _ int) FetchVerdict {
				if b == "fail" {
					return FetchVerdict{Status: http.StatusBadGateway}
				}
				return FetchVerdict{Wait: hold}
			})
		}
		pi := &model.ProviderInfo{AddrInfo: peer.AddrInfo{ID: prov[p], Addrs: []multiaddr.Multiaddr{testAddr(k + 1)}}}
		if prov[p] == p.ID && r.Intn(3) == 0 {
			pi.AddrInfo.Addrs = []multiaddr.Multiaddr{p.addr} // no publisher: the same as the provider
		} else {
			pi.Publisher = &peer.AddrInfo{ID: p.ID, Addrs: []multiaddr.Multiaddr{p.addr}}
		}
		list = append(list, pi)
		pubs = append(pubs, p)
	}
	body, err := json.Marshal(list)
	must(err)
	u, stop := serveHTTP(http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) { _, _ = w.Write(body) }))
	count, err := rig.Reg.ImportProviders(bg, u)
	stop()
	what := fmt.Sprintf("import of %d providers of which %d have a publisher that does not answer", np, len(bad))
	c.Eval(1)
	if err != nil || count != np {
		c.Violate("import", "%s: imported %d, error %v", what, count, err)
		return
	}
	for _, p := range pubs {
		if bad[p] != "" {
			continue
		}
		if !c.Await("import-not-ingested", fmt.Sprintf("%s: the content of an imported provider to be ingested from its publisher", what), func() bool { return rig.Latest(p.ID) == p.Head() }) {
			return
		}
	}
	// The registry goes on, too.
	done := make(chan struct{})
	var rm peer.ID
	for _, p := range pubs {
		if bad[p] == "hang" && r.Intn(2) == 0 {
			rm = prov[p]
		}
	}
	go func() {
		defer close(done)
		rig.Reg.AllProviderInfo()
		if rm != "" {
			_ = rig.Reg.RemoveProvider(bg, rm)
		}
	}()
	if !c.Await("registry-blocked", what+": registry operations while a publisher does not answer", func() bool { return isDone(done) }) {
		return
	}
	m := newModel()
	for _, p := range pubs {
		if bad[p] == "" {
			p.ModelAll(m)
		}
	}
	d, k := diffIndex(rig.Core, m, uni, nil)
	c.Eval(k)
	if d != "" {
		c.Violate("import-index", "%s: %s", what, d)
		return
	}
	open()
	for _, p := range pubs {
		if bad[p] == "hang" && prov[p] != rm {
			if !c.Await("import-not-ingested", fmt.Sprintf("%s: the content of the late publisher to be ingested", what), func() bool { return rig.Latest(p.ID) == p.Head() }) {
				return
			}
		}
	}
	c.Count("imports ingested", 1)
	c.Seen(fmt.Sprint("importsync", np, len(bad), rm != "", cid.Undef == rig.Latest(pubs[0].ID)))
	closed = rig.Close(c)
}
