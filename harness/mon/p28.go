package main

import (
	"encoding/json"
	"fmt"
	"net"
	"net/http"
	"net/url"
	"strings"
	"time"

	"github.com/filecoin-project/storetheindex/api/v0/finder/model"
	"github.com/filecoin-project/storetheindex/config"
	"github.com/filecoin-project/storetheindex/internal/registry"
	httpfinderserver "github.com/filecoin-project/storetheindex/server/finder/http"
	"github.com/libp2p/go-libp2p-core/peer"
	"github.com/multiformats/go-multiaddr"
)

func init() {
	register("P28", "after importing a listing the count, the registry, its stored state and the providers handed to syncing equal the reference import of that listing",
		runP28, "listings are served by a harness HTTP server and by the repository's own find server")
}

func runP28(c *Ctx) {
	c.RunN("listing", c.N(60, 800), 6, p28Listing)
	c.RunN("finder", c.N(12, 100), 4, p28Finder)
	c.RunN("broken", c.N(12, 60), 4, p28Broken)
	c.RunN("ingest", c.N(16, 160), 4, importSync)
}

// refImport is the reference import: listed records in order.
func refImport(have map[peer.ID]*regRec, list []*model.ProviderInfo, allowed func(peer.ID) bool, publish func(pub, prov peer.ID) bool) (added []*regRec) {
	seen := map[peer.ID]bool{}
	for id := range have {
		seen[id] = true
	}
	for _, p := range list {
		if p == nil || seen[p.AddrInfo.ID] || p.AddrInfo.ID.Validate() != nil || len(p.AddrInfo.Addrs) == 0 || !allowed(p.AddrInfo.ID) {
			continue
		}
		rec := &regRec{id: p.AddrInfo.ID, addrs: addrStrings(p.AddrInfo.Addrs)}
		if p.Publisher != nil && p.Publisher.ID.Validate() == nil && len(p.Publisher.Addrs) != 0 {
			rec.pub, rec.pubAddr = p.Publisher.ID, p.Publisher.Addrs[0].String()
		} else {
			rec.pub, rec.pubAddr = rec.id, rec.addrs[0]
		}
		if rec.pub != rec.id && (!allowed(rec.pub) || !publish(rec.pub, rec.id)) {
			continue
		}
		seen[rec.id] = true
		added = append(added, rec)
	}
	return added
}

// serveHTTP serves h on a fresh loopback port.
func serveHTTP(h http.Handler) (*url.URL, func()) {
	lis, err := net.Listen("tcp", "127.0.0.1:0")
	must(err)
	s := &http.Server{Handler: h}
	go func() { _ = s.Serve(lis) }()
	u, err := url.Parse("http://" + lis.Addr().String())
	must(err)
	return u, func() { _ = s.Close() }
}

func p28Judge(c *Ctx, what string, reg *registry.Registry, wb *WB, dr *drain, ids []peer.ID, want, asleep map[peer.ID]*regRec, added []*regRec, count int, before int) bool {
	c.Eval(4)
	if count != len(added) {
		c.Violate("count", "%s: import reported %d new providers, the listing has %d", what, count, len(added))
		return false
	}
	for _, a := range added {
		want[a.id] = a
	}
	vis := map[peer.ID]*regRec{}
	var awake []peer.ID
	for _, id := range ids {
		if asleep[id] == nil {
			awake = append(awake, id)
			if want[id] != nil {
				vis[id] = want[id]
			}
		} else if !reg.IsRegistered(id) || reg.ProviderInfo(id) != nil {
			c.Violate("registry", "%s: the import changed an inactive provider: %s", what, recOf(reg.ProviderInfo(id)))
			return false
		}
	}
	if !checkReg(c, "registry", what, reg, awake, vis) {
		return false
	}
	r2 := newReg(newWB(wb.Durable()), nil)
	defer r2.Close()
	if !checkReg(c, "stored", what+", reopened", r2, ids, want) {
		return false
	}
	if !c.Await("not-synced", fmt.Sprintf("%s: %d imported providers handed to syncing, got %d", what, len(added), len(dr.all())-before), func() bool { return len(dr.all())-before >= len(added) }) {
		return false
	}
	time.Sleep(2 * time.Millisecond)
	got := map[peer.ID]*regRec{}
	evs := dr.all()[before:]
	for _, e := range evs {
		if got[e.rec.id] != nil || e.deleted {
			c.Violate("sync-events", "%s: provider handed to syncing twice or as deleted: %s", what, e.rec)
			return false
		}
		got[e.rec.id] = e.rec
	}
	wantEv := map[peer.ID]*regRec{}
	for _, a := range added {
		wantEv[a.id] = a
	}
	if d := diffViews(got, wantEv); d != "" {
		c.Violate("sync-events", "%s: handed to syncing: %s", what, d)
		return false
	}
	return true
}

func p28Listing(c *Ctx, n int) {
	r := c.Rng("listing", n)
	var ids, pubs []peer.ID
	for _, x := range newIdents(r, 9) {
		ids = append(ids, x.ID)
	}
	for _, x := range newIdents(r, 3) {
		pubs = append(pubs, x.ID)
	}
	pol := config.Policy{Allow: true, Publish: true}
	blocked := map[peer.ID]bool{}
	noPub := map[peer.ID]bool{}
	if r.Intn(2) == 0 {
		for _, b := range []peer.ID{ids[r.Intn(len(ids))], ids[r.Intn(len(ids))], pubs[0]} {
			blocked[b] = true
			pol.Except = append(pol.Except, b.String())
		}
	}
	if r.Intn(2) == 0 {
		noPub[pubs[1]] = true
		pol.PublishExcept = []string{pubs[1].String()}
	}
	wb := newWB(nil)
	reg := newReg(wb, func(dc *config.Discovery) { dc.Policy = pol })
	defer reg.Close()
	dr := newDrain(reg)
	want := map[peer.ID]*regRec{}
	for i := 0; i < 3; i++ {
		id := ids[r.Intn(len(ids))]
		if blocked[id] {
			continue
		}
		info := &registry.ProviderInfo{AddrInfo: peer.AddrInfo{ID: id, Addrs: randMaddrs(r, 1)}, DiscoveryAddr: "t01", LastAdvertisement: testCid(fmt.Sprint("x", i)), LastAdvertisementTime: time.Now()}
		if r.Intn(2) == 0 {
			info.Publisher, info.PublisherAddr = id, testAddr(i)
		}
		must(reg.Register(bg, info))
		want[id] = recOf(info)
	}
	// An inactive provider is registered, too: import must leave it alone. It
	// is not returned by the registry, so its record is seen in what is stored.
	asleep := map[peer.ID]*regRec{}
	if registry.VerifHooks && len(want) > 0 && r.Intn(2) == 0 {
		huge := registry.VerifPolling{Interval: far, RetryAfter: far, StopAfter: far}
		over := map[peer.ID]registry.VerifPolling{}
		for _, id := range ids {
			if want[id] != nil && want[id].pub.Validate() == nil && r.Intn(2) == 0 {
				over[id] = registry.VerifPolling{StopAfter: far}
				asleep[id] = want[id]
			}
		}
		reg.VerifPoll(huge, over)
		reg.VerifPoll(huge, over)
		c.Await("poll", "providers to go inactive", func() bool {
			for id := range asleep {
				if reg.ProviderInfo(id) != nil {
					return false
				}
			}
			return true
		})
		reg.IsRegistered(ids[0])
		settleShort()
		c.Count("inactive providers", int64(len(asleep)))
	}
	for round := 0; round < 3; round++ {
		var list []*model.ProviderInfo
		for k := r.Intn(10); k > 0; k-- {
			if r.Intn(12) == 0 {
				list = append(list, nil)
				continue
			}
			p := &model.ProviderInfo{AddrInfo: peer.AddrInfo{ID: ids[r.Intn(len(ids))]}}
			if r.Intn(6) != 0 {
				p.AddrInfo.Addrs = randMaddrs(r, 1)
			}
			if r.Intn(3) == 0 {
				p.LastAdvertisement = testCid(fmt.Sprint("l", k))
				p.LastAdvertisementTime = "2022-05-01T10:00:00Z"
			}
			switch r.Intn(5) {
			case 0, 1:
				p.Publisher = &peer.AddrInfo{ID: pubs[r.Intn(len(pubs))], Addrs: randMaddrs(r, 0)}
			case 2:
				p.Publisher = &peer.AddrInfo{ID: p.AddrInfo.ID, Addrs: randMaddrs(r, 0)}
			}
			list = append(list, p)
		}
		body, err := json.Marshal(list)
		must(err)
		u, stop := serveHTTP(http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) {
			tick()
			if strings.Trim(q.URL.Path, "/") != "providers" || q.Method != http.MethodGet {
				w.WriteHeader(http.StatusNotFound)
				return
			}
			_, _ = w.Write(body)
		}))
		added := refImport(want, list, func(p peer.ID) bool { return !blocked[p] }, func(pub, prov peer.ID) bool { return !noPub[pub] })
		before := len(dr.all())
		count, err := reg.ImportProviders(bg, u)
		stop()
		what := fmt.Sprintf("import of %s into %d registered", string(body), len(want))
		c.Seen(fmt.Sprintf("list=%d added=%d have=%d blocked=%d", len(list), len(added), len(want), len(blocked)))
		if err != nil {
			c.Violate("refused", "%s: %v", what, err)
			return
		}
		if !p28Judge(c, what, reg, wb, dr, ids, want, asleep, added, count, before) {
			return
		}
		c.Count("imports", 1)
		c.Count("imported providers", int64(count))
	}
	if n < 2 {
		c.Sample("3 imports, %d providers at the end", len(want))
	}
}

// p28Finder imports from the repository's own find server.
func p28Finder(c *Ctx, n int) {
	r := c.Rng("finder", n)
	var ids []peer.ID
	for _, x := range newIdents(r, 6) {
		ids = append(ids, x.ID)
	}
	pub := newIdent(r).ID
	src := newReg(nil, nil)
	defer src.Close()
	newDrain(src)
	var list []*model.ProviderInfo
	for _, id := range ids {
		if r.Intn(5) == 0 {
			continue
		}
		info := randInfo(r, id, []peer.ID{pub}, n)
		must(src.Register(bg, info))
		m := model.MakeProviderInfo(info.AddrInfo, info.LastAdvertisement, info.LastAdvertisementTime, info.Publisher, info.PublisherAddr)
		if info.Publisher == id && info.PublisherAddr == nil {
			m.Publisher = &peer.AddrInfo{ID: id, Addrs: []multiaddr.Multiaddr{info.AddrInfo.Addrs[0]}}
		}
		list = append(list, &m)
	}
	core := newCore(0)
	srv, err := httpfinderserver.New("127.0.0.1:0", core, src)
	must(err)
	go func() { _ = srv.Start() }()
	defer srv.Shutdown(bg)
	wb := newWB(nil)
	reg := newReg(wb, nil)
	defer reg.Close()
	dr := newDrain(reg)
	want := map[peer.ID]*regRec{}
	if r.Intn(2) == 0 {
		info := randInfo(r, ids[0], []peer.ID{pub}, n)
		must(reg.Register(bg, info))
		want[ids[0]] = recOf(info)
	}
	added := refImport(want, list, func(peer.ID) bool { return true }, func(pub, prov peer.ID) bool { return true })
	u, err := url.Parse(srv.URL())
	must(err)
	for round := 0; round < 2; round++ {
		before := len(dr.all())
		var count int
		ok := upTo(5*time.Second, func() bool { count, err = reg.ImportProviders(bg, u); return err == nil })
		if !ok {
			c.Violate("refused", "import from a find server: %v", err)
			return
		}
		if !p28Judge(c, fmt.Sprintf("import %d of %d listed providers from a find server", round, len(list)), reg, wb, dr, ids, want, nil, added, count, before) {
			return
		}
		added = nil // a second import finds nothing new
		c.Count("finder imports", 1)
	}
}

// p28Broken serves listings that are no listings: an error, and no change.
func p28Broken(c *Ctx, n int) {
	r := c.Rng("broken", n)
	id := newIdent(r).ID
	good, err := json.Marshal([]*model.ProviderInfo{{AddrInfo: peer.AddrInfo{ID: id, Addrs: randMaddrs(r, 1)}}})
	must(err)
	kinds := []struct {
		status int
		body   string
	}{
		{500, string(good)}, {404, ""}, {403, "[]"}, {200, "{"}, {200, string(good[:len(good)-1])},
		{200, strings.Replace(string(good), id.String(), "not-a-peer", 1)}, {200, `{"AddrInfo":{}}`}, {200, ``},
		{200, `[{"AddrInfo":{"ID":"` + id.String() + `","Addrs":["/bad/addr"]}}]`}, {200, `"x"`}, {200, `[1]`}, {502, "<html>"},
	}
	k := kinds[n%len(kinds)]
	wb := newWB(nil)
	reg := newReg(wb, nil)
	defer reg.Close()
	dr := newDrain(reg)
	want := map[peer.ID]*regRec{}
	u, stop := serveHTTP(http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) {
		w.WriteHeader(k.status)
		_, _ = w.Write([]byte(k.body))
	}))
	defer stop()
	count, err := reg.ImportProviders(bg, u)
	c.Eval(1)
	c.Seen(fmt.Sprint("broken", k.status, k.body))
	if err == nil || count != 0 {
		c.Violate("unreported", "import of a broken listing (status %d, %q) reported %d providers and error %v", k.status, k.body, count, err)
		return
	}
	if !checkReg(c, "registry", "after a broken listing", reg, []peer.ID{id}, want) {
		return
	}
	if len(dr.all()) != 0 {
		c.Violate("sync-events", "a broken listing handed providers to syncing")
	}
}
