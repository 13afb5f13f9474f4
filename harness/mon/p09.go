package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	mrand "math/rand"
	"net/http"
	"time"

	"github.com/filecoin-project/go-legs/dtsync"
	"github.com/filecoin-project/storetheindex/api/v0/finder/model"
	"github.com/filecoin-project/storetheindex/api/v0/ingest/schema"
	"github.com/filecoin-project/storetheindex/config"
	"github.com/filecoin-project/storetheindex/internal/registry"
	"github.com/ipfs/go-cid"
	"github.com/libp2p/go-libp2p-core/peer"
	"github.com/multiformats/go-multiaddr"
)

func init() {
	register("P09", "random histories of policy changes (configuration at start, SetPolicy valid and invalid, allow and block through the registry and the admin interface) and of attempts to get in by every route (register, discover, index-content over HTTP and libp2p, announcements over HTTP and directly, advertisements of own and foreign providers, provider import, the registry's own calls, reload after restart); "+
		"after each step the policy answers, the reply, the registered providers, the publisher's fetch log and the index operations are compared with a reference policy; distinct counts (route, policy verdict, policy form)",
		runP09, "an update by an already registered provider and publisher pair is not an admission and is not judged", "an administrator's explicit sync is not an announcement")
}

func runP09(c *Ctx) {
	c.RunN("hist", c.N(60, 1500), 8, func(c *Ctx, i int) { c.p09(i) })
	c.RunN("badcfg", c.N(20, 200), 4, func(c *Ctx, i int) { c.p09badcfg(i) })
}

// refPolicy is the reference policy.
type refPolicy struct {
	allow, publish bool
	ex, pex        map[peer.ID]bool
}

func (p *refPolicy) allowed(id peer.ID) bool { return p.allow != p.ex[id] }
func (p *refPolicy) mayPublish(pub, prov peer.ID) bool {
	return pub == prov || p.publish != p.pex[pub]
}

// admits: may prov become registered with publisher pub ("" for none)?
func (p *refPolicy) admits(prov, pub peer.ID) bool {
	if !p.allowed(prov) {
		return false
	}
	return pub == "" || pub == prov || p.allowed(pub) && p.mayPublish(pub, prov)
}

func (p *refPolicy) config() config.Policy {
	c := config.Policy{Allow: p.allow, Publish: p.publish}
	for id := range p.ex {
		if p.ex[id] {
			c.Except = append(c.Except, id.String())
		}
	}
	for id := range p.pex {
		if p.pex[id] {
			c.PublishExcept = append(c.PublishExcept, id.String())
		}
	}
	return c
}

func (p *refPolicy) String() string {
	return fmt.Sprintf("{allow=%v except %d, publish=%v except %d}", p.allow, len(p.ex), p.publish, len(p.pex))
}

func randPolicy(r *mrand.Rand, ids []Ident) *refPolicy {
	p := &refPolicy{allow: r.Intn(2) == 0, publish: r.Intn(2) == 0, ex: map[peer.ID]bool{}, pex: map[peer.ID]bool{}}
	dens := []int{0, 2, 3, -1}[r.Intn(4)]
	if dens < 0 {
		p.ex[ids[r.Intn(len(ids))].ID] = true
		p.pex[ids[r.Intn(len(ids))].ID] = true
	}
	for _, id := range ids {
		if dens > 0 && r.Intn(dens) == 0 {
			p.ex[id.ID] = true
		}
		if dens > 0 && r.Intn(dens) == 0 {
			p.pex[id.ID] = true
		}
	}
	return p
}

func (c *Ctx) p09(i int) {
	r := c.Rng("hist", i)
	provs := newIdents(r, 5)
	pool := newIdents(r, 24)  // publishers, each used once
	others := newIdents(r, 8) // publishers that exist only in imported records, at an address nobody listens on
	all := append(append(append([]Ident(nil), provs...), pool...), others...)
	pol := randPolicy(r, all)
	store, core := memDS(), newCore(0)
	disc := &askDisc{}
	mk := func() *Srv {
		rig := newRig(RigOpts{Store: store, Core: core, Listen: true, Discoverer: disc, Discovery: func(d *config.Discovery) { d.Policy = pol.config() }})
		return newSrv(rig, srvOpts{noFind: true})
	}
	s := mk()
	defer func() { s.Stop() }()
	seq := uint64(time.Now().UnixNano())
	type regd struct{ pub peer.ID }
	reg := map[peer.ID]*regd{}    // loaded
	stored := map[peer.ID]*regd{} // persisted
	put := func(id, pub peer.ID) { reg[id], stored[id] = &regd{pub}, &regd{pub} }
	var hist []string
	ids := make([]peer.ID, 0, len(all))
	for _, x := range all {
		ids = append(ids, x.ID)
	}
	bad := func(key, format string, args ...interface{}) {
		h := hist
		if len(h) > 14 {
			h = h[len(h)-14:]
		}
		c.Violate(key, "%s; policy %s; history %v", fmt.Sprintf(format, args...), pol, h)
	}
	checkAll := func() bool {
		c.Eval(2*len(ids) + len(provs))
		for _, id := range ids {
			if got := s.Reg.Allowed(id); got != pol.allowed(id) {
				bad("policy", "Allowed(%s)=%v, configured %v", shortPeer(id), got, pol.allowed(id))
				return false
			}
			o := ids[r.Intn(len(ids))]
			if got := s.Reg.PublishAllowed(id, o); got != pol.mayPublish(id, o) {
				bad("policy", "PublishAllowed(%s for %s)=%v, configured %v", shortPeer(id), shortPeer(o), got, pol.mayPublish(id, o))
				return false
			}
		}
		for _, id := range ids {
			if got := s.Reg.IsRegistered(id); got != (reg[id] != nil) {
				bad("registered", "%s registered=%v, want %v", shortPeer(id), got, reg[id] != nil)
				return false
			}
		}
		if l := s.Reg.AllProviderInfo(); len(l) != len(reg) {
			bad("registered", "%d providers listed, want %d", len(l), len(reg))
			return false
		}
		return true
	}
	if !checkAll() {
		return
	}
	note := func(route string, verdict bool) {
		c.Count("route "+route, 1)
		c.Seen(fmt.Sprint(route, verdict, pol.allow, pol.publish, len(pol.ex) > 0))
	}
	nextPub := func() (Ident, bool) {
		if len(pool) == 0 {
			return Ident{}, false
		}
		x := pool[0]
		pool = pool[1:]
		return x, true
	}
	for n := 0; n < 40; n++ {
		v := provs[r.Intn(len(provs))]
		if reg[v.ID] != nil && r.Intn(2) == 0 {
			must(s.Reg.RemoveProvider(bg, v.ID))
			delete(reg, v.ID)
			delete(stored, v.ID)
			hist = append(hist, "remove "+shortPeer(v.ID))
		}
		switch x := r.Intn(18); x {
		case 0, 1, 2: // direct requests
			what := []string{"register", "discover", "index"}[x]
			if what == "index" && reg[v.ID] != nil {
				continue
			}
			via := []string{"http", "p2p"}[r.Intn(2)]
			if what == "index" {
				via = "p2p"
			}
			seq += 1000
			q := reqSpec{what: what, prov: v.ID, seq: seq, addrs: []string{"/ip4/127.0.0.1/tcp/1/http"}, disc: fmt.Sprint("n", i, "-", n), mh: testMh(fmt.Sprint("p09", i, n)), ctxID: "c", meta: "m"}
			nd, ni := disc.n(), len(s.IX.Log())
			rp := s.Ingest(via, what, q.sign(v))
			want := pol.allowed(v.ID)
			hist = append(hist, fmt.Sprintf("%s/%s %s", what, via, shortPeer(v.ID)))
			if rp.Err != nil {
				c.Inconclusive("no answer: %v", rp.Err)
				return
			}
			c.Eval(1)
			if rp.ok() != want {
				bad("request", "%s over %s from %s: %s, allowed by policy: %v", what, via, shortPeer(v.ID), rp, want)
				return
			}
			if want {
				put(v.ID, "")
				if what == "discover" && !c.Await("not-discovered", "an allowed discovery", func() bool { return s.Reg.IsRegistered(v.ID) && s.Reg.ProviderInfo(v.ID).DiscoveryAddr == q.disc }) {
					return
				}
			} else {
				settleShort()
				if disc.n() != nd || len(s.IX.Log()) != ni {
					bad("effect", "refused %s over %s had an effect", what, via)
					return
				}
			}
			note(what+"/"+via, want)
		case 3, 4, 5: // an announcement
			p, ok := nextPub()
			if !ok {
				continue
			}
			if r.Intn(4) == 0 && reg[p.ID] == nil && pol.allowed(p.ID) {
				// registered first, then blocked
				must(s.Reg.Register(bg, &registry.ProviderInfo{AddrInfo: peer.AddrInfo{ID: p.ID, Addrs: []multiaddr.Multiaddr{testAddr(5)}}}))
				put(p.ID, "")
				s.Reg.BlockPeer(p.ID)
				pol.ex[p.ID] = pol.allow
			}
			pb := newPub(p)
			mh := string(testMh(fmt.Sprint("p09a", i, n)))
			pb.Publish(AdSpec{Ctx: "a", Meta: "m", Mhs: []string{mh}})
			want := pol.allowed(p.ID)
			route := []string{"announce-http", "announce-direct"}[r.Intn(2)]
			hist = append(hist, route+" "+shortPeer(p.ID))
			c.Eval(1)
			if route == "announce-http" {
				m := dtsync.Message{Cid: pb.Head()}
				pa, err := peer.AddrInfoToP2pAddrs(&peer.AddrInfo{ID: p.ID, Addrs: []multiaddr.Multiaddr{pb.addr}})
				must(err)
				m.SetAddrs(pa)
				var buf bytes.Buffer
				must(m.MarshalCBOR(&buf))
				rp := s.HTTP("PUT", s.IngestURL+"/ingest/announce", buf.Bytes())
				if rp.Err != nil {
					c.Inconclusive("no answer: %v", rp.Err)
					pb.Close()
					return
				}
				if rp.ok() != want || !want && rp.Status != http.StatusForbidden {
					bad("announce", "announcement from %s answered with %s, allowed by policy: %v", shortPeer(p.ID), rp, want)
					pb.Close()
					return
				}
			} else {
				ctx, cancel := context.WithTimeout(bg, 20*time.Second)
				_ = s.Ing.Announce(ctx, pb.Head(), pb.AddrInfo())
				cancel()
			}
			if want {
				if !c.Await("not-ingested", "an allowed announcement to be ingested", func() bool { return hasMh(core, mh) }) {
					pb.Close()
					return
				}
				put(p.ID, p.ID)
			} else {
				upTo(10*time.Millisecond, func() bool { return len(pb.Fetches()) > 0 })
				if len(pb.Fetches()) != 0 || hasMh(core, mh) {
					bad("announce", "%s from %s was acted on", route, shortPeer(p.ID))
					pb.Close()
					return
				}
			}
			pb.Close()
			note(route, want)
		case 6, 7, 8, 9: // an explicit sync of an advertisement for itself or for another
			p, ok := nextPub()
			if !ok {
				continue
			}
			q := p
			if x != 6 {
				q = v
			}
			pb := newPub(p, q)
			mh := string(testMh(fmt.Sprint("p09s", i, n)))
			spec := AdSpec{Ctx: fmt.Sprint("s", n), Meta: "m", Mhs: []string{mh}}
			signBy := p
			if r.Intn(2) == 0 {
				signBy = q
			}
			pb.Priv = signBy.Priv
			ad, bl := pb.Build(spec, func(a *schema.Advertisement) {
				a.Provider = q.ID.String()
				a.Addresses = []string{"/ip4/127.0.0.1/tcp/1/http"}
			})
			pb.Priv = p.Priv
			pb.Append(spec, ad, bl)
			want := pol.mayPublish(signBy.ID, q.ID) && pol.admits(q.ID, p.ID)
			if reg[q.ID] != nil && reg[q.ID].pub == p.ID {
				pb.Close()
				continue
			}
			ni := len(s.IX.Log())
			hist = append(hist, fmt.Sprintf("ad of %s by %s signed by %s", shortPeer(q.ID), shortPeer(p.ID), shortPeer(signBy.ID)))
			_, ok = s.SyncWait(c, bg, pb, 0, false)
			pb.Close()
			if !ok {
				return
			}
			c.Eval(1)
			if hasMh(core, mh) != want {
				bad("ingest", "advertisement of %s published by %s (signed by the %s) ingested=%v, policy says %v", shortPeer(q.ID), shortPeer(p.ID), map[bool]string{true: "publisher", false: "provider"}[signBy.ID == p.ID], !want, want)
				return
			}
			if want {
				put(q.ID, p.ID)
			} else if len(s.IX.Log()) != ni {
				bad("ingest", "a refused advertisement changed the index")
				return
			}
			note(map[bool]string{true: "own-ad", false: "foreign-ad"}[p.ID == q.ID], want)
		case 10: // import from another indexer
			var list []*model.ProviderInfo
			for _, y := range provs {
				if r.Intn(2) == 0 {
					continue
				}
				a, _ := multiaddr.NewMultiaddr("/ip4/127.0.0.1/tcp/1/http")
				pub := y
				if r.Intn(2) == 0 {
					pub = others[r.Intn(len(others))]
				}
				list = append(list, &model.ProviderInfo{AddrInfo: peer.AddrInfo{ID: y.ID, Addrs: []multiaddr.Multiaddr{a}}, Publisher: &peer.AddrInfo{ID: pub.ID, Addrs: []multiaddr.Multiaddr{a}}})
			}
			body, err := json.Marshal(list)
			must(err)
			u, stop := serveHTTP(http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) { _, _ = w.Write(body) }))
			hist = append(hist, "import")
			_, err = s.Reg.ImportProviders(bg, u)
			stop()
			must(err)
			for _, e := range list {
				if reg[e.AddrInfo.ID] == nil {
					w := pol.admits(e.AddrInfo.ID, e.Publisher.ID)
					if w {
						put(e.AddrInfo.ID, e.Publisher.ID)
					}
					note("import", w)
				}
			}
		case 11: // restart, perhaps with another policy
			old := s
			done := make(chan struct{})
			go func() {
				ctx, cancel := context.WithTimeout(bg, 10*time.Second)
				defer cancel()
				old.hc.CloseIdleConnections()
				_ = old.p2p.Close()
				for _, f := range old.stop {
					_ = f(ctx)
				}
				old.cancel()
				_ = old.Ing.Close()
				_ = old.Reg.Close()
				_ = old.H.Close()
				close(done)
			}()
			if !c.Await("close-stuck", "closing for a restart", func() bool { return isDone(done) }) {
				return
			}
			if r.Intn(3) != 0 {
				pol = randPolicy(r, all)
			}
			s = mk()
			hist = append(hist, "restart "+pol.String())
			reg = map[peer.ID]*regd{}
			for id, x := range stored {
				if pol.allowed(id) {
					reg[id] = x
				}
				note("reload", pol.allowed(id))
			}
		case 16, 17: // the registry's own interface, with a publisher that has an address or none
			if reg[v.ID] != nil {
				continue
			}
			pub, pa := peer.AddrInfo{}, r.Intn(2) == 0
			if r.Intn(4) != 0 {
				pub.ID = append(others, v)[r.Intn(len(others)+1)].ID
				if pa {
					pub.Addrs = []multiaddr.Multiaddr{testAddr(9)}
				}
			}
			want := pol.admits(v.ID, pub.ID)
			route := "direct-register"
			var err error
			if x == 16 {
				info := &registry.ProviderInfo{AddrInfo: peer.AddrInfo{ID: v.ID, Addrs: []multiaddr.Multiaddr{testAddr(5)}}, Publisher: pub.ID}
				if len(pub.Addrs) != 0 {
					info.PublisherAddr = pub.Addrs[0]
				}
				err = s.Reg.Register(bg, info)
			} else {
				route = "direct-update"
				err = s.Reg.RegisterOrUpdate(bg, v.ID, []string{testAddr(5).String()}, cid.Undef, pub)
			}
			hist = append(hist, fmt.Sprintf("%s %s by %s", route, shortPeer(v.ID), shortPeer(pub.ID)))
			c.Eval(1)
			if (err == nil) != want {
				bad("registry", "%s of %s with publisher %s (address: %v) returned %v, policy says %v", route, shortPeer(v.ID), shortPeer(pub.ID), pa, err, want)
				return
			}
			if want {
				put(v.ID, pub.ID)
			}
			note(route, want)
		case 12: // SetPolicy
			np := randPolicy(r, all)
			cfg := np.config()
			inval := r.Intn(3)
			switch inval {
			case 0:
				cfg.Except = append(cfg.Except, "not-a-peer")
			case 1:
				cfg.PublishExcept = append([]string{"12D3Koo"}, cfg.PublishExcept...)
			}
			err := s.Reg.SetPolicy(cfg)
			hist = append(hist, fmt.Sprintf("set %s (%v)", np, inval))
			c.Eval(1)
			if (err != nil) != (inval < 2) {
				bad("set-policy", "SetPolicy of a policy (invalid: %v) returned %v", inval < 2, err)
				return
			}
			if err == nil {
				pol = np
			}
			note("set-policy", err == nil)
		default: // allow or block one peer
			id := ids[r.Intn(len(ids))]
			val := r.Intn(2) == 0
			if r.Intn(2) == 0 {
				// One that is an exception of the policy.
				for _, x := range ids {
					if pol.ex[x] {
						id, val = x, pol.allow
					}
				}
			}
			admin := r.Intn(2) == 0
			word := map[bool]string{true: "allow", false: "block"}[val]
			hist = append(hist, fmt.Sprintf("%s %s (admin %v)", word, shortPeer(id), admin))
			if admin {
				if r.Intn(6) == 0 {
					rp := s.HTTP("PUT", s.AdminURL+"/ingest/"+word+"/not-a-peer", nil)
					c.Eval(1)
					if rp.Err == nil && rp.ok() {
						bad("admin", "%s of an invalid peer ID answered with %s", word, rp)
						return
					}
				}
				rp := s.HTTP("PUT", s.AdminURL+"/ingest/"+word+"/"+id.String(), nil)
				if rp.Err != nil {
					c.Inconclusive("no answer: %v", rp.Err)
					return
				}
				c.Eval(1)
				if !rp.ok() {
					bad("admin", "%s answered with %s", word, rp)
					return
				}
			} else if val {
				s.Reg.AllowPeer(id)
			} else {
				s.Reg.BlockPeer(id)
			}
			pol.ex[id] = val != pol.allow
			note(word, admin)
		}
		if !checkAll() {
			return
		}
	}
	if i == 0 {
		c.Sample("%v", hist)
	}
}

func hasMh(ix getter, mh string) bool {
	v, ok, err := ix.Get([]byte(mh))
	return err == nil && ok && len(v) > 0
}

// p09badcfg: an indexer is not started with a policy that makes no sense.
func (c *Ctx) p09badcfg(i int) {
	r := c.Rng("badcfg", i)
	ids := newIdents(r, 3)
	p := randPolicy(r, ids).config()
	junk := []string{"", "x", "12D3Koo", ids[0].ID.String() + "x", cid.Undef.String(), " " + ids[0].ID.String()}[r.Intn(6)]
	if r.Intn(2) == 0 {
		p.Except = append(p.Except, junk)
	} else {
		p.PublishExcept = append(p.PublishExcept, junk)
	}
	dc := regConfig()
	dc.Policy = p
	reg, err := registry.NewRegistry(bg, dc, nil, nil)
	c.Eval(1)
	if err == nil {
		c.Violate("set-policy", "a registry was created with the exception %q in its policy", junk)
		go reg.Close()
	}
	c.Seen("badcfg" + junk)
}
