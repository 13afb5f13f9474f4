package main

import (
	"fmt"
	"strings"
	"time"

	"github.com/filecoin-project/go-indexer-core"
	"github.com/filecoin-project/storetheindex/api/v0/ingest/schema"
	"github.com/filecoin-project/storetheindex/config"
	"github.com/filecoin-project/storetheindex/internal/registry"
	"github.com/ipfs/go-cid"
	"github.com/libp2p/go-libp2p-core/peer"
	"github.com/multiformats/go-multiaddr"
	"github.com/multiformats/go-multihash"
)

// p12Contact lets providers fall silent in an indexer with all its servers and
// then get in touch in each way there is: each makes them active, listed and
// found again.
func p12Contact(c *Ctx, n int) {
	r := c.Rng("contact", n)
	ids := newIdents(r, 3)
	disc := &askDisc{}
	rig := newRig(RigOpts{Listen: true, NoIngester: true, Discoverer: disc, Discovery: func(d *config.Discovery) { d.RediscoverWait = 0 }})
	s := newSrv(rig, srvOpts{noAdmin: true})
	defer s.Stop()
	newDrain(rig.Reg)
	pub := newIdent(r).ID
	mhs := map[peer.ID]multihash.Multihash{}
	for k, v := range ids {
		mhs[v.ID] = testMh(fmt.Sprint("p12c", n, k))
		must(rig.Core.Put(indexer.Value{ProviderID: v.ID, ContextID: []byte("c"), MetadataBytes: []byte("m")}, mhs[v.ID]))
	}
	huge := registry.VerifPolling{Interval: 1e6 * time.Hour, RetryAfter: 1e6 * time.Hour, StopAfter: 1e6 * time.Hour}
	var hist []string
	seq := seqNow()
	for step := 0; step < 10; step++ {
		v := ids[r.Intn(len(ids))]
		info := randInfo(r, v.ID, []peer.ID{pub}, step)
		info.Publisher, info.PublisherAddr = pub, testAddr(7)
		must(rig.Reg.Register(bg, info))
		over := map[peer.ID]registry.VerifPolling{v.ID: {StopAfter: 2e6 * time.Hour}}
		rig.Reg.VerifPoll(huge, over)
		rig.Reg.VerifPoll(huge, over)
		c.Eval(1)
		if rig.Reg.ProviderInfo(v.ID) != nil || !rig.Reg.IsRegistered(v.ID) {
			c.Violate("contact-setup", "a provider silent past its retry time is still returned, or is gone; history %v", hist)
			return
		}
		way := []string{"register/http", "register/p2p", "discover/http", "discover/p2p", "index/p2p", "index-noaddrs/p2p", "direct-update", "direct-register"}[r.Intn(8)]
		wv := strings.Split(way, "/")
		seq += 1000
		hist = append(hist, way+" "+shortPeer(v.ID))
		q := reqSpec{what: strings.TrimSuffix(wv[0], "-noaddrs"), prov: v.ID, seq: seq, addrs: []string{testAddr(step).String()}, disc: fmt.Sprintf("d%d-%d", n, step), mh: mhs[v.ID], ctxID: "c", meta: "m"}
		want := recOf(info)
		switch way {
		case "direct-update":
			must(rig.Reg.RegisterOrUpdate(bg, v.ID, nil, cid.Undef, peer.AddrInfo{}))
		case "direct-register":
			info2 := randInfo(r, v.ID, []peer.ID{pub}, step)
			must(rig.Reg.Register(bg, info2))
			want = recOf(info2)
		default:
			if wv[0] == "index-noaddrs" {
				q.addrs = nil
			}
			rp := s.Ingest(wv[1], q.what, q.sign(v))
			if rp.Err != nil {
				c.Inconclusive("no answer: %v", rp.Err)
				return
			}
			if !rp.ok() {
				c.Violate("contact", "%s of a silent provider answered with %s; history %v", way, rp, hist)
				return
			}
			if wv[0] == "index" {
				want.addrs = q.addrs
			} else if wv[0] != "index-noaddrs" {
				want = nil // replaced by a new registration
			}
		}
		c.Seen("contact " + way)
		c.Eval(3)
		if !c.Await("contact", fmt.Sprintf("a silent provider to be active after %s; history %v", way, hist), func() bool { return rig.Reg.ProviderInfo(v.ID) != nil }) {
			return
		}
		got := recOf(rig.Reg.ProviderInfo(v.ID))
		if want != nil && !want.same(got) {
			c.Violate("contact-record", "after %s the registration is %s, want %s; history %v", way, got, want, hist)
			return
		}
		if l, _ := listView(rig.Reg); l[v.ID] == nil {
			c.Violate("contact-list", "after %s a provider is not listed; history %v", way, hist)
			return
		}
		rp := s.HTTP("GET", s.FindURL+"/multihash/"+mhs[v.ID].B58String(), nil)
		if rp.Err != nil {
			c.Inconclusive("no answer: %v", rp.Err)
			return
		}
		if !rp.ok() || !strings.Contains(string(rp.Body), v.ID.String()) {
			c.Violate("contact-find", "after %s a provider's record is not found: %s; history %v", way, rp, hist)
			return
		}
	}
	c.Count("contacts", int64(len(hist)))
}

// p29Ingest compares the registrations that ingesting advertisements makes,
// over HTTP and libp2p, by the provider itself or by another publisher.
func p29Ingest(c *Ctx, n int) {
	r := c.Rng("ingest", n)
	dt := n%2 == 1
	rig := newRig(RigOpts{Listen: true})
	closed := false
	defer func() {
		if !closed {
			rig.Abandon()
		}
	}()
	ids := newIdents(r, 4)
	pubs := make([]*Pub, 2)
	dts := make([]*DtPub, 2)
	where := make([][]multiaddr.Multiaddr, 2)
	for k := range pubs {
		pubs[k] = newPub(ids[k], ids[2], ids[3])
		defer pubs[k].Close()
		where[k] = []multiaddr.Multiaddr{pubs[k].addr}
		if dt {
			dts[k] = newDtPub(pubs[k])
			defer dts[k].Close()
			where[k] = dts[k].H.Addrs()
		}
	}
	want := map[peer.ID]*regRec{}
	own := map[peer.ID][]multiaddr.Multiaddr{}
	var all []peer.ID
	for _, x := range ids {
		all = append(all, x.ID)
	}
	var hist []string
	for step := 0; step < 8; step++ {
		k := r.Intn(2)
		p := pubs[k]
		// An advertisement that a later one of the same sync cancels is not
		// ingested; so none is left without addresses after one that may be
		// cancelled.
		fresh := map[peer.ID]bool{}
		for m := 1 + r.Intn(3); m > 0; m-- {
			a := AdSpec{Prov: r.Intn(3), Ctx: fmt.Sprint("c", r.Intn(3)), Meta: "m", Mhs: []string{string(testMh(fmt.Sprint("p29i", n, step, m)))}, Rm: r.Intn(5) == 0}
			if a.Rm {
				a.Mhs = nil
			}
			id := []peer.ID{p.ID, ids[2].ID, ids[3].ID}[a.Prov]
			addrs := addrStrings(randMaddrs(r, 1))
			noAddrs := want[id] != nil && !fresh[id] && r.Intn(3) == 0
			ad := p.PublishMod(a, func(ad *schema.Advertisement) {
				ad.Addresses = addrs
				if noAddrs {
					ad.Addresses = nil
				}
			})
			rec := &regRec{id: id, pub: p.ID, ad: ad.Cid, addrs: addrs}
			if noAddrs {
				rec.addrs = want[id].addrs
			}
			want[id], own[id], fresh[id] = rec, where[k], true
			hist = append(hist, fmt.Sprintf("%s by %s (rm %v, no addrs %v)", shortPeer(id), shortPeer(p.ID), a.Rm, noAddrs))
		}
		if dt {
			dts[k].Refresh()
		}
		out, err := rig.Ing.Sync(bg, p.ID, where[k][0], 0, false)
		if err != nil {
			c.Violate("sync", "sync could not start: %v", err)
			return
		}
		if _, ok := rig.awaitSync(c, out); !ok {
			return
		}
		c.Eval(len(all))
		// The advertisements of the other providers in the chain may still be
		// under way when the sync has ended.
		how := map[bool]string{true: "libp2p", false: "HTTP"}[dt]
		diff := ""
		if !upTo(20*time.Second, func() bool {
			diff = ""
			got := regView(rig.Reg, all)
			for _, id := range all {
				g, w := got[id], want[id]
				if w == nil && g == nil {
					continue
				}
				if w != nil && g != nil {
					cp := *w
					cp.adTime = g.adTime
					for _, x := range own[id] {
						if x.String() == g.pubAddr {
							cp.pubAddr = g.pubAddr
						}
					}
					if cp.same(g) && g.pubAddr != "" && g.adTime != 0 {
						continue
					}
				}
				diff = fmt.Sprintf("the registration of %s is %s, want %s with a publisher address of %v", shortPeer(id), g, w, own[id])
				return false
			}
			return true
		}) {
			c.Violate("ingested-record", "after ingesting over %s, %s; history %v", how, diff, hist)
			return
		}
		c.Seen(fmt.Sprintf("dt=%v %d", dt, len(want)))
	}
	c.Count("ingested advertisements", int64(len(hist)))
	closed = rig.Close(c)
}
