package main

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	mrand "math/rand"
	"net/http"
	"reflect"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	indexer "github.com/filecoin-project/go-indexer-core"
	"github.com/filecoin-project/storetheindex/api/v0/finder/model"
	finderpb "github.com/filecoin-project/storetheindex/api/v0/finder/pb"
	"github.com/filecoin-project/storetheindex/internal/registry"
	"github.com/ipfs/go-cid"
	"github.com/libp2p/go-libp2p-core/peer"
	"github.com/multiformats/go-multiaddr"
	"github.com/multiformats/go-multihash"
)

func init() {
	register("P14", "random index contents (shared multihashes, several contexts, binary metadata, several hash functions and lengths) and provider states (updated addresses, inactive, removed); after each change the same random questions (known, unknown, duplicate, mixed; also with index reads that fail) "+
		"are put by every route - GET multihash, GET cid in several versions and bases, POST batch, the HTTP client, the libp2p client, raw libp2p messages, delegated routing, provider listings, statistics - and every answer is compared record by record with a reference index; "+
		"in a second phase many questions run at once while addresses change. distinct counts (route, shape of question, shape of answer)",
		runP14, "delegated routing is judged on metadata that is exactly the bitswap identifier or does not begin with it")
}

func runP14(c *Ctx) {
	c.RunN("hist", c.N(40, 1200), 8, func(c *Ctx, i int) { c.p14(i) })
	c.RunN("big", c.N(3, 30), 3, func(c *Ctx, i int) { c.p14big(i) })
	c.RunN("conc", c.N(8, 150), 4, func(c *Ctx, i int) { c.p14conc(i) })
}

const bitswapMeta = "\x80\x12" // varint of 0x0900

// findWorld is the reference of what find must answer.
type findWorld struct {
	m     *Model
	addrs map[peer.ID][]multiaddr.Multiaddr // registered and active providers
	pubs  map[peer.ID]*peer.AddrInfo
	ads   map[peer.ID]cid.Cid
}

func (w *findWorld) expect(mh multihash.Multihash) []string {
	w.m.mu.Lock()
	defer w.m.mu.Unlock()
	var out []string
	for k, rc := range w.m.recs {
		if _, ok := rc.mhs[string(mh)]; !ok {
			continue
		}
		if as, ok := w.addrs[k.prov]; ok {
			out = append(out, ansString(k.prov, k.ctx, rc.meta, as))
		}
	}
	sort.Strings(out)
	return out
}

// reframe: answers that must and that may be given.
func (w *findWorld) reframe(mh multihash.Multihash) (must, may map[string]bool) {
	w.m.mu.Lock()
	defer w.m.mu.Unlock()
	must, may = map[string]bool{}, map[string]bool{}
	for k, rc := range w.m.recs {
		if _, ok := rc.mhs[string(mh)]; !ok {
			continue
		}
		for _, x := range w.addrs[k.prov] {
			s := k.prov.String() + "@" + x.String()
			if rc.meta == bitswapMeta {
				must[s] = true
			}
			if strings.HasPrefix(rc.meta, bitswapMeta) {
				may[s] = true
			}
		}
	}
	return must, may
}

// testMhs is a varied set of multihashes.
func testMhs(r *mrand.Rand, label string, n int) []multihash.Multihash {
	var out []multihash.Multihash
	for i := 0; i < n; i++ {
		code, l := uint64(multihash.SHA2_256), -1
		data := []byte(fmt.Sprint(label, i))
		switch r.Intn(8) {
		case 0:
			code = multihash.SHA2_512
		case 1:
			l = 20
		case 2:
			code = multihash.IDENTITY
		case 3:
			code, data = multihash.IDENTITY, append(data, randBytes(r, 150)...)
		case 4:
			code = multihash.SHA1
		}
		m, err := multihash.Sum(data, code, l)
		must(err)
		out = append(out, m)
	}
	return out
}

func randMeta(r *mrand.Rand) string {
	switch r.Intn(8) {
	case 0, 1:
		return bitswapMeta
	case 5:
		return bitswapMeta[:1]
	case 6:
		return "\x12" + bitswapMeta
	case 2:
		return bitswapMeta + string(randBytes(r, 3))
	case 3:
		return string(randBytes(r, 200))
	case 4:
		return "\x00"
	}
	return "m" + string(randBytes(r, 2))
}

func (c *Ctx) p14(i int) {
	r := c.Rng("hist", i)
	rig := newRig(RigOpts{Listen: true, NoIngester: true})
	newDrain(rig.Reg)
	s := newSrv(rig, srvOpts{noIngest: true, noAdmin: true})
	defer s.Stop()
	a := newAsker(s)
	provs := newIdents(r, 4)
	mhs := testMhs(r, fmt.Sprint("p14-", i, "-"), 14)
	known := mhs[:11]
	w := &findWorld{m: newModel(), addrs: map[peer.ID][]multiaddr.Multiaddr{}, pubs: map[peer.ID]*peer.AddrInfo{}, ads: map[peer.ID]cid.Cid{}}
	reg := map[peer.ID]bool{}
	var hist []string
	bad := func(key, format string, args ...interface{}) {
		h := hist
		if len(h) > 12 {
			h = h[len(h)-12:]
		}
		c.Violate(key, "%s; history %v", fmt.Sprintf(format, args...), h)
	}
	addr := func(id peer.ID) bool {
		as := randMaddrs(r, 1)
		if r.Intn(4) == 0 {
			as = nil
			for k := 5 + r.Intn(60); k > 0; k-- {
				as = append(as, testAddr(100+k*7))
			}
		}
		pub := peer.AddrInfo{ID: provs[r.Intn(len(provs))].ID, Addrs: randMaddrs(r, 1)[:1]}
		ad := testCid(fmt.Sprint("ad", r.Intn(100)))
		if err := s.Reg.RegisterOrUpdate(bg, id, addrStrings(as), ad, pub); err != nil {
			c.Inconclusive("register: %v", err)
			return false
		}
		reg[id], w.addrs[id], w.ads[id] = true, as, ad
		w.pubs[id] = &pub
		hist = append(hist, fmt.Sprintf("register %s %v", shortPeer(id), as))
		return true
	}
	ctxs := []string{"", "c", "c1", string(randBytes(r, 60))}
	for _, v := range provs {
		if r.Intn(6) != 0 && !addr(v.ID) {
			return
		}
	}
	if r.Intn(2) == 0 {
		// One multihash that several providers serve over bitswap, under
		// several contexts each.
		for _, v := range provs {
			if !reg[v.ID] {
				continue
			}
			for _, k := range ctxs[1:] {
				sp := AdSpec{Ctx: k, Meta: bitswapMeta, Mhs: mhStrings(known[:1])}
				must(s.Core.Put(indexer.Value{ProviderID: v.ID, ContextID: []byte(sp.Ctx), MetadataBytes: []byte(sp.Meta)}, known[0]))
				w.m.Apply(v.ID, sp)
			}
		}
		hist = append(hist, "put the first mh for every provider")
	}
	for step := 0; step < 12; step++ {
		v := provs[r.Intn(len(provs))]
		switch x := r.Intn(10); {
		case x < 5:
			if !reg[v.ID] {
				continue
			}
			sp := AdSpec{Ctx: ctxs[r.Intn(len(ctxs))], Meta: randMeta(r)}
			var l []multihash.Multihash
			for _, m := range known {
				if r.Intn(3) == 0 {
					l = append(l, m)
				}
			}
			if len(l) == 0 {
				continue
			}
			sp.Mhs = mhStrings(l)
			if err := s.Core.Put(indexer.Value{ProviderID: v.ID, ContextID: []byte(sp.Ctx), MetadataBytes: []byte(sp.Meta)}, l...); err != nil {
				if sp.Ctx == "" {
					continue // not storable
				}
				c.Inconclusive("put: %v", err)
				return
			}
			w.m.Apply(v.ID, sp)
			hist = append(hist, fmt.Sprintf("put %s %q %d mhs", shortPeer(v.ID), sp.Ctx, len(l)))
		case x == 5:
			k := ctxs[1+r.Intn(len(ctxs)-1)]
			must(s.Core.RemoveProviderContext(v.ID, []byte(k)))
			w.m.Apply(v.ID, AdSpec{Ctx: k, Rm: true})
			hist = append(hist, fmt.Sprintf("rm %s %q", shortPeer(v.ID), k))
		case x < 8:
			if !addr(v.ID) {
				return
			}
		case x == 8:
			if !registry.VerifHooks || !reg[v.ID] {
				continue
			}
			huge := registry.VerifPolling{Interval: far, RetryAfter: far, StopAfter: far}
			over := map[peer.ID]registry.VerifPolling{v.ID: {StopAfter: far}}
			s.Reg.VerifPoll(huge, over)
			s.Reg.VerifPoll(huge, over)
			delete(w.addrs, v.ID)
			hist = append(hist, "inactive "+shortPeer(v.ID))
		default:
			if !reg[v.ID] {
				continue
			}
			must(s.Reg.RemoveProvider(bg, v.ID))
			delete(reg, v.ID)
			delete(w.addrs, v.ID)
			hist = append(hist, "remove "+shortPeer(v.ID))
			// From here on the provider's records may be purged; forget them.
			must(s.Core.RemoveProvider(bg, v.ID))
			w.m.mu.Lock()
			for k := range w.m.recs {
				if k.prov == v.ID {
					delete(w.m.recs, k)
				}
			}
			w.m.mu.Unlock()
		}
		if !c.p14ask(r, a, w, mhs, bad) {
			return
		}
		if step%3 == 0 && !c.p14listing(r, a, w, provs, bad) {
			return
		}
	}
	// Index reads that fail give errors, not answers.
	for k := 0; k < 6; k++ {
		n := 1 + r.Intn(6)
		var q []multihash.Multihash
		for j := 0; j < n; j++ {
			q = append(q, mhs[r.Intn(len(mhs))])
		}
		failAt := int64(1 + r.Intn(n))
		route := batchRoutes[r.Intn(len(batchRoutes))]
		if n == 1 {
			route = append(append([]string(nil), singleRoutes...), batchRoutes...)[r.Intn(8)]
		}
		var cnt, hit int64
		s.IX.onGet = func(multihash.Multihash) error {
			if atomic.AddInt64(&cnt, 1) == failAt {
				atomic.StoreInt64(&hit, 1)
				return errors.New("injected")
			}
			return nil
		}
		res, status, err := a.Ask(r, route, q)
		s.IX.onGet = nil
		if atomic.LoadInt64(&hit) == 0 {
			continue
		}
		c.Eval(1)
		var ae *askErr
		if err == nil {
			bad("read-error", "by %s: an index read failed, answer has status %d and %d results", route, status, len(res))
			return
		}
		if errors.As(err, &ae) && ae.status != 0 && ae.status < 500 {
			bad("read-error", "by %s: an index read failed, answer is %v", route, err)
			return
		}
		if strings.Contains(err.Error(), "injected") {
			bad("read-error", "by %s: the internal error is given to the client: %v", route, err)
			return
		}
		c.Count("failed reads", 1)
		c.Seen("fail " + route)
	}
	if !c.p14ask(r, a, w, mhs, bad) {
		return
	}
	if i == 0 {
		c.Sample("%v", hist)
	}
}

// p14big asks for many multihashes at once.
func (c *Ctx) p14big(i int) {
	r := c.Rng("big", i)
	rig := newRig(RigOpts{Listen: true, NoIngester: true})
	newDrain(rig.Reg)
	s := newSrv(rig, srvOpts{noIngest: true, noAdmin: true})
	defer s.Stop()
	a := newAsker(s)
	w := &findWorld{m: newModel(), addrs: map[peer.ID][]multiaddr.Multiaddr{}}
	total := 1500 + r.Intn(2500)
	var mhs []multihash.Multihash
	for k := 0; k < total; k++ {
		mhs = append(mhs, testMh(fmt.Sprint("p14big", i, "-", k)))
	}
	for _, v := range newIdents(r, 2) {
		as := randMaddrs(r, 1)
		must(s.Reg.RegisterOrUpdate(bg, v.ID, addrStrings(as), cid.Undef, peer.AddrInfo{}))
		w.addrs[v.ID] = as
		sp := AdSpec{Ctx: "c" + shortPeer(v.ID), Meta: "m"}
		var l []multihash.Multihash
		for _, m := range mhs {
			if r.Intn(3) != 0 {
				l = append(l, m)
			}
		}
		sp.Mhs = mhStrings(l)
		must(s.Core.Put(indexer.Value{ProviderID: v.ID, ContextID: []byte(sp.Ctx), MetadataBytes: []byte(sp.Meta)}, l...))
		w.m.Apply(v.ID, sp)
	}
	want := map[string][]string{}
	for _, m := range mhs {
		want[string(m)] = w.expect(m)
	}
	for _, n := range []int{1 << uint(r.Intn(11)), 1001, total} {
		for _, route := range batchRoutes {
			q := mhs[total-n:]
			res, status, err := a.Ask(r, route, q)
			if err != nil {
				var ae *askErr
				if errors.As(err, &ae) {
					c.Violate("answer", "by %s: %d multihashes: %v", route, n, err)
				} else {
					c.Inconclusive("%s: %v", route, err)
				}
				return
			}
			if !c.judgeFind(route, q, res, status, func(m multihash.Multihash) ([]string, func([]string) bool) { return want[string(m)], nil },
				func(key, f string, args ...interface{}) {
					c.Violate(key, "%d multihashes at once: %s", n, fmt.Sprintf(f, args...))
				}) {
				return
			}
			c.Count("large batches", 1)
		}
	}
}

// p14ask puts one question by all routes.
func (c *Ctx) p14ask(r *mrand.Rand, a *Asker, w *findWorld, mhs []multihash.Multihash, bad func(string, string, ...interface{})) bool {
	one := mhs[r.Intn(len(mhs))]
	n := r.Intn(9)
	var batch []multihash.Multihash
	for j := 0; j < n; j++ {
		batch = append(batch, mhs[r.Intn(len(mhs))])
		if r.Intn(4) == 0 {
			batch = append(batch, batch[r.Intn(len(batch))])
		}
	}
	routes := append(append([]string(nil), singleRoutes...), batchRoutes...)
	for _, route := range routes {
		q := batch
		if !strings.Contains(route, "batch") {
			q = []multihash.Multihash{one}
		} else if len(q) == 0 && route == "http-batch" && r.Intn(2) == 0 {
			q = []multihash.Multihash{one}
		}
		res, status, err := a.Ask(r, route, q)
		if err != nil {
			var ae *askErr
			if errors.As(err, &ae) {
				bad("answer", "by %s: %d multihashes: %v", route, len(q), err)
			} else {
				c.Inconclusive("%s: %v", route, err)
			}
			return false
		}
		if !c.judgeFind(route, q, res, status, func(m multihash.Multihash) ([]string, func([]string) bool) { return w.expect(m), nil }, bad) {
			return false
		}
	}
	// Delegated routing.
	got, err := a.Reframe(r, one)
	if err != nil {
		c.Inconclusive("reframe: %v", err)
		return false
	}
	need, may := w.reframe(one)
	c.Eval(1)
	have := map[string]bool{}
	for _, g := range got {
		have[g] = true
		if !may[g] {
			bad("reframe", "delegated routing for %s gave %s, which does not serve it over bitswap", one.B58String(), g)
			return false
		}
	}
	for g := range need {
		if !have[g] {
			bad("reframe", "delegated routing for %s lacks %s; answer %v", one.B58String(), g, got)
			return false
		}
	}
	c.Seen(fmt.Sprint("reframe", len(got)))
	return true
}

func (c *Ctx) judgeFind(route string, q []multihash.Multihash, res []model.MultihashResult, status int,
	expect func(multihash.Multihash) ([]string, func([]string) bool), bad func(string, string, ...interface{})) bool {
	asked := map[string]bool{}
	for _, m := range q {
		asked[string(m)] = true
	}
	seen := map[string]bool{}
	c.Eval(len(q))
	for _, x := range res {
		if !asked[string(x.Multihash)] {
			bad("answer", "by %s: result for %x, which was not asked for", route, []byte(x.Multihash))
			return false
		}
		seen[string(x.Multihash)] = true
		got := provResults(x)
		want, ok := expect(x.Multihash)
		if ok != nil {
			if !ok(got) {
				bad("answer", "by %s: %s has %q", route, x.Multihash.B58String(), got)
				return false
			}
			continue
		}
		if len(want) == 0 {
			bad("answer", "by %s: result for %s with %q, nothing expected", route, x.Multihash.B58String(), got)
			return false
		}
		if !reflect.DeepEqual(got, want) {
			bad("answer", "by %s: %s has %q, want %q", route, x.Multihash.B58String(), got, want)
			return false
		}
	}
	any := false
	for m := range asked {
		want, _ := expect(multihash.Multihash(m))
		if len(want) > 0 {
			any = true
			if !seen[m] {
				bad("answer", "by %s: no result for %s, want %q", route, multihash.Multihash(m).B58String(), want)
				return false
			}
		}
	}
	if status == http.StatusNotFound && any {
		bad("answer", "by %s: 404 for content that is there", route)
		return false
	}
	if status == http.StatusOK && !any {
		bad("answer", "by %s: status 200 where nothing is known", route)
		return false
	}
	c.Seen(fmt.Sprint(route, len(q), len(seen)))
	c.Count("questions by "+route, 1)
	return true
}

func (c *Ctx) p14listing(r *mrand.Rand, a *Asker, w *findWorld, provs []Ident, bad func(string, string, ...interface{})) bool {
	ctx, cancel := context.WithTimeout(bg, 90*time.Second)
	defer cancel()
	render := func(p *model.ProviderInfo) string {
		pub := ""
		if p.Publisher != nil {
			pub = fmt.Sprint(p.Publisher.ID, p.Publisher.Addrs)
		}
		as := addrStrings(p.AddrInfo.Addrs)
		sort.Strings(as)
		return fmt.Sprint(p.AddrInfo.ID, as, p.LastAdvertisement, pub, p.LastAdvertisementTime != "")
	}
	want := map[peer.ID]string{}
	for id, as := range w.addrs {
		want[id] = render(&model.ProviderInfo{AddrInfo: peer.AddrInfo{ID: id, Addrs: as}, LastAdvertisement: w.ads[id], LastAdvertisementTime: "x", Publisher: w.pubs[id]})
	}
	judge := func(route string, l []*model.ProviderInfo) bool {
		c.Eval(1)
		got := map[peer.ID]string{}
		for _, p := range l {
			if _, ok := got[p.AddrInfo.ID]; ok {
				bad("listing", "by %s: %s listed twice", route, shortPeer(p.AddrInfo.ID))
				return false
			}
			got[p.AddrInfo.ID] = render(p)
		}
		if !reflect.DeepEqual(got, want) {
			bad("listing", "by %s: providers %v, want %v", route, got, want)
			return false
		}
		return true
	}
	l1, err1 := a.hc.ListProviders(ctx)
	l2, err2 := a.pc.ListProviders(ctx)
	if err1 != nil || err2 != nil {
		bad("listing", "listing providers failed: %v %v", err1, err2)
		return false
	}
	if !judge("client-http", l1) || !judge("client-p2p", l2) {
		return false
	}
	rp := a.s.HTTP("GET", a.s.FindURL+"/providers", nil)
	var l3 []*model.ProviderInfo
	if rp.Err != nil {
		c.Inconclusive("%v", rp.Err)
		return false
	}
	if err := json.Unmarshal(rp.Body, &l3); err != nil {
		bad("listing", "by http: %v", err)
		return false
	}
	if !judge("http", l3) {
		return false
	}
	for _, v := range provs {
		p1, err1 := a.hc.GetProvider(ctx, v.ID)
		p2, err2 := a.pc.GetProvider(ctx, v.ID)
		c.Eval(2)
		for k, x := range []struct {
			p   *model.ProviderInfo
			err error
		}{{p1, err1}, {p2, err2}} {
			route := []string{"client-http", "client-p2p"}[k]
			if (x.err == nil) != (want[v.ID] != "") {
				bad("listing", "by %s: provider %s: error %v, want %q", route, shortPeer(v.ID), x.err, want[v.ID])
				return false
			}
			if x.err == nil && render(x.p) != want[v.ID] {
				bad("listing", "by %s: provider %s is %s, want %s", route, shortPeer(v.ID), render(x.p), want[v.ID])
				return false
			}
		}
	}
	st1, err1 := a.hc.GetStats(ctx)
	st2, err2 := a.pc.GetStats(ctx)
	d, err3 := a.rawFind(finderpb.FinderMessage_GET_STATS, finderpb.FinderMessage_GET_STATS_RESPONSE, nil)
	c.Eval(1)
	if err1 != nil || err2 != nil || err3 != nil || *st1 != *st2 {
		bad("stats", "statistics differ or fail: %v %v %v %v %v %s", st1, st2, err1, err2, err3, d)
		return false
	}
	c.Seen(fmt.Sprint("listing", len(want)))
	return true
}

// p14conc asks many questions at once while addresses change.
func (c *Ctx) p14conc(i int) {
	r := c.Rng("conc", i)
	rig := newRig(RigOpts{Listen: true, NoIngester: true})
	newDrain(rig.Reg)
	s := newSrv(rig, srvOpts{noIngest: true, noAdmin: true})
	defer s.Stop()
	a := newAsker(s)
	provs := newIdents(r, 3)
	mhs := testMhs(r, fmt.Sprint("p14c-", i, "-"), 20)
	m := newModel()
	// Every version of a provider's record has one address, numbered.
	type ver struct{ begun, done int64 }
	vers := map[peer.ID]*ver{}
	set := func(id peer.ID, n int64) {
		atomic.StoreInt64(&vers[id].begun, n)
		must(s.Reg.RegisterOrUpdate(bg, id, []string{fmt.Sprintf("/ip4/10.0.%d.%d/tcp/4001", n>>8, n&255)}, cid.Undef, peer.AddrInfo{}))
		atomic.StoreInt64(&vers[id].done, n)
	}
	for _, v := range provs {
		vers[v.ID] = &ver{}
		set(v.ID, 1)
		for k := 0; k < 2; k++ {
			sp := AdSpec{Ctx: fmt.Sprint("c", k), Meta: randMeta(r)}
			for _, x := range mhs[:16] {
				if r.Intn(2) == 0 {
					sp.Mhs = append(sp.Mhs, string(x))
				}
			}
			sp.Mhs = append(sp.Mhs, string(mhs[0]))
			var l []multihash.Multihash
			for _, x := range sp.Mhs {
				l = append(l, multihash.Multihash(x))
			}
			must(s.Core.Put(indexer.Value{ProviderID: v.ID, ContextID: []byte(sp.Ctx), MetadataBytes: []byte(sp.Meta)}, l...))
			m.Apply(v.ID, sp)
		}
	}
	exp := m.Expect()
	var stop int32
	var wg sync.WaitGroup
	wg.Add(1)
	go func() {
		defer wg.Done()
		ur := c.Rng("conc-up", i)
		for n := int64(2); atomic.LoadInt32(&stop) == 0; n++ {
			set(provs[ur.Intn(len(provs))].ID, n)
			time.Sleep(time.Duration(ur.Intn(300)) * time.Microsecond)
		}
	}()
	parallel(c.N(240, 800), 12, func(n int) {
		if c.Failed() {
			return
		}
		qr := c.Rng("conc-q", i, n)
		route := append(append([]string(nil), singleRoutes...), batchRoutes...)[qr.Intn(8)]
		var q []multihash.Multihash
		for j := 0; j < 1+qr.Intn(7); j++ {
			q = append(q, mhs[qr.Intn(len(mhs))])
		}
		if !strings.Contains(route, "batch") {
			q = q[:1]
		}
		lo := map[peer.ID]int64{}
		for id, v := range vers {
			lo[id] = atomic.LoadInt64(&v.done)
		}
		res, status, err := a.Ask(qr, route, q)
		hi := map[peer.ID]int64{}
		for id, v := range vers {
			hi[id] = atomic.LoadInt64(&v.begun)
		}
		bad := func(key, format string, args ...interface{}) {
			c.Violate(key, "concurrently: "+format, args...)
		}
		if err != nil {
			var ae *askErr
			if errors.As(err, &ae) {
				bad("answer", "by %s: %v", route, err)
			} else {
				c.Inconclusive("%s: %v", route, err)
			}
			return
		}
		c.judgeFind(route, q, res, status, func(m multihash.Multihash) ([]string, func([]string) bool) {
			want := exp[string(m)]
			return want, func(got []string) bool {
				var recs []string
				for _, g := range got {
					k := strings.LastIndex(g, "@")
					recs = append(recs, g[:k])
					var x, y int64
					if _, err := fmt.Sscanf(g[k+1:], "/ip4/10.0.%d.%d/tcp/4001", &x, &y); err != nil || strings.Contains(g[k+1:], ",") {
						return false
					}
					v := x<<8 | y
					for id := range vers {
						if strings.HasPrefix(g, id.String()+"|") && (v < lo[id] || v > hi[id]) {
							return false
						}
					}
				}
				sort.Strings(recs)
				return reflect.DeepEqual(recs, want)
			}
		}, bad)
	})
	atomic.StoreInt32(&stop, 1)
	wg.Wait()
	c.Count("address versions", func() (n int64) {
		for _, v := range vers {
			n += v.done
		}
		return
	}())
}
