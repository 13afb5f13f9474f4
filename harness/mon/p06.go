package main

import (
	"bytes"
	"context"
	"fmt"
	"math/rand"
	"strings"
	"time"

	"github.com/filecoin-project/storetheindex/api/v0/ingest/schema"
	"github.com/filecoin-project/storetheindex/config"
	"github.com/ipfs/go-cid"
	"github.com/ipfs/go-datastore"
	cidlink "github.com/ipld/go-ipld-prime/linking/cid"
	"github.com/libp2p/go-libp2p-core/peer"
)

func init() {
	register("P06", "publishers answer the fetch of one advertisement, entry chunk or HAMT node with other bytes - well-formed blocks naming other multihashes, metadata, addresses or chains, other genuine blocks of the chain, re-encodings, truncations, nothing - "+
		"for some syncs, announcements, re-syncs and restarts, or name another provider's blocks in their own chain to plant substitutes for them; every index operation and registry write must be one the genuine blocks justify, the latest synced advertisement must not reach the affected one, and once genuine bytes are served the index equals the reference; distinct counts (target, substitute, route) combinations in which the substitute was served",
		runP06, "over libp2p only the absence of foreign data is judged: a substituted block counts as content the publisher does not have, which is skipped by design", "hash functions are assumed collision-free")
}

var p06subs = []string{"evil", "evil-next", "swap", "respace", "append", "cut", "empty", "kind", "evil-ad"}

func runP06(c *Ctx) {
	n := c.N(360, 9000)
	c.RunN("sub", n, 8, func(c *Ctx, i int) { c.p06sub(i, p06subs[i%len(p06subs)]) })
	c.RunN("plant", n/6, 8, func(c *Ctx, i int) { c.p06plant(i) })
}

// p06evil is a block other than the genuine one for the target.
func p06evil(r *rand.Rand, p *Pub, kind string, target cid.Cid, isAd, isHamt bool, adIdx int, evil []string) []byte {
	x := &Pub{Ident: p.Ident, Provs: p.Provs, blocks: map[cid.Cid][]byte{}, lp: p.lp}
	genuine := p.blocks[target]
	chunk := func(next bool) []byte {
		var nl cidlink.Link
		ec := schema.EntryChunk{}
		for _, h := range evil {
			ec.Entries = append(ec.Entries, []byte(h))
		}
		if next {
			// keep following the genuine chain
			for _, b := range p.Ads[adIdx].Blocks {
				if b != target {
					nl = cidlink.Link{Cid: b}
				}
			}
			if nl.Cid.Defined() {
				ec.Next = nl
			}
		}
		n, err := ec.ToNode()
		must(err)
		c := x.store(n, nil).(cidlink.Link).Cid
		return x.blocks[c]
	}
	ad := func() []byte {
		var ents []cid.Cid
		l := p.entries(AdSpec{Mhs: evil, ChunkLen: 2}, &ents)
		a := schema.Advertisement{Provider: p.ID.String(), Addresses: []string{"/ip4/6.6.6.6/tcp/666"}, Entries: l, ContextID: []byte("evil-ctx"), Metadata: []byte("evil-meta")}
		if adIdx > 0 {
			a.PreviousID = cidlink.Link{Cid: p.Ads[adIdx-1].Cid}
		}
		must(a.Sign(p.Priv))
		n, err := a.ToNode()
		must(err)
		c := x.store(n, nil).(cidlink.Link).Cid
		return x.blocks[c]
	}
	hamt := func() []byte {
		var bl []cid.Cid
		l := x.entries(AdSpec{Mhs: evil[:1], Hamt: true}, &bl)
		return x.blocks[l.(cidlink.Link).Cid]
	}
	switch kind {
	case "evil":
		if isAd {
			return ad()
		}
		if isHamt {
			return hamt()
		}
		return chunk(false)
	case "evil-next":
		if isAd {
			return ad()
		}
		return chunk(true)
	case "evil-ad":
		return ad()
	case "kind":
		if isAd || isHamt {
			return chunk(false)
		}
		return hamt()
	case "swap":
		// another genuine block of the chain
		var all []cid.Cid
		for _, a := range p.Ads {
			if a.Cid != target {
				all = append(all, a.Cid)
			}
			for _, b := range a.Blocks {
				if b != target {
					all = append(all, b)
				}
			}
		}
		return p.blocks[all[r.Intn(len(all))]]
	case "respace":
		return bytes.Replace(genuine, []byte(":"), []byte(": "), -1)
	case "append":
		return append(append([]byte(nil), genuine...), ' ', '\n')
	case "cut":
		return genuine[:len(genuine)-1-r.Intn(len(genuine)/2)]
	}
	return []byte{}
}

func (c *Ctx) p06sub(i int, kind string) {
	r := c.Rng("sub", i)
	id := newIdent(r)
	o := GenOpts{NCtx: 3, NMh: 40, MaxMhs: 8, MaxChunk: 3, Hamt: true, Salt: fmt.Sprint("p06-", i)}
	u := universe(o)
	p := newPub(id)
	p.trust = true
	defer p.Close()
	if k := c.Rng("sub-links", i).Intn(2 * len(oddProtos)); k < len(oddProtos) {
		p.lp = &oddProtos[k]
		c.Seen(fmt.Sprint("links ", k))
	}
	n := 2 + r.Intn(4)
	for j := 0; j < n; j++ {
		a := AdSpec{Ctx: fmt.Sprint("ctx-", j), Meta: fmt.Sprint("meta-", j), ChunkLen: 1 + r.Intn(3), Hamt: r.Intn(3) == 0}
		for k := 2 + r.Intn(7); k > 0; k-- {
			a.Mhs = append(a.Mhs, u[r.Intn(len(u))])
		}
		a.Mhs = append(dedup(a.Mhs), string(testMh(fmt.Sprint("p06u-", i, j))))
		u = append(u, a.Mhs[len(a.Mhs)-1])
		p.Publish(a)
	}
	evil := []string{string(testMh(fmt.Sprint("evil", i, "a"))), string(testMh(fmt.Sprint("evil", i, "b"))), string(testMh(fmt.Sprint("evil", i, "c")))}
	at := r.Intn(n)
	target, isAd := p.Ads[at].Cid, true
	if r.Intn(3) != 0 {
		bl := p.Ads[at].Blocks
		target, isAd = bl[r.Intn(len(bl))], false
	}
	// The earliest advertisement the target belongs to.
	for j := at; j >= 0; j-- {
		for _, b := range p.Ads[j].Blocks {
			if b == target {
				at = j
			}
		}
	}
	isHamt := !isAd && p.Ads[at].Spec.Hamt
	body := p06evil(r, p, kind, target, isAd, isHamt, at, evil)
	p.mu.Lock()
	genuine := p.blocks[target]
	p.mu.Unlock()
	if bytes.Equal(body, genuine) {
		return
	}
	w := &p05watch{marks: []string{"6.6.6.6"}}
	store, core := memDS(), newCore(0)
	seg := []int{-1, 1, 2, 2000}[r.Intn(4)]
	mk := func() *Rig {
		return newRig(RigOpts{Store: store, Core: core,
			Ingest: func(ic *config.Ingest) {
				ic.SyncSegmentDepthLimit = seg
				ic.StoreBatchSize = 1 + r.Intn(4)
			},
			DSHook: func(op string, k datastore.Key, v []byte) error { w.see(op, k, v); return nil }})
	}
	rig := mk()
	defer func() { rig.Abandon() }()
	useDT := r.Intn(6) == 0
	var dt *DtPub
	if useDT {
		dt = newDtPub(p)
		defer dt.Close()
	}
	sync := func(resync bool) bool {
		if dt == nil {
			_, ok := rig.SyncWait(c, bg, p, 0, resync)
			return ok
		}
		dt.Refresh()
		out, err := rig.Ing.Sync(bg, p.ID, dt.Addr(), 0, resync)
		if err != nil {
			return true
		}
		_, ok := rig.awaitSync(c, out)
		return ok
	}
	served := 0
	name := target.String()
	p.mu.Lock()
	p.blocks[target] = body
	p.mu.Unlock()
	p.SetHook(func(nm string, _ int) FetchVerdict {
		if nm == name {
			served++ // fetches of one block are sequential here
		}
		return FetchVerdict{}
	})
	var used []string
	var log []*IxOp
	what := func() string {
		return fmt.Sprintf("chain [%s], substitute %q for %s of advertisement %d, routes %v, segment %d, libp2p %v", func() string {
			var s []AdSpec
			for _, a := range p.Ads {
				s = append(s, a.Spec)
			}
			return chainString(s)
		}(), kind, map[bool]string{true: "the block", false: "an entry block"}[isAd], at, used, seg, useDT)
	}
	for t := 1 + r.Intn(3); t > 0; t-- {
		rt := []string{"sync", "sync", "resync", "announce", "restart"}[r.Intn(5)]
		used = append(used, rt)
		switch rt {
		case "announce":
			ai := p.AddrInfo()
			if dt != nil {
				dt.Refresh()
				ai.Addrs = append(ai.Addrs[:0:0], dt.Addr())
			}
			before := len(p.Fetches())
			ctx, cancel := context.WithTimeout(bg, 20*time.Second)
			_ = rig.Ing.Announce(ctx, p.Head(), ai)
			cancel()
			if dt == nil {
				upTo(2*time.Second, func() bool { return len(p.Fetches()) > before })
			}
			settle()
		case "restart":
			if !rig.Close(c) {
				return
			}
			log = append(log, rig.IX.Log()...)
			rig = mk()
		}
		if !sync(rt == "resync") {
			return
		}
		if rt == "announce" {
			// Let the announced sync end before judging the latest.
			if !sync(false) {
				return
			}
		}
		c.Eval(1)
		l := rig.Latest(p.ID)
		for j := at; j < n && !useDT && served > 0; j++ {
			if l == p.Ads[j].Cid {
				c.Violate("sync-succeeded", "latest synced is advertisement %d although data of advertisement %d did not match its link: %s", j, at, what())
				return
			}
		}
	}
	// Nothing that the genuine blocks do not say.
	judge := func() bool {
		for _, op := range append(log, rig.IX.Log()...) {
			c.Eval(1)
			if d := p06unjustified(op, p); d != "" {
				c.Violate("foreign-data", "%s: %s", d, what())
				return false
			}
		}
		w.mu.Lock()
		defer w.mu.Unlock()
		if len(w.hits) != 0 {
			c.Violate("foreign-registry", "registry record took data from a substituted block: %s: %s", w.hits[0], what())
			return false
		}
		return true
	}
	if !judge() {
		return
	}
	// No multihash that only the substituted data could have delivered.
	if !isAd {
		only := p06only(p, at, target, genuine)
		for _, op := range append(log, rig.IX.Log()...) {
			for _, m := range op.Mhs {
				if op.Kind == "put" && op.Ctx == p.Ads[at].Spec.Ctx && only[m] {
					c.Violate("unmatched-used", "multihash of a block whose bytes did not match its link was indexed: %s", what())
					return
				}
			}
		}
	}
	hit := served > 0 || useDT
	if useDT {
		// Over libp2p a block with other bytes counts as content that the
		// publisher does not have, which is skipped for good.
		c.Count("substitutes_served", 1)
		c.Seen(fmt.Sprint(kind, isAd, isHamt, n, at, used, useDT))
		return
	}
	// Genuine bytes now.
	p.mu.Lock()
	p.blocks[target] = genuine
	p.mu.Unlock()
	if !sync(false) {
		return
	}
	m := newModel()
	p.ModelAll(m)
	d, ne := diffIndex(rig.Core, m, append(append([]string(nil), u...), evil...), nil)
	c.Eval(ne)
	if d != "" {
		c.Violate("after-recovery", "index differs after genuine bytes were served: %s: %s", d, what())
		return
	}
	if !judge() {
		return
	}
	c.Eval(1)
	if l := rig.Latest(p.ID); l != p.Head() {
		c.Violate("after-recovery", "latest synced is %s, not the head, after genuine bytes were served: %s", shortCidU(l), what())
		return
	}
	if hit {
		c.Count("substitutes_served", 1)
		c.Seen(fmt.Sprint(kind, isAd, isHamt, n, at, used, useDT))
		c.Sample("%s", what())
	}
}

// p06only: the multihashes that advertisement at names only through the target
// block (only known for chunks).
func p06only(p *Pub, at int, target cid.Cid, genuine []byte) map[string]bool {
	out := map[string]bool{}
	if p.Ads[at].Spec.Hamt {
		return out
	}
	cl := p.Ads[at].Spec.ChunkLen
	bl := p.Ads[at].Blocks // last chunk first
	ms := p.Ads[at].Spec.Mhs
	idx := -1
	for j := range bl {
		if bl[j] == target {
			idx = len(bl) - 1 - j
		}
	}
	if idx < 0 {
		return out
	}
	for j, m := range ms {
		if j/cl >= idx {
			out[m] = true
		}
	}
	for j, m := range ms {
		if j/cl < idx {
			delete(out, m)
		}
	}
	return out
}

// p06unjustified says why an index operation does not follow from any genuine
// advertisement of the publisher.
func p06unjustified(op *IxOp, p *Pub) string {
	for _, a := range p.Ads {
		if op.Prov != a.Prov || op.Ctx != a.Spec.Ctx {
			continue
		}
		switch {
		case op.Kind == "put" && !a.Spec.Rm && op.Meta == a.Spec.Meta:
			names := map[string]bool{}
			for _, m := range a.Spec.Mhs {
				names[m] = true
			}
			ok := true
			for _, m := range op.Mhs {
				ok = ok && names[m]
			}
			if ok {
				return ""
			}
		case op.Kind == "rmctx" && a.Spec.Rm:
			return ""
		}
	}
	return fmt.Sprintf("index operation %s follows from no genuine advertisement", op)
}

// p06plant: a publisher names another provider's blocks in its own chain and
// serves substitutes for them.
func (c *Ctx) p06plant(i int) {
	r := c.Rng("plant", i)
	ids := newIdents(r, 2)
	good, bad := newPub(ids[0]), newPub(ids[1])
	defer good.Close()
	defer bad.Close()
	var u []string
	for j := 0; j < 3; j++ {
		a := AdSpec{Ctx: fmt.Sprint("g", j), Meta: fmt.Sprint("gm", j), ChunkLen: 1 + r.Intn(2), Hamt: r.Intn(3) == 0}
		for k := 0; k < 3+r.Intn(3); k++ {
			a.Mhs = append(a.Mhs, string(testMh(fmt.Sprint("plant", i, j, k))))
		}
		u = append(u, a.Mhs...)
		good.Publish(a)
	}
	evil := []string{string(testMh(fmt.Sprint("pe", i, "a"))), string(testMh(fmt.Sprint("pe", i, "b"))), string(testMh(fmt.Sprint("pe", i, "c")))}
	rig := newRig(RigOpts{})
	defer func() { rig.Abandon() }()
	at := r.Intn(3)
	kind := []string{"evil", "swap", "empty", "kind", "evil-ad"}[r.Intn(5)]
	asPrev := r.Intn(3) == 0
	var target cid.Cid
	bl := good.Ads[at].Blocks
	if asPrev {
		target = good.Ads[at].Cid
		body := p06evil(r, good, "kind", target, true, false, at, evil)
		if r.Intn(2) == 0 {
			// an advertisement of the planting publisher under that name
			x := &Pub{Ident: bad.Ident, Provs: bad.Provs, blocks: map[cid.Cid][]byte{}}
			l := bad.entries(AdSpec{Mhs: evil, ChunkLen: 3}, nil)
			a := schema.Advertisement{Provider: bad.ID.String(), Addresses: []string{"/ip4/6.6.6.6/tcp/666"}, Entries: l, ContextID: []byte("evil-ctx"), Metadata: []byte("evil-meta")}
			must(a.Sign(bad.Priv))
			n, err := a.ToNode()
			must(err)
			body = x.blocks[x.store(n, nil).(cidlink.Link).Cid]
		}
		ad, blocks := bad.Build(AdSpec{Ctx: "b", Meta: "bm", Mhs: []string{string(testMh(fmt.Sprint("pb", i)))}}, func(a *schema.Advertisement) { a.PreviousID = cidlink.Link{Cid: target} })
		bad.Append(AdSpec{Ctx: "b", Meta: "bm"}, ad, blocks)
		bad.blocks[target] = body
	} else {
		target = bl[r.Intn(len(bl))]
		body := p06evil(r, good, kind, target, false, good.Ads[at].Spec.Hamt, at, evil)
		ad, _ := bad.Build(AdSpec{Ctx: "b", Meta: "bm", NoEnts: true}, func(a *schema.Advertisement) { a.Entries = cidlink.Link{Cid: target} })
		bad.Append(AdSpec{Ctx: "b", Meta: "bm"}, ad, nil)
		bad.blocks[target] = body
	}
	order := r.Intn(3)
	if order == 2 {
		if _, ok := rig.SyncWait(c, bg, good, 1+r.Intn(2), false); !ok {
			return
		}
	}
	for k := 0; k < 1+r.Intn(2); k++ {
		if _, ok := rig.SyncWait(c, bg, bad, 0, k > 0); !ok {
			return
		}
	}
	if _, ok := rig.SyncWait(c, bg, good, 0, order == 2); !ok {
		return
	}
	what := fmt.Sprintf("publisher names %s of another provider's advertisement %d and serves %q", map[bool]string{true: "the block", false: "an entry block"}[asPrev], at, kind)
	m := newModel()
	good.ModelAll(m)
	d, n := diffIndex(rig.Core, m, append(u, evil...), map[peer.ID]bool{good.ID: true})
	c.Eval(n)
	if d != "" {
		c.Violate("planted", "the other provider's content is wrong: %s: %s", d, what)
		return
	}
	for _, op := range rig.IX.Log() {
		c.Eval(1)
		for _, h := range op.Mhs {
			for _, e := range evil {
				if h == e {
					c.Violate("foreign-data", "multihash from a substituted block was indexed by %s: %s", op, what)
					return
				}
			}
		}
		if strings.HasPrefix(op.Ctx, "evil") {
			c.Violate("foreign-data", "context from a substituted block: %s: %s", op, what)
			return
		}
	}
	for _, f := range bad.Fetches() {
		if f == target {
			c.Count("substitutes_planted", 1)
			c.Seen(fmt.Sprint("plant", kind, asPrev, order, at))
			break
		}
	}
}
