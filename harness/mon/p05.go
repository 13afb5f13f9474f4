package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"math/rand"
	"strings"
	"sync"
	"time"

	"github.com/filecoin-project/storetheindex/api/v0/ingest/schema"
	"github.com/filecoin-project/storetheindex/config"
	"github.com/filecoin-project/storetheindex/internal/registry"
	"github.com/ipfs/go-cid"
	"github.com/ipfs/go-datastore"
	"github.com/ipld/go-ipld-prime"
	cidlink "github.com/ipld/go-ipld-prime/linking/cid"
	"github.com/libp2p/go-libp2p-core/crypto"
	"github.com/libp2p/go-libp2p-core/peer"
	"github.com/libp2p/go-libp2p-core/record"
	rpb "github.com/libp2p/go-libp2p-core/record/pb"
	"github.com/multiformats/go-multiaddr"
	"github.com/multiformats/go-multihash"
)

func init() {
	register("P05", "one hostile advertisement (forged signer, each signed field altered after signing, replayed, damaged, mistyped or wrongly attributed signatures, in current and earlier signature format, smuggled in as entries first) is placed at a random position of a chain "+
		"of authentic ones and offered by explicit syncs, re-syncs, announcements and after restarts, over HTTP and libp2p, under random publish policies, next to a victim provider with indexed content; every index operation and registry write is watched for any trace of it; "+
		"authentic advertisements (own, by an allowed publisher, earlier signature format) must take effect; a reference verifier decides which is which; distinct counts (kind, position, route, policy) combinations in which the hostile advertisement was fetched",
		runP05, "the context identifier is not covered by the advertisement format's signature and is therefore not altered", "field boundaries inside the signed payload are not shifted (format limitation)")
}

var p05bad = []string{
	"by-unallowed-publisher", "by-stranger", "alter-provider", "alter-addrs", "add-addr", "drop-addr", "alter-entries", "alter-noentries", "alter-prev", "drop-prev", "alter-meta", "set-rm", "clear-rm",
	"victim-alter-addrs", "victim-alter-entries", "victim-alter-meta", "victim-alter-prev", "victim-set-rm", "victim-replay-old",
	"sig-garbage", "sig-empty", "sig-cut", "sig-flip", "sig-domain", "sig-codec", "sig-pubkey", "sig-other-ad", "sig-payload",
	"old-alter-meta", "old-alter-entries", "old-short-payload", "smuggle-entries",
}
var p05good = []string{"own", "own-by-Sign", "own-old-format", "for-other-allowed", "cbor", "no-addrs"}

func runP05(c *Ctx) {
	reps := c.N(12, 300)
	c.RunN("bad", reps*len(p05bad), 8, func(c *Ctx, i int) { c.p05(i, p05bad[i%len(p05bad)], false) })
	c.RunN("good", reps*len(p05good), 8, func(c *Ctx, i int) { c.p05(i, p05good[i%len(p05good)], true) })
}

// sigRec is the record inside an advertisement signature.
type sigRec struct {
	domain string
	codec  []byte
	pay    []byte
}

func (s *sigRec) Domain() string                 { return s.domain }
func (s *sigRec) Codec() []byte                  { return s.codec }
func (s *sigRec) MarshalRecord() ([]byte, error) { return s.pay, nil }
func (s *sigRec) UnmarshalRecord(b []byte) error { s.pay = b; return nil }

// refPayload is the signed payload of an advertisement, computed
// independently of the code under test.
func refPayload(ad *schema.Advertisement, old bool) []byte {
	var b []byte
	if ad.PreviousID != nil {
		b = append(b, ad.PreviousID.(cidlink.Link).Cid.Bytes()...)
	}
	b = append(b, ad.Entries.(cidlink.Link).Cid.Bytes()...)
	b = append(b, ad.Provider...)
	b = append(b, strings.Join(ad.Addresses, "")...)
	b = append(b, ad.Metadata...)
	if ad.IsRm {
		b = append(b, 1)
	} else {
		b = append(b, 0)
	}
	var m []byte
	var err error
	if old {
		m, err = multihash.Encode(b, multihash.SHA2_256)
	} else {
		m, err = multihash.Sum(b, multihash.SHA2_256, -1)
	}
	must(err)
	return m
}

func refSeal(priv crypto.PrivKey, domain, codec string, pay []byte) []byte {
	e, err := record.Seal(&sigRec{domain, []byte(codec), pay}, priv)
	must(err)
	b, err := e.Marshal()
	must(err)
	return b
}

const refDomain, refCodec = "indexer", "/indexer/ingest/adSignature"

// refSigner returns who authentically signed an advertisement.
func refSigner(ad *schema.Advertisement) (peer.ID, error) {
	rec := &sigRec{domain: refDomain, codec: []byte(refCodec)}
	e, err := record.ConsumeTypedEnvelope(ad.Signature, rec)
	if err != nil {
		return "", err
	}
	if !bytes.Equal(e.PayloadType, []byte(refCodec)) {
		return "", errors.New("payload type")
	}
	if !bytes.Equal(rec.pay, refPayload(ad, false)) && !bytes.Equal(rec.pay, refPayload(ad, true)) {
		return "", errors.New("payload")
	}
	return peer.IDFromPublicKey(e.PublicKey)
}

type p05watch struct {
	mu    sync.Mutex
	marks []string // never to be written to the registry's store
	hits  []string
}

func (w *p05watch) add(m ...string) { w.mu.Lock(); w.marks = append(w.marks, m...); w.mu.Unlock() }
func (w *p05watch) see(op string, k datastore.Key, v []byte) {
	if op != "put" || !strings.HasPrefix(k.String(), "/registry/") {
		return
	}
	w.mu.Lock()
	defer w.mu.Unlock()
	for _, m := range w.marks {
		if bytes.Contains(v, []byte(m)) || strings.Contains(k.String(), m) {
			w.hits = append(w.hits, fmt.Sprintf("%s: %s", k, v))
		}
	}
}

func (c *Ctx) p05(i int, kind string, good bool) {
	r := c.Rng(kind, i)
	ids := newIdents(r, 4)
	att, vic, stranger, fresh := ids[0], ids[1], ids[2], ids[3]
	_ = fresh

	// Policy: may the attacker, or the stranger, publish for others?
	pol := config.Policy{Allow: true, Publish: r.Intn(2) == 0}
	attMay := kind == "for-other-allowed"
	except := func(id peer.ID, may bool) {
		if may != pol.Publish {
			pol.PublishExcept = append(pol.PublishExcept, id.String())
		}
	}
	except(att.ID, attMay)
	except(stranger.ID, false)
	except(vic.ID, r.Intn(2) == 0)

	w := &p05watch{}
	store, core := memDS(), newCore(0)
	seg := []int{-1, 1, 2, 2000}[r.Intn(4)]
	mk := func() *Rig {
		return newRig(RigOpts{Store: store, Core: core,
			Ingest:    func(ic *config.Ingest) { ic.SyncSegmentDepthLimit = seg },
			Discovery: func(d *config.Discovery) { d.Policy = pol },
			DSHook:    func(op string, k datastore.Key, v []byte) error { w.see(op, k, v); return nil }})
	}
	rig := mk()
	defer func() { rig.Abandon() }()
	var log []*IxOp // of earlier instances
	mh := func(s string) string { return string(testMh(fmt.Sprint(kind, i, s))) }

	// The victim and its content.
	vp := newPub(vic)
	defer vp.Close()
	refSign := func(old bool) func(ad *schema.Advertisement, priv crypto.PrivKey) {
		return func(ad *schema.Advertisement, priv crypto.PrivKey) {
			ad.Signature = refSeal(priv, refDomain, refCodec, refPayload(ad, old))
		}
	}
	vp.sign = refSign(false)
	model := newModel()
	univ := []string{mh("v0"), mh("v1"), mh("v2")}
	vp.Publish(AdSpec{Ctx: "vctx", Meta: "vmeta", Mhs: []string{univ[0], univ[1]}, ChunkLen: 1})
	vp.Publish(AdSpec{Ctx: "vctx2", Meta: "vmeta2", Mhs: []string{univ[1], univ[2]}, ChunkLen: 2})
	if _, ok := rig.SyncWait(c, bg, vp, 0, false); !ok {
		return
	}
	vp.ModelAll(model)
	d, n := diffIndex(rig.Core, model, univ, nil)
	c.Eval(n)
	if d != "" {
		c.Violate("valid-refused", "the victim's authentic advertisements were not ingested: %s", d)
		return
	}
	vicReg := recOf(rig.Reg.ProviderInfo(vic.ID))
	strangerKnown := r.Intn(2) == 0
	if strangerKnown {
		// Being a registered provider gives no right to publish for others.
		if err := rig.Reg.Register(bg, &registry.ProviderInfo{AddrInfo: peer.AddrInfo{ID: stranger.ID, Addrs: []multiaddr.Multiaddr{testAddr(77)}}}); err != nil {
			c.Violate("valid-refused", "registering a provider: %v", err)
			return
		}
	}

	// The attacker's chain.
	p := newPub(att, vic)
	defer p.Close()
	p.sign = refSign(false)
	nOld, nNew := r.Intn(4), r.Intn(3)
	if kind == "alter-prev" || kind == "drop-prev" || kind == "smuggle-entries" {
		nOld = 1 + r.Intn(3)
	}
	pub := func(tag string, j int) {
		m := mh(fmt.Sprint(tag, j))
		univ = append(univ, m)
		p.Publish(AdSpec{Ctx: fmt.Sprint(tag, j), Meta: fmt.Sprint("m-", tag, j), Mhs: []string{m, mh(fmt.Sprint(tag, j, "b"))}, ChunkLen: 1 + r.Intn(2)})
	}
	for j := 0; j < nOld; j++ {
		pub("old", j)
	}
	early := nOld > 0 && r.Intn(2) == 0
	useDT := r.Intn(5) == 0
	var dt *DtPub
	if useDT {
		dt = newDtPub(p)
		defer dt.Close()
	}
	sync := func(resync bool, depth int) bool {
		if dt == nil {
			_, ok := rig.SyncWait(c, bg, p, depth, resync)
			return ok
		}
		dt.Refresh()
		out, err := rig.Ing.Sync(bg, p.ID, dt.Addr(), depth, resync)
		if err != nil {
			return true
		}
		_, ok := rig.awaitSync(c, out)
		return ok
	}
	if early && !sync(false, 0) {
		return
	}

	spec := AdSpec{Ctx: "bad-ctx", Meta: "bad-meta", Mhs: []string{mh("bad0"), mh("bad1")}, ChunkLen: 1}
	old := false
	switch {
	case kind == "own-by-Sign":
		p.sign = nil
	case strings.HasPrefix(kind, "sig-") || strings.HasPrefix(kind, "old-") || good:
	default:
		old = r.Intn(3) == 0
		p.sign = refSign(old)
	}
	prepared := p.p05make(r, kind, spec, vp, att, vic, stranger, mh)
	p.sign = refSign(false)
	bad := prepared.ad
	signer, err := refSigner(&bad)
	provID, perr := peer.Decode(bad.Provider)
	must(perr)
	authentic := err == nil && (signer == provID || signer == att.ID && attMay)
	if kind == "own-by-Sign" && !authentic {
		c.Violate("sign-invalid", "signing an advertisement makes a signature that does not cover what it must: signer %s, %v", signer, err)
		return
	}
	if authentic != good {
		panic(fmt.Sprintf("verifmon harness: kind %s: authentic=%v (signer %s, %v)", kind, authentic, signer, err))
	}
	univ = append(univ, mh("bad0"), mh("bad1"))

	if kind == "smuggle-entries" {
		// First let the block be fetched as the entries of an authentic ad.
		nd, err := bad.ToNode()
		must(err)
		l := p.store(nd, nil)
		ad, _ := p.Build(AdSpec{Ctx: "carrier", Meta: "cm", NoEnts: true}, func(a *schema.Advertisement) { a.Entries = l })
		// The hostile ad's previous link stays what it was; the carrier is
		// on a branch of its own.
		keep := append([]PubAd(nil), p.Ads...)
		p.Append(AdSpec{Ctx: "carrier", NoEnts: true}, ad, nil)
		if !sync(false, 0) {
			return
		}
		p.Ads = keep
	}
	lp := schema.Linkproto
	if kind == "cbor" {
		lp = cidlink.LinkPrototype{Prefix: cid.Prefix{Version: 1, Codec: cid.DagCBOR, MhType: multihash.SHA2_256, MhLength: -1}}
	}
	nd, err := bad.ToNode()
	must(err)
	ls := p.lsys(nil)
	l, err := ls.Store(ipld.LinkContext{Ctx: bg}, lp, nd)
	must(err)
	badCid := l.(cidlink.Link).Cid
	sp := spec
	sp.Rm = bad.IsRm
	p.Ads = append(p.Ads, PubAd{Cid: badCid, Spec: sp, Prov: provID, Ad: bad})
	p.SetHead(badCid)
	if !good {
		w.add(badCid.String(), "6.6.6.6", "6.6.6.7")
	}

	routes := []string{"sync", "announce", "resync", "depth", "restart"}
	var used []string
	attempt := func() bool {
		rt := routes[r.Intn(len(routes))]
		if good {
			rt = "sync"
		}
		used = append(used, rt)
		switch rt {
		case "announce":
			before := len(p.Fetches())
			ai := p.AddrInfo()
			if dt != nil {
				dt.Refresh()
				ai.Addrs = append(ai.Addrs[:0:0], dt.Addr())
			}
			ctx, cancel := context.WithTimeout(bg, 20*time.Second)
			_ = rig.Ing.Announce(ctx, p.Head(), ai)
			cancel()
			if dt == nil {
				upTo(2*time.Second, func() bool { return len(p.Fetches()) > before })
			}
			settle()
			return sync(false, 0)
		case "resync":
			return sync(true, 0)
		case "depth":
			return sync(false, 1+r.Intn(3))
		case "restart":
			if !rig.Close(c) {
				return false
			}
			log = append(log, rig.IX.Log()...)
			rig = mk()
			return sync(false, 0)
		}
		return sync(false, 0)
	}
	if !attempt() {
		return
	}
	for j := 0; j < nNew; j++ {
		pub("new", j)
	}
	if nNew > 0 || r.Intn(2) == 0 {
		if !attempt() {
			return
		}
	}
	if !good && r.Intn(2) == 0 && !attempt() {
		return
	}
	what := func() string {
		return fmt.Sprintf("kind %s (old format %v), %d older and %d newer advertisements, older synced first: %v, routes %v, publish policy {%v except %d}, segment %d, libp2p %v", kind, old, nOld, nNew, early, used, pol.Publish, len(pol.PublishExcept), seg, useDT)
	}
	if good {
		for _, a := range p.Ads {
			if a.Cid != badCid {
				model.Apply(a.Prov, a.Spec)
			}
		}
		model.Apply(provID, spec)
		// A chain with several providers is processed concurrently, and the
		// sync reported as ended when its newest advertisement is.
		ok := c.Await("valid-refused", "authentic advertisements to be ingested: "+what(), func() bool {
			d, n := diffIndex(rig.Core, model, univ, nil)
			c.Eval(n)
			return d == ""
		})
		if !ok {
			return
		}
	}
	provs := rig.Reg.AllProviderInfo()
	vicNow := recOf(rig.Reg.ProviderInfo(vic.ID))
	if !rig.Close(c) {
		return
	}
	fetched := dt != nil
	for _, f := range p.Fetches() {
		fetched = fetched || f == badCid
	}
	if good {
		c.Count("authentic_ads_ingested", 1)
		c.Seen(fmt.Sprint("good/", kind, nOld, nNew, pol.Publish, useDT))
		return
	}
	if !fetched {
		c.Count("hostile_never_fetched", 1)
	} else {
		c.Count("hostile_ads_offered", 1)
		c.Sample("%s", what())
		c.Seen(fmt.Sprint(kind, old, "/", nOld, nNew, used, pol.Publish, seg, useDT))
	}
	// No trace of the hostile advertisement anywhere.
	for _, op := range append(log, rig.IX.Log()...) {
		c.Eval(1)
		hit := op.Ctx == "bad-ctx" || strings.HasPrefix(op.Meta, "bad-meta") || op.Prov == vic.ID && op.Kind != "put" || op.Kind == "rmprov"
		for _, m := range op.Mhs {
			hit = hit || m == mh("bad0") || m == mh("bad1")
		}
		if hit {
			c.Violate("hostile-index-op", "index operation %s for a hostile advertisement (%s)", op, what())
			return
		}
	}
	w.mu.Lock()
	hits := w.hits
	w.mu.Unlock()
	c.Eval(1)
	if len(hits) != 0 {
		c.Violate("hostile-registry", "registry record changed by a hostile advertisement (%s): %s", what(), hits[0])
		return
	}
	for _, info := range provs {
		rec := recOf(info)
		s := rec.String()
		c.Eval(1)
		if info.LastAdvertisement == badCid || strings.Contains(s, "6.6.6.") || info.AddrInfo.ID == stranger.ID && !strangerKnown {
			c.Violate("hostile-registry", "provider record shows a hostile advertisement (%s): %s", what(), s)
			return
		}
	}
	if now := vicNow; !now.same(vicReg) {
		c.Violate("victim-changed", "victim's registration changed from %s to %s (%s)", vicReg, now, what())
		return
	}
	d, n = diffIndex(rig.Core, model, univ, map[peer.ID]bool{vic.ID: true})
	c.Eval(n)
	if d != "" {
		c.Violate("victim-changed", "victim's content changed (%s): %s", what(), d)
	}
}

type p05ad struct{ ad schema.Advertisement }

// p05make builds the advertisement under test.
func (p *Pub) p05make(r *rand.Rand, kind string, spec AdSpec, vp *Pub, att, vic, stranger Ident, mh func(string) string) p05ad {
	build := func(signWith Ident, prov peer.ID, mod func(a *schema.Advertisement)) schema.Advertisement {
		s := p.Priv
		p.Priv = signWith.Priv
		defer func() { p.Priv = s }()
		ad, _ := p.Build(spec, func(a *schema.Advertisement) {
			a.Provider = prov.String()
			a.Addresses = []string{"/ip4/6.6.6.6/tcp/666"}
			if mod != nil {
				mod(a)
			}
		})
		return ad
	}
	otherEntries := func() ipld.Link {
		return p.entries(AdSpec{Mhs: []string{mh("bad0"), mh("bad1")}, ChunkLen: 2}, nil)
	}
	smallEntries := func(a *schema.Advertisement) {
		a.Entries = p.entries(AdSpec{Mhs: []string{mh("v0")}, ChunkLen: 1}, nil)
	}
	prevOf := func() ipld.Link {
		if r.Intn(2) == 0 || len(vp.Ads) == 0 {
			return cidlink.Link{Cid: testCid("nowhere")}
		}
		// A previous advertisement that exists: serve the victim's block.
		a := vp.Ads[0]
		p.mu.Lock()
		p.blocks[a.Cid] = vp.blocks[a.Cid]
		p.mu.Unlock()
		return cidlink.Link{Cid: a.Cid}
	}
	resign := func(ad *schema.Advertisement, id Ident, old bool) {
		ad.Signature = refSeal(id.Priv, refDomain, refCodec, refPayload(ad, old))
	}
	env := func(ad *schema.Advertisement, f func(e *rpb.Envelope)) {
		var e rpb.Envelope
		must(e.Unmarshal(ad.Signature))
		f(&e)
		b, err := e.Marshal()
		must(err)
		ad.Signature = b
	}
	switch kind {
	// authentic ones
	case "own", "own-by-Sign", "cbor":
		return p05ad{build(att, att.ID, nil)}
	case "no-addrs":
		return p05ad{build(att, att.ID, func(a *schema.Advertisement) { a.Addresses = []string{"/ip4/127.0.0.1/tcp/9999"} })}
	case "own-old-format":
		ad := build(att, att.ID, nil)
		resign(&ad, att, true)
		return p05ad{ad}
	case "for-other-allowed":
		return p05ad{build(att, vic.ID, nil)}

	// hostile ones
	case "by-unallowed-publisher":
		return p05ad{build(att, vic.ID, nil)}
	case "by-stranger":
		return p05ad{build(stranger, att.ID, nil)}
	case "alter-provider":
		ad := build(att, att.ID, nil)
		ad.Provider = vic.ID.String()
		return p05ad{ad}
	case "alter-addrs":
		ad := build(att, att.ID, nil)
		ad.Addresses = []string{"/ip4/6.6.6.7/tcp/666"}
		return p05ad{ad}
	case "add-addr":
		ad := build(att, att.ID, nil)
		ad.Addresses = append(ad.Addresses, "/ip4/6.6.6.7/tcp/666")
		return p05ad{ad}
	case "drop-addr":
		ad := build(att, att.ID, func(a *schema.Advertisement) { a.Addresses = append(a.Addresses, "/ip4/6.6.6.7/tcp/666") })
		ad.Addresses = ad.Addresses[:1]
		return p05ad{ad}
	case "alter-entries":
		ad := build(att, att.ID, smallEntries)
		ad.Entries = otherEntries()
		return p05ad{ad}
	case "alter-noentries":
		ad := build(att, att.ID, func(a *schema.Advertisement) { a.Entries = schema.NoEntries })
		ad.Entries = otherEntries()
		return p05ad{ad}
	case "alter-prev":
		ad := build(att, att.ID, nil)
		ad.PreviousID = prevOf()
		return p05ad{ad}
	case "drop-prev":
		ad := build(att, att.ID, nil)
		ad.PreviousID = nil
		return p05ad{ad}
	case "alter-meta":
		ad := build(att, att.ID, func(a *schema.Advertisement) { a.Metadata = []byte("fine") })
		ad.Metadata = []byte("bad-meta-2")
		return p05ad{ad}
	case "set-rm":
		ad := build(att, att.ID, nil)
		ad.IsRm = true
		return p05ad{ad}
	case "clear-rm":
		ad := build(att, att.ID, func(a *schema.Advertisement) { a.IsRm = true })
		ad.IsRm = false
		return p05ad{ad}
	case "victim-alter-addrs":
		ad := build(vic, vic.ID, nil)
		ad.Addresses = []string{"/ip4/6.6.6.7/tcp/666"}
		return p05ad{ad}
	case "victim-alter-entries":
		ad := build(vic, vic.ID, smallEntries)
		ad.Entries = otherEntries()
		return p05ad{ad}
	case "victim-alter-meta":
		ad := build(vic, vic.ID, func(a *schema.Advertisement) { a.Metadata = []byte("fine") })
		ad.Metadata = []byte("bad-meta-2")
		return p05ad{ad}
	case "victim-alter-prev":
		ad := build(vic, vic.ID, nil)
		ad.PreviousID = prevOf()
		return p05ad{ad}
	case "victim-set-rm":
		ad := build(vic, vic.ID, nil)
		ad.ContextID = []byte("vctx")
		ad.IsRm = true
		return p05ad{ad}
	case "victim-replay-old":
		// A genuine signature of the victim on an advertisement the attacker
		// composed.
		ad := build(att, vic.ID, nil)
		ad.Signature = vp.Ads[0].Ad.Signature
		return p05ad{ad}
	case "sig-garbage":
		ad := build(att, att.ID, nil)
		ad.Signature = randBytes(r, 1+r.Intn(200))
		return p05ad{ad}
	case "sig-empty":
		ad := build(att, att.ID, nil)
		ad.Signature = []byte{}
		return p05ad{ad}
	case "sig-cut":
		ad := build(att, att.ID, nil)
		ad.Signature = ad.Signature[:len(ad.Signature)-1-r.Intn(40)]
		return p05ad{ad}
	case "sig-flip":
		ad := build(att, att.ID, nil)
		env(&ad, func(e *rpb.Envelope) { e.Signature[r.Intn(len(e.Signature))] ^= 1 << uint(r.Intn(8)) })
		return p05ad{ad}
	case "sig-domain":
		ad := build(att, att.ID, nil)
		ad.Signature = refSeal(att.Priv, "libp2p-peer-record", refCodec, refPayload(&ad, false))
		return p05ad{ad}
	case "sig-codec":
		ad := build(att, att.ID, nil)
		env(&ad, func(e *rpb.Envelope) { e.PayloadType = []byte("/other/type") })
		return p05ad{ad}
	case "sig-pubkey":
		// Signed by the attacker, claiming the victim's key.
		ad := build(att, vic.ID, nil)
		var ve rpb.Envelope
		must(ve.Unmarshal(vp.Ads[0].Ad.Signature))
		env(&ad, func(e *rpb.Envelope) { e.PublicKey = ve.PublicKey })
		return p05ad{ad}
	case "sig-other-ad":
		ad := build(att, att.ID, nil)
		o := build(att, att.ID, func(a *schema.Advertisement) { a.Metadata = []byte("another") })
		ad.Signature = o.Signature
		return p05ad{ad}
	case "sig-payload":
		// The payload says the right thing but the signature is not over it.
		ad := build(att, att.ID, nil)
		o := build(att, att.ID, func(a *schema.Advertisement) { a.Metadata = []byte("another") })
		var oe rpb.Envelope
		must(oe.Unmarshal(o.Signature))
		env(&ad, func(e *rpb.Envelope) { e.Signature = oe.Signature })
		return p05ad{ad}
	case "old-alter-meta":
		ad := build(att, att.ID, func(a *schema.Advertisement) { a.Metadata = []byte("fine") })
		resign(&ad, att, true)
		ad.Metadata = []byte("bad-meta-2")
		return p05ad{ad}
	case "old-alter-entries":
		ad := build(att, att.ID, smallEntries)
		resign(&ad, att, true)
		ad.Entries = otherEntries()
		return p05ad{ad}
	case "old-short-payload":
		ad := build(att, att.ID, nil)
		pay := refPayload(&ad, true)
		ad.Signature = refSeal(att.Priv, refDomain, refCodec, pay[:r.Intn(len(pay))])
		if r.Intn(2) == 0 {
			ad.Signature = refSeal(att.Priv, refDomain, refCodec, nil)
		}
		return p05ad{ad}
	case "smuggle-entries":
		return p05ad{build(att, vic.ID, nil)}
	}
	panic("verifmon harness: unknown kind " + kind)
}
