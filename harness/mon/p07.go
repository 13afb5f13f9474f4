package main

import (
	"context"
	"crypto/rand"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	mrand "math/rand"
	"strings"
	"sync"
	"time"

	"github.com/filecoin-project/storetheindex/api/v0/ingest/model"
	"github.com/filecoin-project/storetheindex/internal/registry/discovery"
	"github.com/libp2p/go-libp2p-core/crypto"
	"github.com/libp2p/go-libp2p-core/peer"
	"github.com/libp2p/go-libp2p-core/record"
	rpb "github.com/libp2p/go-libp2p-core/record/pb"
	"github.com/multiformats/go-multiaddr"
	"github.com/multiformats/go-multihash"
)

func init() {
	register("P07", "signed register, discover and index-content requests, intact and altered (other signer, other key claimed, payload, type, domain or signature changed, request of one type sent as another, named provider missing, duplicated or spelled differently, bits flipped, cut, random bytes, huge), are sent over HTTP and libp2p in random sequences; "+
		"a reference verifier says which are authentic; after each, the reply, the whole provider registry, the index operations and the discoveries made are compared with what an authentic request may do; distinct counts (request, transport, alteration, key type)",
		runP07, "policy allows every peer; sequence numbers of authentic requests increase")
}

func runP07(c *Ctx) {
	c.RunN("mix", c.N(24, 500), 6, func(c *Ctx, i int) { c.p07(i) })
}

// askDisc is a discoverer that knows every provider and records its calls.
type askDisc struct {
	mu    sync.Mutex
	calls []string
}

func (d *askDisc) Discover(ctx context.Context, id peer.ID, addr string) (*discovery.Discovered, error) {
	d.mu.Lock()
	d.calls = append(d.calls, id.String()+" "+addr)
	d.mu.Unlock()
	tick()
	a, err := multiaddr.NewMultiaddr("/dns4/" + strings.ReplaceAll(addr, "_", "-") + ".example/tcp/1234")
	if err != nil {
		return nil, err
	}
	return &discovery.Discovered{AddrInfo: peer.AddrInfo{ID: id, Addrs: []multiaddr.Multiaddr{a}}, Type: discovery.MinerType}, nil
}

func (d *askDisc) n() int {
	d.mu.Lock()
	defer d.mu.Unlock()
	return len(d.calls)
}

// keyIdent makes an identity of some key type.
func keyIdent(r *mrand.Rand, t int) Ident {
	var priv crypto.PrivKey
	var err error
	switch t % 4 {
	case 0:
		return newIdent(r)
	case 1:
		priv, _, err = crypto.GenerateSecp256k1Key(rand.Reader)
	case 2:
		priv, _, err = crypto.GenerateECDSAKeyPair(rand.Reader)
	default:
		priv = rsaKey
	}
	must(err)
	id, err := peer.IDFromPrivateKey(priv)
	must(err)
	return Ident{id, priv}
}

var rsaKey = func() crypto.PrivKey {
	k, _, err := crypto.GenerateRSAKeyPair(2048, rand.Reader)
	must(err)
	return k
}()

// reqSpec is one direct request before it is signed.
type reqSpec struct {
	what  string // register, discover, index
	prov  peer.ID
	seq   uint64
	addrs []string
	disc  string
	mh    multihash.Multihash
	ctxID string
	meta  string
}

func (q reqSpec) record() record.Record {
	switch q.what {
	case "register":
		r := &peer.PeerRecord{PeerID: q.prov, Seq: q.seq}
		for _, a := range q.addrs {
			m, err := multiaddr.NewMultiaddr(a)
			must(err)
			r.Addrs = append(r.Addrs, m)
		}
		return r
	case "discover":
		return &model.DiscoverRequest{ProviderID: q.prov, DiscoveryAddr: q.disc, Seq: q.seq}
	}
	return &model.IngestRequest{Multihash: q.mh, ProviderID: q.prov, ContextID: []byte(q.ctxID), Metadata: []byte(q.meta), Addrs: q.addrs, Seq: q.seq}
}

func (q reqSpec) sign(id Ident) []byte {
	e, err := record.Seal(q.record(), id.Priv)
	must(err)
	b, err := e.Marshal()
	must(err)
	return b
}

var reqDomain = map[string]string{"register": "libp2p-peer-record", "discover": "indexer-discover-request-record", "index": "indexer-ingest-request-record"}
var reqType = map[string]string{"register": "\x03\x01", "discover": "indexer-discover-request", "index": "indexer-ingest-request"}

// envUnsigned is the byte string an envelope's signature covers.
func envUnsigned(domain string, typ, pay []byte) []byte {
	var out []byte
	for _, f := range [][]byte{[]byte(domain), typ, pay} {
		var l [10]byte
		out = append(out, l[:binary.PutUvarint(l[:], uint64(len(f)))]...)
		out = append(out, f...)
	}
	return out
}

// refRequest decides, independently of the code under test, whether data is an
// authentic request of the given kind, and by whom.
func refRequest(what string, data []byte) (peer.ID, error) {
	var e rpb.Envelope
	if err := e.Unmarshal(data); err != nil {
		return "", err
	}
	if e.PublicKey == nil {
		return "", errors.New("no key")
	}
	pk, err := crypto.PublicKeyFromProto(e.PublicKey)
	if err != nil {
		return "", err
	}
	ok, err := pk.Verify(envUnsigned(reqDomain[what], e.PayloadType, e.Payload), e.Signature)
	if err != nil || !ok {
		return "", fmt.Errorf("signature: %v", err)
	}
	if string(e.PayloadType) != reqType[what] {
		return "", errors.New("type")
	}
	signer, err := peer.IDFromPublicKey(pk)
	if err != nil {
		return "", err
	}
	var named peer.ID
	switch what {
	case "register":
		var r peer.PeerRecord
		if err = r.UnmarshalRecord(e.Payload); err != nil {
			return "", err
		}
		named = r.PeerID
	default:
		var r struct{ ProviderID peer.ID }
		if err = json.Unmarshal(e.Payload, &r); err != nil {
			return "", err
		}
		named = r.ProviderID
	}
	if named != signer {
		return "", errors.New("not the named provider")
	}
	return signer, nil
}

var p07alter = []string{"none", "none", "none", "other-signer", "other-key", "payload", "payload-seq", "type-as-other", "payload-type", "domain", "sig-flip", "sig-other", "no-name", "dup-name", "case-name", "bit", "cut", "random", "empty", "huge", "append"}

func (c *Ctx) p07(i int) {
	r := c.Rng("mix", i)
	disc := &askDisc{}
	rig := newRig(RigOpts{Listen: true, Discoverer: disc})
	s := newSrv(rig, srvOpts{noAdmin: true, noFind: true})
	defer s.Stop()
	provs := []Ident{keyIdent(r, 0), keyIdent(r, 1+r.Intn(2)), keyIdent(r, i%4)}
	if provs[2].ID == provs[0].ID {
		provs[2] = newIdent(r)
	}
	att := newIdent(r)
	var ids []peer.ID
	for _, p := range provs {
		ids = append(ids, p.ID)
	}
	ids = append(ids, att.ID)
	seq := uint64(time.Now().UnixNano())
	next := func() uint64 { seq += 1000; return seq }
	want := map[peer.ID]*regRec{}
	type key struct{ mh, prov, ctx string }
	puts := 0
	last := map[string][]byte{} // last authentic request by kind
	steps := c.N(60, 120)
	for n := 0; n < steps; n++ {
		v := provs[r.Intn(len(provs))]
		via := []string{"http", "p2p"}[r.Intn(2)]
		what := []string{"register", "discover", "index"}[r.Intn(3)]
		if what == "index" {
			via = "p2p"
		}
		q := reqSpec{what: what, prov: v.ID, seq: next(), addrs: []string{fmt.Sprintf("/ip4/10.0.%d.%d/tcp/%d", i%200, n%200, 1000+n)}, disc: fmt.Sprintf("d-%d-%d", i, n),
			mh: testMh(fmt.Sprint("p07-", i, "-", n)), ctxID: fmt.Sprint("ctx", n), meta: fmt.Sprint("meta", n)}
		alt := p07alter[r.Intn(len(p07alter))]
		data := c.p07data(r, q, v, att, alt, last)
		signer, rerr := refRequest(what, data)
		authentic := rerr == nil
		if alt == "none" && !authentic {
			panic("verifmon harness: reference refuses an intact request: " + rerr.Error())
		}
		if authentic && signer == v.ID && alt != "none" {
			continue // an alteration without meaning; nothing to learn
		}
		nIx, nDisc := len(rig.IX.Log()), disc.n()
		before := regView(rig.Reg, ids)
		rp := s.Ingest(via, what, data)
		if isTimeout(rp.Err) {
			c.Inconclusive("request timed out: %v", rp.Err)
			return
		}
		desc := fmt.Sprintf("%s over %s, alteration %q, named provider %s (%s)", what, via, alt, shortPeer(v.ID), v.Priv.Type())
		c.Eval(1)
		if !authentic {
			c.Count("altered_requests", 1)
			if rp.ok() {
				c.Violate("accepted", "%s was answered with %s; reference: %v", desc, rp, rerr)
				return
			}
			if what == "discover" {
				settleShort()
			}
			c.Eval(3)
			if d := diffViews(regView(rig.Reg, ids), before); d != "" {
				c.Violate("changed-registry", "%s changed the registry: %s", desc, d)
				return
			}
			if l, _ := listView(rig.Reg); len(l) != len(want) {
				c.Violate("changed-registry", "%s changed the registry: %d providers, not %d", desc, len(l), len(want))
				return
			}
			if l := rig.IX.Log(); len(l) != nIx {
				c.Violate("changed-index", "%s changed the index: %s", desc, l[len(l)-1])
				return
			}
			if disc.n() != nDisc {
				c.Violate("discovered", "%s started a discovery", desc)
				return
			}
			c.Seen(fmt.Sprint(what, via, alt, v.Priv.Type()))
			continue
		}
		c.Count("authentic_requests", 1)
		if signer != v.ID {
			// e.g. the duplicated name: authentic for the attacker itself.
			if now := regView(rig.Reg, ids); !now[v.ID].same(before[v.ID]) {
				c.Violate("changed-registry", "%s changed the registration of a provider that did not sign it", desc)
				return
			}
			settleShort()
			for id, x := range regView(rig.Reg, ids) {
				if id == att.ID {
					want[id] = x
				}
			}
			puts = len(rig.IX.Log())
			continue
		}
		if !rp.ok() {
			c.Violate("refused", "authentic %s was answered with %s", desc, rp)
			return
		}
		last[what] = data
		switch what {
		case "register":
			want[v.ID] = &regRec{id: v.ID, addrs: q.addrs}
		case "discover":
			want[v.ID] = &regRec{id: v.ID, addrs: []string{"/dns4/" + q.disc + ".example/tcp/1234"}, disc: q.disc}
			if !c.Await("not-discovered", "a provider to be discovered after "+desc, func() bool {
				return want[v.ID].same(recOf(rig.Reg.ProviderInfo(v.ID)))
			}) {
				return
			}
		case "index":
			w := &regRec{id: v.ID, addrs: q.addrs}
			if o := want[v.ID]; o != nil {
				w.disc, w.ad, w.adTime, w.pub, w.pubAddr = o.disc, o.ad, o.adTime, o.pub, o.pubAddr
			}
			want[v.ID] = w
			vals, _, err := rig.Core.Get(q.mh)
			c.Eval(1)
			if err != nil || len(vals) != 1 || vals[0].ProviderID != v.ID || string(vals[0].ContextID) != q.ctxID || string(vals[0].MetadataBytes) != q.meta {
				c.Violate("not-indexed", "authentic %s is not in the index: %v %v", desc, vals, err)
				return
			}
			puts++
		}
		got := regView(rig.Reg, ids)
		c.Eval(2)
		if g := got[v.ID]; g == nil || strings.Join(g.addrs, ",") != strings.Join(want[v.ID].addrs, ",") {
			c.Violate("no-effect", "after authentic %s: %s, want %s", desc, g, want[v.ID])
			return
		}
		want[v.ID] = got[v.ID]
		for id, w := range before {
			if id != v.ID && !w.same(got[id]) {
				c.Violate("changed-other", "%s changed another provider: %s to %s", desc, w, got[id])
				return
			}
		}
		c.Seen(fmt.Sprint(what, via, alt, v.Priv.Type()))
		if n < 3 {
			c.Sample("%s -> %s", desc, rp)
		}
	}
	_ = puts
}

// settleShort gives wrongly started background work a chance to show.
func settleShort() { time.Sleep(2 * time.Millisecond) }

func (c *Ctx) p07data(r *mrand.Rand, q reqSpec, v, att Ident, alt string, last map[string][]byte) []byte {
	good := q.sign(v)
	edit := func(b []byte, f func(e *rpb.Envelope)) []byte {
		var e rpb.Envelope
		must(e.Unmarshal(b))
		f(&e)
		out, err := e.Marshal()
		must(err)
		return out
	}
	sealRaw := func(id Ident, domain, typ string, pay []byte) []byte {
		e, err := record.Seal(&sigRec{domain, []byte(typ), pay}, id.Priv)
		must(err)
		b, err := e.Marshal()
		must(err)
		return b
	}
	jsonPay := func(id Ident, f func(string) string) []byte {
		p, err := q.record().MarshalRecord()
		must(err)
		return sealRaw(id, reqDomain[q.what], reqType[q.what], []byte(f(string(p))))
	}
	switch alt {
	case "none":
		return good
	case "other-signer":
		return q.sign(att)
	case "other-key":
		// signed by the attacker, claiming the provider's key
		var ge rpb.Envelope
		must(ge.Unmarshal(good))
		return edit(q.sign(att), func(e *rpb.Envelope) { e.PublicKey = ge.PublicKey })
	case "payload":
		o := q
		o.addrs, o.disc, o.meta = []string{"/ip4/6.6.6.6/tcp/6"}, "evil", "evil"
		p, err := o.record().MarshalRecord()
		must(err)
		return edit(good, func(e *rpb.Envelope) { e.Payload = p })
	case "payload-seq":
		// replay of an earlier request with a new sequence number
		base := last[q.what]
		if base == nil {
			base = good
		}
		o := q
		o.seq += 5
		p, err := o.record().MarshalRecord()
		must(err)
		return edit(base, func(e *rpb.Envelope) { e.Payload = p })
	case "type-as-other":
		o := q
		o.what = map[string]string{"register": "discover", "discover": "index", "index": "register"}[q.what]
		if r.Intn(2) == 0 {
			o.what = map[string]string{"register": "index", "discover": "register", "index": "discover"}[q.what]
		}
		return o.sign(v)
	case "payload-type":
		o := map[string]string{"register": "index", "discover": "register", "index": "discover"}[q.what]
		return edit(good, func(e *rpb.Envelope) { e.PayloadType = []byte(reqType[o]) })
	case "domain":
		p, err := q.record().MarshalRecord()
		must(err)
		o := map[string]string{"register": "index", "discover": "register", "index": "discover"}[q.what]
		d := reqDomain[o]
		if r.Intn(2) == 0 {
			d = "indexer"
		}
		return sealRaw(v, d, reqType[q.what], p)
	case "sig-flip":
		return edit(good, func(e *rpb.Envelope) { e.Signature[r.Intn(len(e.Signature))] ^= 1 << uint(r.Intn(8)) })
	case "sig-other":
		o := q
		o.seq++
		var oe rpb.Envelope
		must(oe.Unmarshal(o.sign(v)))
		return edit(good, func(e *rpb.Envelope) { e.Signature = oe.Signature })
	case "no-name":
		o := q
		o.prov = ""
		if q.what == "register" {
			return sealRaw(att, reqDomain[q.what], reqType[q.what], nil)
		}
		return jsonPay(att, func(p string) string {
			return strings.Replace(p, `"ProviderID":"`+q.prov.String()+`",`, "", 1)
		})
	case "dup-name", "case-name":
		if q.what == "register" {
			return q.sign(att)
		}
		k := "ProviderID"
		if alt == "case-name" {
			k = []string{"providerID", "PROVIDERID", "providerid"}[r.Intn(3)]
		}
		own, vic := fmt.Sprintf(`"ProviderID":"%s",`, att.ID), fmt.Sprintf(`"%s":"%s",`, k, v.ID)
		if r.Intn(2) == 0 {
			own, vic = fmt.Sprintf(`"%s":"%s",`, k, v.ID), fmt.Sprintf(`"ProviderID":"%s",`, att.ID)
		}
		return jsonPay(att, func(p string) string {
			return strings.Replace(p, `"ProviderID":"`+q.prov.String()+`",`, own+vic, 1)
		})
	case "bit":
		b := append([]byte(nil), good...)
		for k := 1 + r.Intn(3); k > 0; k-- {
			b[r.Intn(len(b))] ^= 1 << uint(r.Intn(8))
		}
		return b
	case "cut":
		return good[:r.Intn(len(good))]
	case "append":
		return append(append([]byte(nil), good...), randBytes(r, 1+r.Intn(20))...)
	case "random":
		return randBytes(r, r.Intn(300))
	case "huge":
		return append(append([]byte(nil), good...), make([]byte, 1<<20)...)
	}
	return nil
}
