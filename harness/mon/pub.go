package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"strings"
	"sync"
	"time"

	"github.com/filecoin-project/storetheindex/api/v0/ingest/schema"
	"github.com/ipfs/go-cid"
	hamt "github.com/ipld/go-ipld-adl-hamt"
	"github.com/ipld/go-ipld-prime"
	"github.com/ipld/go-ipld-prime/codec/dagjson"
	"github.com/ipld/go-ipld-prime/datamodel"
	"github.com/ipld/go-ipld-prime/fluent/qp"
	cidlink "github.com/ipld/go-ipld-prime/linking/cid"
	"github.com/ipld/go-ipld-prime/node/basicnode"
	"github.com/libp2p/go-libp2p-core/crypto"
	"github.com/libp2p/go-libp2p-core/peer"
	"github.com/multiformats/go-multiaddr"
	"github.com/multiformats/go-multihash"
)

// FetchVerdict tells the publisher what to do with one fetch.
type FetchVerdict struct {
	Status int    // 0: serve
	Body   []byte // non-nil: serve these bytes instead
	Wait   <-chan struct{}
	Abort  bool // drop the connection
	Cut    bool // send only half of the bytes
}

// Pub is a publisher of advertisement chains over HTTP.
type Pub struct {
	Ident
	Provs []Ident // the providers it publishes for; [0] is itself
	srv   *http.Server
	lis   net.Listener
	addr  multiaddr.Multiaddr

	mu      sync.Mutex
	blocks  map[cid.Cid][]byte
	head    cid.Cid
	fetches []cid.Cid
	heads   int
	// onFetch, if set, decides what happens to a fetch ("head" or CID).
	onFetch func(name string, n int) FetchVerdict
	nfetch  map[string]int
	// sign, if set, signs advertisements instead of their own method.
	sign  func(ad *schema.Advertisement, priv crypto.PrivKey)
	lp    *cidlink.LinkPrototype // how links are made; nil: as usual
	trust bool                   // the link system serves whatever is stored, unchecked

	Ads []PubAd // oldest first
}

type PubAd struct {
	Cid    cid.Cid
	Spec   AdSpec
	Prov   peer.ID
	Blocks []cid.Cid // entry blocks
	Ad     schema.Advertisement
}

// pubListen makes the listener of a publisher.
var pubListen = func() net.Listener {
	var err error
	for k := 0; k < 120; k++ {
		var lis net.Listener
		if lis, err = net.Listen("tcp", "127.0.0.1:0"); err == nil {
			return lis
		}
		// All ports are in use, for a while, by connections that were closed.
		tick()
		time.Sleep(time.Second)
	}
	must(err)
	return nil
}

// newPub starts a publisher. Providers other than itself are given by extra.
func newPub(id Ident, extra ...Ident) *Pub {
	p := &Pub{Ident: id, Provs: append([]Ident{id}, extra...), blocks: map[cid.Cid][]byte{}, nfetch: map[string]int{}}
	lis := pubListen()
	p.lis = lis
	var err error
	p.addr, err = multiaddr.NewMultiaddr(fmt.Sprintf("/ip4/127.0.0.1/tcp/%d/http", lis.Addr().(*net.TCPAddr).Port))
	must(err)
	p.srv = &http.Server{Handler: http.HandlerFunc(p.serve)}
	go func() { _ = p.srv.Serve(lis) }()
	return p
}

func (p *Pub) Close() { _ = p.srv.Close() }

func (p *Pub) AddrInfo() peer.AddrInfo {
	return peer.AddrInfo{ID: p.ID, Addrs: []multiaddr.Multiaddr{p.addr}}
}

func (p *Pub) serve(w http.ResponseWriter, r *http.Request) {
	tick()
	name := strings.TrimPrefix(r.URL.Path, "/")
	p.mu.Lock()
	p.nfetch[name]++
	n := p.nfetch[name]
	hook := p.onFetch
	head := p.head
	var body []byte
	ok := true
	if name == "head" {
		p.heads++
	} else if c, err := cid.Decode(name); err == nil {
		p.fetches = append(p.fetches, c)
		body, ok = p.blocks[c]
	} else {
		ok = false
	}
	p.mu.Unlock()
	if hook != nil {
		v := hook(name, n)
		if v.Wait != nil {
			select {
			case <-v.Wait:
			case <-r.Context().Done():
				return
			}
		}
		if v.Abort {
			panic(http.ErrAbortHandler)
		}
		if v.Status != 0 {
			w.WriteHeader(v.Status)
			return
		}
		if v.Body != nil {
			_, _ = w.Write(v.Body)
			return
		}
		if v.Cut {
			w.Header().Set("Content-Length", fmt.Sprint(len(body)))
			_, _ = w.Write(body[:len(body)/2])
			panic(http.ErrAbortHandler)
		}
	}
	if name == "head" {
		if head == cid.Undef {
			w.WriteHeader(http.StatusNoContent)
			return
		}
		_, _ = w.Write(encodeHead(head, p.Priv))
		return
	}
	if !ok {
		w.WriteHeader(http.StatusNotFound)
		return
	}
	_, _ = w.Write(body)
	tick()
}

// encodeHead makes the signed head message of the legs HTTP protocol.
func encodeHead(c cid.Cid, priv crypto.PrivKey) []byte {
	sig, err := priv.Sign(c.Bytes())
	must(err)
	pk, err := crypto.MarshalPublicKey(priv.GetPublic())
	must(err)
	n, err := qp.BuildMap(basicnode.Prototype.Any, 3, func(ma datamodel.MapAssembler) {
		qp.MapEntry(ma, "head", qp.Link(cidlink.Link{Cid: c}))
		qp.MapEntry(ma, "sig", qp.Bytes(sig))
		qp.MapEntry(ma, "pubkey", qp.Bytes(pk))
	})
	must(err)
	var buf bytes.Buffer
	must(dagjson.Encode(n, &buf))
	return buf.Bytes()
}

// lsys is a link system over the publisher's blocks.
func (p *Pub) lsys(added *[]cid.Cid) ipld.LinkSystem {
	ls := cidlink.DefaultLinkSystem()
	ls.TrustedStorage = p.trust
	ls.StorageReadOpener = func(_ ipld.LinkContext, l ipld.Link) (io.Reader, error) {
		p.mu.Lock()
		defer p.mu.Unlock()
		b, ok := p.blocks[l.(cidlink.Link).Cid]
		if !ok {
			return nil, errors.New("not found")
		}
		return bytes.NewReader(b), nil
	}
	ls.StorageWriteOpener = func(ipld.LinkContext) (io.Writer, ipld.BlockWriteCommitter, error) {
		var buf bytes.Buffer
		return &buf, func(l ipld.Link) error {
			p.mu.Lock()
			defer p.mu.Unlock()
			c := l.(cidlink.Link).Cid
			p.blocks[c] = append([]byte(nil), buf.Bytes()...)
			if added != nil {
				*added = append(*added, c)
			}
			return nil
		}, nil
	}
	return ls
}

// putBlock stores raw bytes under their true CID.
func (p *Pub) putBlock(codec uint64, data []byte) cid.Cid {
	mh, err := multihash.Sum(data, multihash.SHA2_256, -1)
	must(err)
	c := cid.NewCidV1(codec, mh)
	p.mu.Lock()
	p.blocks[c] = data
	p.mu.Unlock()
	return c
}

func (p *Pub) linkproto() cidlink.LinkPrototype {
	if p.lp != nil {
		return *p.lp
	}
	return schema.Linkproto
}

// oddProtos are other ways to link: codecs and hash functions that the indexer
// does not use itself but understands.
var oddProtos = []cidlink.LinkPrototype{
	{Prefix: cid.Prefix{Version: 1, Codec: cid.DagJSON, MhType: multihash.SHA2_256, MhLength: 20}},
	{Prefix: cid.Prefix{Version: 1, Codec: cid.DagJSON, MhType: multihash.SHA2_512, MhLength: -1}},
	{Prefix: cid.Prefix{Version: 1, Codec: cid.DagCBOR, MhType: multihash.SHA2_256, MhLength: -1}},
	{Prefix: cid.Prefix{Version: 1, Codec: cid.DagCBOR, MhType: multihash.SHA2_256, MhLength: 16}},
}

func (p *Pub) store(n ipld.Node, added *[]cid.Cid) ipld.Link {
	ls := p.lsys(added)
	l, err := ls.Store(ipld.LinkContext{Ctx: context.Background()}, p.linkproto(), n)
	must(err)
	return l
}

// entries stores the entries of an advertisement and returns their link.
func (p *Pub) entries(a AdSpec, added *[]cid.Cid) ipld.Link {
	if a.Hamt {
		ls := p.lsys(added)
		hb := hamt.NewBuilder(hamt.Prototype{BitWidth: 3, BucketSize: 2}).WithLinking(ls, p.linkproto())
		ma, err := hb.BeginMap(int64(len(a.Mhs)))
		must(err)
		for _, h := range a.Mhs {
			must(ma.AssembleKey().AssignBytes([]byte(h)))
			must(ma.AssembleValue().AssignBool(true))
		}
		must(ma.Finish())
		n := hb.Build().(*hamt.Node)
		return p.store(n.Substrate(), added)
	}
	cl := a.ChunkLen
	if cl < 1 {
		cl = len(a.Mhs)
		if cl < 1 {
			cl = 1
		}
	}
	var chunks [][]multihash.Multihash
	for i := 0; i < len(a.Mhs); i += cl {
		var ch []multihash.Multihash
		for j := i; j < i+cl && j < len(a.Mhs); j++ {
			ch = append(ch, multihash.Multihash(a.Mhs[j]))
		}
		chunks = append(chunks, ch)
	}
	if len(chunks) == 0 {
		chunks = append(chunks, nil)
	}
	var next ipld.Link
	for i := len(chunks) - 1; i >= 0; i-- {
		ents := chunks[i]
		if ents == nil {
			ents = []multihash.Multihash{}
		}
		n, err := schema.EntryChunk{Entries: ents, Next: next}.ToNode()
		must(err)
		next = p.store(n, added)
	}
	return next
}

func (p *Pub) Head() cid.Cid {
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.head
}
func (p *Pub) SetHead(c cid.Cid) {
	p.mu.Lock()
	p.head = c
	p.mu.Unlock()
}

func (p *Pub) SetHook(f func(name string, n int) FetchVerdict) {
	p.mu.Lock()
	p.onFetch = f
	p.nfetch = map[string]int{}
	p.mu.Unlock()
}

func (p *Pub) Fetches() []cid.Cid {
	p.mu.Lock()
	defer p.mu.Unlock()
	return append([]cid.Cid(nil), p.fetches...)
}

// Build makes the advertisement for a spec without publishing it. mod, if
// given, can alter it before (sign=true) it is signed.
func (p *Pub) Build(a AdSpec, mod func(ad *schema.Advertisement)) (schema.Advertisement, []cid.Cid) {
	prov := p.Provs[a.Prov]
	var blocks []cid.Cid
	var ents ipld.Link = schema.NoEntries
	if !a.NoEnts && (!a.Rm || a.RmEnts) {
		ents = p.entries(a, &blocks)
	}
	ad := schema.Advertisement{
		Provider:  prov.ID.String(),
		Addresses: []string{"/ip4/127.0.0.1/tcp/9999"},
		Entries:   ents,
		ContextID: []byte(a.Ctx),
		Metadata:  []byte(a.Meta),
		IsRm:      a.Rm,
	}
	if len(p.Ads) != 0 {
		ad.PreviousID = cidlink.Link{Cid: p.Ads[len(p.Ads)-1].Cid}
	}
	if mod != nil {
		mod(&ad)
	}
	if p.sign != nil {
		p.sign(&ad, p.Priv)
	} else {
		must(ad.Sign(p.Priv))
	}
	return ad, blocks
}

// Publish appends one advertisement to the chain and makes it the head.
func (p *Pub) Publish(a AdSpec) PubAd { return p.PublishMod(a, nil) }

func (p *Pub) PublishMod(a AdSpec, mod func(ad *schema.Advertisement)) PubAd {
	ad, blocks := p.Build(a, mod)
	return p.Append(a, ad, blocks)
}

// Append stores a built (possibly altered) advertisement as the new head.
func (p *Pub) Append(a AdSpec, ad schema.Advertisement, blocks []cid.Cid) PubAd {
	n, err := ad.ToNode()
	must(err)
	l := p.store(n, nil)
	pa := PubAd{Cid: l.(cidlink.Link).Cid, Spec: a, Prov: p.Provs[a.Prov].ID, Blocks: blocks, Ad: ad}
	p.Ads = append(p.Ads, pa)
	p.SetHead(pa.Cid)
	return pa
}

func (p *Pub) PublishAll(specs []AdSpec) {
	for _, a := range specs {
		p.Publish(a)
	}
}

// ModelAll applies the whole chain to a model.
func (p *Pub) ModelAll(m *Model) {
	for _, a := range p.Ads {
		m.Apply(a.Prov, a.Spec)
	}
}
