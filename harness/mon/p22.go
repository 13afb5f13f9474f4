package main

import (
	"bytes"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math"
	mrand "math/rand"
	"net/http"
	"os"
	"reflect"
	"sort"
	"strings"
	"time"
	"unicode/utf8"

	v0 "github.com/filecoin-project/storetheindex/api/v0"
	fmodel "github.com/filecoin-project/storetheindex/api/v0/finder/model"
	fpb "github.com/filecoin-project/storetheindex/api/v0/finder/pb"
	imodel "github.com/filecoin-project/storetheindex/api/v0/ingest/model"
	ipb "github.com/filecoin-project/storetheindex/api/v0/ingest/pb"
	"github.com/filecoin-project/storetheindex/api/v0/ingest/schema"
	"github.com/filecoin-project/storetheindex/internal/registry"
	"github.com/ipfs/go-cid"
	"github.com/ipfs/go-datastore"
	"github.com/ipld/go-ipld-prime"
	"github.com/ipld/go-ipld-prime/codec/dagcbor"
	"github.com/ipld/go-ipld-prime/codec/dagjson"
	cidlink "github.com/ipld/go-ipld-prime/linking/cid"
	"github.com/ipld/go-ipld-prime/node/basicnode"
	"github.com/libp2p/go-libp2p-core/peer"
	"github.com/libp2p/go-libp2p-core/record"
	"github.com/multiformats/go-multiaddr"
	"github.com/multiformats/go-multihash"
)

func init() {
	register("P22", "generated values of every wire and storage format (advertisements and entry chunks in dag-json and dag-cbor, signed requests, find requests and responses, provider listings, statistics, protocol messages, API errors, stored provider and progress records), with empty, absent, extreme and unusual field values, are encoded twice and decoded; the values, bytes and content identifiers must be equal; "+
		"committed encodings of the original version must decode to the values they were made from (signatures verifying) and today's encoder must give the same bytes and identifiers; encodings broken structurally in known ways must be refused, and randomly mutated ones must not crash a decoder nor decode to something that does not survive another round trip; "+
		"distinct counts (format, shape) signatures",
		runP22, "strings are valid UTF-8 (JSON cannot carry others); nil and empty byte strings and lists are equal")
}

func runP22(c *Ctx) {
	if f := os.Getenv("VERIFMON_P22_GEN"); f != "" {
		b, err := json.MarshalIndent(makeGolden(), "", " ")
		must(err)
		must(os.WriteFile(f, b, 0o644))
	}
	c.RunN("values", c.N(1500, 60000), 8, func(c *Ctx, i int) { c.p22values(i) })
	c.Run("golden", func(c *Ctx) { c.p22golden() })
	c.RunN("malformed", c.N(300, 8000), 8, func(c *Ctx, i int) { c.p22malformed(i) })
	c.RunN("mutated", c.N(600, 40000), 8, func(c *Ctx, i int) { c.p22mutated(i) })
	c.RunN("stored", c.N(60, 1500), 8, func(c *Ctx, i int) { c.p22stored(i) })
}

var oddStrings = []string{"", " ", "/", "\x00", "\"", "\\", "\n\r\t", "é", "日本語", "\u2028\u2029", "\U0001f600", "</script>&", "/ip4/127.0.0.1/tcp/3003", "/dns4/a.example/tcp/80/http", "null", "{\"/\":\"x\"}", "\x7f", "\ufffd", "�"}

func oddString(r *mrand.Rand) string {
	switch r.Intn(4) {
	case 0, 1:
		return oddStrings[r.Intn(len(oddStrings))]
	case 2:
		s := ""
		for k := r.Intn(5); k >= 0; k-- {
			s += oddStrings[r.Intn(len(oddStrings))]
		}
		return s
	default:
		n := []int{1, 23, 24, 255, 256, 3000}[r.Intn(6)]
		return strings.Repeat("a", n)
	}
}

func oddBytes(r *mrand.Rand) []byte {
	switch r.Intn(5) {
	case 0:
		return nil
	case 1:
		return []byte{}
	case 2:
		return randBytes(r, []int{1, 2, 23, 24, 63, 64, 65, 255, 256, 1023, 1024, 1025, 5000}[r.Intn(13)])
	case 3:
		return bytes.Repeat([]byte{[]byte{0, 0xff, '"', '/'}[r.Intn(4)]}, 1+r.Intn(40))
	default:
		return randBytes(r, r.Intn(40))
	}
}

func oddCid(r *mrand.Rand) cid.Cid {
	h, err := multihash.Sum(randBytes(r, 8), []uint64{multihash.SHA2_256, multihash.SHA2_512, multihash.IDENTITY, multihash.SHA3_256}[r.Intn(4)], -1)
	must(err)
	switch r.Intn(4) {
	case 0:
		h, err = multihash.Sum(randBytes(r, 8), multihash.SHA2_256, -1)
		must(err)
		return cid.NewCidV0(h)
	case 1:
		return schema.NoEntries.Cid
	default:
		return cid.NewCidV1([]uint64{cid.Raw, cid.DagProtobuf, cid.DagCBOR, 0x0129}[r.Intn(4)], h)
	}
}

func oddAd(r *mrand.Rand, ids []Ident) schema.Advertisement {
	a := schema.Advertisement{Provider: oddString(r), Entries: cidlink.Link{Cid: oddCid(r)}, Signature: oddBytes(r), ContextID: oddBytes(r), Metadata: oddBytes(r), IsRm: r.Intn(2) == 0, Addresses: []string{}}
	if r.Intn(2) == 0 {
		a.PreviousID = cidlink.Link{Cid: oddCid(r)}
	}
	if r.Intn(3) > 0 {
		a.Provider = ids[r.Intn(len(ids))].ID.String()
	}
	if r.Intn(5) == 0 {
		a.Addresses = nil
	}
	for k := r.Intn(4); k > 0; k-- {
		a.Addresses = append(a.Addresses, oddString(r))
	}
	return a
}

func oddChunk(r *mrand.Rand) schema.EntryChunk {
	ch := schema.EntryChunk{Entries: []multihash.Multihash{}}
	if r.Intn(6) == 0 {
		ch.Entries = nil
	}
	for k := []int{0, 1, 2, 30, 300}[r.Intn(5)]; k > 0; k-- {
		if r.Intn(4) == 0 {
			ch.Entries = append(ch.Entries, oddBytes(r))
		} else {
			ch.Entries = append(ch.Entries, testMh(fmt.Sprint("p22-", r.Int())))
		}
	}
	if r.Intn(2) == 0 {
		ch.Next = cidlink.Link{Cid: oddCid(r)}
	}
	return ch
}

// eq compares values, nil and empty being the same for slices, and links,
// identifiers and addresses by their contents.
func eq(a, b reflect.Value) bool {
	if a.IsValid() != b.IsValid() {
		return false
	}
	if !a.IsValid() {
		return true
	}
	if a.Type() != b.Type() {
		return false
	}
	if a.CanInterface() {
		switch x := a.Interface().(type) {
		case cid.Cid:
			return x.Equals(b.Interface().(cid.Cid))
		case time.Time:
			return x.Equal(b.Interface().(time.Time))
		case multiaddr.Multiaddr:
			y, _ := b.Interface().(multiaddr.Multiaddr)
			if isNil(x) || isNil(y) {
				return isNil(x) == isNil(y)
			}
			return x.Equal(y)
		}
	}
	switch a.Kind() {
	case reflect.Ptr, reflect.Interface:
		if a.IsNil() || b.IsNil() {
			return a.IsNil() == b.IsNil()
		}
		return eq(a.Elem(), b.Elem())
	case reflect.Slice, reflect.Array:
		if a.Len() != b.Len() {
			return false
		}
		for i := 0; i < a.Len(); i++ {
			if !eq(a.Index(i), b.Index(i)) {
				return false
			}
		}
		return true
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if a.Type().Field(i).PkgPath != "" {
				continue
			}
			if !eq(a.Field(i), b.Field(i)) {
				return false
			}
		}
		return true
	case reflect.String:
		return a.String() == b.String()
	default:
		return reflect.DeepEqual(a.Interface(), b.Interface())
	}
}

func isNil(x interface{}) bool {
	v := reflect.ValueOf(x)
	return !v.IsValid() || (v.Kind() == reflect.Ptr && v.IsNil())
}

func same(a, b interface{}) bool { return eq(reflect.ValueOf(a), reflect.ValueOf(b)) }

// show is a bounded rendering of a value.
func show(v interface{}) string {
	s := fmt.Sprintf("%#v", v)
	if len(s) > 700 {
		s = s[:700] + "..."
	}
	return s
}

// safely runs a decoder or encoder; a panic is reported as such.
func safely(f func() error) (err error, panicked bool) {
	defer func() {
		if x := recover(); x != nil {
			err, panicked = fmt.Errorf("panic: %v", x), true
		}
	}()
	return f(), false
}

type codec22 struct {
	name string
	enc  func(ipld.Node) ([]byte, error)
	dec  func(ipld.NodeAssembler, []byte) error
	lp   cidlink.LinkPrototype
}

var codecs22 = []codec22{
	{"dag-json", func(n ipld.Node) ([]byte, error) {
		var b bytes.Buffer
		err := dagjson.Encode(n, &b)
		return b.Bytes(), err
	}, func(na ipld.NodeAssembler, b []byte) error { return dagjson.Decode(na, bytes.NewReader(b)) }, schema.Linkproto},
	{"dag-cbor", func(n ipld.Node) ([]byte, error) {
		var b bytes.Buffer
		err := dagcbor.Encode(n, &b)
		return b.Bytes(), err
	}, func(na ipld.NodeAssembler, b []byte) error { return dagcbor.Decode(na, bytes.NewReader(b)) },
		cidlink.LinkPrototype{Prefix: cid.Prefix{Version: 1, Codec: cid.DagCBOR, MhType: multihash.SHA2_256, MhLength: -1}}},
}

// decAd decodes an advertisement with its own prototype or any other.
func decAd(cd codec22, b []byte, any bool) (ad *schema.Advertisement, err error, panicked bool) {
	err, panicked = safely(func() error {
		var nb ipld.NodeBuilder
		if any {
			nb = basicnode.Prototype.Any.NewBuilder()
		} else {
			nb = schema.AdvertisementPrototype.NewBuilder()
		}
		if err := cd.dec(nb, b); err != nil {
			return err
		}
		var err error
		ad, err = schema.UnwrapAdvertisement(nb.Build())
		return err
	})
	return
}

func decChunk(cd codec22, b []byte, any bool) (ch *schema.EntryChunk, err error, panicked bool) {
	err, panicked = safely(func() error {
		var nb ipld.NodeBuilder
		if any {
			nb = basicnode.Prototype.Any.NewBuilder()
		} else {
			nb = schema.EntryChunkPrototype.NewBuilder()
		}
		if err := cd.dec(nb, b); err != nil {
			return err
		}
		var err error
		ch, err = schema.UnwrapEntryChunk(nb.Build())
		return err
	})
	return
}

// rtIPLD checks one advertisement or chunk in one codec.
func (c *Ctx) rtIPLD(cd codec22, v interface{}) ([]byte, bool) {
	node := func() (ipld.Node, error) {
		switch x := v.(type) {
		case schema.Advertisement:
			return x.ToNode()
		case schema.EntryChunk:
			return x.ToNode()
		}
		panic("verifmon harness: type")
	}
	var bs [2][]byte
	for k := range bs {
		err, _ := safely(func() error {
			n, err := node()
			if err != nil {
				return err
			}
			bs[k], err = cd.enc(n)
			return err
		})
		if err != nil {
			c.Violate("encode", "%s: cannot encode %s: %v", cd.name, show(v), err)
			return nil, false
		}
	}
	c.Eval(2)
	if !bytes.Equal(bs[0], bs[1]) {
		c.Violate("unstable-encoding", "%s: two encodings of %s differ: %x %x", cd.name, show(v), bs[0], bs[1])
		return nil, false
	}
	for _, any := range []bool{false, true} {
		var got interface{}
		var err error
		switch v.(type) {
		case schema.Advertisement:
			var x *schema.Advertisement
			if x, err, _ = decAd(cd, bs[0], any); err == nil {
				got = *x
			}
		case schema.EntryChunk:
			var x *schema.EntryChunk
			if x, err, _ = decChunk(cd, bs[0], any); err == nil {
				got = *x
			}
		}
		if err != nil {
			c.Violate("decode", "%s (any=%v): cannot decode the encoding %s of %s: %v", cd.name, any, trunc(bs[0]), show(v), err)
			return nil, false
		}
		if !same(got, v) {
			c.Violate("round-trip", "%s (any=%v): %s decodes to %s", cd.name, any, show(v), show(got))
			return nil, false
		}
	}
	// Stored through a link system, it has the identifier of its bytes, and
	// loads as the same value.
	ls := cidlink.DefaultLinkSystem()
	blocks := memBlocks{}
	blocks.use(&ls)
	n, err := node()
	must(err)
	lnk, err := ls.Store(ipld.LinkContext{}, cd.lp, n)
	if err != nil {
		c.Violate("encode", "%s: cannot store %s: %v", cd.name, show(v), err)
		return nil, false
	}
	want, err := cd.lp.Prefix.Sum(bs[0])
	must(err)
	if lnk.(cidlink.Link).Cid != want {
		c.Violate("identifier", "%s: %s is stored as %s, the identifier of its encoding is %s", cd.name, show(v), lnk, want)
		return nil, false
	}
	return bs[0], true
}

func trunc(b []byte) string {
	if len(b) > 600 {
		return fmt.Sprintf("%q...", b[:600])
	}
	return fmt.Sprintf("%q", b)
}

// rtJSON checks a value with a pair of functions.
func (c *Ctx) rt(name string, v interface{}, enc func() ([]byte, error), dec func([]byte) (interface{}, error)) ([]byte, bool) {
	var b1, b2 []byte
	var got interface{}
	err, _ := safely(func() (err error) {
		if b1, err = enc(); err != nil {
			return fmt.Errorf("encode: %w", err)
		}
		if b2, err = enc(); err != nil {
			return fmt.Errorf("encode: %w", err)
		}
		if got, err = dec(b1); err != nil {
			return fmt.Errorf("decode %s: %w", trunc(b1), err)
		}
		return nil
	})
	c.Eval(2)
	if err != nil {
		c.Violate("round-trip-error", "%s: %s: %v", name, show(v), err)
		return nil, false
	}
	if !bytes.Equal(b1, b2) {
		c.Violate("unstable-encoding", "%s: two encodings of %s differ: %s %s", name, show(v), trunc(b1), trunc(b2))
		return nil, false
	}
	if !same(got, v) {
		c.Violate("round-trip", "%s: %s decodes to %s", name, show(v), show(got))
		return nil, false
	}
	return b1, true
}

func oddMhs(r *mrand.Rand) []multihash.Multihash {
	var out []multihash.Multihash
	for k := []int{0, 1, 2, 50}[r.Intn(4)]; k > 0; k-- {
		h := testMh(fmt.Sprint("p22-", r.Int()))
		if r.Intn(4) == 0 {
			var err error
			h, err = multihash.Sum(oddBytes(r), multihash.IDENTITY, -1)
			must(err)
		}
		out = append(out, h)
	}
	return out
}

func oddInfo(r *mrand.Rand, ids []Ident) peer.AddrInfo {
	ai := peer.AddrInfo{ID: ids[r.Intn(len(ids))].ID, Addrs: []multiaddr.Multiaddr{}}
	for k := r.Intn(4); k > 0; k-- {
		ai.Addrs = append(ai.Addrs, oddMaddr(r, ids))
	}
	return ai
}

func oddMaddr(r *mrand.Rand, ids []Ident) multiaddr.Multiaddr {
	l := []string{"/ip4/0.0.0.0/tcp/0", "/ip4/255.255.255.255/udp/65535/quic", "/ip6/::1/tcp/3003", "/dns4/x.example/tcp/443/https", "/dnsaddr/a.b", "/ip4/1.2.3.4/tcp/80/http", "/unix/a/b", "/p2p/" + ids[0].ID.String(), "/ip4/9.9.9.9/tcp/1/p2p/" + ids[len(ids)-1].ID.String() + "/p2p-circuit"}
	m, err := multiaddr.NewMultiaddr(l[r.Intn(len(l))])
	must(err)
	return m
}

func oddResponse(r *mrand.Rand, ids []Ident) *fmodel.FindResponse {
	fr := &fmodel.FindResponse{}
	for _, h := range oddMhs(r) {
		mr := fmodel.MultihashResult{Multihash: h}
		for k := r.Intn(4); k > 0; k-- {
			mr.ProviderResults = append(mr.ProviderResults, fmodel.ProviderResult{ContextID: oddBytes(r), Metadata: oddBytes(r), Provider: oddInfo(r, ids)})
		}
		fr.MultihashResults = append(fr.MultihashResults, mr)
	}
	return fr
}

func oddSeq(r *mrand.Rand) uint64 {
	return []uint64{0, 1, 1 << 53, 1<<53 + 1, math.MaxInt64, math.MaxUint64, r.Uint64()}[r.Intn(7)]
}

var p22status = []int{0, 1, 200, 204, 400, 403, 404, 418, 500, 501, 599, 999, -1}

func (c *Ctx) p22values(i int) {
	r := c.Rng("values", i)
	ids := newIdents(r, 2)
	kind := []string{"ad", "ad", "chunk", "find-request", "find-response", "provider-info", "stats", "index-content", "discover", "register", "error", "pb", "signed-ad"}[i%13]
	switch kind {
	case "ad", "chunk":
		var v interface{} = oddAd(r, ids)
		if kind == "chunk" {
			v = oddChunk(r)
		}
		for _, cd := range codecs22 {
			if _, ok := c.rtIPLD(cd, v); !ok {
				return
			}
		}
		if a, ok := v.(schema.Advertisement); ok {
			c.Seen(fmt.Sprintf("ad prev=%v prov=%d addrs=%d nil=%v sig=%d ctx=%d meta=%d", a.PreviousID != nil, len(a.Provider), len(a.Addresses), a.Addresses == nil, len(a.Signature), len(a.ContextID), len(a.Metadata)))
		} else {
			e := v.(schema.EntryChunk)
			c.Seen(fmt.Sprintf("chunk n=%d nil=%v next=%v", len(e.Entries), e.Entries == nil, e.Next != nil))
		}
	case "signed-ad":
		a := oddAd(r, ids)
		if err := a.Sign(ids[0].Priv); err != nil {
			c.Violate("sign", "%s: %v", show(a), err)
			return
		}
		for _, cd := range codecs22 {
			b, ok := c.rtIPLD(cd, a)
			if !ok {
				return
			}
			x, err, _ := decAd(cd, b, r.Intn(2) == 0)
			must(err)
			id, err := x.VerifySignature()
			c.Eval(1)
			if err != nil || id != ids[0].ID {
				c.Violate("signature", "%s: signed advertisement %s does not verify after decoding: %v %v", cd.name, show(a), id, err)
				return
			}
		}
		c.Seen("signed-ad")
	case "find-request":
		q := &fmodel.FindRequest{Multihashes: oddMhs(r)}
		if _, ok := c.rt(kind, q, func() ([]byte, error) { return fmodel.MarshalFindRequest(q) }, func(b []byte) (interface{}, error) { return fmodel.UnmarshalFindRequest(b) }); ok {
			c.Seen(fmt.Sprint(kind, len(q.Multihashes)))
		}
	case "find-response":
		q := oddResponse(r, ids)
		if _, ok := c.rt(kind, q, func() ([]byte, error) { return fmodel.MarshalFindResponse(q) }, func(b []byte) (interface{}, error) { return fmodel.UnmarshalFindResponse(b) }); ok {
			c.Seen(fmt.Sprint(kind, len(q.MultihashResults)))
		}
	case "provider-info":
		lastAd := cid.Undef
		var lastT time.Time
		if r.Intn(3) > 0 {
			lastAd = oddCid(r)
			lastT = time.Unix(r.Int63n(1<<33)-(1<<31), int64(r.Intn(1e9))).In(time.FixedZone("z", []int{0, 3600, -3600, 19800, -12600, 50400, -43200, 900}[r.Intn(8)]))
		}
		var pub peer.ID
		var pubAddr multiaddr.Multiaddr
		if r.Intn(2) == 0 {
			pub = ids[1].ID
		}
		if r.Intn(2) == 0 {
			pubAddr = oddMaddr(r, ids)
		}
		ai := oddInfo(r, ids)
		v := fmodel.MakeProviderInfo(ai, lastAd, lastT, pub, pubAddr)
		if _, ok := c.rt(kind, v, func() ([]byte, error) { return json.Marshal(v) }, func(b []byte) (interface{}, error) {
			var o fmodel.ProviderInfo
			err := json.Unmarshal(b, &o)
			return o, err
		}); !ok {
			return
		}
		// The listing says what it was made from.
		c.Eval(1)
		if !same(v.AddrInfo, ai) || v.LastAdvertisement != lastAd || (v.Publisher != nil) != (pub != "" && pubAddr != nil) {
			c.Violate("provider-info", "made from %v %v %v %v %v: %s", ai, lastAd, lastT, pub, pubAddr, show(v))
			return
		}
		if v.Publisher != nil && (v.Publisher.ID != pub || len(v.Publisher.Addrs) != 1 || !v.Publisher.Addrs[0].Equal(pubAddr)) {
			c.Violate("provider-info", "publisher %v %v: %s", pub, pubAddr, show(v.Publisher))
			return
		}
		if lastAd != cid.Undef {
			t, err := time.Parse("2006-01-02T15:04:05Z0700", v.LastAdvertisementTime)
			if err != nil || !t.Equal(lastT.Truncate(time.Second)) {
				c.Violate("provider-info", "time %v is given as %q: %v %v", lastT, v.LastAdvertisementTime, t, err)
				return
			}
		} else if v.LastAdvertisementTime != "" {
			c.Violate("provider-info", "time without advertisement: %q", v.LastAdvertisementTime)
			return
		}
		c.Seen(fmt.Sprintf("%s ad=%v pub=%v addrs=%d", kind, lastAd != cid.Undef, v.Publisher != nil, len(ai.Addrs)))
	case "stats":
		s := &fmodel.Stats{EntriesEstimate: []int64{0, 1, -1, math.MaxInt64, math.MinInt64, 1<<53 + 1, r.Int63()}[r.Intn(7)]}
		if _, ok := c.rt(kind, s, func() ([]byte, error) { return fmodel.MarshalStats(s) }, func(b []byte) (interface{}, error) { return fmodel.UnmarshalStats(b) }); ok {
			c.Seen(kind)
		}
	case "index-content":
		q := &imodel.IngestRequest{Multihash: testMh(fmt.Sprint(r.Int())), ProviderID: ids[0].ID, ContextID: oddBytes(r), Metadata: oddBytes(r), Seq: oddSeq(r)}
		for k := r.Intn(4); k > 0; k-- {
			q.Addrs = append(q.Addrs, oddString(r))
		}
		c.rtReq(r, kind, q, ids[0], func(b []byte) (interface{}, error) { return imodel.ReadIngestRequest(b) })
		// And as clients make it.
		before := uint64(time.Now().UnixNano())
		b, err := imodel.MakeIngestRequest(ids[0].ID, ids[0].Priv, q.Multihash, q.ContextID, q.Metadata, q.Addrs)
		var got *imodel.IngestRequest
		if err == nil {
			got, err = imodel.ReadIngestRequest(b)
		}
		if err != nil {
			c.Violate("make-request", "%s: %v", show(q), err)
			return
		}
		c.made(kind, q, got, &q.Seq, got.Seq, before)
	case "discover":
		q := &imodel.DiscoverRequest{ProviderID: ids[0].ID, DiscoveryAddr: oddString(r), Seq: oddSeq(r)}
		c.rtReq(r, kind, q, ids[0], func(b []byte) (interface{}, error) { return imodel.ReadDiscoverRequest(b) })
		before := uint64(time.Now().UnixNano())
		b, err := imodel.MakeDiscoverRequest(ids[0].ID, ids[0].Priv, q.DiscoveryAddr)
		var got *imodel.DiscoverRequest
		if err == nil {
			got, err = imodel.ReadDiscoverRequest(b)
		}
		if err != nil {
			c.Violate("make-request", "%s: %v", show(q), err)
			return
		}
		c.made(kind, q, got, &q.Seq, got.Seq, before)
	case "register":
		q := &peer.PeerRecord{PeerID: ids[0].ID, Seq: oddSeq(r)}
		var as []string
		for k := 1 + r.Intn(3); k > 0; k-- {
			a := oddMaddr(r, ids)
			q.Addrs, as = append(q.Addrs, a), append(as, a.String())
		}
		c.rtReq(r, kind, q, ids[0], func(b []byte) (interface{}, error) { return imodel.ReadRegisterRequest(b) })
		before := uint64(time.Now().UnixNano())
		b, err := imodel.MakeRegisterRequest(ids[0].ID, ids[0].Priv, as)
		var got *peer.PeerRecord
		if err == nil {
			got, err = imodel.ReadRegisterRequest(b)
		}
		if err != nil {
			c.Violate("make-request", "%s: %v", show(q), err)
			return
		}
		c.made(kind, q, got, &q.Seq, got.Seq, before)
	case "error":
		msg := oddString(r)
		st := p22status[r.Intn(len(p22status))]
		var e error = v0.NewError(errors.New(msg), st)
		switch r.Intn(4) {
		case 0:
			e, st = errors.New(msg), 0
		case 1:
			e, msg = fmt.Errorf("more: %w", e), "more: "+msg
		}
		want := msg
		if st != 0 {
			want = fmt.Sprint(st)
			if t := http.StatusText(st); t != "" {
				want += " " + t
			}
			want += ": " + msg
		}
		var got error
		err, _ := safely(func() error { got = v0.DecodeError(v0.EncodeError(e)); return nil })
		c.Eval(1)
		if err != nil || got == nil || got.Error() != want {
			c.Violate("error", "error %q with status %d arrives as %v, want %q (%v)", e, st, got, want, err)
			return
		}
		if v0.DecodeError(v0.EncodeError(nil)) != nil {
			c.Violate("error", "no error arrives as an error")
			return
		}
		c.Seen(fmt.Sprintf("error status=%d", st))
	case "pb":
		f := &fpb.FinderMessage{Type: fpb.FinderMessage_MessageType(r.Intn(4)), Data: oddBytes(r)}
		if _, ok := c.rt("finder message", [2]interface{}{int32(f.Type), f.Data}, f.Marshal, func(b []byte) (interface{}, error) {
			var o fpb.FinderMessage
			err := o.Unmarshal(b)
			return [2]interface{}{int32(o.Type), o.Data}, err
		}); !ok {
			return
		}
		g := &ipb.IngestMessage{Type: ipb.IngestMessage_MessageType(r.Intn(6)), Data: oddBytes(r)}
		c.rt("ingest message", [2]interface{}{int32(g.Type), g.Data}, g.Marshal, func(b []byte) (interface{}, error) {
			var o ipb.IngestMessage
			err := o.Unmarshal(b)
			return [2]interface{}{int32(o.Type), o.Data}, err
		})
		c.Seen(fmt.Sprint("pb", f.Type, g.Type))
	}
}

func (c *Ctx) made(kind string, want, got interface{}, wantSeq *uint64, gotSeq, before uint64) {
	*wantSeq = gotSeq
	c.Eval(1)
	if !same(want, got) {
		c.Violate("make-request", "%s: made from %s, reads as %s", kind, show(want), show(got))
		return
	}
	if gotSeq < before {
		c.Violate("make-request", "%s: sequence number %d is older than the request (%d)", kind, gotSeq, before)
		return
	}
	c.Seen("made " + kind)
}

func (c *Ctx) rtReq(r *mrand.Rand, kind string, q record.Record, id Ident, dec func([]byte) (interface{}, error)) {
	_, ok := c.rt(kind, q, func() ([]byte, error) {
		e, err := record.Seal(q, id.Priv)
		if err != nil {
			return nil, err
		}
		return e.Marshal()
	}, dec)
	if ok {
		c.Seen("sealed " + kind)
	}
}

// ---- golden encodings

type gold struct {
	Kind string
	Seed int64
	Enc  string // hex
	Alt  string `json:",omitempty"` // dag-cbor, hex
	Cid  string `json:",omitempty"`
}

var p22kinds = []string{"ad", "old-ad", "chunk", "find-request", "find-response", "provider-info", "stats", "index-content", "discover", "register", "error", "finder-message", "ingest-message", "stored-provider"}

// goldValue makes the value of a golden encoding, and encodes it.
func goldValue(kind string, seed int64) (v interface{}, enc, alt []byte, id cid.Cid) {
	r := mrand.New(mrand.NewSource(seed))
	ids := newIdents(r, 2)
	var err error
	node := func(n ipld.Node, e error) {
		must(e)
		enc, err = codecs22[0].enc(n)
		must(err)
		alt, err = codecs22[1].enc(n)
		must(err)
		id, err = schema.Linkproto.Prefix.Sum(enc)
		must(err)
	}
	seal := func(q record.Record) {
		e, err := record.Seal(q, ids[0].Priv)
		must(err)
		enc, err = e.Marshal()
		must(err)
	}
	switch kind {
	case "ad", "old-ad":
		a := oddAd(r, ids)
		if kind == "ad" {
			must(a.Sign(ids[0].Priv))
		} else {
			a.Signature = refSeal(ids[0].Priv, refDomain, refCodec, refPayload(&a, true))
		}
		v = a
		node(a.ToNode())
	case "chunk":
		ch := oddChunk(r)
		if len(ch.Entries) > 40 {
			ch.Entries = ch.Entries[:40]
		}
		v = ch
		node(ch.ToNode())
	case "find-request":
		q := &fmodel.FindRequest{Multihashes: oddMhs(r)}
		v = q
		enc, err = fmodel.MarshalFindRequest(q)
	case "find-response":
		q := oddResponse(r, ids)
		if len(q.MultihashResults) > 3 {
			q.MultihashResults = q.MultihashResults[:3]
		}
		v = q
		enc, err = fmodel.MarshalFindResponse(q)
	case "provider-info":
		q := fmodel.MakeProviderInfo(oddInfo(r, ids), oddCid(r), time.Unix(r.Int63n(1<<32), 0).UTC(), ids[1].ID, oddMaddr(r, ids))
		if r.Intn(3) == 0 {
			q = fmodel.MakeProviderInfo(oddInfo(r, ids), cid.Undef, time.Time{}, "", nil)
		}
		v = q
		enc, err = json.Marshal(q)
	case "stats":
		q := &fmodel.Stats{EntriesEstimate: r.Int63()}
		v = q
		enc, err = fmodel.MarshalStats(q)
	case "index-content":
		q := &imodel.IngestRequest{Multihash: testMh(fmt.Sprint(r.Int())), ProviderID: ids[0].ID, ContextID: oddBytes(r), Metadata: oddBytes(r), Seq: oddSeq(r), Addrs: []string{oddString(r)}}
		v = q
		seal(q)
	case "discover":
		q := &imodel.DiscoverRequest{ProviderID: ids[0].ID, DiscoveryAddr: oddString(r), Seq: oddSeq(r)}
		v = q
		seal(q)
	case "register":
		q := &peer.PeerRecord{PeerID: ids[0].ID, Seq: oddSeq(r), Addrs: []multiaddr.Multiaddr{oddMaddr(r, ids), oddMaddr(r, ids)}}
		v = q
		seal(q)
	case "error":
		st := p22status[r.Intn(len(p22status))]
		msg := oddString(r)
		v = v0.NewError(errors.New(msg), st).Text()
		enc = v0.EncodeError(v0.NewError(errors.New(msg), st))
	case "finder-message":
		m := &fpb.FinderMessage{Type: fpb.FinderMessage_MessageType(r.Intn(4)), Data: oddBytes(r)}
		v = fmt.Sprint(m.Type, m.Data)
		enc, err = m.Marshal()
	case "ingest-message":
		m := &ipb.IngestMessage{Type: ipb.IngestMessage_MessageType(r.Intn(6)), Data: oddBytes(r)}
		v = fmt.Sprint(m.Type, m.Data)
		enc, err = m.Marshal()
	case "stored-provider":
		q := oddStored(r, ids)
		v = q
		enc, err = json.Marshal(q)
	}
	must(err)
	return
}

func goldDecode(kind string, enc []byte) (interface{}, error) {
	switch kind {
	case "ad", "old-ad", "old-ad-cbor", "ad-cbor":
		cd := codecs22[0]
		if strings.HasSuffix(kind, "-cbor") {
			cd = codecs22[1]
		}
		a, err, _ := decAd(cd, enc, false)
		if err != nil {
			return nil, err
		}
		return *a, nil
	case "chunk", "chunk-cbor":
		cd := codecs22[0]
		if strings.HasSuffix(kind, "-cbor") {
			cd = codecs22[1]
		}
		a, err, _ := decChunk(cd, enc, false)
		if err != nil {
			return nil, err
		}
		return *a, nil
	case "find-request":
		return fmodel.UnmarshalFindRequest(enc)
	case "find-response":
		return fmodel.UnmarshalFindResponse(enc)
	case "provider-info":
		var o fmodel.ProviderInfo
		err := json.Unmarshal(enc, &o)
		return o, err
	case "stats":
		return fmodel.UnmarshalStats(enc)
	case "index-content":
		return imodel.ReadIngestRequest(enc)
	case "discover":
		return imodel.ReadDiscoverRequest(enc)
	case "register":
		return imodel.ReadRegisterRequest(enc)
	case "error":
		if e := v0.DecodeError(enc); e != nil {
			return e.Error(), nil
		}
		return nil, errors.New("decoded as no error")
	case "finder-message":
		var o fpb.FinderMessage
		err := o.Unmarshal(enc)
		return fmt.Sprint(o.Type, o.Data), err
	case "ingest-message":
		var o ipb.IngestMessage
		err := o.Unmarshal(enc)
		return fmt.Sprint(o.Type, o.Data), err
	case "stored-provider":
		o := &registry.ProviderInfo{}
		err := json.Unmarshal(enc, o)
		return o, err
	}
	panic("verifmon harness: kind " + kind)
}

func oddStored(r *mrand.Rand, ids []Ident) *registry.ProviderInfo {
	q := &registry.ProviderInfo{AddrInfo: oddInfo(r, ids)}
	if r.Intn(2) == 0 {
		q.DiscoveryAddr = oddString(r)
	}
	if r.Intn(2) == 0 {
		q.LastAdvertisement = oddCid(r)
		q.LastAdvertisementTime = time.Unix(r.Int63n(1<<32), int64(r.Intn(1e9))).UTC()
	}
	if r.Intn(2) == 0 {
		q.Publisher = ids[1].ID
	}
	if r.Intn(2) == 0 {
		q.PublisherAddr = oddMaddr(r, ids)
	}
	return q
}

func makeGolden() []gold {
	var out []gold
	for _, k := range p22kinds {
		for s := int64(1); s <= 10; s++ {
			_, enc, alt, id := goldValue(k, s)
			if len(enc) > 4000 {
				continue
			}
			g := gold{Kind: k, Seed: s, Enc: hex.EncodeToString(enc), Alt: hex.EncodeToString(alt)}
			if id.Defined() {
				g.Cid = id.String()
			}
			out = append(out, g)
		}
	}
	return out
}

func (c *Ctx) p22golden() {
	var gs []gold
	must(json.Unmarshal([]byte(p22goldenJSON), &gs))
	if len(gs) < 100 {
		panic("verifmon harness: no golden encodings")
	}
	for _, g := range gs {
		enc, err := hex.DecodeString(g.Enc)
		must(err)
		alt, err := hex.DecodeString(g.Alt)
		must(err)
		v, e2, a2, id := goldValue(g.Kind, g.Seed)
		dec := func(kind string, b []byte) bool {
			var got interface{}
			err, _ := safely(func() (err error) { got, err = goldDecode(kind, b); return })
			c.Eval(1)
			if err != nil {
				c.Violate("golden-refused", "%s %d: an encoding made by the original version is refused: %v; %s", kind, g.Seed, err, trunc(b))
				return false
			}
			if !same(got, v) {
				c.Violate("golden-differs", "%s %d: an encoding made by the original version decodes to %s, not %s", kind, g.Seed, show(got), show(v))
				return false
			}
			if a, ok := got.(schema.Advertisement); ok {
				id, err := a.VerifySignature()
				c.Eval(1)
				if err != nil || id != newIdents(mrand.New(mrand.NewSource(g.Seed)), 2)[0].ID {
					c.Violate("golden-signature", "%s %d: the signature of an advertisement of the original version does not verify: %v", kind, g.Seed, err)
					return false
				}
			}
			return true
		}
		if !dec(g.Kind, enc) {
			return
		}
		if len(alt) > 0 && !dec(g.Kind+"-cbor", alt) {
			return
		}
		c.Eval(2)
		if !bytes.Equal(enc, e2) || !bytes.Equal(alt, a2) {
			c.Violate("golden-encoding", "%s %d: today's encoding %s differs from the original version's %s", g.Kind, g.Seed, trunc(e2), trunc(enc))
			return
		}
		if g.Cid != "" && id.String() != g.Cid {
			c.Violate("golden-identifier", "%s %d: identifier %s, originally %s", g.Kind, g.Seed, id, g.Cid)
			return
		}
		c.Seen(fmt.Sprint("golden ", g.Kind, g.Seed))
	}
	// Names that peers of other versions use.
	for _, x := range [][2]string{
		{string(v0.FinderProtocolID), "/indexer/finder/0.0.1"}, {string(v0.IngestProtocolID), "/indexer/ingest/0.0.1"},
		{schema.NoEntries.Cid.String(), "bafkreehdwdcefgh4dqkjv67uzcmw7oje"},
	} {
		c.Eval(1)
		if x[0] != x[1] {
			c.Violate("golden-name", "%q was %q", x[0], x[1])
			return
		}
	}
}

// ---- malformed encodings

func (c *Ctx) p22malformed(i int) {
	r := c.Rng("malformed", i)
	ids := newIdents(r, 2)
	refuse := func(kind, what string, b []byte, dec func([]byte) (interface{}, error)) bool {
		var got interface{}
		err, panicked := safely(func() (err error) { got, err = dec(b); return })
		c.Eval(1)
		if panicked {
			c.Violate("decoder-panic", "%s with %s: %v; %s", kind, what, err, trunc(b))
			return false
		}
		if err == nil {
			c.Violate("malformed-accepted", "%s with %s is accepted as %s; %s", kind, what, show(got), trunc(b))
			return false
		}
		c.Seen("malformed " + kind + " " + what)
		return true
	}
	// JSON values of each form.
	vals := map[string]string{"string": `"x"`, "number": `7`, "bool": `true`, "null": `null`, "list": `["x"]`, "map": `{"x":1}`, "bytes": `{"/":{"bytes":"AQID"}}`, "link": `{"/":"bafkreehdwdcefgh4dqkjv67uzcmw7oje"}`, "badlink": `{"/":"notacid"}`, "badbytes": `{"/":{"bytes":"!"}}`, "float": `1.5`}
	field := func(kind string, b []byte, good map[string][]string, dec func([]byte) (interface{}, error)) {
		var m map[string]json.RawMessage
		must(json.Unmarshal(b, &m))
		var names []string
		for n := range good {
			names = append(names, n)
		}
		sort.Strings(names)
		n := names[r.Intn(len(names))]
		cp := func() map[string]json.RawMessage {
			o := map[string]json.RawMessage{}
			for k, v := range m {
				o[k] = v
			}
			return o
		}
		put := func(o map[string]json.RawMessage) []byte {
			x, err := json.Marshal(o)
			must(err)
			return x
		}
		var vs []string
		for v := range vals {
			vs = append(vs, v)
		}
		sort.Strings(vs)
		for _, v := range vs {
			ok := false
			for _, g := range good[n] {
				ok = ok || g == v
			}
			if ok {
				continue
			}
			o := cp()
			o[n] = json.RawMessage(vals[v])
			if !refuse(kind, n+" a "+v, put(o), dec) {
				return
			}
		}
		if !strings.HasSuffix(n, "?") && kind != "find-request" && kind != "find-response" {
			opt := n == "PreviousID" || n == "Next"
			if !opt {
				o := cp()
				delete(o, n)
				if !refuse(kind, "no "+n, put(o), dec) {
					return
				}
			}
			o := cp()
			o["Extra"] = json.RawMessage(`1`)
			if !refuse(kind, "an unknown field", put(o), dec) {
				return
			}
		}
	}
	short := func(kind string, b []byte, dec func([]byte) (interface{}, error)) {
		if len(b) < 2 {
			return
		}
		if !refuse(kind, "its end cut off", b[:r.Intn(len(b))], dec) {
			return
		}
	}
	switch i % 8 {
	case 0, 1:
		ad := oddAd(r, ids)
		n, err := ad.ToNode()
		must(err)
		any := r.Intn(2) == 0
		for _, cd := range codecs22 {
			cd := cd
			dec := func(b []byte) (interface{}, error) {
				a, err, p := decAd(cd, b, any)
				if p {
					panic(err)
				}
				return a, err
			}
			b, err := cd.enc(n)
			must(err)
			if cd.name == "dag-json" {
				field("ad", b, map[string][]string{"PreviousID": {"link"}, "Provider": {"string"}, "Addresses": {"list"}, "Signature": {"bytes"}, "Entries": {"link"}, "ContextID": {"bytes"}, "Metadata": {"bytes"}, "IsRm": {"bool"}}, dec)
			}
			short("ad "+cd.name, b, dec)
			// A chunk is not an advertisement.
			ch := oddChunk(r)
			cn, err := ch.ToNode()
			must(err)
			cb, err := cd.enc(cn)
			must(err)
			refuse("ad "+cd.name, "the contents of a chunk", cb, dec)
		}
	case 2:
		ch := oddChunk(r)
		n, err := ch.ToNode()
		must(err)
		any := r.Intn(2) == 0
		for _, cd := range codecs22 {
			cd := cd
			dec := func(b []byte) (interface{}, error) {
				a, err, p := decChunk(cd, b, any)
				if p {
					panic(err)
				}
				return a, err
			}
			b, err := cd.enc(n)
			must(err)
			if cd.name == "dag-json" {
				field("chunk", b, map[string][]string{"Entries": {}, "Next": {"link"}}, dec)
			}
			short("chunk "+cd.name, b, dec)
			ad := oddAd(r, ids)
			an, err := ad.ToNode()
			must(err)
			ab, err := cd.enc(an)
			must(err)
			refuse("chunk "+cd.name, "the contents of an advertisement", ab, dec)
		}
	case 3:
		q := &fmodel.FindRequest{Multihashes: oddMhs(r)}
		b, err := fmodel.MarshalFindRequest(q)
		must(err)
		dec := func(b []byte) (interface{}, error) { return fmodel.UnmarshalFindRequest(b) }
		short("find-request", b, dec)
		field("find-request", b, map[string][]string{"Multihashes": {"null"}}, dec)
	case 4:
		q := oddResponse(r, ids)
		b, err := fmodel.MarshalFindResponse(q)
		must(err)
		dec := func(b []byte) (interface{}, error) { return fmodel.UnmarshalFindResponse(b) }
		short("find-response", b, dec)
		field("find-response", b, map[string][]string{"MultihashResults": {"null"}}, dec)
		id := `"` + ids[0].ID.String() + `"`
		if s := string(b); strings.Contains(s, id) {
			refuse("find-response", "a bad peer ID", []byte(strings.Replace(s, id, `"nopeer"`, 1)), dec)
		}
	case 5, 6, 7:
		kind := []string{"index-content", "discover", "register"}[i%8-5]
		_, enc, _, _ := goldValue(kind, r.Int63())
		dec := func(b []byte) (interface{}, error) { return goldDecode(kind, b) }
		short(kind, enc, dec)
		for _, k := range []string{"index-content", "discover", "register"} {
			if k != kind {
				_, other, _, _ := goldValue(k, r.Int63())
				if !refuse(kind, "another request in it: "+k, other, dec) {
					return
				}
			}
		}
		// Payloads that are not such a request, properly signed.
		junk := &junkRecord{domain: imodel.IngestRequestEnvelopeDomain, codec: imodel.IngestRequestEnvelopePayloadType}
		var payloads []string
		switch kind {
		case "index-content":
			payloads = []string{``, `{`, `null `, `[]`, `"x"`, `7`, `{"Seq":-1}`, `{"Seq":"x"}`, `{"Multihash":"!"}`, `{"ProviderID":"nopeer"}`, `{"ProviderID":7}`, `{"Addrs":"x"}`}
		case "discover":
			junk.domain, junk.codec = imodel.DiscoverRequestEnvelopeDomain, imodel.DiscoverRequestEnvelopePayloadType
			payloads = []string{``, `{`, `null `, `[]`, `"x"`, `7`, `{"Seq":-1}`, `{"Seq":1e99}`, `{"ProviderID":"nopeer"}`, `{"DiscoveryAddr":7}`}
		default:
			junk.domain, junk.codec = peer.PeerRecordEnvelopeDomain, peer.PeerRecordEnvelopePayloadType
			payloads = []string{``, "\xff\xff\xff", "\x0a\xff", "\x0a\x03abc"}
		}
		junk.data = []byte(payloads[r.Intn(len(payloads))])
		e, err := record.Seal(junk, ids[0].Priv)
		must(err)
		b, err := e.Marshal()
		must(err)
		refuse(kind, fmt.Sprintf("payload %q", junk.data), b, dec)
	}
}

type junkRecord struct {
	domain string
	codec  []byte
	data   []byte
}

func (j *junkRecord) Domain() string                 { return j.domain }
func (j *junkRecord) Codec() []byte                  { return j.codec }
func (j *junkRecord) MarshalRecord() ([]byte, error) { return j.data, nil }
func (j *junkRecord) UnmarshalRecord([]byte) error   { return nil }

func (c *Ctx) p22mutated(i int) {
	r := c.Rng("mutated", i)
	kind := p22kinds[i%len(p22kinds)]
	_, enc, alt, _ := goldValue(kind, r.Int63())
	dk := kind
	if len(alt) > 0 && r.Intn(2) == 0 {
		enc, dk = alt, kind+"-cbor"
	}
	for k := 0; k < 30; k++ {
		b := append([]byte(nil), enc...)
		for n := 1 + r.Intn(3); n > 0; n-- {
			switch x := r.Intn(5); {
			case x == 0 || len(b) == 0:
				at := 0
				if len(b) > 0 {
					at = r.Intn(len(b))
				}
				b = append(b[:at:at], append(randBytes(r, 1+r.Intn(3)), b[at:]...)...)
			case x == 1:
				at := r.Intn(len(b))
				b = append(b[:at:at], b[at+1:]...)
			case x == 2:
				at, l := r.Intn(len(b)), r.Intn(20)
				if at+l > len(b) {
					l = len(b) - at
				}
				b = append(b[:at+l:at+l], b[at:]...)
			default:
				b[r.Intn(len(b))] ^= 1 << r.Intn(8)
			}
		}
		var got interface{}
		err, panicked := safely(func() (err error) { got, err = goldDecode(dk, b); return })
		c.Eval(1)
		if panicked {
			c.Violate("decoder-panic", "%s: %v; %s", dk, err, trunc(b))
			return
		}
		if err != nil {
			c.Count("mutants refused", 1)
			continue
		}
		c.Count("mutants accepted", 1)
		// What was accepted must be a value: it survives another round trip.
		if v, ok := got.(schema.Advertisement); ok && goodStrings(v.Provider, v.Addresses) {
			if _, ok = c.rtIPLD(codecs22[0], v); !ok {
				return
			}
		}
		if v, ok := got.(schema.EntryChunk); ok {
			if _, ok = c.rtIPLD(codecs22[0], v); !ok {
				return
			}
		}
	}
	c.Seen("mutated " + dk)
}

func goodStrings(s string, l []string) bool {
	for _, x := range l {
		if !utf8.ValidString(x) {
			return false
		}
	}
	return utf8.ValidString(s)
}

// ---- records stored by an earlier run

func (c *Ctx) p22stored(i int) {
	r := c.Rng("stored", i)
	ids := newIdents(r, 4)
	ds := memDS()
	// The data transfer library records its version in a new datastore.
	if !newRig(RigOpts{Store: ds}).Close(c) {
		return
	}
	want := map[peer.ID]*registry.ProviderInfo{}
	for _, id := range ids[:3] {
		q := oddStored(r, []Ident{id, ids[3]})
		q.AddrInfo.ID = id.ID
		if len(q.AddrInfo.Addrs) == 0 {
			q.AddrInfo.Addrs = append(q.AddrInfo.Addrs, oddMaddr(r, ids))
		}
		if !q.LastAdvertisement.Defined() {
			q.LastAdvertisementTime = time.Time{}
		}
		want[id.ID] = q
		must(ds.Put(bg, datastore.NewKey("/registry/pinfo/"+id.ID.String()), storedJSON(q)))
	}
	pid := ids[3].ID
	last := testCid(fmt.Sprint("p22s", i))
	must(ds.Put(bg, datastore.NewKey("/sync/"+pid.String()), last.Bytes()))
	rig := newRig(RigOpts{Store: ds})
	defer rig.Close(c)
	got := map[peer.ID]*registry.ProviderInfo{}
	for _, p := range rig.Reg.AllProviderInfo() {
		got[p.AddrInfo.ID] = p
	}
	for id, w := range want {
		c.Eval(1)
		if g := got[id]; g == nil || !same(g, w) {
			c.Violate("stored", "a provider stored by the original version, %s, comes back as %s", show(w), show(got[id]))
			return
		}
	}
	if len(got) != len(want) {
		c.Violate("stored", "%d providers stored, %d loaded", len(want), len(got))
		return
	}
	if l := rig.Latest(pid); l != last {
		c.Violate("stored", "latest sync stored as %s comes back as %s", last, l)
		return
	}
	c.Seen(fmt.Sprint("stored ", len(want)))
}

// storedJSON is the stored form of a provider record, made without the
// repository's code.
func storedJSON(q *registry.ProviderInfo) []byte {
	ai := map[string]interface{}{"ID": q.AddrInfo.ID.String()}
	as := []string{}
	for _, a := range q.AddrInfo.Addrs {
		as = append(as, a.String())
	}
	ai["Addrs"] = as
	m := map[string]interface{}{"AddrInfo": ai, "LastAdvertisementTime": q.LastAdvertisementTime.Format(time.RFC3339Nano), "LastAdvertisement": nil}
	if q.LastAdvertisement.Defined() {
		m["LastAdvertisement"] = map[string]string{"/": q.LastAdvertisement.String()}
	}
	if q.DiscoveryAddr != "" {
		m["DiscoveryAddr"] = q.DiscoveryAddr
	}
	if q.Publisher != "" {
		m["Publisher"] = q.Publisher.String()
	}
	if q.PublisherAddr != nil {
		m["PublisherAddr"] = q.PublisherAddr.String()
	}
	b, err := json.Marshal(m)
	must(err)
	return b
}

type memBlocks map[string][]byte

func (m memBlocks) use(ls *ipld.LinkSystem) {
	ls.StorageWriteOpener = func(ipld.LinkContext) (io.Writer, ipld.BlockWriteCommitter, error) {
		var b bytes.Buffer
		return &b, func(l ipld.Link) error { m[l.String()] = b.Bytes(); return nil }, nil
	}
	ls.StorageReadOpener = func(_ ipld.LinkContext, l ipld.Link) (io.Reader, error) {
		return bytes.NewReader(m[l.String()]), nil
	}
}
