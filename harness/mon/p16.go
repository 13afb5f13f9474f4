package main

import (
	"bytes"
	"context"
	"encoding/base64"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	golog "log"
	mrand "math/rand"
	"net"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"
	"sync"
	"time"

	"github.com/filecoin-project/go-legs/dtsync"
	v0 "github.com/filecoin-project/storetheindex/api/v0"
	finderpb "github.com/filecoin-project/storetheindex/api/v0/finder/pb"
	ingestpb "github.com/filecoin-project/storetheindex/api/v0/ingest/pb"
	"github.com/filecoin-project/storetheindex/api/v0/ingest/schema"
	"github.com/ipfs/go-cid"
	"github.com/ipld/go-ipld-prime/codec/dagcbor"
	"github.com/ipld/go-ipld-prime/codec/dagjson"
	"github.com/ipld/go-ipld-prime/datamodel"
	"github.com/ipld/go-ipld-prime/fluent/qp"
	cidlink "github.com/ipld/go-ipld-prime/linking/cid"
	"github.com/ipld/go-ipld-prime/node/basicnode"
	"github.com/libp2p/go-libp2p-core/peer"
	"github.com/libp2p/go-libp2p-core/protocol"
	pubsub "github.com/libp2p/go-libp2p-pubsub"
	"github.com/multiformats/go-multiaddr"
	"github.com/multiformats/go-multihash"
	"github.com/multiformats/go-varint"
)

func init() {
	register("P16", "an indexer with all its servers holds a canary provider's content while hostile requests arrive: every route of the find, delegated-routing, ingest and admin HTTP servers with junk, mutated, truncated, extreme and wrongly typed bodies, paths and parameters, raw bytes on their ports, "+
		"junk, oversized, empty, truncated and mutated frames on both libp2p protocols, junk and mutated gossip announcements, announcements naming odd CIDs and addresses, signed requests with extreme fields, and publishers whose heads, advertisements, entry chunks and HAMT nodes are malformed in every field; "+
		"the process must survive, each complete request must be answered (a handler that panics shows as a lost connection and as a server log line), every hostile sync must end, and the canary's lookups and provider record must be unchanged throughout; distinct counts (interface, input class, outcome) triples",
		runP16, "inputs come from generators and mutators, not from an exhaustive set", "blocks nested millions of levels deep are a known finding of the IPLD decoder")
	register("P16deep", "child: fetch one deeply nested block", runP16deep)
}

var panicLine = regexp.MustCompile(`http: panic serving[^\n]*`)

// panicLog watches the log of net/http servers for handlers that panicked.
type panicLog struct {
	mu    sync.Mutex
	lines []string
}

func (l *panicLog) Write(b []byte) (int, error) {
	if panicLine.Match(b) && !bytes.Contains(b, []byte("abort Handler")) {
		l.mu.Lock()
		l.lines = append(l.lines, string(b))
		l.mu.Unlock()
	}
	return len(b), nil
}

func (l *panicLog) take() []string {
	l.mu.Lock()
	defer l.mu.Unlock()
	x := l.lines
	l.lines = nil
	return x
}

func runP16(c *Ctx) {
	pl := &panicLog{}
	golog.SetOutput(pl)
	check := func(c *Ctx) {
		for _, x := range pl.take() {
			if len(x) > 3000 {
				x = x[:3000]
			}
			c.Violate("handler-panic", "a request handler panicked: %s", x)
		}
	}
	c.RunN("http", c.N(48, 600), 4, func(c *Ctx, i int) { c.p16http(i); check(c) })
	c.RunN("p2p", c.N(36, 400), 4, func(c *Ctx, i int) { c.p16p2p(i); check(c) })
	c.RunN("pub", c.N(240, 1500), 6, func(c *Ctx, i int) { c.p16pub(i); check(c) })
	c.RunN("gossip", c.N(3, 40), 3, func(c *Ctx, i int) { c.p16gossip(i); check(c) })
	c.Run("nested", func(c *Ctx) { c.p16nested(); check(c) })
	c.Run("deep", func(c *Ctx) { c.p16deep() })
}

// canary is content and a provider that hostile input must not touch.
type canary struct {
	s    *Srv
	pub  *Pub
	a    *Asker
	mhs  []multihash.Multihash
	want []string
	prov string
}

func newCanary(c *Ctx, r *mrand.Rand, s *Srv, id Ident) (*canary, bool) {
	k := &canary{s: s, pub: newPub(id)}
	var us []string
	for i := 0; i < 5; i++ {
		k.mhs = append(k.mhs, testMh(fmt.Sprint("canary", r.Int63(), i)))
		us = append(us, string(k.mhs[i]))
	}
	k.pub.Publish(AdSpec{Ctx: "canary", Meta: "canary-meta", Mhs: us, ChunkLen: 2})
	if _, ok := s.SyncWait(c, bg, k.pub, 0, false); !ok {
		return nil, false
	}
	k.a = newAsker(s)
	k.want = k.look(c, r)
	k.prov = k.record()
	if len(k.want) != len(k.mhs) || k.prov == "" {
		c.Inconclusive("the canary was not ingested: %v %q", k.want, k.prov)
		return nil, false
	}
	return k, true
}

func (k *canary) look(c *Ctx, r *mrand.Rand) []string {
	routes := append(append([]string(nil), singleRoutes...), batchRoutes...)
	var out []string
	for _, m := range k.mhs {
		res, _, err := k.a.Ask(r, routes[r.Intn(len(routes))], []multihash.Multihash{m})
		if err != nil {
			out = append(out, fmt.Sprint("error ", err))
			continue
		}
		for _, x := range res {
			out = append(out, strings.Join(provResults(x), ";"))
		}
	}
	return out
}

func (k *canary) record() string {
	rp := k.s.HTTP("GET", k.s.FindURL+"/providers/"+k.pub.ID.String(), nil)
	if rp.Status != 200 {
		return ""
	}
	return string(rp.Body)
}

// check says whether the canary is as it was.
func (k *canary) check(c *Ctx, r *mrand.Rand, after string) bool {
	got := k.look(c, r)
	c.Eval(1)
	if strings.Join(got, "|") != strings.Join(k.want, "|") {
		c.Violate("canary-content", "after %s: lookups of an untouched provider's content answer %q, before %q", after, got, k.want)
		return false
	}
	if p := k.record(); p != k.prov {
		c.Violate("canary-provider", "after %s: the record of an untouched provider is %q, before %q", after, p, k.prov)
		return false
	}
	return true
}

func capped(n, max int) int {
	if n > max {
		return max
	}
	return n
}

// ------------------------------------------------------------------ bytes

// mangle makes hostile bytes, from valid ones where there are some.
func mangle(r *mrand.Rand, valid []byte) ([]byte, string) {
	n := 12
	if len(valid) == 0 {
		n = 6
	}
	junk := func(n int) []byte {
		b := make([]byte, n)
		r.Read(b)
		return b
	}
	cp := append([]byte(nil), valid...)
	switch k := r.Intn(n); k {
	case 0:
		return nil, "empty"
	case 1:
		return junk(1 + r.Intn(40)), "junk"
	case 2:
		return junk(5000 + r.Intn(100000)), "junk-long"
	case 3:
		x := []string{"null", "0", "-1", "1e400", "\"\"", "[]", "{}", "[null]", "{\"\":null}", "[[[[]]]]", "true", "\"\\ud800\"", "{\"Multihashes\":[null]}", "{\"Multihashes\":[\"\"]}", "{\"Multihashes\":null}",
			"{\"Multihashes\":{}}", "{\"Multihashes\":[\"AA==\",\"EiA=\",\"////\"]}", "\xff\xfe", "{\"file\":\"\",\"context_id\":\"\",\"metadata\":\"\"}", "[{\"AddrInfo\":{\"ID\":\"\",\"Addrs\":[\"\"]}}]"}
		return []byte(x[r.Intn(len(x))]), "literal"
	case 4:
		o, cl := "[", "]"
		if r.Intn(2) == 0 {
			o, cl = "{\"a\":", "}"
		}
		d := 100 + r.Intn(30000)
		s := strings.Repeat(o, d)
		if r.Intn(2) == 0 {
			s += "1" + strings.Repeat(cl, d)
		}
		return []byte(s), "nested"
	case 5:
		// CBOR: nested or with huge announced lengths.
		heads := [][]byte{{0x9b, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff}, {0x5b, 0x7f, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff}, {0x82, 0xd8, 0x2a, 0x58, 0x25}, {0x82, 0xd8, 0x2a, 0x40}, {0x82, 0xf6, 0x80}, {0x83}, {0xbf, 0xff}, {0x9f}, {0x9a, 0x7f, 0xff, 0xff, 0xff}, bytes.Repeat([]byte{0x81}, 20000)}
		return append(append([]byte(nil), heads[r.Intn(len(heads))]...), junk(r.Intn(60))...), "cbor"
	case 6:
		return cp[:r.Intn(len(cp))], "truncated"
	case 7:
		return append(cp, junk(1+r.Intn(30))...), "extended"
	case 8, 9:
		for j := 1 + r.Intn(3); j > 0; j-- {
			cp[r.Intn(len(cp))] ^= byte(1 << r.Intn(8))
		}
		return cp, "flipped"
	case 10:
		a, b := r.Intn(len(cp)), r.Intn(len(cp))
		if a > b {
			a, b = b, a
		}
		return append(append(append([]byte(nil), cp[:b]...), cp[a:b]...), cp[b:]...), "repeated"
	default:
		a, b := r.Intn(len(cp)), r.Intn(len(cp))
		if a > b {
			a, b = b, a
		}
		x := []byte{0, 0xff, 0x7f, 0x80, '"', '{'}[r.Intn(6)]
		for j := a; j < b && j < a+8; j++ {
			cp[j] = x
		}
		return cp, "stamped"
	}
}

// oddCids are CIDs that are not what a request wants.
func oddCids(r *mrand.Rand) []cid.Cid {
	m := testMh(fmt.Sprint("odd", r.Int63()))
	id := func(codec uint64, b []byte) cid.Cid {
		x, err := multihash.Sum(b, multihash.IDENTITY, -1)
		must(err)
		return cid.NewCidV1(codec, x)
	}
	sum := func(codec, fn uint64) cid.Cid {
		x, err := multihash.Encode(make([]byte, 20), fn)
		must(err)
		return cid.NewCidV1(codec, x)
	}
	out := []cid.Cid{
		cid.NewCidV1(cid.Raw, m), cid.NewCidV1(cid.DagProtobuf, m), cid.NewCidV1(cid.DagCBOR, m), cid.NewCidV1(0x0129, m), cid.NewCidV1(0x300000, m), cid.NewCidV1(0, m),
		id(cid.Raw, []byte("inline")), id(cid.DagCBOR, []byte{0xa0}), id(0x0129, []byte("{}")), id(0x0129, []byte(`{"Entries":[]}`)), id(cid.DagCBOR, nil), id(0x0129, []byte("null")), id(cid.DagCBOR, []byte{0x81}),
		sum(0x0129, 0x1234), sum(cid.DagCBOR, multihash.SHA1), sum(0x0129, multihash.SHA2_512),
	}
	if v0c, err := multihash.Sum([]byte("v0"), multihash.SHA2_256, -1); err == nil {
		out = append(out, cid.NewCidV0(v0c))
	}
	return out
}

func oddAddrs(r *mrand.Rand, id peer.ID) []multiaddr.Multiaddr {
	var out []multiaddr.Multiaddr
	for _, s := range []string{"/p2p/" + id.String(), "/ip4/127.0.0.1/tcp/1/p2p/" + id.String(), "/ip4/127.0.0.1/tcp/1/http/p2p/" + id.String(), "/ip4/127.0.0.1/udp/1/quic/p2p/" + id.String(), "/dns4/localhost/tcp/1/https/p2p/" + id.String(),
		"/dns4/nowhere.invalid/tcp/1/http/p2p/" + id.String(), "/unix/nowhere", "/ip4/127.0.0.1/tcp/0", "/ip6/::1/tcp/1/ws/p2p/" + id.String(), "/http/p2p/" + id.String(), "/ip4/0.0.0.0/http/p2p/" + id.String(), "/tcp/1/http/p2p/" + id.String(), "/memory/1/p2p/" + id.String()} {
		a, err := multiaddr.NewMultiaddr(s)
		if err == nil {
			out = append(out, a)
		}
	}
	n := 1 + r.Intn(2)
	var sel []multiaddr.Multiaddr
	for j := 0; j < n; j++ {
		sel = append(sel, out[r.Intn(len(out))])
	}
	return sel
}

func announceBytes(k cid.Cid, addrs []multiaddr.Multiaddr) []byte {
	m := dtsync.Message{Cid: k, ExtraData: []byte{}}
	m.SetAddrs(addrs)
	var buf bytes.Buffer
	if err := m.MarshalCBOR(&buf); err != nil {
		return nil
	}
	return buf.Bytes()
}

// extreme is a correctly signed request with extreme fields.
func extreme(r *mrand.Rand, att Ident) (string, []byte, string) {
	what := []string{"register", "discover", "index"}[r.Intn(3)]
	q := reqSpec{what: what, prov: att.ID, seq: uint64(time.Now().UnixNano()), addrs: []string{"/ip4/127.0.0.1/tcp/9"}, disc: "t01000", mh: testMh("x"), ctxID: "c", meta: "m"}
	var cl []string
	for j := 1 + r.Intn(2); j > 0; j-- {
		switch k := r.Intn(11); k {
		case 0:
			q.seq = []uint64{0, 1, 1 << 63, ^uint64(0)}[r.Intn(4)]
			cl = append(cl, "seq")
		case 1:
			q.addrs = nil
			cl = append(cl, "no-addrs")
		case 2:
			q.addrs = nil
			for n := 0; n < 3000; n++ {
				q.addrs = append(q.addrs, fmt.Sprintf("/ip4/127.0.0.1/tcp/%d", n+1))
			}
			cl = append(cl, "many-addrs")
		case 3:
			if what == "index" {
				q.addrs = []string{"", "x", "/ip4", "//", "/ip4/127.0.0.1/tcp/99999"}[r.Intn(5):][:1]
				cl = append(cl, "bad-addr")
			}
		case 4:
			q.disc = []string{"", "\x00", strings.Repeat("t", 100000), "t0" + strings.Repeat("9", 50), "\xff"}[r.Intn(5)]
			cl = append(cl, "discovery-addr")
		case 5:
			q.mh = []multihash.Multihash{{}, nil, {0}, {0x12, 0x20}, {0xff, 0xff, 0xff}, make([]byte, 70000), {0x12, 0xff, 1}}[r.Intn(7)]
			cl = append(cl, fmt.Sprint("mh-", len(q.mh)))
		case 6:
			q.ctxID = strings.Repeat("c", []int{0, 64, 65, 100000}[r.Intn(4)])
			cl = append(cl, fmt.Sprint("ctx-", len(q.ctxID)))
		case 7:
			q.meta = strings.Repeat("m", []int{0, 1024, 1025, 1 << 20}[r.Intn(4)])
			cl = append(cl, fmt.Sprint("meta-", len(q.meta)))
		case 8:
			q.prov = peer.ID([]string{"", "x", "\x00\x00", strings.Repeat("z", 1000)}[r.Intn(4)])
			cl = append(cl, "provider-id")
		default:
			cl = append(cl, "plain")
		}
	}
	var data []byte
	func() {
		defer func() { _ = recover() }() // cannot even be encoded
		data = q.sign(att)
	}()
	return what, data, what + " " + strings.Join(cl, ",")
}

// ------------------------------------------------------------------- HTTP

type hostileReq struct {
	method, url string
	body        []byte
	class       string
	hdr         []string
	big         bool // the server may answer before having read it all
}

func (c *Ctx) p16http(i int) {
	r := c.Rng("http", i)
	rig := newRig(RigOpts{Listen: true, Discoverer: disc17{}})
	s := newSrv(rig, srvOpts{})
	defer s.Stop()
	ids := newIdents(r, 3)
	k, ok := newCanary(c, r, s, ids[0])
	if !ok {
		return
	}
	defer k.pub.Close()
	// Reload requests are answered as the daemon's main loop does.
	stop := make(chan struct{})
	defer close(stop)
	go func() {
		for {
			select {
			case ch := <-s.ReloadCh:
				ch <- errors.New("no configuration")
			case <-stop:
				return
			}
		}
	}()
	scratch := filepath.Join(c.Scratch, fmt.Sprint("p16http", i))
	must(os.MkdirAll(scratch, 0o755))
	defer os.RemoveAll(scratch)
	list, stopList := serveHTTP(http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) {
		b, _ := mangle(mrand.New(mrand.NewSource(int64(len(q.URL.Path)))), []byte(fmt.Sprintf(`[{"AddrInfo":{"ID":"%s","Addrs":["/ip4/127.0.0.1/tcp/9"]},"Publisher":{"ID":"%s","Addrs":["/ip4/127.0.0.1/tcp/9/http"]}}]`, ids[1].ID, ids[2].ID)))
		_, _ = w.Write(b)
	}))
	defer stopList()
	n := 110
	for j := 0; j < n; j++ {
		q := c.p16req(r, s, ids, scratch, list.String())
		if !c.p16send(r, s, q) {
			return
		}
		if j%10 == 9 && !k.check(c, r, q.method+" "+q.url+" "+q.class) {
			return
		}
	}
	// Raw bytes on the ports.
	for _, u := range []string{s.FindURL, s.IngestURL, s.AdminURL} {
		for j := 0; j < 4; j++ {
			b, cl := mangle(r, []byte("POST /multihash HTTP/1.1\r\nHost: x\r\nContent-Length: 40\r\n\r\n{\"Multihashes\":[]}"))
			p16raw(u, b)
			c.Seen("raw " + cl)
		}
	}
	k.check(c, r, "raw bytes")
}

func p16raw(u string, b []byte) {
	cn, err := net.Dial("tcp", strings.TrimPrefix(u, "http://"))
	if err != nil {
		return
	}
	defer cn.Close()
	_ = cn.SetDeadline(time.Now().Add(200 * time.Millisecond))
	_, _ = cn.Write(b)
	if t, ok := cn.(*net.TCPConn); ok {
		_ = t.CloseWrite()
	}
	_, _ = io.Copy(io.Discard, cn)
}

// p16send sends one request and judges that it is answered.
func (c *Ctx) p16send(r *mrand.Rand, s *Srv, q hostileReq) bool {
	var rp reply
	for try := 0; try < 3; try++ {
		hdr := q.hdr
		if try > 0 && len(q.body) > 0 {
			// A server that answers without reading the body may close the
			// connection while the client writes, which loses the answer.
			hdr = append(append([]string{}, hdr...), "Expect", "100-continue")
		}
		rp = s.HTTP(q.method, q.url, q.body, hdr...)
		if rp.Err == nil || (q.big && rp.Status != 0) {
			break
		}
		if q.big {
			return true // judged by survival
		}
		if strings.Contains(rp.Err.Error(), "invalid") {
			return true // not a request
		}
	}
	c.Eval(1)
	c.Count("http requests", 1)
	c.Seen(fmt.Sprintf("http %s %s %d", q.method, q.class, rp.Status))
	if isTimeout(rp.Err) {
		c.Violate("no-answer", "%s %s (%s, %d bytes): no answer in 90 s", q.method, q.url, q.class, len(q.body))
		return false
	}
	if rp.Err != nil {
		u := q.url
		if len(u) > 300 {
			u = u[:300]
		}
		c.Violate("lost-request", "%s %s (%s, %d bytes): three times no answer: %v", q.method, u, q.class, len(q.body), rp.Err)
		return false
	}
	return true
}

func (c *Ctx) p16req(r *mrand.Rand, s *Srv, ids []Ident, scratch, list string) hostileReq {
	att := ids[1]
	seg := func(valid string) (string, string) {
		switch r.Intn(8) {
		case 0:
			return "", "no-segment"
		case 1:
			return strings.Repeat("Q", 1+r.Intn(5000)), "long-segment"
		case 2:
			b := make([]byte, 1+r.Intn(30))
			r.Read(b)
			return multihash.Multihash(b).B58String(), "b58-junk"
		case 3:
			return "%00%ff%2e%2e%2f", "escapes"
		case 4:
			x := []byte(valid)
			x[r.Intn(len(x))] = "0OlI~!Z9"[r.Intn(8)]
			return string(x), "changed"
		case 5:
			return valid[:r.Intn(len(valid))], "cut"
		case 6:
			return valid + valid, "doubled"
		}
		return valid, "valid"
	}
	body := func(valid []byte) ([]byte, string) { return mangle(r, valid) }
	m := testMh(fmt.Sprint("ask", r.Intn(99)))
	switch k := r.Intn(22); k {
	case 0:
		x, cl := seg(cid.NewCidV1(cid.Raw, m).String())
		return hostileReq{method: "GET", url: s.FindURL + "/cid/" + x, class: "find cid " + cl}
	case 1:
		x, cl := seg(m.B58String())
		return hostileReq{method: "GET", url: s.FindURL + "/multihash/" + x, class: "find multihash " + cl}
	case 2:
		odd := oddCids(r)
		return hostileReq{method: "GET", url: s.FindURL + "/cid/" + odd[r.Intn(len(odd))].String(), class: "find odd cid"}
	case 3:
		odd := []multihash.Multihash{{}, {0}, {0x12, 0x20}, {0x12, 0x01, 0xff}, {0xff}, make([]byte, 3000), {0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x01}}
		return hostileReq{method: "GET", url: s.FindURL + "/multihash/" + multihash.Multihash(odd[r.Intn(len(odd))]).B58String(), class: "find odd multihash"}
	case 4, 5:
		var ms []string
		for j := 0; j < 1+r.Intn(4); j++ {
			b := make([]byte, r.Intn(50))
			r.Read(b)
			ms = append(ms, base64.StdEncoding.EncodeToString(b))
		}
		v, _ := json.Marshal(map[string]interface{}{"Multihashes": ms})
		if r.Intn(3) == 0 {
			return hostileReq{method: "POST", url: s.FindURL + "/multihash", body: v, class: "find batch junk-mhs"}
		}
		b, cl := body(v)
		return hostileReq{method: "POST", url: s.FindURL + "/multihash", body: b, class: "find batch " + cl}
	case 6:
		x, cl := seg(att.ID.String())
		return hostileReq{method: "GET", url: s.FindURL + "/providers/" + x, class: "provider " + cl}
	case 7, 8:
		v := []byte(fmt.Sprintf(`{"FindProvidersRequest":{"Key":{"/":"%s"}}}`, cid.NewCidV1(cid.Raw, m)))
		switch r.Intn(6) {
		case 0:
			v = []byte(`{"GetIPNSRequest":{"ID":{"/":{"bytes":"AA"}}}}`)
		case 1:
			v = []byte(`{"PutIPNSRequest":{"ID":{"/":{"bytes":"AA"}},"Record":{"/":{"bytes":"AA"}}}}`)
		case 2:
			odd := oddCids(r)
			v = []byte(fmt.Sprintf(`{"FindProvidersRequest":{"Key":{"/":"%s"}}}`, odd[r.Intn(len(odd))]))
		case 3:
			v = []byte(`{"FindProvidersRequest":{"Key":null}}`)
		}
		b, cl := body(v)
		if r.Intn(3) == 0 {
			b, cl = v, "valid"
		}
		return hostileReq{method: "POST", url: s.FindURL + "/reframe", body: b, class: "reframe " + cl}
	case 9, 10:
		odd := oddCids(r)
		v := announceBytes(odd[r.Intn(len(odd))], oddAddrs(r, att.ID))
		if r.Intn(2) == 0 {
			return hostileReq{method: "PUT", url: s.IngestURL + "/ingest/announce", body: v, class: "announce odd"}
		}
		b, cl := body(v)
		return hostileReq{method: "PUT", url: s.IngestURL + "/ingest/announce", body: b, class: "announce " + cl}
	case 11:
		// Announcements with no or undecodable addresses.
		var buf bytes.Buffer
		a := [][][]byte{{}, {{}}, {{0xff}}, {{}, {}}, {[]byte("/ip4")}, {make([]byte, 5000)}}[r.Intn(6)]
		must((&dtsync.Message{Cid: testCid("a"), Addrs: a, ExtraData: []byte{}}).MarshalCBOR(&buf))
		return hostileReq{method: "PUT", url: s.IngestURL + "/ingest/announce", body: buf.Bytes(), class: "announce bad-addrs"}
	case 12, 13:
		what, v, cl := extreme(r, att)
		if what == "index" {
			what = "register"
		}
		if r.Intn(2) == 0 {
			v, cl = body(v)
			cl = what + " " + cl
		}
		return hostileReq{method: "POST", url: s.IngestURL + "/" + what, body: v, class: "signed " + cl}
	case 14:
		x, cl := seg(att.ID.String())
		return hostileReq{method: "DELETE", url: s.IngestURL + "/register/" + x, class: "unregister " + cl}
	case 15:
		x, cl := seg(att.ID.String())
		b, cl2 := body([]byte(`"/ip4/127.0.0.1/tcp/1/http"`))
		qs := []string{"", "?depth=x", "?depth=-9223372036854775808", "?depth=9223372036854775807", "?depth=99999999999999999999", "?resync=maybe", "?resync=true&depth=1", "?depth=%00", "?;;"}
		return hostileReq{method: "POST", url: s.AdminURL + "/ingest/sync/" + x + qs[r.Intn(len(qs))], body: b, class: "sync " + cl + " " + cl2}
	case 16:
		x, cl := seg(att.ID.String())
		if cl == "valid" {
			cl = "other"
		}
		return hostileReq{method: "PUT", url: s.AdminURL + "/ingest/" + []string{"allow", "block"}[r.Intn(2)] + "/" + x, class: "policy " + cl}
	case 17, 18:
		f := filepath.Join(scratch, fmt.Sprint("f", r.Int63()))
		fb, cl := body([]byte("baguqeeqqskyz3yyj67tb6gvbdqs7a6ecgu\nnot a cid\n\n{\"piece_cid\":{\"/\":\"baga6ea4seaq\"}}\n"))
		must(os.WriteFile(f, fb, 0o644))
		name := []string{f, f + "-absent", scratch, ""}[r.Intn(4)]
		v, _ := json.Marshal(map[string][]byte{"file": []byte(name), "context_id": []byte("x"), "metadata": []byte("y")})
		if r.Intn(3) == 0 {
			v, _ = body(v)
			// Only files of ours may be named.
			if !bytes.Contains(v, []byte(base64.StdEncoding.EncodeToString([]byte(name)))) {
				v = []byte("{}")
			}
			cl = "body"
		}
		x, cl2 := seg(att.ID.String())
		return hostileReq{method: "POST", url: s.AdminURL + "/import/" + []string{"manifest", "cidlist"}[r.Intn(2)] + "/" + x, body: v, class: "import " + cl + " " + cl2}
	case 19:
		u := []string{list + "/" + strings.Repeat("x", r.Intn(12)), "", "http://", "://", "http://127.0.0.1:1", "ftp://127.0.0.1", "http://[::1", "\x00", "http://127.0.0.1:99999"}[r.Intn(9)]
		v, _ := json.Marshal(map[string][]byte{"indexer": []byte(u)})
		if r.Intn(4) == 0 {
			v, _ = body(v)
		}
		return hostileReq{method: "POST", url: s.AdminURL + "/importproviders", body: v, class: "importproviders"}
	case 20:
		b, cl := body([]byte("{}"))
		return hostileReq{method: "POST", url: s.AdminURL + "/reloadconfig", body: b, class: "reload " + cl}
	default:
		u := []string{s.FindURL, s.IngestURL, s.AdminURL}[r.Intn(3)]
		p := []string{"/", "/%2e%2e/", "/nosuch", "//", "/cid", "/multihash", "/providers", "/stats", "/health", "/healthcheck", "/metrics", "/ingest/announce", "/register", "/discover", "/config/log/level", "/config/log/subsystems", "/reframe"}[r.Intn(17)]
		b, cl := body(nil)
		return hostileReq{method: []string{"GET", "PUT", "POST", "DELETE", "OPTIONS", "HEAD", "PATCH", "FOO"}[r.Intn(8)], url: u + p, body: b, class: "route " + p + " " + cl}
	}
}

// p16nested sends nested requests of several megabytes.
func (c *Ctx) p16nested() {
	r := c.Rng("nested")
	rig := newRig(RigOpts{Listen: true})
	s := newSrv(rig, srvOpts{})
	defer s.Stop()
	ids := newIdents(r, 2)
	k, ok := newCanary(c, r, s, ids[0])
	if !ok {
		return
	}
	defer k.pub.Close()
	deep := bytes.Repeat([]byte("["), 16<<20)
	for _, u := range []string{s.FindURL + "/reframe", s.FindURL + "/multihash", s.IngestURL + "/register", s.IngestURL + "/discover", s.AdminURL + "/importproviders", s.AdminURL + "/import/cidlist/" + ids[1].ID.String(), s.AdminURL + "/ingest/sync/" + ids[1].ID.String()} {
		c.p16send(r, s, hostileReq{method: "POST", url: u, body: deep, class: "nested-16M " + u[strings.LastIndex(u[8:], "/")+8:], big: true})
	}
	c.p16send(r, s, hostileReq{method: "PUT", url: s.IngestURL + "/ingest/announce", body: bytes.Repeat([]byte{0x81}, 16<<20), class: "nested-16M announce", big: true})
	k.check(c, r, "16 MiB nested requests")
}

// ----------------------------------------------------------------- libp2p

func (c *Ctx) p16p2p(i int) {
	r := c.Rng("p2p", i)
	rig := newRig(RigOpts{Listen: true, Discoverer: disc17{}})
	s := newSrv(rig, srvOpts{})
	defer s.Stop()
	ids := newIdents(r, 3)
	k, ok := newCanary(c, r, s, ids[0])
	if !ok {
		return
	}
	defer k.pub.Close()
	for j := 0; j < 60; j++ {
		finder := r.Intn(2) == 0
		proto := protocol.ID(v0.IngestProtocolID)
		if finder {
			proto = v0.FinderProtocolID
		}
		// A few frames on one stream.
		var frames [][]byte
		var classes []string
		for f := 1 + r.Intn(3); f > 0; f-- {
			b, cl := p16frame(r, finder, ids[1])
			frames = append(frames, b)
			classes = append(classes, cl)
		}
		bad := []string{"", "", "", "cut", "huge", "varint"}[r.Intn(6)]
		if !c.p16stream(s, proto, finder, frames, classes, bad) {
			return
		}
		if j%10 == 9 && !k.check(c, r, fmt.Sprint(proto, " ", classes, " ", bad)) {
			return
		}
	}
}

func p16frame(r *mrand.Rand, finder bool, att Ident) ([]byte, string) {
	var data []byte
	cl := ""
	if finder {
		var v []byte
		switch r.Intn(3) {
		case 0:
			v, _ = json.Marshal(map[string]interface{}{"Multihashes": []multihash.Multihash{testMh("a"), testMh("b")}})
		case 1:
			v, _ = json.Marshal(att.ID)
		case 2:
			v, _ = json.Marshal(map[string]interface{}{"Multihashes": [][]byte{{}, {1}, make([]byte, 300)}})
		}
		data, cl = v, "valid"
		if r.Intn(3) != 0 {
			data, cl = mangle(r, v)
		}
		t := finderpb.FinderMessage_MessageType(r.Intn(14) - 1)
		b, err := (&finderpb.FinderMessage{Type: t, Data: data}).Marshal()
		must(err)
		cl = fmt.Sprint(t, " ", cl)
		if r.Intn(4) == 0 {
			b, cl = mangle(r, b)
			cl = "frame " + cl
		}
		return b, cl
	}
	what, v, cl := extreme(r, att)
	t := map[string]ingestpb.IngestMessage_MessageType{"register": ingestpb.IngestMessage_REGISTER_PROVIDER, "discover": ingestpb.IngestMessage_DISCOVER_PROVIDER, "index": ingestpb.IngestMessage_INDEX_CONTENT}[what]
	if r.Intn(3) == 0 {
		v, cl = mangle(r, v)
		t = ingestpb.IngestMessage_MessageType(r.Intn(12) - 1)
		cl = fmt.Sprint(t, " ", cl)
	}
	b, err := (&ingestpb.IngestMessage{Type: t, Data: v}).Marshal()
	must(err)
	if r.Intn(4) == 0 {
		b, cl = mangle(r, b)
		cl = "frame " + cl
	}
	return b, cl
}

// p16supported says that a frame is a request of a supported type.
func p16supported(finder bool, b []byte) bool {
	if finder {
		var m finderpb.FinderMessage
		if m.Unmarshal(b) != nil {
			return false
		}
		switch m.GetType() {
		case finderpb.FinderMessage_FIND, finderpb.FinderMessage_LIST_PROVIDERS, finderpb.FinderMessage_GET_PROVIDER, finderpb.FinderMessage_GET_STATS:
			return true
		}
		return false
	}
	var m ingestpb.IngestMessage
	if m.Unmarshal(b) != nil {
		return false
	}
	switch m.GetType() {
	case ingestpb.IngestMessage_DISCOVER_PROVIDER, ingestpb.IngestMessage_REGISTER_PROVIDER, ingestpb.IngestMessage_REMOVE_PROVIDER, ingestpb.IngestMessage_INDEX_CONTENT:
		return true
	}
	return false
}

func (c *Ctx) p16stream(s *Srv, proto protocol.ID, finder bool, frames [][]byte, classes []string, bad string) bool {
	ctx, cancel := context.WithTimeout(bg, 90*time.Second)
	defer cancel()
	st, err := s.p2p.NewStream(ctx, s.H.ID(), proto)
	if err != nil {
		c.Violate("p2p-refused", "no stream for %s: %v", proto, err)
		return false
	}
	defer func() { _ = st.Reset() }()
	_ = st.SetDeadline(time.Now().Add(55 * time.Second))
	rd := newFrameReader(st)
	for j, f := range frames {
		tick()
		w := append(varint.ToUvarint(uint64(len(f))), f...)
		_, err := st.Write(w)
		if err != nil {
			break
		}
		b, err := rd.next()
		tick()
		c.Eval(1)
		c.Count("p2p frames", 1)
		sup := p16supported(finder, f)
		c.Seen(fmt.Sprintf("p2p %s %s answered=%v", proto, classes[j], err == nil))
		if isTimeout(err) {
			c.Violate("p2p-no-answer", "%s frame %q (%d bytes): neither an answer nor the end of the stream", proto, classes[j], len(f))
			return false
		}
		if err != nil {
			if sup {
				c.Violate("p2p-dropped", "%s: a well-formed request of a supported type (%s, %d bytes) is not answered, the stream ends: %v", proto, classes[j], len(f), err)
				return false
			}
			return true
		}
		// The answer is a message of the protocol.
		if finder {
			var m finderpb.FinderMessage
			err = m.Unmarshal(b)
		} else {
			var m ingestpb.IngestMessage
			err = m.Unmarshal(b)
		}
		if err != nil {
			c.Violate("p2p-bad-answer", "%s frame %q: the answer is not a message: %v", proto, classes[j], err)
			return false
		}
	}
	// End the stream badly.
	switch bad {
	case "cut":
		_, _ = st.Write([]byte{200, 1, 'x', 'y'})
	case "huge":
		_, _ = st.Write(append(varint.ToUvarint(1<<40), make([]byte, 100)...))
	case "varint":
		_, _ = st.Write(bytes.Repeat([]byte{0xff}, 20))
	default:
		return true
	}
	_ = st.CloseWrite()
	if _, err := rd.next(); isTimeout(err) {
		c.Violate("p2p-stream-left", "%s: after a broken frame (%s) the stream does not end", proto, bad)
		return false
	}
	c.Seen("p2p ending " + bad)
	return true
}

type frameReader struct {
	r io.Reader
}

func newFrameReader(r io.Reader) *frameReader { return &frameReader{r} }

func (f *frameReader) ReadByte() (byte, error) {
	var b [1]byte
	_, err := io.ReadFull(f.r, b[:])
	return b[0], err
}

func (f *frameReader) next() ([]byte, error) {
	n, err := varint.ReadUvarint(f)
	if err != nil {
		return nil, err
	}
	if n > 1<<24 {
		return nil, errors.New("answer too long")
	}
	b := make([]byte, n)
	_, err = io.ReadFull(f.r, b)
	return b, err
}

// ----------------------------------------------------------------- gossip

func (c *Ctx) p16gossip(i int) {
	r := c.Rng("gossip", i)
	rig := newRig(RigOpts{Listen: true})
	s := newSrv(rig, srvOpts{noAdmin: true})
	defer s.Stop()
	ids := newIdents(r, 2)
	k, ok := newCanary(c, r, s, ids[0])
	if !ok {
		return
	}
	defer k.pub.Close()
	h := newHost(true)
	defer h.Close()
	must(h.Connect(bg, peer.AddrInfo{ID: rig.H.ID(), Addrs: rig.H.Addrs()}))
	ps, err := pubsub.NewGossipSub(bg, h, pubsub.WithDirectPeers([]peer.AddrInfo{{ID: rig.H.ID(), Addrs: rig.H.Addrs()}}))
	must(err)
	topic, err := ps.Join("/verif/ingest")
	must(err)
	defer topic.Close()
	for w := 0; w < 100 && len(topic.ListPeers()) == 0; w++ {
		time.Sleep(20 * time.Millisecond)
	}
	n := 0
	for j := 0; j < 80; j++ {
		odd := oddCids(r)
		b := announceBytes(odd[r.Intn(len(odd))], oddAddrs(r, h.ID()))
		cl := "odd"
		if r.Intn(2) == 0 {
			b, cl = mangle(r, b)
		}
		if topic.Publish(bg, b) == nil {
			n++
		}
		c.Seen(fmt.Sprintf("gossip %s reachable=%v", cl, len(topic.ListPeers()) != 0))
		time.Sleep(2 * time.Millisecond)
	}
	c.Count("gossip messages", int64(n))
	settle()
	k.check(c, r, "junk gossip")
}

// ------------------------------------------------------------- publishers

// anyNode builds a random IPLD value of a random kind.
func anyNode(r *mrand.Rand, depth int) datamodel.Node {
	nb := basicnode.Prototype.Any.NewBuilder()
	switch k := r.Intn(9); {
	case k == 0:
		must(nb.AssignNull())
	case k == 1:
		must(nb.AssignBool(r.Intn(2) == 0))
	case k == 2:
		must(nb.AssignInt([]int64{0, -1, 1, 1 << 62, -1 << 63}[r.Intn(5)]))
	case k == 3:
		must(nb.AssignString([]string{"", "x", "\x00", strings.Repeat("y", 3000), "/ip4/127.0.0.1/tcp/1"}[r.Intn(5)]))
	case k == 4:
		b := make([]byte, []int{0, 1, 34, 3000}[r.Intn(4)])
		r.Read(b)
		must(nb.AssignBytes(b))
	case k == 5 || depth > 3:
		odd := oddCids(r)
		must(nb.AssignLink(cidlink.Link{Cid: odd[r.Intn(len(odd))]}))
	case k < 8:
		la, err := nb.BeginList(-1)
		must(err)
		for j := r.Intn(4); j > 0; j-- {
			must(la.AssembleValue().AssignNode(anyNode(r, depth+1)))
		}
		must(la.Finish())
	default:
		ma, err := nb.BeginMap(-1)
		must(err)
		for j := r.Intn(4); j > 0; j-- {
			must(ma.AssembleKey().AssignString(fmt.Sprint("k", j)))
			must(ma.AssembleValue().AssignNode(anyNode(r, depth+1)))
		}
		must(ma.Finish())
	}
	return nb.Build()
}

// twist copies a map with some of its fields changed, missing or added.
func twist(r *mrand.Rand, n datamodel.Node, deep bool) datamodel.Node {
	if n.Kind() == datamodel.Kind_List && deep {
		out, err := qp.BuildList(basicnode.Prototype.Any, -1, func(la datamodel.ListAssembler) {
			it := n.ListIterator()
			for !it.Done() {
				_, v, err := it.Next()
				must(err)
				qp.ListEntry(la, qp.Node(twist(r, v, true)))
			}
			if r.Intn(3) == 0 {
				qp.ListEntry(la, qp.Node(anyNode(r, 0)))
			}
		})
		must(err)
		return out
	}
	if n.Kind() != datamodel.Kind_Map {
		if r.Intn(3) == 0 {
			return anyNode(r, 0)
		}
		return n
	}
	changed := int64(-1)
	if n.Length() > 0 {
		changed = r.Int63n(n.Length())
	}
	out, err := qp.BuildMap(basicnode.Prototype.Any, -1, func(ma datamodel.MapAssembler) {
		it := n.MapIterator()
		for j := int64(0); !it.Done(); j++ {
			kn, v, err := it.Next()
			must(err)
			if v.IsAbsent() {
				continue
			}
			ks, err := kn.AsString()
			must(err)
			if j == changed {
				switch r.Intn(4) {
				case 0:
					continue
				case 1:
					if deep {
						v = twist(r, v, true)
						break
					}
					fallthrough
				default:
					v = anyNode(r, 0)
				}
			}
			qp.MapEntry(ma, ks, qp.Node(v))
		}
		if r.Intn(6) == 0 {
			qp.MapEntry(ma, fmt.Sprint("Extra", r.Intn(9)), qp.Node(anyNode(r, 0)))
		}
	})
	if err != nil {
		return n
	}
	return out
}

// blockOf stores a node as one block in one of the codecs.
func (p *Pub) blockOf(r *mrand.Rand, n datamodel.Node) cid.Cid {
	var buf bytes.Buffer
	codec := uint64(cid.DagCBOR)
	var err error
	if r.Intn(2) == 0 {
		codec = 0x0129
		err = dagjson.Encode(n, &buf)
	} else {
		err = dagcbor.Encode(n, &buf)
	}
	if err != nil {
		buf.Reset()
		buf.WriteString("{}")
		codec = 0x0129
	}
	b := buf.Bytes()
	if r.Intn(8) == 0 {
		b, _ = mangle(r, b)
		if b == nil {
			b = []byte{}
		}
	}
	return p.putBlock(codec, b)
}

func decodeBlock(p *Pub, k cid.Cid) datamodel.Node {
	nb := basicnode.Prototype.Any.NewBuilder()
	must(dagjson.Decode(nb, bytes.NewReader(p.blocks[k])))
	return nb.Build()
}

func (c *Ctx) p16pub(i int) {
	r := c.Rng("pub", i)
	rig := newRig(RigOpts{Listen: true})
	s := newSrv(rig, srvOpts{noAdmin: true, noIngest: true})
	defer s.Stop()
	ids := newIdents(r, 8)
	k, ok := newCanary(c, r, s, ids[0])
	if !ok {
		return
	}
	defer k.pub.Close()
	for j := 1; j < 8; j++ {
		p := newPub(ids[j])
		class := c.p16hostile(r, p)
		out, err := rig.Ing.Sync(bg, p.ID, p.addr, []int{0, 0, 1, -2}[r.Intn(4)], r.Intn(4) == 0)
		if err == nil {
			_, ended := rig.awaitSync(c, out)
			if !ended {
				c.Violate("sync-hangs", "a sync with a hostile publisher (%s) does not end", class)
				p.Close()
				return
			}
		}
		if r.Intn(2) == 0 {
			_ = rig.Ing.Announce(bg, p.Head(), p.AddrInfo())
			settleShort()
		}
		c.Count("hostile publishers", 1)
		c.Seen(fmt.Sprintf("publisher %s err=%v fetched=%d", class, err != nil, capped(len(p.Fetches()), 4)))
		ok := k.check(c, r, "a sync with a hostile publisher: "+class)
		p.Close()
		if !ok {
			return
		}
	}
	// A well-behaved publisher is still served.
	g := newPub(Ident{ID: ids[0].ID, Priv: ids[0].Priv})
	g.Close()
	k.pub.Publish(AdSpec{Ctx: "canary2", Meta: "m2", Mhs: []string{string(testMh(fmt.Sprint("after", i)))}, ChunkLen: 1})
	if _, ok := rig.SyncWait(c, bg, k.pub, 0, false); !ok {
		return
	}
	c.Eval(1)
	vs, found, err := rig.IX.Get(testMh(fmt.Sprint("after", i)))
	if err != nil || !found || len(vs) != 1 {
		c.Violate("not-served-after", "after hostile publishers, a well-behaved one's advertisement is not ingested: found=%v %v", found, err)
	}
}

// p16hostile makes p's chain hostile and names the class.
func (c *Ctx) p16hostile(r *mrand.Rand, p *Pub) string {
	us := []string{string(testMh(fmt.Sprint("h", r.Int63()))), string(testMh(fmt.Sprint("h", r.Int63()))), string(testMh(fmt.Sprint("h", r.Int63())))}
	spec := AdSpec{Ctx: "h", Meta: "hm", Mhs: us, ChunkLen: 1}
	odd := oddCids(r)
	pick := func() cid.Cid { return odd[r.Intn(len(odd))] }
	for n := r.Intn(3); n > 0; n-- {
		p.Publish(spec)
	}
	switch k := r.Intn(12); k {
	case 0:
		// junk as the head
		p.Publish(spec)
		valid := encodeHead(p.Head(), p.Priv)
		b, cl := mangle(r, valid)
		if b == nil {
			b = []byte{}
		}
		p.SetHook(func(name string, n int) FetchVerdict {
			if name == "head" {
				return FetchVerdict{Body: b}
			}
			return FetchVerdict{}
		})
		return "head " + cl
	case 1:
		h := pick()
		p.SetHead(h)
		return fmt.Sprintf("head odd %d", h.Prefix().Codec)
	case 2:
		// twisted head
		p.Publish(spec)
		nb := basicnode.Prototype.Any.NewBuilder()
		must(dagjson.Decode(nb, bytes.NewReader(encodeHead(p.Head(), p.Priv))))
		var buf bytes.Buffer
		if dagjson.Encode(twist(r, nb.Build(), false), &buf) != nil {
			buf.Reset()
		}
		b := append([]byte{}, buf.Bytes()...)
		p.SetHook(func(name string, n int) FetchVerdict {
			if name == "head" {
				return FetchVerdict{Body: b}
			}
			return FetchVerdict{}
		})
		return "head twisted"
	case 3, 4:
		// twisted advertisement
		a := p.Publish(spec)
		n := twist(r, decodeBlock(p, a.Cid), true)
		p.SetHead(p.blockOf(r, n))
		return "ad twisted"
	case 5:
		p.SetHead(p.blockOf(r, anyNode(r, 0)))
		return "ad any"
	case 6:
		// signed, with extreme fields
		var cl string
		p.PublishMod(spec, func(ad *schema.Advertisement) {
			switch r.Intn(9) {
			case 0:
				ad.Provider = []string{"", "x", strings.Repeat("1", 5000)}[r.Intn(3)]
				cl = "provider"
			case 1:
				ad.Addresses = [][]string{nil, {""}, {"x"}, {"/ip4"}, make([]string, 3000)}[r.Intn(5)]
				if ad.Addresses == nil {
					ad.Addresses = []string{}
				}
				cl = "addresses"
			case 2:
				ad.ContextID = make([]byte, []int{0, 65, 100000}[r.Intn(3)])
				cl = "context"
			case 3:
				ad.Metadata = make([]byte, []int{0, 1025, 1 << 20}[r.Intn(3)])
				cl = "metadata"
			case 4:
				ad.Entries = cidlink.Link{Cid: pick()}
				cl = "entries"
			case 5:
				ad.PreviousID = cidlink.Link{Cid: pick()}
				cl = "previous"
			case 6:
				ad.IsRm = true
				ad.Entries = cidlink.Link{Cid: pick()}
				cl = "rm-entries"
			case 7:
				if ad.PreviousID != nil {
					ad.Entries = ad.PreviousID
				}
				cl = "entries-are-ad"
			default:
				if ad.Entries != nil {
					ad.PreviousID = ad.Entries
				}
				cl = "previous-is-entries"
			}
		})
		return "ad extreme " + cl
	case 7, 8:
		// twisted entry chunk at some place of the chain
		var bl []cid.Cid
		l := p.entries(spec, &bl)
		t := bl[r.Intn(len(bl))]
		tn := p.blockOf(r, twist(r, decodeBlock(p, t), true))
		first := l.(cidlink.Link).Cid
		if t != first {
			// A chunk that leads to it.
			e := schema.EntryChunk{Entries: []multihash.Multihash{testMh("lead")}, Next: cidlink.Link{Cid: tn}}
			n, err := e.ToNode()
			must(err)
			first = p.store(n, nil).(cidlink.Link).Cid
		} else {
			first = tn
		}
		p.PublishMod(spec, func(ad *schema.Advertisement) { ad.Entries = cidlink.Link{Cid: first} })
		return "chunk twisted"
	case 9:
		e := schema.EntryChunk{Entries: []multihash.Multihash{}}
		for j := 0; j < 1+r.Intn(4); j++ {
			e.Entries = append(e.Entries, []multihash.Multihash{{}, {0}, {0xff}, make([]byte, 70000), {0x12, 0x20, 1}, testMh("ok"), {0, 1, 1}, {0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff}}[r.Intn(8)])
		}
		if r.Intn(2) == 0 {
			e.Next = cidlink.Link{Cid: pick()}
		}
		n, err := e.ToNode()
		must(err)
		first := p.store(n, nil)
		p.PublishMod(spec, func(ad *schema.Advertisement) { ad.Entries = first })
		return "chunk odd multihashes"
	default:
		// twisted HAMT
		spec.Hamt = true
		for j := 0; j < 12; j++ {
			spec.Mhs = append(spec.Mhs, string(testMh(fmt.Sprint("hh", r.Int63()))))
		}
		var bl []cid.Cid
		l := p.entries(spec, &bl)
		root := p.blockOf(r, twistHamt(r, decodeBlock(p, l.(cidlink.Link).Cid)))
		p.PublishMod(spec, func(ad *schema.Advertisement) { ad.Entries = cidlink.Link{Cid: root} })
		return "hamt twisted"
	}
}

// twistHamt changes the fields that a HAMT reader computes with.
func twistHamt(r *mrand.Rand, n datamodel.Node) datamodel.Node {
	if r.Intn(3) == 0 {
		return twist(r, n, true)
	}
	set := func(m datamodel.Node, key string, v datamodel.Node) datamodel.Node {
		out, err := qp.BuildMap(basicnode.Prototype.Any, -1, func(ma datamodel.MapAssembler) {
			it := m.MapIterator()
			for !it.Done() {
				kn, x, err := it.Next()
				must(err)
				ks, _ := kn.AsString()
				if ks == key {
					x = v
				}
				qp.MapEntry(ma, ks, qp.Node(x))
			}
		})
		must(err)
		return out
	}
	ints := func() datamodel.Node {
		return basicnode.NewInt([]int64{0, -1, 1, 3, 64, 1 << 31, 1 << 62, 0x22, 0x1234}[r.Intn(9)])
	}
	byt := func() datamodel.Node {
		b := make([]byte, []int{0, 1, 2, 32, 5000}[r.Intn(5)])
		r.Read(b)
		return basicnode.NewBytes(b)
	}
	switch r.Intn(5) {
	case 0:
		return set(n, "hashAlg", ints())
	case 1:
		return set(n, "bucketSize", ints())
	}
	h, err := n.LookupByString("hamt")
	if err != nil {
		return twist(r, n, true)
	}
	if h.Kind() == datamodel.Kind_Map {
		switch r.Intn(2) {
		case 0:
			return set(n, "hamt", set(h, "map", byt()))
		default:
			if d, err := h.LookupByString("data"); err == nil {
				return set(n, "hamt", set(h, "data", twist(r, d, true)))
			}
		}
	}
	if h.Kind() == datamodel.Kind_List && h.Length() == 2 {
		d, err := h.LookupByIndex(1)
		must(err)
		mp, err := h.LookupByIndex(0)
		must(err)
		if r.Intn(2) == 0 {
			mp = byt()
		} else {
			d = twist(r, d, true)
		}
		out, err := qp.BuildList(basicnode.Prototype.Any, 2, func(la datamodel.ListAssembler) {
			qp.ListEntry(la, qp.Node(mp))
			qp.ListEntry(la, qp.Node(d))
		})
		must(err)
		return set(n, "hamt", out)
	}
	return twist(r, n, true)
}

// ------------------------------------------------------------------- deep

// p16deep fetches a block nested millions of levels deep in a child process.
func (c *Ctx) p16deep() {
	cmd := exec.Command(os.Args[0], "-prop", "P16deep", "-scratch", c.Scratch, "-out", filepath.Join(c.Scratch, "deep.json"))
	cmd.Env = append(os.Environ(), "GOTRACEBACK=single")
	var buf bytes.Buffer
	cmd.Stderr = &buf
	err := cmd.Run()
	c.Eval(1)
	out := buf.String()
	switch {
	case err == nil:
		c.Seen("deep survived")
	case strings.Contains(out, "stack overflow") && strings.Contains(out, "go-ipld-prime"):
		c.Seen("deep overflow")
		c.Violate("known:deep-nesting", "a block of nested lists overflows the stack of the IPLD decoder")
	default:
		if len(out) > 4000 {
			out = out[:4000]
		}
		c.Violate("deep-crash", "fetching a deeply nested block ends the process: %v %s", err, out)
	}
}

func runP16deep(c *Ctx) {
	r := c.Rng("deep")
	rig := newRig(RigOpts{})
	p := newPub(newIdents(r, 1)[0])
	p.SetHead(p.putBlock(cid.DagCBOR, append(bytes.Repeat([]byte{0x81}, 6<<20), 0x80)))
	out, err := rig.Ing.Sync(bg, p.ID, p.addr, 0, false)
	must(err)
	rig.awaitSync(c, out)
}
