package main

import (
	"context"
	"errors"
	"fmt"
	mrand "math/rand"
	"net"
	"net/http"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	indexer "github.com/filecoin-project/go-indexer-core"
	v0 "github.com/filecoin-project/storetheindex/api/v0"
	finderhttpclient "github.com/filecoin-project/storetheindex/api/v0/finder/client/http"
	finderp2pclient "github.com/filecoin-project/storetheindex/api/v0/finder/client/libp2p"
	"github.com/filecoin-project/storetheindex/api/v0/finder/model"
	finderpb "github.com/filecoin-project/storetheindex/api/v0/finder/pb"
	ingesthttpclient "github.com/filecoin-project/storetheindex/api/v0/ingest/client/http"
	ingestp2pclient "github.com/filecoin-project/storetheindex/api/v0/ingest/client/libp2p"
	"github.com/filecoin-project/storetheindex/config"
	httpfinderserver "github.com/filecoin-project/storetheindex/server/finder/http"
	"github.com/ipfs/go-cid"
	"github.com/libp2p/go-libp2p-core/host"
	"github.com/libp2p/go-libp2p-core/network"
	"github.com/libp2p/go-libp2p-core/peer"
	"github.com/libp2p/go-libp2p-core/peerstore"
	"github.com/libp2p/go-msgio"
	"github.com/multiformats/go-multihash"
)

func init() {
	register("P21", "one client used by many goroutines at once, with calls cancelled before, during and after the request is sent, against the real servers (with index reads that take random time or fail) and against a stand-in libp2p server that delays, drops, truncates or garbles its answers; "+
		"every returned answer names the question it answers, and must be the caller's own; calls that nothing disturbed must succeed, and when the trouble is over every client must work; connections held by an HTTP client must not grow. distinct counts (client, fault, outcome)",
		runP21, "the stand-in server never sends an answer to something other than the request it read on that stream")
}

func runP21(c *Ctx) {
	c.RunN("real", c.N(24, 400), 4, func(c *Ctx, i int) { c.p21real(i) })
	c.RunN("stub", c.N(32, 600), 8, func(c *Ctx, i int) { c.p21stub(i) })
	c.RunN("ingest", c.N(16, 200), 4, func(c *Ctx, i int) { c.p21ingest(i) })
	c.RunN("idle", c.N(8, 80), 8, func(c *Ctx, i int) { c.p21idle(i) })
	c.RunN("silent", c.N(6, 30), 6, func(c *Ctx, i int) { c.p21silent(i) })
	c.RunN("conns", c.N(2, 10), 1, func(c *Ctx, i int) { c.p21conns(i) })
}

// callCtx is a context that may be cancelled at some random point; sure says
// that it will not be.
func callCtx(r *mrand.Rand) (ctx context.Context, cancel context.CancelFunc, sure bool) {
	ctx, cancel = context.WithCancel(bg)
	switch r.Intn(5) {
	case 0:
		cancel()
		return ctx, cancel, false
	case 1, 2:
		d := time.Duration(r.Intn(3000)) * time.Microsecond
		time.AfterFunc(d, cancel)
		return ctx, cancel, false
	}
	return ctx, cancel, true
}

// ownAnswer: does the answer belong to the question?
func ownAnswer(fr *model.FindResponse, q []multihash.Multihash, known func(m string) bool, ctxOf func(m string) string) string {
	asked := map[string]bool{}
	for _, m := range q {
		asked[string(m)] = true
	}
	got := map[string]bool{}
	for _, x := range fr.MultihashResults {
		if !asked[string(x.Multihash)] {
			return fmt.Sprintf("holds a result for %s, which this call did not ask for", x.Multihash.B58String())
		}
		got[string(x.Multihash)] = true
		if len(x.ProviderResults) != 1 || string(x.ProviderResults[0].ContextID) != ctxOf(string(x.Multihash)) {
			return fmt.Sprintf("has the wrong record for %s", x.Multihash.B58String())
		}
	}
	for m := range asked {
		if known(m) && !got[m] {
			return fmt.Sprintf("lacks %s", multihash.Multihash(m).B58String())
		}
	}
	return ""
}

// p21real: the real servers.
func (c *Ctx) p21real(i int) {
	r := c.Rng("real", i)
	rig := newRig(RigOpts{Listen: true, NoIngester: true})
	s := newSrv(rig, srvOpts{noIngest: true, noAdmin: true})
	defer s.Stop()
	prov := newIdent(r)
	must(s.Reg.RegisterOrUpdate(bg, prov.ID, []string{testAddr(1).String()}, cid.Undef, peer.AddrInfo{}))
	mhs := testMhs(r, fmt.Sprint("p21-", i, "-"), 40)
	var idx int32
	known := map[string]bool{}
	for _, m := range mhs[:30] {
		known[string(m)] = true
		must(s.Core.Put(indexer.Value{ProviderID: prov.ID, ContextID: []byte("c-" + m.B58String()), MetadataBytes: []byte("m")}, m))
	}
	slow := r.Intn(3) != 0
	failing := r.Intn(3) == 0
	var nGet int64
	s.IX.onGet = func(m multihash.Multihash) error {
		n := atomic.AddInt64(&nGet, 1)
		if atomic.LoadInt32(&idx) == 1 {
			return nil
		}
		if slow {
			time.Sleep(time.Duration((n*7919)%2500) * time.Microsecond)
		}
		if failing && n%11 == 0 {
			return errors.New("injected")
		}
		return nil
	}
	hc, err := finderhttpclient.New(s.FindURL)
	must(err)
	pc, err := finderp2pclient.New(s.p2p, s.H.ID())
	must(err)
	var cancelled, okCalls int64
	call := func(n int, quiet bool) {
		qr := c.Rng("real-q", i, n, quiet)
		var q []multihash.Multihash
		for j := 0; j < 1+qr.Intn(3); j++ {
			q = append(q, mhs[qr.Intn(len(mhs))])
		}
		ctx, cancel, sure := callCtx(qr)
		if quiet {
			cancel()
			ctx, cancel = context.WithCancel(bg)
			sure = true
		}
		defer cancel()
		kind := qr.Intn(6)
		tick()
		defer tick()
		var fr *model.FindResponse
		var err error
		name := []string{"http Find", "http FindBatch", "p2p Find", "p2p FindBatch", "p2p Find", "p2p FindBatch"}[kind]
		switch kind {
		case 0:
			q = q[:1]
			fr, err = hc.Find(ctx, q[0])
		case 1:
			fr, err = hc.FindBatch(ctx, q)
		case 2, 4:
			q = q[:1]
			fr, err = pc.Find(ctx, q[0])
		default:
			fr, err = pc.FindBatch(ctx, q)
		}
		c.Eval(1)
		if err != nil {
			if isReadTimeout(err) {
				c.Inconclusive("a call took longer than the client's time limit")
				return
			}
			if sure && !failing || quiet {
				c.Violate("failed", "%s, undisturbed, failed: %v", name, err)
			}
			atomic.AddInt64(&cancelled, 1)
			c.Seen(fmt.Sprint("real", name, sure, "err", failing))
			return
		}
		if d := ownAnswer(fr, q, func(m string) bool { return known[m] }, func(m string) string { return "c-" + multihash.Multihash(m).B58String() }); d != "" {
			c.Violate("answer", "%s: the answer %s", name, d)
			return
		}
		atomic.AddInt64(&okCalls, 1)
		c.Seen(fmt.Sprint("real", name, sure, "ok", slow, failing))
	}
	if !c.calls(160, 10, func(n int) { call(n, false) }) {
		return
	}
	atomic.StoreInt32(&idx, 1)
	if !c.calls(20, 4, func(n int) { call(n, true) }) {
		return
	}
	c.Count("calls answered", okCalls)
	c.Count("calls failed or cancelled", cancelled)
}

// calls runs n calls on several goroutines and reports whether all returned.
func (c *Ctx) calls(n, workers int, f func(i int)) bool {
	done := make(chan struct{})
	go func() {
		defer close(done)
		parallel(n, workers, func(i int) {
			if !c.Failed() {
				f(i)
			}
		})
	}()
	return c.Await("hang", "client calls to return", func() bool { return isDone(done) })
}

func isReadTimeout(err error) bool {
	return strings.Contains(err.Error(), "timed out reading response") || strings.Contains(err.Error(), "Client.Timeout exceeded")
}

// stubServer answers find requests badly.
type stubServer struct {
	h     host.Host
	calm  int32
	c     *Ctx
	i     int
	n     int64
	after sync.WaitGroup
}

func (s *stubServer) handle(st network.Stream) {
	rd := msgio.NewVarintReaderSize(st, 1<<22)
	wr := msgio.NewVarintWriter(st)
	for {
		b, err := rd.ReadMsg()
		if err != nil {
			_ = st.Reset()
			return
		}
		tick()
		n := atomic.AddInt64(&s.n, 1)
		r := s.c.Rng("stub-srv", s.i, n)
		var m finderpb.FinderMessage
		_ = m.Unmarshal(b)
		rd.ReleaseMsg(b)
		req, err := model.UnmarshalFindRequest(m.GetData())
		if err != nil {
			_ = st.Reset()
			return
		}
		var fr model.FindResponse
		for _, x := range req.Multihashes {
			fr.MultihashResults = append(fr.MultihashResults, model.MultihashResult{Multihash: x, ProviderResults: []model.ProviderResult{{ContextID: []byte("c-" + x.B58String()), Metadata: []byte("m"), Provider: peer.AddrInfo{ID: s.h.ID()}}}})
		}
		d, err := model.MarshalFindResponse(&fr)
		must(err)
		out, err := (&finderpb.FinderMessage{Type: finderpb.FinderMessage_FIND_RESPONSE, Data: d}).Marshal()
		must(err)
		if atomic.LoadInt32(&s.calm) == 1 {
			_ = wr.WriteMsg(out)
			continue
		}
		time.Sleep(time.Duration(r.Intn(2500)) * time.Microsecond)
		switch r.Intn(12) {
		case 0:
			_ = st.Reset()
			return
		case 1:
			_ = st.Close()
			return
		case 2: // an answer cut short
			var buf [10]byte
			k := putUvarint(buf[:], uint64(len(out)))
			_, _ = st.Write(append(buf[:k:k], out[:r.Intn(len(out))]...))
			_ = st.CloseWrite()
			_ = st.Reset()
			return
		case 3: // not a message
			_ = wr.WriteMsg(randBytes(r, 30))
		case 4: // a message of another type
			o, _ := (&finderpb.FinderMessage{Type: finderpb.FinderMessage_GET_STATS_RESPONSE, Data: d}).Marshal()
			_ = wr.WriteMsg(o)
		case 5: // an error
			o, _ := (&finderpb.FinderMessage{Type: finderpb.FinderMessage_ERROR_RESPONSE, Data: v0.EncodeError(v0.NewError(errors.New("stub"), 400))}).Marshal()
			_ = wr.WriteMsg(o)
		case 6: // the answer in pieces
			var buf [10]byte
			k := putUvarint(buf[:], uint64(len(out)))
			all := append(buf[:k:k], out...)
			for len(all) > 0 {
				z := 1 + r.Intn(len(all))
				_, _ = st.Write(all[:z])
				all = all[z:]
				time.Sleep(time.Duration(r.Intn(500)) * time.Microsecond)
			}
		case 7: // late
			time.Sleep(time.Duration(2+r.Intn(6)) * time.Millisecond)
			_ = wr.WriteMsg(out)
		default:
			_ = wr.WriteMsg(out)
		}
	}
}

func putUvarint(b []byte, x uint64) int {
	i := 0
	for x >= 0x80 {
		b[i] = byte(x) | 0x80
		x >>= 7
		i++
	}
	b[i] = byte(x)
	return i + 1
}

func (c *Ctx) p21stub(i int) {
	r := c.Rng("stub", i)
	srv := &stubServer{h: newHost(true), c: c, i: i}
	srv.h.SetStreamHandler(v0.FinderProtocolID, srv.handle)
	cl := newHost(false)
	defer func() { go func() { _ = cl.Close(); _ = srv.h.Close() }() }()
	cl.Peerstore().AddAddrs(srv.h.ID(), srv.h.Addrs(), peerstore.PermanentAddrTTL)
	pc, err := finderp2pclient.New(cl, srv.h.ID())
	must(err)
	_ = r
	mhs := testMhs(r, fmt.Sprint("p21s-", i, "-"), 30)
	var okCalls, errCalls int64
	call := func(n int, quiet bool) {
		qr := c.Rng("stub-q", i, n, quiet)
		var q []multihash.Multihash
		for j := 0; j < 1+qr.Intn(3); j++ {
			q = append(q, mhs[qr.Intn(len(mhs))])
		}
		ctx, cancel, _ := callCtx(qr)
		if quiet {
			cancel()
			ctx, cancel = context.WithCancel(bg)
		}
		defer cancel()
		tick()
		fr, err := pc.FindBatch(ctx, q)
		tick()
		c.Eval(1)
		if err != nil {
			if isReadTimeout(err) {
				c.Inconclusive("a call took longer than the client's time limit")
				return
			}
			if quiet {
				c.Violate("unusable", "after the trouble was over a call failed: %v", err)
				return
			}
			atomic.AddInt64(&errCalls, 1)
			k := err.Error()
			if j := strings.LastIndex(k, ":"); j > 0 {
				k = k[:j]
			}
			if len(k) > 40 {
				k = k[:40]
			}
			c.Seen("stub err " + k)
			return
		}
		if d := ownAnswer(fr, q, func(string) bool { return true }, func(m string) string { return "c-" + multihash.Multihash(m).B58String() }); d != "" {
			c.Violate("answer", "the answer %s (call %d of one client, concurrent with others that were cancelled or failed)", d, n)
			return
		}
		atomic.AddInt64(&okCalls, 1)
		c.Seen(fmt.Sprint("stub ok ", len(q)))
	}
	if !c.calls(150, 6, func(n int) { call(n, false) }) {
		return
	}
	atomic.StoreInt32(&srv.calm, 1)
	// The stream may have been ended by the server just now: one call may
	// still fail because of that.
	ctx, cancel := context.WithTimeout(bg, 8*time.Second)
	_, _ = pc.Find(ctx, mhs[0])
	cancel()
	if !c.calls(12, 3, func(n int) { call(n, true) }) {
		return
	}
	c.Count("stub calls answered", okCalls)
	c.Count("stub calls failed", errCalls)
}

// p21idle: the server ends the stream, or the connection, between two calls.
// The call that meets this may fail, no later one.
func (c *Ctx) p21idle(i int) {
	r := c.Rng("idle", i)
	srv := &stubServer{h: newHost(true), c: c, i: i, calm: 1}
	srv.h.SetStreamHandler(v0.FinderProtocolID, srv.handle)
	cl := newHost(false)
	defer func() { go func() { _ = cl.Close(); _ = srv.h.Close() }() }()
	cl.Peerstore().AddAddrs(srv.h.ID(), srv.h.Addrs(), peerstore.PermanentAddrTTL)
	pc, err := finderp2pclient.New(cl, srv.h.ID())
	must(err)
	for n := 0; n < 12; n++ {
		q := testMhs(r, fmt.Sprint("p21i-", i, "-", n, "-"), 2)
		var err error
		var fr *model.FindResponse
		ask := func() bool {
			done := make(chan struct{})
			go func() {
				fr, err = pc.FindBatch(bg, q)
				close(done)
			}()
			if !c.Await("hang", "a client call to return", func() bool { return isDone(done) }) {
				return false
			}
			c.Eval(1)
			if err != nil && isReadTimeout(err) {
				c.Inconclusive("a call took longer than the client's time limit")
				return false
			}
			if err == nil {
				if d := ownAnswer(fr, q, func(string) bool { return true }, func(m string) string { return "c-" + multihash.Multihash(m).B58String() }); d != "" {
					c.Violate("answer", "the answer %s", d)
					return false
				}
			}
			return true
		}
		if !ask() {
			return
		}
		if err != nil {
			c.Violate("unusable", "a call failed: %v; nothing disturbed it, an earlier one had failed because its stream was ended", err)
			return
		}
		kind := r.Intn(3)
		for _, cn := range srv.h.Network().ConnsToPeer(cl.ID()) {
			for _, st := range cn.GetStreams() {
				if st.Protocol() == v0.FinderProtocolID && kind != 2 {
					if kind == 0 {
						_ = st.Reset()
					} else {
						_ = st.Close()
					}
				}
			}
		}
		if kind == 2 {
			_ = srv.h.Network().ClosePeer(cl.ID())
			upTo(5*time.Second, func() bool { return len(cl.Network().ConnsToPeer(srv.h.ID())) == 0 })
		}
		time.Sleep(time.Duration(r.Intn(20)) * time.Millisecond)
		if !ask() {
			return
		}
		c.Count("streams ended between calls", 1)
		c.Seen(fmt.Sprint("idle ", kind, err == nil))
	}
}

// p21silent: an answer that comes after the client gave up on it.
func (c *Ctx) p21silent(i int) {
	r := c.Rng("silent", i)
	h := newHost(true)
	cl := newHost(false)
	defer func() { go func() { _ = cl.Close(); _ = h.Close() }() }()
	release := make(chan struct{})
	var n int64
	h.SetStreamHandler(v0.FinderProtocolID, func(st network.Stream) {
		rd := msgio.NewVarintReaderSize(st, 1<<22)
		wr := msgio.NewVarintWriter(st)
		for {
			b, err := rd.ReadMsg()
			if err != nil {
				return
			}
			var m finderpb.FinderMessage
			_ = m.Unmarshal(b)
			rd.ReleaseMsg(b)
			req, err := model.UnmarshalFindRequest(m.GetData())
			if err != nil {
				return
			}
			if atomic.AddInt64(&n, 1) == 1 {
				<-release
			}
			var fr model.FindResponse
			for _, x := range req.Multihashes {
				fr.MultihashResults = append(fr.MultihashResults, model.MultihashResult{Multihash: x, ProviderResults: []model.ProviderResult{{ContextID: []byte("c-" + x.B58String()), Metadata: []byte("m"), Provider: peer.AddrInfo{ID: h.ID()}}}})
			}
			d, err := model.MarshalFindResponse(&fr)
			must(err)
			out, err := (&finderpb.FinderMessage{Type: finderpb.FinderMessage_FIND_RESPONSE, Data: d}).Marshal()
			must(err)
			_ = wr.WriteMsg(out)
		}
	})
	cl.Peerstore().AddAddrs(h.ID(), h.Addrs(), peerstore.PermanentAddrTTL)
	pc, err := finderp2pclient.New(cl, h.ID())
	must(err)
	mhs := testMhs(r, fmt.Sprint("p21t-", i, "-"), 8)
	first := make(chan error, 1)
	go func() {
		_, err := pc.Find(bg, mhs[0])
		first <- err
	}()
	select {
	case err := <-first:
		if err == nil {
			c.Violate("answer", "a call that the server did not answer succeeded")
			return
		}
		c.Count("calls given up", 1)
	case <-time.After(25 * time.Second):
		// The client is more patient than this scene.
		c.Count("calls not given up", 1)
		close(release)
		return
	}
	late := i%2 == 0
	if late {
		close(release)
		time.Sleep(time.Duration(r.Intn(30)) * time.Millisecond)
	}
	ok := c.calls(len(mhs)-1, 1+r.Intn(2), func(k int) {
		q := mhs[k+1 : k+2]
		var fr *model.FindResponse
		var err error
		for try := 0; try < 3; try++ {
			fr, err = pc.FindBatch(bg, q)
			tick()
			if err == nil || !isReadTimeout(err) {
				break
			}
		}
		c.Eval(1)
		if err != nil {
			c.Violate("unusable", "after a call was given up, a later one failed: %v", err)
			return
		}
		if d := ownAnswer(fr, q, func(string) bool { return true }, func(m string) string { return "c-" + multihash.Multihash(m).B58String() }); d != "" {
			c.Violate("answer", "after a call was given up (answered late: %v), the answer to a later one %s", late, d)
		}
	})
	if !late {
		close(release)
	}
	if ok {
		c.Seen(fmt.Sprint("silent ", late))
	}
}

// p21ingest: each caller of an ingest client learns the fate of its own request.
func (c *Ctx) p21ingest(i int) {
	r := c.Rng("ingest", i)
	ids := newIdents(r, 12)
	blocked := map[peer.ID]bool{}
	pol := config.Policy{Allow: true, Publish: true}
	for _, x := range ids[:6] {
		blocked[x.ID] = true
		pol.Except = append(pol.Except, x.ID.String())
	}
	rig := newRig(RigOpts{Listen: true, Discovery: func(d *config.Discovery) { d.Policy = pol }})
	s := newSrv(rig, srvOpts{noFind: true, noAdmin: true})
	defer s.Stop()
	pc, err := ingestp2pclient.New(s.p2p, s.H.ID())
	must(err)
	hc, err := ingesthttpclient.New(s.IngestURL)
	must(err)
	// Requests of one identity must arrive in order: one goroutine each.
	done := c.calls(len(ids), len(ids), func(n int) {
		v := ids[n]
		for k := 0; k < 10; k++ {
			qr := c.Rng("ingest-q", i, n, k)
			ctx, cancel, sure := callCtx(qr)
			kind := qr.Intn(4)
			tick()
			var err error
			switch kind {
			case 0:
				err = hc.Register(ctx, v.ID, v.Priv, []string{testAddr(n).String()})
			case 1:
				err = pc.IndexContent(ctx, v.ID, v.Priv, testMh(fmt.Sprint("p21i", i, n, k)), []byte("c"), []byte("m"), []string{testAddr(n).String()})
			default:
				err = pc.Register(ctx, v.ID, v.Priv, []string{testAddr(n).String()})
			}
			cancel()
			tick()
			c.Eval(1)
			if err != nil && isReadTimeout(err) {
				c.Inconclusive("a call took longer than the client's time limit")
				return
			}
			if err == nil && blocked[v.ID] {
				c.Violate("answer", "a request (kind %d) of a provider that is not allowed was reported to have succeeded", kind)
				return
			}
			if err != nil && !blocked[v.ID] && sure {
				c.Violate("answer", "a request (kind %d) of an allowed provider was reported to have failed: %v", kind, err)
				return
			}
			if err == nil && !s.Reg.IsRegistered(v.ID) {
				c.Violate("answer", "a request was reported to have succeeded, but its provider is not registered")
				return
			}
			c.Seen(fmt.Sprint("ingest", kind, sure, err == nil))
		}
	})
	if done {
		c.Count("ingest calls", int64(10*len(ids)))
	}
}

// p21conns: an HTTP client used for one call after the other does not pile up
// connections, whatever the answers.
func (c *Ctx) p21conns(i int) {
	r := c.Rng("conns", i)
	rig := newRig(RigOpts{Listen: false, NoIngester: true})
	defer rig.Abandon()
	prov := newIdent(r)
	must(rig.Reg.RegisterOrUpdate(bg, prov.ID, []string{testAddr(1).String()}, cid.Undef, peer.AddrInfo{}))
	hit := testMh("p21conns")
	must(rig.Core.Put(indexer.Value{ProviderID: prov.ID, ContextID: []byte("c"), MetadataBytes: []byte("m")}, hit))
	f, err := httpfinderserver.New("127.0.0.1:0", rig.IX, rig.Reg)
	must(err)
	go func() { _ = f.Start() }()
	defer func() { go func() { _ = f.Shutdown(bg) }() }()
	// A counting relay in front of the server.
	l, err := net.Listen("tcp", "127.0.0.1:0")
	must(err)
	defer l.Close()
	var open, most, total int64
	target := strings.TrimPrefix(f.URL(), "http://")
	go func() {
		for {
			in, err := l.Accept()
			if err != nil {
				return
			}
			n := atomic.AddInt64(&open, 1)
			atomic.AddInt64(&total, 1)
			for m := atomic.LoadInt64(&most); n > m && !atomic.CompareAndSwapInt64(&most, m, n); m = atomic.LoadInt64(&most) {
			}
			out, err := net.Dial("tcp", target)
			if err != nil {
				_ = in.Close()
				atomic.AddInt64(&open, -1)
				continue
			}
			var once sync.Once
			end := func() {
				once.Do(func() { _ = in.Close(); _ = out.Close(); atomic.AddInt64(&open, -1) })
			}
			go func() { relay(out, in); end() }()
			go func() { relay(in, out); end() }()
		}
	}()
	hc, err := finderhttpclient.New("http://" + l.Addr().String())
	must(err)
	var failing int32
	rig.IX.onGet = func(multihash.Multihash) error {
		if atomic.LoadInt32(&failing) == 1 {
			return errors.New("injected")
		}
		return nil
	}
	const calls = 200
	for n := 0; n < calls; n++ {
		tick()
		kind := r.Intn(6)
		atomic.StoreInt32(&failing, 0)
		var err error
		switch kind {
		case 0:
			_, err = hc.Find(bg, hit)
		case 1, 2:
			_, err = hc.Find(bg, testMh(fmt.Sprint("none", n)))
		case 3:
			_, err = hc.FindBatch(bg, []multihash.Multihash{testMh(fmt.Sprint("none", n))})
		case 4:
			atomic.StoreInt32(&failing, 1)
			if _, e := hc.Find(bg, hit); e == nil {
				c.Violate("answer", "a failed read was answered")
				return
			}
		case 5:
			_, _ = hc.GetProvider(bg, newIdent(r).ID)
		}
		c.Eval(1)
		if err != nil {
			c.Violate("failed", "call %d (kind %d) of an HTTP client failed: %v", n, kind, err)
			return
		}
		c.Seen(fmt.Sprint("conns", kind))
	}
	c.Eval(1)
	if m := atomic.LoadInt64(&most); m > 20 {
		c.Violate("connections", "%d calls made one after the other by one HTTP client held up to %d connections open at once", calls, m)
	}
	c.Count("connections opened", atomic.LoadInt64(&total))
	c.Sample("%d sequential HTTP calls used %d connections, at most %d at once", calls, atomic.LoadInt64(&total), atomic.LoadInt64(&most))
	_ = http.StatusOK
}

func relay(dst, src net.Conn) {
	b := make([]byte, 32<<10)
	for {
		n, err := src.Read(b)
		if n > 0 {
			if _, e := dst.Write(b[:n]); e != nil {
				return
			}
		}
		if err != nil {
			return
		}
	}
}
