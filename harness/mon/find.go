package main

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	mrand "math/rand"
	"net/http"
	"sort"
	"strings"
	"time"

	v0 "github.com/filecoin-project/storetheindex/api/v0"
	finderhttpclient "github.com/filecoin-project/storetheindex/api/v0/finder/client/http"
	finderp2pclient "github.com/filecoin-project/storetheindex/api/v0/finder/client/libp2p"
	"github.com/filecoin-project/storetheindex/api/v0/finder/model"
	finderpb "github.com/filecoin-project/storetheindex/api/v0/finder/pb"
	"github.com/ipfs/go-cid"
	drclient "github.com/ipfs/go-delegated-routing/client"
	drproto "github.com/ipfs/go-delegated-routing/gen/proto"
	"github.com/libp2p/go-libp2p-core/peer"
	"github.com/multiformats/go-multiaddr"
	"github.com/multiformats/go-multibase"
	"github.com/multiformats/go-multihash"
)

// Asker asks a running indexer in every way there is.
type Asker struct {
	s   *Srv
	hc  *finderhttpclient.Client
	pc  *finderp2pclient.Client
	dr  *drclient.Client
	raw *http.Client
}

func newAsker(s *Srv) *Asker {
	a := &Asker{s: s}
	var err error
	a.hc, err = finderhttpclient.New(s.FindURL)
	must(err)
	a.pc, err = finderp2pclient.New(s.p2p, s.H.ID())
	must(err)
	q, err := drproto.New_DelegatedRouting_Client(s.FindURL+"/reframe", drproto.DelegatedRouting_Client_WithHTTPClient(s.hc))
	must(err)
	a.dr = drclient.NewClient(q)
	return a
}

// askErr is an answer that says that the request failed.
type askErr struct {
	status int
	err    error
}

func (e *askErr) Error() string { return fmt.Sprintf("status %d: %v", e.status, e.err) }

var singleRoutes = []string{"http-mh", "http-cid", "client-http", "client-p2p"}
var batchRoutes = []string{"http-batch", "client-http-batch", "client-p2p-batch", "p2p-batch"}

// Ask looks multihashes up by one of the routes (only one for single routes).
// It returns every result as it came; status is that of a raw HTTP answer.
func (a *Asker) Ask(r *mrand.Rand, route string, mhs []multihash.Multihash) ([]model.MultihashResult, int, error) {
	ctx, cancel := context.WithTimeout(bg, 90*time.Second)
	defer cancel()
	tick()
	defer tick()
	rawHTTP := func(rp reply) ([]model.MultihashResult, int, error) {
		if rp.Err != nil {
			return nil, 0, rp.Err
		}
		if rp.Status == http.StatusNotFound {
			return nil, rp.Status, nil
		}
		if rp.Status != http.StatusOK {
			return nil, rp.Status, &askErr{rp.Status, errors.New(string(rp.Body))}
		}
		var fr model.FindResponse
		if err := json.Unmarshal(rp.Body, &fr); err != nil {
			return nil, rp.Status, &askErr{rp.Status, fmt.Errorf("cannot decode answer: %w", err)}
		}
		return fr.MultihashResults, rp.Status, nil
	}
	viaClient := func(fr *model.FindResponse, err error) ([]model.MultihashResult, int, error) {
		if err != nil {
			return nil, 0, &askErr{0, err}
		}
		return fr.MultihashResults, 0, nil
	}
	switch route {
	case "http-mh":
		return rawHTTP(a.s.HTTP("GET", a.s.FindURL+"/multihash/"+mhs[0].B58String(), nil))
	case "http-cid":
		return rawHTTP(a.s.HTTP("GET", a.s.FindURL+"/cid/"+cidString(r, mhs[0]), nil))
	case "client-http":
		return viaClient(a.hc.Find(ctx, mhs[0]))
	case "client-p2p":
		return viaClient(a.pc.Find(ctx, mhs[0]))
	case "http-batch":
		b, err := json.Marshal(&model.FindRequest{Multihashes: mhs})
		must(err)
		return rawHTTP(a.s.HTTP("POST", a.s.FindURL+"/multihash", b))
	case "client-http-batch":
		return viaClient(a.hc.FindBatch(ctx, mhs))
	case "client-p2p-batch":
		return viaClient(a.pc.FindBatch(ctx, mhs))
	case "p2p-batch":
		b, err := json.Marshal(&model.FindRequest{Multihashes: mhs})
		must(err)
		data, err := a.rawFind(finderpb.FinderMessage_FIND, finderpb.FinderMessage_FIND_RESPONSE, b)
		if err != nil {
			return nil, 0, err
		}
		var fr model.FindResponse
		if err := json.Unmarshal(data, &fr); err != nil {
			return nil, 0, &askErr{200, fmt.Errorf("cannot decode answer: %w", err)}
		}
		return fr.MultihashResults, 0, nil
	}
	panic("route " + route)
}

func (a *Asker) rawFind(t, want finderpb.FinderMessage_MessageType, data []byte) ([]byte, error) {
	b, err := (&finderpb.FinderMessage{Type: t, Data: data}).Marshal()
	must(err)
	out, err := a.s.rawP2P(v0.FinderProtocolID, b)
	if err != nil {
		return nil, err
	}
	var m finderpb.FinderMessage
	if err = m.Unmarshal(out); err != nil {
		return nil, err
	}
	if m.GetType() == finderpb.FinderMessage_ERROR_RESPONSE {
		return nil, &askErr{p2pStatus(m.GetData()), v0.DecodeError(m.GetData())}
	}
	if m.GetType() != want {
		return nil, &askErr{200, fmt.Errorf("answer of type %s", m.GetType())}
	}
	return m.GetData(), nil
}

// cidString is some CID with the multihash, in some version, codec and base.
func cidString(r *mrand.Rand, m multihash.Multihash) string {
	d, err := multihash.Decode(m)
	must(err)
	if d.Code == multihash.SHA2_256 && d.Length == 32 && r.Intn(2) == 0 {
		return cid.NewCidV0(m).String()
	}
	x := cid.NewCidV1([]uint64{cid.Raw, cid.DagProtobuf, cid.DagCBOR, 0x0129, 0x300000}[r.Intn(5)], m)
	s, err := x.StringOfBase([]multibase.Encoding{multibase.Base32, multibase.Base58BTC, multibase.Base16, multibase.Base64url}[r.Intn(4)])
	must(err)
	return s
}

func ansString(p peer.ID, ctx, meta string, addrs []multiaddr.Multiaddr) string {
	as := addrStrings(addrs)
	sort.Strings(as)
	return recString(p, ctx, meta) + "@" + strings.Join(as, ",")
}

// provResults renders what one result says, sorted.
func provResults(m model.MultihashResult) []string {
	var out []string
	for _, p := range m.ProviderResults {
		out = append(out, ansString(p.Provider.ID, string(p.ContextID), string(p.Metadata), p.Provider.Addrs))
	}
	sort.Strings(out)
	return out
}

// Reframe asks by delegated routing; the answer is the set of provider@address.
func (a *Asker) Reframe(r *mrand.Rand, m multihash.Multihash) ([]string, error) {
	ctx, cancel := context.WithTimeout(bg, 90*time.Second)
	defer cancel()
	tick()
	defer tick()
	k := cid.NewCidV1(cid.Raw, m)
	ais, err := a.dr.FindProviders(ctx, k)
	if err != nil {
		return nil, err
	}
	set := map[string]bool{}
	for _, ai := range ais {
		for _, x := range ai.Addrs {
			set[ai.ID.String()+"@"+x.String()] = true
		}
	}
	var out []string
	for s := range set {
		out = append(out, s)
	}
	sort.Strings(out)
	return out, nil
}
