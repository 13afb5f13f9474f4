package main

import (
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/json"
	"encoding/pem"
	"fmt"
	"io"
	"log"
	"math/big"
	"net"
	"net/http"
	"os"
	"path/filepath"
	"sync"
	"time"

	"github.com/filecoin-project/storetheindex/config"
	"github.com/filecoin-project/storetheindex/internal/lotus"
	"github.com/filecoin-project/storetheindex/internal/registry"
	"github.com/ipfs/go-cid"
	"github.com/libp2p/go-libp2p-core/peer"
	"github.com/multiformats/go-multiaddr"
)

// Discovery with the discoverer that the daemon uses: a stand-in for the Lotus
// gateway answers from a table of miners.

var (
	lotusCert tls.Certificate
	lotusOnce sync.Once
)

// lotusSetup makes a certificate for 127.0.0.1 that this process trusts. It has
// to run before anything else verifies a certificate.
func lotusSetup() {
	lotusOnce.Do(func() {
		key, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
		must(err)
		tpl := &x509.Certificate{
			SerialNumber: big.NewInt(1), Subject: pkix.Name{CommonName: "verifmon"},
			NotBefore: time.Now().Add(-24 * time.Hour), NotAfter: time.Now().Add(240 * time.Hour),
			IsCA: true, BasicConstraintsValid: true, KeyUsage: x509.KeyUsageDigitalSignature | x509.KeyUsageCertSign,
			ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth},
			IPAddresses: []net.IP{net.IPv4(127, 0, 0, 1)},
		}
		der, err := x509.CreateCertificate(rand.Reader, tpl, tpl, &key.PublicKey, key)
		must(err)
		dir, err := os.MkdirTemp("", "verifmon-ca")
		must(err)
		f := filepath.Join(dir, "ca.pem")
		must(os.WriteFile(f, pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der}), 0o600))
		must(os.Setenv("SSL_CERT_FILE", f))
		lotusCert = tls.Certificate{Certificate: [][]byte{der}, PrivateKey: key}
		// The roots are read once, at the first verification.
		leaf, err := x509.ParseCertificate(der)
		must(err)
		_, err = leaf.Verify(x509.VerifyOptions{})
		must(err)
		_ = os.RemoveAll(dir)
	})
}

type lotusMiner struct {
	peer  *peer.ID
	addrs [][]byte
	valid []string
	fault string
}

// lotusGate answers JSON-RPC requests.
type lotusGate struct {
	mu     sync.Mutex
	miners map[string]*lotusMiner
	head   []cid.Cid
	hang   chan struct{}
	fault  string // of the chain head
	calls  map[string]int
	bad    string
}

func (g *lotusGate) ServeHTTP(w http.ResponseWriter, q *http.Request) {
	tick()
	var req struct {
		ID     int
		Method string
		Params []json.RawMessage
	}
	_ = json.NewDecoder(q.Body).Decode(&req)
	g.mu.Lock()
	g.calls[req.Method]++
	if q.URL.Path != "/rpc/v1" {
		g.bad = "request to " + q.URL.Path
	}
	fault := ""
	var result interface{}
	switch req.Method {
	case "Filecoin.ChainHead":
		fault = g.fault
		result = map[string]interface{}{"Cids": g.head, "Blocks": []int{}, "Height": 12}
	case "Filecoin.StateMinerInfo":
		var addr string
		var tip []cid.Cid
		if len(req.Params) != 2 || json.Unmarshal(req.Params[0], &addr) != nil || json.Unmarshal(req.Params[1], &tip) != nil {
			g.bad = fmt.Sprintf("parameters %s", req.Params)
			break
		}
		if fmt.Sprint(tip) != fmt.Sprint(g.head) {
			g.bad = fmt.Sprintf("asked at %v, the chain head is %v", tip, g.head)
		}
		m := g.miners[addr[1:]]
		if m == nil {
			fault = "rpc"
			break
		}
		fault = m.fault
		info := map[string]interface{}{"Owner": "t01", "Worker": "t02", "NewWorker": "<empty>", "SectorSize": 34359738368, "Multiaddrs": m.addrs, "PeerId": nil}
		if m.peer != nil {
			info["PeerId"] = m.peer.String()
		}
		result = info
	default:
		g.bad = "method " + req.Method
	}
	hang := g.hang
	g.mu.Unlock()
	w.Header().Set("Content-Type", "application/json")
	enc := json.NewEncoder(w)
	switch fault {
	case "500":
		w.WriteHeader(500)
		return
	case "rpc":
		_ = enc.Encode(map[string]interface{}{"jsonrpc": "2.0", "id": req.ID, "error": map[string]interface{}{"code": 1, "message": "failed"}})
		return
	case "garbage":
		_, _ = w.Write([]byte("{nothing"))
		return
	case "hang":
		<-hang
		return
	case "trickle":
		// The answer begins, but does not end.
		_, _ = w.Write([]byte(`{"jsonrpc": "2.0", "result": {`))
		if f, ok := w.(http.Flusher); ok {
			f.Flush()
		}
		<-hang
		return
	case "drop":
		panic(http.ErrAbortHandler)
	}
	_ = enc.Encode(map[string]interface{}{"jsonrpc": "2.0", "id": req.ID, "result": result})
}

func p13Lotus(c *Ctx, n int) {
	r := c.Rng("lotus", n)
	g := &lotusGate{miners: map[string]*lotusMiner{}, calls: map[string]int{}, hang: make(chan struct{}), head: []cid.Cid{testCid(fmt.Sprint("tip", n)), testCid(fmt.Sprint("tap", n))}}
	lis, err := tls.Listen("tcp", "127.0.0.1:0", &tls.Config{Certificates: []tls.Certificate{lotusCert}})
	must(err)
	srv := &http.Server{Handler: g, ErrorLog: log.New(io.Discard, "", 0)}
	go func() { _ = srv.Serve(lis) }()
	defer srv.Close()
	// Unblock handlers before the server goes.
	defer close(g.hang)
	disc, err := lotus.NewDiscoverer(lis.Addr().String())
	must(err)
	var ids []peer.ID
	for _, x := range newIdents(r, 3) {
		ids = append(ids, x.ID)
	}
	faults := []string{"", "", "", "", "500", "rpc", "garbage", "drop"}
	if n%6 == 0 {
		faults = []string{"", "hang", "trickle"}
	}
	for k := 0; k < 8; k++ {
		m := &lotusMiner{fault: faults[r.Intn(len(faults))]}
		if r.Intn(6) != 0 {
			id := ids[r.Intn(len(ids))]
			m.peer = &id
		}
		for j := r.Intn(4); j > 0; j-- {
			if r.Intn(4) == 0 {
				m.addrs = append(m.addrs, randBytes(r, 6))
				if _, e := multiaddr.NewMultiaddrBytes(m.addrs[len(m.addrs)-1]); e == nil {
					m.addrs = m.addrs[:len(m.addrs)-1]
				}
				continue
			}
			a := testAddr(r.Intn(4000))
			m.addrs = append(m.addrs, a.Bytes())
			m.valid = append(m.valid, a.String())
		}
		g.miners[fmt.Sprint("0", 1000+k)] = m
	}
	wb := newWB(nil)
	dc := regConfig()
	dc.RediscoverWait = 0
	dc.Timeout = config.Duration(time.Minute)
	hangs := n%6 == 0
	if hangs {
		dc.Timeout = config.Duration(time.Second)
	}
	reg, err := registry.NewRegistry(bg, dc, wb, disc)
	must(err)
	newDrain(reg)
	defer reg.Close()
	want := map[peer.ID]*regRec{}
	asks := 12
	if hangs {
		asks = 3
	}
	for k := 0; k < asks; k++ {
		id := ids[r.Intn(len(ids))]
		x := r.Intn(9)
		addr := fmt.Sprint([]string{"t", "f"}[r.Intn(2)], "0", 1000+x) // 1008 is unknown
		m := g.miners[addr[1:]]
		if m != nil && m.peer != nil && r.Intn(2) == 0 {
			id = *m.peer
		}
		if r.Intn(8) == 0 {
			addr, m = []string{"", "x01000", "t0", "01000", "t09999999999999999999999"}[r.Intn(5)], nil
		}
		g.mu.Lock()
		g.fault = ""
		if !hangs && r.Intn(10) == 0 {
			g.fault = []string{"500", "rpc", "garbage", "drop"}[r.Intn(4)]
		} else if hangs && r.Intn(3) == 0 {
			g.fault = []string{"hang", "trickle"}[r.Intn(2)]
		}
		fault := g.fault
		g.mu.Unlock()
		good := fault == "" && m != nil && m.fault == "" && m.peer != nil && *m.peer == id
		what := fmt.Sprintf("discovery of %s at %q, miner %+v, gateway fault %q", shortPeer(id), addr, m, fault)
		res := make(chan error, 1)
		go func() { res <- reg.Discover(id, addr, true) }()
		var err error
		got := false
		if !c.Await("no-answer", "an answer to "+what, func() bool {
			select {
			case err = <-res:
				got = true
			default:
			}
			return got
		}) {
			return
		}
		c.Eval(1)
		g.mu.Lock()
		bad := g.bad
		g.mu.Unlock()
		if bad != "" {
			c.Violate("gateway", "%s: %s", what, bad)
			return
		}
		if err == nil && !good {
			c.Violate("answer", "%s succeeded", what)
			return
		}
		if err != nil && good {
			if hangs {
				c.Inconclusive("%s: %v", what, err) // within a short timeout
				return
			}
			if len(m.valid) != 0 {
				c.Violate("answer", "%s failed: %v", what, err)
				return
			}
		}
		if err == nil {
			want[id] = &regRec{id: id, addrs: m.valid, disc: addr}
		}
		if !checkReg(c, "wrong-record", "after "+what, reg, ids, want) {
			return
		}
		f := fault
		if m != nil {
			f += "/" + m.fault
		}
		c.Seen(fmt.Sprint("lotus ", f, m != nil, good, err == nil, m != nil && len(m.valid) != len(m.addrs)))
		c.Count("gateway discoveries", 1)
	}
}
