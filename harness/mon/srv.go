package main

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"os"
	"strings"
	"sync/atomic"
	"time"

	v0 "github.com/filecoin-project/storetheindex/api/v0"
	ingestpb "github.com/filecoin-project/storetheindex/api/v0/ingest/pb"
	adminserver "github.com/filecoin-project/storetheindex/server/admin/http"
	httpfinderserver "github.com/filecoin-project/storetheindex/server/finder/http"
	p2pfinderserver "github.com/filecoin-project/storetheindex/server/finder/libp2p"
	httpingestserver "github.com/filecoin-project/storetheindex/server/ingest/http"
	p2pingestserver "github.com/filecoin-project/storetheindex/server/ingest/libp2p"
	"github.com/libp2p/go-libp2p-core/host"
	"github.com/libp2p/go-libp2p-core/peer"
	"github.com/libp2p/go-libp2p-core/peerstore"
	"github.com/libp2p/go-libp2p-core/protocol"
	"github.com/libp2p/go-msgio"
)

// Srv runs the indexer's public servers over a rig.
type Srv struct {
	*Rig
	FindURL, IngestURL, AdminURL string
	ReloadCh                     chan chan error
	stop                         []func(context.Context) error
	hc                           *http.Client
	p2p                          host.Host // a client host
	cancel                       context.CancelFunc
}

type srvOpts struct {
	noAdmin, noFind, noIngest, noP2P bool
}

func newSrv(rig *Rig, o srvOpts) *Srv {
	ctx, cancel := context.WithCancel(bg)
	s := &Srv{Rig: rig, ReloadCh: make(chan chan error, 8), cancel: cancel}
	tr := &http.Transport{MaxIdleConnsPerHost: 64, ExpectContinueTimeout: time.Minute}
	s.hc = &http.Client{Transport: tr}
	ip := ownIP()
	if !o.noFind {
		f, err := httpfinderserver.New(ip+":0", rig.IX, rig.Reg)
		must(err)
		go func() { _ = f.Start() }()
		s.FindURL = f.URL()
		s.stop = append(s.stop, f.Shutdown)
	}
	if !o.noIngest {
		f, err := httpingestserver.New(ip+":0", rig.IX, rig.Ing, rig.Reg)
		must(err)
		go func() { _ = f.Start() }()
		s.IngestURL = f.URL()
		s.stop = append(s.stop, f.Shutdown)
	}
	if !o.noAdmin {
		var addr string
		var f *adminserver.Server
		var err error
		for try := 0; try < 20; try++ {
			addr = freeAddr()
			if f, err = adminserver.New(addr, rig.IX, rig.Ing, rig.Reg, s.ReloadCh); err == nil {
				break
			}
		}
		must(err)
		go func() { _ = f.Start() }()
		s.AdminURL = "http://" + addr
		s.stop = append(s.stop, f.Shutdown)
	}
	if !o.noP2P {
		p2pfinderserver.New(ctx, rig.H, rig.IX, rig.Reg)
		p2pingestserver.New(ctx, rig.H, rig.IX, rig.Ing, rig.Reg)
		s.p2p = newHost(false)
		s.p2p.Peerstore().AddAddrs(rig.H.ID(), rig.H.Addrs(), peerstore.PermanentAddrTTL)
	}
	return s
}

var ipCount uint32

// ownIP is a loopback address that nothing else of this run listens on, nor
// most likely another process, so that a port which was given up there is not
// taken over by an unrelated server.
func ownIP() string {
	n := atomic.AddUint32(&ipCount, 1)
	pid := os.Getpid()
	ip := fmt.Sprintf("127.%d.%d.%d", 1+(pid+int(n>>8)*31)%250, 1+(pid/250)%250, 1+n%250)
	l, err := net.Listen("tcp", ip+":0")
	if err != nil {
		return "127.0.0.1"
	}
	l.Close()
	return ip
}

// freeAddr is a local address that was free a moment ago.
func freeAddr() string {
	l, err := net.Listen("tcp", ownIP()+":0")
	must(err)
	defer l.Close()
	return l.Addr().String()
}

// Stop shuts the servers down and then the rig, in the background.
func (s *Srv) Stop() {
	go func() {
		ctx, cancel := context.WithTimeout(bg, 10*time.Second)
		defer cancel()
		s.hc.CloseIdleConnections()
		if s.p2p != nil {
			_ = s.p2p.Close()
		}
		for _, f := range s.stop {
			_ = f(ctx)
		}
		s.cancel()
		s.Rig.Abandon()
	}()
}

// reply is what a client saw. Status is the HTTP status (or the status inside
// a libp2p error response); 0 means there was no answer.
type reply struct {
	Status int
	Body   []byte
	Type   int32 // libp2p response type
	Hdr    http.Header
	Err    error
}

func (r reply) ok() bool { return r.Status >= 200 && r.Status < 300 }

func (r reply) String() string {
	b := string(r.Body)
	if len(b) > 120 {
		b = b[:120] + "..."
	}
	return fmt.Sprintf("status %d %q err=%v", r.Status, b, r.Err)
}

// HTTP makes one request.
func (s *Srv) HTTP(method, url string, body []byte, hdr ...string) reply {
	ctx, cancel := context.WithTimeout(bg, 90*time.Second)
	defer cancel()
	req, err := http.NewRequestWithContext(ctx, method, url, bytes.NewReader(body))
	if err != nil {
		return reply{Err: err}
	}
	for i := 0; i+1 < len(hdr); i += 2 {
		req.Header.Set(hdr[i], hdr[i+1])
	}
	tick()
	rsp, err := s.hc.Do(req)
	tick()
	if err != nil {
		return reply{Err: err}
	}
	defer rsp.Body.Close()
	b, err := io.ReadAll(rsp.Body)
	return reply{Status: rsp.StatusCode, Body: b, Hdr: rsp.Header, Err: err}
}

// rawP2P sends one message on a new stream and returns the answer bytes.
func (s *Srv) rawP2P(proto protocol.ID, msg []byte) ([]byte, error) {
	return rawP2P(s.p2p, s.H.ID(), proto, msg)
}

func rawP2P(h host.Host, to peer.ID, proto protocol.ID, msg []byte) ([]byte, error) {
	ctx, cancel := context.WithTimeout(bg, 90*time.Second)
	defer cancel()
	st, err := h.NewStream(ctx, to, proto)
	if err != nil {
		return nil, err
	}
	defer func() { _ = st.Close() }()
	_ = st.SetDeadline(time.Now().Add(90 * time.Second))
	w := msgio.NewVarintWriter(st)
	tick()
	if err = w.WriteMsg(msg); err != nil {
		_ = st.Reset()
		return nil, err
	}
	r := msgio.NewVarintReaderSize(st, 1<<22)
	b, err := r.ReadMsg()
	tick()
	if err != nil {
		_ = st.Reset()
		return nil, err
	}
	out := append([]byte(nil), b...)
	r.ReleaseMsg(b)
	return out, nil
}

// Ingest sends a signed request by one of the transports.
func (s *Srv) Ingest(via, what string, data []byte) reply {
	if via == "http" {
		return s.HTTP("POST", s.IngestURL+"/"+what, data)
	}
	t := map[string]ingestpb.IngestMessage_MessageType{"register": ingestpb.IngestMessage_REGISTER_PROVIDER,
		"discover": ingestpb.IngestMessage_DISCOVER_PROVIDER, "index": ingestpb.IngestMessage_INDEX_CONTENT}[what]
	b, err := (&ingestpb.IngestMessage{Type: t, Data: data}).Marshal()
	must(err)
	out, err := s.rawP2P(v0.IngestProtocolID, b)
	if err != nil {
		return reply{Err: err}
	}
	var m ingestpb.IngestMessage
	if err = m.Unmarshal(out); err != nil {
		return reply{Err: err}
	}
	if m.GetType() == ingestpb.IngestMessage_ERROR_RESPONSE {
		return reply{Status: p2pStatus(m.GetData()), Body: m.GetData(), Type: int32(m.GetType())}
	}
	return reply{Status: 200, Body: m.GetData(), Type: int32(m.GetType())}
}

// p2pStatus is the status in a libp2p error response.
func p2pStatus(data []byte) int {
	var m v0.ErrorMessage
	if err := json.Unmarshal(data, &m); err != nil {
		return 1 // not an error message
	}
	return m.Status
}

func isTimeout(err error) bool {
	return err != nil && (errors.Is(err, context.DeadlineExceeded) || strings.Contains(err.Error(), "deadline") || strings.Contains(err.Error(), "timeout"))
}
