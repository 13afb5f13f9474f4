package main

import (
	"strings"
	"time"

	"github.com/filecoin-project/go-legs/dtsync"
	"github.com/filecoin-project/go-legs/gpubsub"
	"github.com/ipfs/go-cid"
	"github.com/libp2p/go-libp2p"
	"github.com/libp2p/go-libp2p-core/host"
	"github.com/libp2p/go-libp2p-core/peer"
	pubsub "github.com/libp2p/go-libp2p-pubsub"
	"github.com/multiformats/go-multiaddr"
)

// DtPub serves a publisher's chain over libp2p data transfer.
type DtPub struct {
	*Pub
	H   host.Host
	pub interface {
		Close() error
	}
	setRoot    func(cid.Cid)
	updateRoot func(cid.Cid) error
	topic      *pubsub.Topic
}

// awaitSubscriber waits until the publisher knows that the peer follows its
// topic: before, what it publishes is lost, and the same message published
// again is taken for a duplicate.
func (d *DtPub) awaitSubscriber(ai peer.AddrInfo) bool {
	for k := 0; k < 6; k++ {
		if d.H.Connect(bg, ai) == nil && upTo(15*time.Second, func() bool {
			for _, x := range d.topic.ListPeers() {
				if x == ai.ID {
					return true
				}
			}
			return false
		}) {
			return true
		}
		_ = d.H.Network().ClosePeer(ai.ID)
		time.Sleep(200 * time.Millisecond)
	}
	return false
}

func newDtPub(p *Pub) *DtPub {
	h, err := libp2p.New(libp2p.Identity(p.Priv), libp2p.ListenAddrStrings("/ip4/127.0.0.1/tcp/0"), libp2p.DisableRelay())
	must(err)
	topic, err := gpubsub.MakePubsub(bg, h, "/verif/ingest")
	must(err)
	pb, err := dtsync.NewPublisher(h, memDS(), p.lsys(nil), "/verif/ingest", dtsync.Topic(topic))
	must(err)
	// The publisher starts to serve its head in the background.
	upTo(time.Minute, func() bool {
		for _, pr := range h.Mux().Protocols() {
			if strings.HasPrefix(pr, "/legs/head/") {
				return true
			}
		}
		return false
	})
	return &DtPub{Pub: p, H: h, pub: pb, topic: topic, setRoot: func(c cid.Cid) { must(pb.SetRoot(bg, c)) },
		updateRoot: func(c cid.Cid) error { return pb.UpdateRoot(bg, c) }}
}

func (d *DtPub) Addr() multiaddr.Multiaddr { return d.H.Addrs()[0] }

// Refresh makes the publisher's current head the root served over libp2p.
func (d *DtPub) Refresh() { d.setRoot(d.Head()) }

// Close does not wait: closing a publisher waits for its connections to idle.
func (d *DtPub) Close() {
	go func() {
		_ = d.H.Close()
		_ = d.pub.Close()
	}()
}
