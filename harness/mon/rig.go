package main

import (
	"context"
	crand "crypto/rand"
	"fmt"
	"strings"
	"time"

	indexer "github.com/filecoin-project/go-indexer-core"
	"github.com/filecoin-project/go-indexer-core/cache"
	"github.com/filecoin-project/go-indexer-core/cache/radixcache"
	"github.com/filecoin-project/go-indexer-core/engine"
	"github.com/filecoin-project/go-indexer-core/store/memory"
	"github.com/filecoin-project/storetheindex/config"
	"github.com/filecoin-project/storetheindex/internal/ingest"
	"github.com/filecoin-project/storetheindex/internal/registry"
	"github.com/filecoin-project/storetheindex/internal/registry/discovery"
	"github.com/ipfs/go-cid"
	"github.com/ipfs/go-datastore"
	"github.com/libp2p/go-libp2p"
	"github.com/libp2p/go-libp2p-core/crypto"
	"github.com/libp2p/go-libp2p-core/host"
	"github.com/libp2p/go-libp2p-core/peer"
)

var bg = context.Background()

// RigOpts configures one instance of the indexer.
type RigOpts struct {
	Store      datastore.Batching // persistent state; nil: fresh
	Core       indexer.Interface  // persistent index; nil: fresh memory store
	Gate       *Gate
	Cache      int
	Ingest     func(*config.Ingest)
	Discovery  func(*config.Discovery)
	Discoverer discovery.Discoverer
	Listen     bool
	NoIngester bool
	DSHook     func(op string, key datastore.Key, val []byte) error
	IXHook     func(op *IxOp) error
	Host       host.Host
	NoRegStore bool
}

// Rig is one running instance of the indexer's core.
type Rig struct {
	Opts  RigOpts
	H     host.Host
	Store datastore.Batching
	Core  indexer.Interface
	DS    *DS
	IX    *IX
	Reg   *registry.Registry
	Ing   *ingest.Ingester
}

func newCore(cacheSize int) indexer.Interface {
	var c cache.Interface
	if cacheSize > 0 {
		c = radixcache.New(cacheSize)
	}
	return engine.New(c, memory.New())
}

func newHost(listen bool) host.Host {
	priv, _, err := crypto.GenerateEd25519Key(crand.Reader)
	must(err)
	opts := []libp2p.Option{libp2p.DisableRelay(), libp2p.Identity(priv)}
	if listen {
		opts = append(opts, libp2p.ListenAddrStrings("/ip4/127.0.0.1/tcp/0"))
	} else {
		opts = append(opts, libp2p.NoListenAddrs)
	}
	h, err := libp2p.New(opts...)
	must(err)
	return h
}

func ingestConfig() config.Ingest {
	c := config.NewIngest()
	c.PubSubTopic = "/verif/ingest"
	c.HttpSyncRetryMax = 0
	c.HttpSyncRetryWaitMin = config.Duration(time.Millisecond)
	c.HttpSyncRetryWaitMax = config.Duration(5 * time.Millisecond)
	c.HttpSyncTimeout = config.Duration(5 * time.Minute)
	c.StoreBatchSize = 256
	return c
}

func newRig(o RigOpts) *Rig {
	r, err := tryRig(o)
	must(err)
	return r
}

func tryRig(o RigOpts) (*Rig, error) {
	r := &Rig{Opts: o, Store: o.Store, Core: o.Core, H: o.Host}
	if r.Store == nil {
		r.Store = memDS()
	}
	if r.Core == nil {
		r.Core = newCore(o.Cache)
	}
	if r.H == nil {
		r.H = newHost(o.Listen)
	}
	r.DS = &DS{inner: r.Store, gate: o.Gate, onOp: o.DSHook}
	r.IX = newIX(r.Core)
	r.IX.gate = o.Gate
	r.IX.onOp = o.IXHook
	dc := config.NewDiscovery()
	dc.LotusGateway = ""
	if o.Discovery != nil {
		o.Discovery(&dc)
	}
	var err error
	var rds datastore.Datastore = r.DS
	if o.NoRegStore {
		rds = nil
	}
	r.Reg, err = registry.NewRegistry(bg, dc, rds, o.Discoverer)
	if err != nil {
		r.H.Close()
		return nil, err
	}
	if !o.NoIngester {
		ic := ingestConfig()
		if o.Ingest != nil {
			o.Ingest(&ic)
		}
		r.Ing, err = ingest.NewIngester(ic, r.H, r.IX, r.Reg, r.DS)
		if err != nil {
			r.Reg.Close()
			r.H.Close()
			return nil, err
		}
	}
	return r, nil
}

// Close shuts the instance down; it reports whether everything returned.
func (r *Rig) Close(c *Ctx) bool {
	done := make(chan struct{})
	go func() {
		defer close(done)
		if r.Ing != nil {
			_ = r.Ing.Close()
		}
		_ = r.Reg.Close()
		_ = r.H.Close()
	}()
	return c.Await("close-stuck", "closing the indexer", func() bool { return isDone(done) })
}

// Abandon shuts the instance down in the background, without waiting.
func (r *Rig) Abandon() {
	go func() {
		if r.Ing != nil {
			_ = r.Ing.Close()
		}
		_ = r.Reg.Close()
		_ = r.H.Close()
	}()
}

func isDone(ch <-chan struct{}) bool {
	select {
	case <-ch:
		return true
	default:
		return false
	}
}

// SyncWait runs an explicit sync to its end. The CID is Undef if the sync
// channel closed without delivering; ok is false if it never ended.
func (r *Rig) SyncWait(c *Ctx, ctx context.Context, p *Pub, depth int, resync bool) (cid.Cid, bool) {
	out, err := r.Ing.Sync(ctx, p.ID, p.addr, depth, resync)
	if err != nil {
		return cid.Undef, true
	}
	return r.awaitSync(c, out)
}

func (r *Rig) awaitSync(c *Ctx, out <-chan cid.Cid) (cid.Cid, bool) {
	got := cid.Undef
	done := false
	ok := c.Await("sync-stuck", "waiting for a sync to end", func() bool {
		select {
		case x, open := <-out:
			if open {
				got = x
			}
			done = true
		default:
		}
		return done
	})
	return got, ok
}

// Latest is the reported latest synced advertisement of a publisher.
func (r *Rig) Latest(p peer.ID) cid.Cid {
	l, err := r.Ing.GetLatestSync(p)
	must(err)
	return l
}

// leftovers lists datastore keys under which a block is stored: those named by
// a content identifier, and those holding the bytes of a published block.
func leftovers(ds datastore.Datastore, p *Pub) []string {
	var out []string
	p.mu.Lock()
	defer p.mu.Unlock()
	vals := map[string]bool{}
	for _, b := range p.blocks {
		vals[string(b)] = true
	}
	for _, k := range dsKeys(ds) {
		if strings.HasPrefix(k, "/sync/") || strings.HasPrefix(k, "/adProcessed/") || strings.HasPrefix(k, "/registry/pinfo/") {
			continue
		}
		if _, err := cid.Decode(k[strings.LastIndex(k, "/")+1:]); err == nil {
			out = append(out, k)
			continue
		}
		if v, err := ds.Get(bg, datastore.NewKey(k)); err == nil && vals[string(v)] {
			out = append(out, k)
		}
	}
	return out
}

func caseName(parts ...interface{}) string { return strings.ReplaceAll(fmt.Sprint(parts...), " ", "-") }
