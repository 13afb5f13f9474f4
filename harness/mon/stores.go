package main

import (
	"context"
	"errors"
	"fmt"
	"sync"
	"sync/atomic"

	indexer "github.com/filecoin-project/go-indexer-core"
	"github.com/ipfs/go-datastore"
	"github.com/ipfs/go-datastore/query"
	dssync "github.com/ipfs/go-datastore/sync"
	"github.com/libp2p/go-libp2p-core/peer"
	"github.com/multiformats/go-multihash"
)

var errCrashed = errors.New("verifmon: stopped")

// Gate lets one instance of the code under test be cut off from its stores, as
// if the process had stopped: every later operation fails and has no effect.
type Gate struct {
	cut int32
	// n counts mutating operations (datastore and index) passed so far.
	n int64
	// at, if > 0, cuts just before the at-th mutating operation.
	at int64
	// onCut is called once, when the gate closes.
	onCut func()
	once  sync.Once
}

func (g *Gate) Cut() {
	atomic.StoreInt32(&g.cut, 1)
	g.once.Do(func() {
		if g.onCut != nil {
			g.onCut()
		}
	})
}
func (g *Gate) IsCut() bool { return g != nil && atomic.LoadInt32(&g.cut) == 1 }
func (g *Gate) Ops() int64  { return atomic.LoadInt64(&g.n) }

// mutate is called before each mutating operation.
func (g *Gate) mutate() error {
	if g == nil {
		return nil
	}
	if g.IsCut() {
		return errCrashed
	}
	n := atomic.AddInt64(&g.n, 1)
	if at := atomic.LoadInt64(&g.at); at > 0 && n >= at {
		g.Cut()
		return errCrashed
	}
	return nil
}

// memDS is the storage that survives a simulated crash.
func memDS() datastore.Batching { return dssync.MutexWrap(datastore.NewMapDatastore()) }

// DS is a monitored datastore.
type DS struct {
	inner datastore.Batching
	gate  *Gate
	// onOp, if set, sees every operation before it happens, and may fail it.
	onOp func(op string, key datastore.Key, val []byte) error
	// after, if set, is called after every successful mutation.
	after func(op string, key datastore.Key)
	muts  int64
}

func (d *DS) pre(op string, k datastore.Key, v []byte, mut bool) error {
	// Reads are not progress: monitors poll the latest sync through them.
	if mut {
		tick()
	}
	if d.gate.IsCut() {
		return errCrashed
	}
	if d.onOp != nil {
		if err := d.onOp(op, k, v); err != nil {
			return err
		}
	}
	if mut {
		if err := d.gate.mutate(); err != nil {
			return err
		}
		atomic.AddInt64(&d.muts, 1)
	}
	return nil
}

func (d *DS) Get(ctx context.Context, k datastore.Key) ([]byte, error) {
	if err := d.pre("get", k, nil, false); err != nil {
		return nil, err
	}
	return d.inner.Get(ctx, k)
}
func (d *DS) Has(ctx context.Context, k datastore.Key) (bool, error) {
	if err := d.pre("has", k, nil, false); err != nil {
		return false, err
	}
	return d.inner.Has(ctx, k)
}
func (d *DS) GetSize(ctx context.Context, k datastore.Key) (int, error) {
	if err := d.pre("size", k, nil, false); err != nil {
		return 0, err
	}
	return d.inner.GetSize(ctx, k)
}
func (d *DS) Query(ctx context.Context, q query.Query) (query.Results, error) {
	if d.gate.IsCut() {
		return nil, errCrashed
	}
	return d.inner.Query(ctx, q)
}
func (d *DS) Put(ctx context.Context, k datastore.Key, v []byte) error {
	if err := d.pre("put", k, v, true); err != nil {
		return err
	}
	err := d.inner.Put(ctx, k, v)
	if err == nil && d.after != nil {
		d.after("put", k)
	}
	return err
}
func (d *DS) Delete(ctx context.Context, k datastore.Key) error {
	if err := d.pre("delete", k, nil, true); err != nil {
		return err
	}
	err := d.inner.Delete(ctx, k)
	if err == nil && d.after != nil {
		d.after("delete", k)
	}
	return err
}
func (d *DS) Sync(ctx context.Context, k datastore.Key) error {
	if err := d.pre("sync", k, nil, false); err != nil {
		return err
	}
	return d.inner.Sync(ctx, k)
}
func (d *DS) Close() error { return nil }
func (d *DS) Batch(ctx context.Context) (datastore.Batch, error) {
	return datastore.NewBasicBatch(d), nil
}

// keys lists all keys of a datastore.
func dsKeys(ds datastore.Datastore) []string {
	res, err := ds.Query(context.Background(), query.Query{KeysOnly: true})
	must(err)
	defer res.Close()
	var out []string
	for r := range res.Next() {
		must(r.Error)
		out = append(out, r.Entry.Key)
	}
	return out
}

// cloneDS copies a datastore's contents.
func cloneDS(ds datastore.Datastore) datastore.Batching {
	out := memDS()
	ctx := context.Background()
	for _, k := range dsKeys(ds) {
		v, err := ds.Get(ctx, datastore.NewKey(k))
		must(err)
		must(out.Put(ctx, datastore.NewKey(k), v))
	}
	return out
}

// IxOp is one recorded index mutation.
type IxOp struct {
	Seq      int64
	Kind     string // put, remove, rmctx, rmprov
	Prov     peer.ID
	Ctx      string
	Meta     string
	Mhs      []string
	Err      error
	Inflight int // other mutations of the same provider in flight at begin
}

// IX is a monitored index store.
type IX struct {
	inner indexer.Interface
	gate  *Gate
	onOp  func(op *IxOp) error
	after func(op *IxOp)
	onGet func(m multihash.Multihash) error

	mu       sync.Mutex
	seq      int64
	log      []*IxOp
	inflight map[peer.ID]int
	muts     int64
}

func newIX(inner indexer.Interface) *IX { return &IX{inner: inner, inflight: map[peer.ID]int{}} }

func (x *IX) begin(op *IxOp) error {
	tick()
	if x.gate.IsCut() {
		return errCrashed
	}
	x.mu.Lock()
	x.seq++
	op.Seq = x.seq
	op.Inflight = x.inflight[op.Prov]
	x.inflight[op.Prov]++
	x.log = append(x.log, op)
	x.mu.Unlock()
	if x.onOp != nil {
		if err := x.onOp(op); err != nil {
			return err
		}
	}
	if err := x.gate.mutate(); err != nil {
		return err
	}
	atomic.AddInt64(&x.muts, 1)
	return nil
}

func (x *IX) end(op *IxOp, err error) {
	x.mu.Lock()
	if op.Seq != 0 {
		x.inflight[op.Prov]--
	}
	op.Err = err
	x.mu.Unlock()
	if err == nil && x.after != nil {
		x.after(op)
	}
	tick()
}

func mhStrings(mhs []multihash.Multihash) []string {
	out := make([]string, len(mhs))
	for i := range mhs {
		out[i] = string(mhs[i])
	}
	return out
}

func (x *IX) do(op *IxOp, f func() error) (err error) {
	defer func() { x.end(op, err) }()
	if err = x.begin(op); err != nil {
		return err
	}
	return f()
}

func (x *IX) Get(m multihash.Multihash) ([]indexer.Value, bool, error) {
	if x.gate.IsCut() {
		return nil, false, errCrashed
	}
	if x.onGet != nil {
		if err := x.onGet(m); err != nil {
			return nil, false, err
		}
	}
	return x.inner.Get(m)
}
func (x *IX) Put(v indexer.Value, mhs ...multihash.Multihash) error {
	op := &IxOp{Kind: "put", Prov: v.ProviderID, Ctx: string(v.ContextID), Meta: string(v.MetadataBytes), Mhs: mhStrings(mhs)}
	return x.do(op, func() error { return x.inner.Put(v, mhs...) })
}
func (x *IX) Remove(v indexer.Value, mhs ...multihash.Multihash) error {
	op := &IxOp{Kind: "remove", Prov: v.ProviderID, Ctx: string(v.ContextID), Mhs: mhStrings(mhs)}
	return x.do(op, func() error { return x.inner.Remove(v, mhs...) })
}
func (x *IX) RemoveProvider(ctx context.Context, p peer.ID) error {
	op := &IxOp{Kind: "rmprov", Prov: p}
	return x.do(op, func() error { return x.inner.RemoveProvider(ctx, p) })
}
func (x *IX) RemoveProviderContext(p peer.ID, ctxID []byte) error {
	op := &IxOp{Kind: "rmctx", Prov: p, Ctx: string(ctxID)}
	return x.do(op, func() error { return x.inner.RemoveProviderContext(p, ctxID) })
}
func (x *IX) Size() (int64, error)            { return x.inner.Size() }
func (x *IX) Flush() error                    { return x.inner.Flush() }
func (x *IX) Close() error                    { return x.inner.Close() }
func (x *IX) Iter() (indexer.Iterator, error) { return x.inner.Iter() }

func (x *IX) Log() []*IxOp {
	x.mu.Lock()
	defer x.mu.Unlock()
	return append([]*IxOp(nil), x.log...)
}

func (o *IxOp) String() string {
	return fmt.Sprintf("#%d %s ctx=%q meta=%q mhs=%d err=%v", o.Seq, o.Kind, o.Ctx, o.Meta, len(o.Mhs), o.Err)
}
