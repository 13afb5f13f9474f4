package main

import (
	"context"
	"errors"
	"fmt"
	"sort"
	"strings"
	"sync"

	"github.com/filecoin-project/storetheindex/config"
	"github.com/filecoin-project/storetheindex/internal/registry"
	"github.com/ipfs/go-cid"
	"github.com/ipfs/go-datastore"
	"github.com/ipfs/go-datastore/query"
	"github.com/libp2p/go-libp2p-core/peer"
	"github.com/multiformats/go-multiaddr"
	"github.com/multiformats/go-multihash"
)

// This file holds what the registry checks share.

func regConfig() config.Discovery {
	dc := config.NewDiscovery()
	dc.LotusGateway = ""
	dc.Policy = config.Policy{Allow: true, Publish: true}
	return dc
}

func newReg(ds datastore.Datastore, mod func(*config.Discovery)) *registry.Registry {
	dc := regConfig()
	if mod != nil {
		mod(&dc)
	}
	r, err := registry.NewRegistry(bg, dc, ds, nil)
	must(err)
	return r
}

func testAddr(n int) multiaddr.Multiaddr {
	var s string
	switch n % 4 {
	case 0:
		s = fmt.Sprintf("/ip4/10.%d.%d.1/tcp/%d", n/250%250, n%250, 1000+n%50000)
	case 1:
		s = fmt.Sprintf("/dns4/host-%d.example/tcp/%d/http", n, 1000+n%50000)
	case 2:
		s = fmt.Sprintf("/ip6/::%x/udp/%d/quic", n+2, 1000+n%50000)
	default:
		s = fmt.Sprintf("/dns/h%d.example.org/tcp/443/https", n)
	}
	m, err := multiaddr.NewMultiaddr(s)
	must(err)
	return m
}

func testCid(label string) cid.Cid {
	mh, err := multihash.Sum([]byte(label), multihash.SHA2_256, -1)
	must(err)
	return cid.NewCidV1(cid.DagJSON, mh)
}

func addrStrings(as []multiaddr.Multiaddr) []string {
	out := make([]string, len(as))
	for i := range as {
		out[i] = as[i].String()
	}
	return out
}

// regRec is the observable content of a registration.
type regRec struct {
	id      peer.ID
	addrs   []string
	disc    string
	ad      cid.Cid
	adTime  int64 // 0: none
	pub     peer.ID
	pubAddr string
}

func recOf(i *registry.ProviderInfo) *regRec {
	if i == nil {
		return nil
	}
	r := &regRec{id: i.AddrInfo.ID, addrs: addrStrings(i.AddrInfo.Addrs), disc: i.DiscoveryAddr, ad: i.LastAdvertisement, pub: i.Publisher}
	if !i.LastAdvertisementTime.IsZero() {
		r.adTime = i.LastAdvertisementTime.UnixNano()
	}
	if i.PublisherAddr != nil {
		r.pubAddr = i.PublisherAddr.String()
	}
	return r
}

func (r *regRec) String() string {
	if r == nil {
		return "(none)"
	}
	return fmt.Sprintf("{%s addrs=%v disc=%q ad=%s@%d pub=%s@%s}", shortPeer(r.id), r.addrs, r.disc, shortCidU(r.ad), r.adTime, shortPeer(r.pub), r.pubAddr)
}

func shortPeer(p peer.ID) string {
	s := p.String()
	if len(s) > 6 {
		return s[len(s)-6:]
	}
	return s
}

func shortCidU(c cid.Cid) string {
	if c == cid.Undef {
		return "-"
	}
	return shortCid(c)
}

// same compares two registrations. Where the publisher is the provider itself
// and no publisher address was given, the provider's address stands for it.
func (r *regRec) same(o *regRec) bool {
	if r == nil || o == nil {
		return r == o
	}
	if r.id != o.id || strings.Join(r.addrs, ",") != strings.Join(o.addrs, ",") || r.disc != o.disc || r.ad != o.ad || r.adTime != o.adTime || r.pub != o.pub {
		return false
	}
	if r.pubAddr == o.pubAddr {
		return true
	}
	own := func(x, y *regRec) bool {
		if x.pubAddr != "" || x.pub != x.id {
			return false
		}
		for _, a := range x.addrs {
			if a == y.pubAddr {
				return true
			}
		}
		return false
	}
	return own(r, o) || own(o, r)
}

// regView is what the registry says about a set of providers.
func regView(reg *registry.Registry, ids []peer.ID) map[peer.ID]*regRec {
	out := map[peer.ID]*regRec{}
	for _, id := range ids {
		if r := recOf(reg.ProviderInfo(id)); r != nil {
			out[id] = r
		}
	}
	return out
}

// listView is the registry's listing.
func listView(reg *registry.Registry) (map[peer.ID]*regRec, string) {
	out := map[peer.ID]*regRec{}
	dup := ""
	for _, i := range reg.AllProviderInfo() {
		r := recOf(i)
		if out[r.id] != nil {
			dup = "listed twice: " + r.String()
		}
		out[r.id] = r
	}
	return out, dup
}

func diffViews(got, want map[peer.ID]*regRec) string {
	var d []string
	for id, w := range want {
		if !w.same(got[id]) {
			d = append(d, fmt.Sprintf("got %s, want %s", got[id], w))
		}
	}
	for id, g := range got {
		if want[id] == nil {
			d = append(d, fmt.Sprintf("got %s, want (none)", g))
		}
	}
	sort.Strings(d)
	if len(d) > 3 {
		d = d[:3]
	}
	return strings.Join(d, "; ")
}

// checkReg compares everything the registry shows with the wanted records.
func checkReg(c *Ctx, key, when string, reg *registry.Registry, ids []peer.ID, want map[peer.ID]*regRec) bool {
	c.Eval(2 + len(ids))
	if d := diffViews(regView(reg, ids), want); d != "" {
		c.Violate(key, "%s: lookups: %s", when, d)
		return false
	}
	lv, dup := listView(reg)
	if dup != "" {
		c.Violate(key, "%s: %s", when, dup)
		return false
	}
	if d := diffViews(lv, want); d != "" {
		c.Violate(key, "%s: listing: %s", when, d)
		return false
	}
	for _, id := range ids {
		if got := reg.IsRegistered(id); got != (want[id] != nil) {
			c.Violate(key, "%s: IsRegistered(%s)=%v, record wanted: %s", when, shortPeer(id), got, want[id])
			return false
		}
	}
	return true
}

// WB is a datastore whose writes become durable only when synced.
type WB struct {
	mu    sync.Mutex
	live  map[datastore.Key][]byte
	dur   map[datastore.Key][]byte
	dirty map[datastore.Key]bool
	fail  func(op string, k datastore.Key) error
	muts  int
	shut  bool
}

func newWB(from map[datastore.Key][]byte) *WB {
	w := &WB{live: map[datastore.Key][]byte{}, dur: map[datastore.Key][]byte{}, dirty: map[datastore.Key]bool{}}
	for k, v := range from {
		w.live[k], w.dur[k] = v, v
	}
	return w
}

func (w *WB) op(op string, k datastore.Key) error {
	if w.shut {
		return errors.New("datastore closed")
	}
	if w.fail != nil {
		return w.fail(op, k)
	}
	return nil
}
func (w *WB) Get(_ context.Context, k datastore.Key) ([]byte, error) {
	w.mu.Lock()
	defer w.mu.Unlock()
	if err := w.op("get", k); err != nil {
		return nil, err
	}
	v, ok := w.live[k]
	if !ok {
		return nil, datastore.ErrNotFound
	}
	return v, nil
}
func (w *WB) Has(_ context.Context, k datastore.Key) (bool, error) {
	w.mu.Lock()
	defer w.mu.Unlock()
	_, ok := w.live[k]
	return ok, nil
}
func (w *WB) GetSize(_ context.Context, k datastore.Key) (int, error) {
	w.mu.Lock()
	defer w.mu.Unlock()
	v, ok := w.live[k]
	if !ok {
		return -1, datastore.ErrNotFound
	}
	return len(v), nil
}
func (w *WB) Query(ctx context.Context, q query.Query) (query.Results, error) {
	w.mu.Lock()
	defer w.mu.Unlock()
	if err := w.op("query", datastore.NewKey(q.Prefix)); err != nil {
		return nil, err
	}
	var es []query.Entry
	for k, v := range w.live {
		es = append(es, query.Entry{Key: k.String(), Value: v, Size: len(v)})
	}
	return query.NaiveQueryApply(q, query.ResultsWithEntries(q, es)), nil
}
func (w *WB) Put(_ context.Context, k datastore.Key, v []byte) error {
	tick()
	w.mu.Lock()
	defer w.mu.Unlock()
	if err := w.op("put", k); err != nil {
		return err
	}
	w.muts++
	w.live[k] = append([]byte(nil), v...)
	w.dirty[k] = true
	return nil
}
func (w *WB) Delete(_ context.Context, k datastore.Key) error {
	tick()
	w.mu.Lock()
	defer w.mu.Unlock()
	if err := w.op("delete", k); err != nil {
		return err
	}
	w.muts++
	delete(w.live, k)
	w.dirty[k] = true
	return nil
}
func (w *WB) Sync(_ context.Context, pre datastore.Key) error {
	w.mu.Lock()
	defer w.mu.Unlock()
	if err := w.op("sync", pre); err != nil {
		return err
	}
	for k := range w.dirty {
		if pre.String() == "/" || k == pre || k.IsDescendantOf(pre) {
			if v, ok := w.live[k]; ok {
				w.dur[k] = v
			} else {
				delete(w.dur, k)
			}
			delete(w.dirty, k)
		}
	}
	return nil
}
func (w *WB) Close() error {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.shut = true
	return nil
}
func (w *WB) Batch(ctx context.Context) (datastore.Batch, error) {
	return datastore.NewBasicBatch(w), nil
}

// Durable is a copy of what would survive an abrupt stop; All of what survives
// an orderly one.
func (w *WB) Durable() map[datastore.Key][]byte { return w.copyOf(w.dur) }
func (w *WB) All() map[datastore.Key][]byte     { return w.copyOf(w.live) }
func (w *WB) copyOf(m map[datastore.Key][]byte) map[datastore.Key][]byte {
	w.mu.Lock()
	defer w.mu.Unlock()
	out := map[datastore.Key][]byte{}
	for k, v := range m {
		out[k] = v
	}
	return out
}

// drain takes events from the registry's sync channel until it is closed.
type drain struct {
	mu  sync.Mutex
	evs []drainEv
}

type drainEv struct {
	info    *registry.ProviderInfo
	rec     *regRec
	deleted bool
}

func newDrain(reg *registry.Registry) *drain {
	d := &drain{}
	ch := reg.SyncChan()
	go func() {
		for i := range ch {
			tick()
			d.mu.Lock()
			d.evs = append(d.evs, drainEv{i, recOf(i), i.Deleted()})
			d.mu.Unlock()
		}
	}()
	return d
}

func (d *drain) all() []drainEv {
	d.mu.Lock()
	defer d.mu.Unlock()
	return append([]drainEv(nil), d.evs...)
}
