package main

import (
	"errors"
	"fmt"
	"math/rand"
	"net/http"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/filecoin-project/storetheindex/api/v0/ingest/schema"
	"github.com/filecoin-project/storetheindex/config"
	"github.com/ipfs/go-cid"
	"github.com/ipfs/go-datastore"
	cidlink "github.com/ipld/go-ipld-prime/linking/cid"
	"github.com/multiformats/go-multihash"
)

func init() {
	register("P04", "random chains are ingested while one kind of fault (HTTP status, dropped connection, truncated or substituted block, index operation failure, datastore read or write failure of blocks, progress or registry records, policy refusal of the provider) "+
		"hits a chosen advertisement for one to three syncs, with new advertisements and restarts in between; the recorded index operations and the reported latest are checked after every failing sync, and index and latest after the fault is gone; "+
		"chains with undecodable entries of several kinds must be ingested around them; distinct counts (chain, fault) pairs in which the fault was actually hit",
		runP04, "one provider per publisher", "content-not-found over libp2p is treated as permanent by design and not injected")
}

var errFault = errors.New("verifmon: injected fault")

func runP04(c *Ctx) {
	kinds := []string{"status500", "status404", "abort", "cut", "wrongbytes", "ix-once", "ix-on", "ds-put-block", "ds-get-block", "ds-put-reg", "ds-put-progress", "ds-delete", "policy", "ds-put-ad", "ds-get-nth", "hang"}
	c.RunN("fault", c.N(960, 14000), 8, func(c *Ctx, i int) { c.p04fault(i, kinds[i%len(kinds)]) })
	c.RunN("malformed", c.N(200, 3000), 8, func(c *Ctx, i int) { c.p04malformed(i) })
	c.Run("multi-provider", func(c *Ctx) { c.p04multi() })
	c.Run("not-ipld", func(c *Ctx) { c.p04garbage() })
}

// faults decides which operations fail. Safe for concurrent use.
type faults struct {
	mu   sync.Mutex
	on   bool
	hits int
}

func (f *faults) set(on bool) { f.mu.Lock(); f.on = on; f.mu.Unlock() }
func (f *faults) hit() int    { f.mu.Lock(); defer f.mu.Unlock(); return f.hits }
func (f *faults) check(match bool) bool {
	if !match {
		return false
	}
	f.mu.Lock()
	defer f.mu.Unlock()
	if f.on {
		f.hits++
		return true
	}
	return false
}

// skipped says which advertisements of chain[from:] need no entries because a
// later removal in the same span removes their context.
func removedLater(ads []PubAd, i int) bool {
	for _, b := range ads[i+1:] {
		if b.Spec.Rm && b.Spec.Ctx == ads[i].Spec.Ctx {
			return true
		}
	}
	return false
}

func (c *Ctx) p04fault(i int, kind string) {
	r := c.Rng("fault", i)
	id := newIdent(r)
	o := GenOpts{NCtx: 2 + r.Intn(3), NMh: 40, MaxMhs: 8, MaxChunk: 4, Hamt: true, Salt: fmt.Sprint("f", i)}
	u := universe(o)
	specs := genChain(r, 5+r.Intn(8), o, u)
	p := newPub(id)
	defer p.Close()
	n0 := 2 + r.Intn(len(specs)-2)
	pre := 0
	if r.Intn(2) == 0 && kind != "policy" && kind != "hang" {
		pre = r.Intn(n0)
	}
	var f faults
	var target cid.Cid // the block to fail, or Undef: by operation
	var ixAt, ixN int64 = -1, 0
	blockKey := func(k datastore.Key) bool { return target.Defined() && k == datastore.NewKey(target.String()) }
	regPolicy := config.NewPolicy()
	if kind == "policy" {
		regPolicy.Allow, regPolicy.Except = true, []string{id.ID.String()}
	}
	store, core := memDS(), newCore(0)
	var dsOnce int64
	var nth, getN int64 = int64(1 + r.Intn(5)), 0
	never := make(chan struct{})
	defer close(never)
	impatient := kind == "hang"
	mk := func() *Rig {
		return newRig(RigOpts{Store: store, Core: core,
			Ingest: func(ic *config.Ingest) {
				ic.IngestWorkerCount = 2
				ic.StoreBatchSize = 1 + r.Intn(4)
				ic.SyncSegmentDepthLimit = []int{-1, 1, 2, 2000}[r.Intn(4)]
				if impatient {
					ic.SyncTimeout = config.Duration(150 * time.Millisecond)
				}
			},
			Discovery: func(d *config.Discovery) { d.Policy = regPolicy },
			IXHook: func(op *IxOp) error {
				n := atomic.AddInt64(&ixN, 1)
				if kind == "ix-once" && f.check(n == atomic.LoadInt64(&ixAt)) || kind == "ix-on" && f.check(n >= atomic.LoadInt64(&ixAt)) {
					return errFault
				}
				return nil
			},
			DSHook: func(op string, k datastore.Key, v []byte) error {
				ks := k.String()
				bad := false
				switch kind {
				case "ds-put-block", "ds-put-ad":
					bad = op == "put" && blockKey(k)
				case "ds-get-block":
					bad = op == "get" && blockKey(k)
				case "ds-get-nth":
					bad = op == "get" && blockKey(k) && atomic.AddInt64(&getN, 1) == nth
				case "ds-put-reg":
					bad = op == "put" && strings.HasPrefix(ks, "/registry/pinfo/")
				case "ds-put-progress":
					bad = op == "put" && (strings.HasPrefix(ks, "/sync/") || strings.HasPrefix(ks, "/adProcessed/")) && atomic.AddInt64(&dsOnce, 1)%3 == 0
				case "ds-delete":
					bad = op == "delete" && atomic.AddInt64(&dsOnce, 1)%2 == 0
				}
				if f.check(bad) {
					return errFault
				}
				return nil
			}})
	}
	rig := mk()
	defer func() { rig.Abandon() }()
	where := func() string {
		return fmt.Sprintf("chain [%s] pre=%d fault=%s target=%s", chainString(specs), pre, kind, target)
	}
	pub := 0
	publish := func(n int) {
		for ; pub < n && pub < len(specs); pub++ {
			p.Publish(specs[pub])
		}
	}
	mon := &orderMonitor{cur: -1}
	logged := 0
	if pre > 0 {
		publish(pre)
		if got, ok := rig.SyncWait(c, bg, p, 0, false); !ok || got != p.Head() {
			c.Violate("sync", "%s: clean sync delivered %s", where(), got)
			return
		}
		logged = len(rig.IX.Log())
		mon.cur = pre - 1
	}
	publish(n0)
	// Choose the target among advertisements to be ingested.
	switch kind {
	case "status500", "status404", "abort", "cut", "wrongbytes", "ds-put-block", "ds-get-block", "ds-get-nth", "hang":
		var cand []int
		for j := pre; j < n0; j++ {
			if len(p.Ads[j].Blocks) != 0 && !p.Ads[j].Spec.Rm && !removedLater(p.Ads, j) {
				cand = append(cand, j)
			}
		}
		if len(cand) == 0 {
			return
		}
		j := cand[r.Intn(len(cand))]
		target = p.Ads[j].Blocks[r.Intn(len(p.Ads[j].Blocks))]
	case "ds-put-ad":
		target = p.Ads[pre+r.Intn(n0-pre)].Cid
	case "ix-once", "ix-on":
		atomic.StoreInt64(&ixAt, atomic.LoadInt64(&ixN)+1+int64(r.Intn(8)))
	}
	// failing is the first advertisement from the given one on that the fault
	// hits: it needs the target block, or is the first one to be registered.
	failing := func(from int) int {
		for k := from; k < len(p.Ads); k++ {
			if removedLater(p.Ads, k) {
				continue
			}
			if kind == "policy" || kind == "ds-put-reg" {
				return k
			}
			if p.Ads[k].Spec.Rm {
				continue
			}
			for _, b := range p.Ads[k].Blocks {
				if b == target {
					return k
				}
			}
		}
		return -1
	}
	switch kind {
	case "status500", "status404", "abort", "cut", "wrongbytes", "hang":
		p.SetHook(func(name string, n int) FetchVerdict {
			if !f.check(name == target.String()) {
				return FetchVerdict{}
			}
			switch kind {
			case "status500":
				return FetchVerdict{Status: http.StatusInternalServerError}
			case "status404":
				return FetchVerdict{Status: http.StatusNotFound}
			case "abort":
				return FetchVerdict{Abort: true}
			case "cut":
				return FetchVerdict{Cut: true}
			case "hang":
				return FetchVerdict{Wait: never}
			default:
				return FetchVerdict{Body: []byte(`{"Entries":[],"x":1}`)}
			}
		})
	}
	f.set(true)
	rounds := 1 + r.Intn(3)
	for k := 0; k < rounds; k++ {
		h0 := f.hit()
		atomic.StoreInt64(&getN, 0)
		failAd := failing(adIndex(p, rig.Latest(p.ID)) + 1)
		got, ok := rig.SyncWait(c, bg, p, 0, false)
		if !ok {
			return
		}
		_ = got
		hit := f.hit() > h0 || kind == "policy"
		if hit {
			c.Count("faults_hit", 1)
			c.Count("faults_hit_"+kind, 1)
		}
		if kind == "ds-get-nth" && hit {
			// The read may be one that does not matter.
			c.Seen(where())
			hit = false
		}
		// What was applied?
		log := rig.IX.Log()
		mon.ads = nil
		for _, a := range p.Ads {
			mon.ads = append(mon.ads, a.Spec)
		}
		fa := failAd
		for _, op := range log[logged:] {
			if d := mon.feed(op); d != "" && kind != "ds-put-progress" {
				c.Violate("order", "%s: %s", where(), d)
				return
			}
			c.Eval(1)
			if errors.Is(op.Err, errFault) && fa < 0 {
				fa = mon.cur
			} else if op.Err == nil && fa >= 0 && mon.cur > fa && hit {
				c.Violate("applied-past-failure", "%s: %v of advertisement %d was applied although advertisement %d failed", where(), op, mon.cur, fa)
				return
			}
		}
		logged = len(log)
		li := adIndex(p, rig.Latest(p.ID))
		if hit && fa >= 0 && li >= fa {
			c.Violate("failed-marked-ingested", "%s: advertisement %d failed but %d is reported as latest synced", where(), fa, li)
			return
		}
		if hit && fa >= 0 && rig.SyncStatusProcessed(p, fa) {
			c.Violate("failed-marked-processed", "%s: advertisement %d failed but is recorded as processed", where(), fa)
			return
		}
		c.Eval(2)
		mon.cur = li
		if hit {
			c.Seen(where())
		}
		if r.Intn(2) == 0 {
			publish(pub + 1 + r.Intn(2))
		}
		if r.Intn(3) == 0 {
			if !rig.Close(c) {
				return
			}
			rig = mk()
			logged = 0
			if kind == "policy" {
				continue
			}
		}
		if kind == "ix-once" {
			break
		}
	}
	f.set(false)
	if impatient {
		if !rig.Close(c) {
			return
		}
		impatient = false
		rig = mk()
	}
	if kind == "policy" {
		rig.Reg.AllowPeer(id.ID)
	}
	publish(len(specs))
	got, ok := rig.SyncWait(c, bg, p, 0, false)
	if !ok {
		return
	}
	if got != p.Head() {
		c.Violate("recovery-sync", "%s: after the fault was gone the sync delivered %s", where(), got)
		return
	}
	m := newModel()
	p.ModelAll(m)
	d, n := diffIndex(core, m, u, nil)
	c.Eval(n)
	if d != "" {
		c.Violate("lost", "%s: after the fault was gone and a sync: %s", where(), d)
		return
	}
	if l := rig.Latest(p.ID); l != p.Head() && kind != "ds-put-progress" {
		c.Violate("recovery-latest", "%s: latest is %s", where(), l)
	}
	if !rig.Reg.IsRegistered(p.ID) {
		c.Violate("not-registered", "%s: provider not registered", where())
	}
	c.Sample("%s", where())
	rig.Close(c)
}

func adIndex(p *Pub, x cid.Cid) int {
	for i, a := range p.Ads {
		if a.Cid == x {
			return i
		}
	}
	return -1
}

// SyncStatusProcessed says whether an advertisement is recorded as processed,
// judged by behaviour: a publisher whose head it is would be fetched no
// further. Here it is read from the datastore's progress record.
func (r *Rig) SyncStatusProcessed(p *Pub, i int) bool {
	v, err := r.Store.Get(bg, datastore.NewKey("/adProcessed/"+p.Ads[i].Cid.String()))
	return err == nil && len(v) == 1 && v[0] == 1
}

// p04malformed: entries that can never be decoded are skipped.
func (c *Ctx) p04malformed(i int) {
	r := c.Rng("malformed", i)
	o := GenOpts{NCtx: 3, NMh: 30, MaxMhs: 6, MaxChunk: 3, Hamt: true, Salt: fmt.Sprint("m", i)}
	u := universe(o)
	specs := genChain(r, 6+r.Intn(6), o, u)
	p := newPub(newIdent(r))
	defer p.Close()
	m := newModel()
	var kinds []string
	bad := 0
	for _, a := range specs {
		for r.Intn(3) == 0 {
			k := badEntryKinds[r.Intn(len(badEntryKinds))]
			kinds = append(kinds, k)
			l := badEntries(p, r, k, u)
			p.PublishMod(AdSpec{Ctx: fmt.Sprint("bad-", bad), Meta: "bad", NoEnts: true}, func(ad *schema.Advertisement) { ad.Entries = cidlink.Link{Cid: l} })
			bad++
		}
		p.Publish(a)
		m.Apply(p.ID, a)
	}
	if bad == 0 {
		return
	}
	where := fmt.Sprintf("chain [%s] with malformed %v", chainString(specs), kinds)
	rig := newRig(RigOpts{Ingest: func(ic *config.Ingest) {
		ic.SyncSegmentDepthLimit = []int{-1, 1, 2000}[r.Intn(3)]
		ic.StoreBatchSize = 3
	}})
	defer rig.Close(c)
	for try := 0; try < 2; try++ {
		got, ok := rig.SyncWait(c, bg, p, 0, false)
		if !ok {
			return
		}
		if got != p.Head() {
			c.Violate("malformed-sync", "%s: sync delivered %s", where, got)
			return
		}
	}
	hide := map[string]bool{}
	for k := 0; k < bad; k++ {
		hide[fmt.Sprint("bad-", k)] = true
	}
	d, n := diffIndex(ctxFilter{rig.Core, hide}, m, u, nil)
	c.Eval(n)
	if d != "" {
		c.Violate("malformed-blocks-chain", "%s: %s", where, d)
		return
	}
	if l := rig.Latest(p.ID); l != p.Head() {
		c.Violate("malformed-latest", "%s: latest is %s, not the head", where, l)
		return
	}
	c.Count("malformed_advertisements", int64(bad))
	c.Seen(where)
}

var badEntryKinds = []string{"wrong-schema", "second-chunk-wrong", "hamt-root", "entries-is-ad", "entries-not-list", "empty-map"}

// badEntries stores an undecodable entries block and returns its CID.
func badEntries(p *Pub, r *rand.Rand, kind string, u []string) cid.Cid {
	salt := fmt.Sprint(r.Int63())
	first := func(next cid.Cid) cid.Cid {
		n, err := schema.EntryChunk{Entries: []multihash.Multihash{testMh("bad" + salt)}, Next: cidlink.Link{Cid: next}}.ToNode()
		must(err)
		return p.store(n, nil).(cidlink.Link).Cid
	}
	switch kind {
	case "garbage-json":
		return p.putBlock(cid.DagJSON, []byte("{{{"+salt))
	case "garbage-cbor":
		return p.putBlock(cid.DagCBOR, []byte("\xff\xff\xff"+salt))
	case "wrong-schema":
		return p.putBlock(cid.DagJSON, []byte(`{"Foo":"`+salt+`"}`))
	case "second-chunk-garbage":
		return first(p.putBlock(cid.DagJSON, []byte("not json"+salt)))
	case "second-chunk-wrong":
		return first(p.putBlock(cid.DagJSON, []byte(`{"Foo":"`+salt+`"}`)))
	case "hamt-root":
		return p.putBlock(cid.DagJSON, []byte(`{"hamt":"`+salt+`"}`))
	case "entries-is-ad":
		if len(p.Ads) > 0 {
			return p.Ads[0].Cid
		}
		return p.putBlock(cid.DagJSON, []byte(`{"Foo":"`+salt+`"}`))
	case "entries-not-list":
		return p.putBlock(cid.DagJSON, []byte(`{"Entries":"`+salt+`"}`))
	default:
		return p.putBlock(cid.DagJSON, []byte("{}"))
	}
}

// p04multi is the recorded finding: in a chain with advertisements of several
// providers, a failed advertisement of one is never retried when another's
// newer one was processed.
func (c *Ctx) p04multi() {
	r := c.Rng("multi")
	ids := newIdents(r, 2)
	u := universe(GenOpts{NMh: 12, Salt: "multi"})
	p := newPub(ids[0], ids[1])
	defer p.Close()
	var fail int32 = 1
	rig := newRig(RigOpts{IXHook: func(op *IxOp) error {
		if op.Prov == ids[1].ID && atomic.LoadInt32(&fail) == 1 {
			return errFault
		}
		return nil
	}})
	defer rig.Close(c)
	p.Publish(AdSpec{Prov: 1, Ctx: "b", Meta: "b", Mhs: u[:3]})
	p.Publish(AdSpec{Prov: 0, Ctx: "a", Meta: "a", Mhs: u[3:6]})
	if _, ok := rig.SyncWait(c, bg, p, 0, false); !ok {
		return
	}
	if !c.Await("multi-stuck", "provider a's advertisement", func() bool { return rig.Latest(p.ID) == p.Head() }) {
		return
	}
	settle()
	atomic.StoreInt32(&fail, 0)
	if _, ok := rig.SyncWait(c, bg, p, 0, false); !ok {
		return
	}
	settle()
	m := newModel()
	p.ModelAll(m)
	c.Eval(len(u))
	if d, _ := diffIndex(rig.Core, m, u, nil); d != "" {
		m2 := newModel()
		m2.Apply(ids[0].ID, p.Ads[1].Spec)
		if d2, _ := diffIndex(rig.Core, m2, u, nil); d2 == "" {
			c.Violate("known:multi-provider-failed-ad-lost", "publisher with providers A and B: [b1 ; a1], storing b1 fails, a1 succeeds; after the fault is gone a sync does not ingest b1: %s", d)
		} else {
			c.Violate("multi-provider-wrong", "%s", d2)
		}
	}
}

// p04garbage is the recorded finding: an entries block that is no IPLD data at
// all cannot be stored, and go-legs hides why, so its advertisement is retried
// forever instead of skipped.
func (c *Ctx) p04garbage() {
	for _, kind := range []string{"garbage-json", "garbage-cbor", "second-chunk-garbage"} {
		r := c.Rng("garbage", kind)
		u := universe(GenOpts{NMh: 12, Salt: kind})
		p := newPub(newIdent(r))
		rig := newRig(RigOpts{})
		m := newModel()
		a, b := AdSpec{Ctx: "a", Meta: "a", Mhs: u[:3], ChunkLen: 2}, AdSpec{Ctx: "b", Meta: "b", Mhs: u[3:6], ChunkLen: 2}
		p.Publish(a)
		l := badEntries(p, r, kind, u)
		p.PublishMod(AdSpec{Ctx: "bad-0", Meta: "bad", NoEnts: true}, func(ad *schema.Advertisement) { ad.Entries = cidlink.Link{Cid: l} })
		p.Publish(b)
		m.Apply(p.ID, a)
		if _, ok := rig.SyncWait(c, bg, p, 0, false); !ok {
			return
		}
		cf := ctxFilter{rig.Core, map[string]bool{"bad-0": true}}
		d, _ := diffIndex(cf, m, u, nil)
		before := rig.Latest(p.ID) == p.Ads[0].Cid
		m.Apply(p.ID, b)
		d2, _ := diffIndex(cf, m, u, nil)
		c.Eval(2)
		switch {
		case d2 == "" && rig.Latest(p.ID) == p.Head():
		case d == "" && before:
			c.Violate("known:not-ipld-blocks-chain", "the entries block of the second of three advertisements is not IPLD data (%s): the third is never ingested", kind)
		default:
			c.Violate("not-ipld-wrong", "%s: latest is advertisement %d; %s", kind, adIndex(p, rig.Latest(p.ID)), d)
		}
		rig.Close(c)
		p.Close()
	}
}
