package main

import (
	"context"
	"errors"
	"fmt"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/filecoin-project/storetheindex/config"
	"github.com/filecoin-project/storetheindex/internal/registry"
	"github.com/filecoin-project/storetheindex/internal/registry/discovery"
	"github.com/ipfs/go-datastore"
	"github.com/libp2p/go-libp2p-core/peer"
	"github.com/multiformats/go-multiaddr"
)

func init() {
	register("P13", "the discoverer's call log shows no overlap per address and at least the rediscovery wait between calls; every synchronous caller gets one answer that matches its own discovery; the registry holds only what discoveries returned",
		runP13, "time bounds are lower bounds measured inside the discoverer")
}

// discCall is one recorded discovery.
type discCall struct {
	n          int
	peer       peer.ID
	addr       string
	start, end time.Time
	ok         bool
	res        []string
	deadline   bool
}

// mockDisc records discoveries and answers as told.
type mockDisc struct {
	mu     sync.Mutex
	calls  []*discCall
	active map[string]int
	over   []string
	// behave says what one discovery does.
	behave func(n int, ctx context.Context, addr string) error
	// bare says which discoveries return a provider without addresses.
	bare func(n int) bool
}

func (m *mockDisc) Discover(ctx context.Context, id peer.ID, addr string) (*discovery.Discovered, error) {
	tick()
	m.mu.Lock()
	k := &discCall{n: len(m.calls), peer: id, addr: addr, start: time.Now()}
	_, k.deadline = ctx.Deadline()
	m.calls = append(m.calls, k)
	m.active[addr]++
	if m.active[addr] > 1 {
		m.over = append(m.over, addr)
	}
	m.mu.Unlock()
	err := m.behave(k.n, ctx, addr)
	as := []multiaddr.Multiaddr{testAddr(4*k.n + 1), testAddr(4*k.n + 2)}
	m.mu.Lock()
	if m.bare != nil && m.bare(k.n) {
		as = nil
	}
	m.mu.Unlock()
	m.mu.Lock()
	m.active[addr]--
	k.end = time.Now()
	k.ok = err == nil
	k.res = addrStrings(as)
	m.mu.Unlock()
	tick()
	if err != nil {
		return nil, fmt.Errorf("call-%d-failed: %w", k.n, err)
	}
	d := &discovery.Discovered{Type: discovery.MinerType}
	d.AddrInfo.ID = id
	d.AddrInfo.Addrs = as
	return d, nil
}

func runP13(c *Ctx) {
	lotusSetup()
	c.RunN("storm", c.N(60, 800), 6, p13Storm)
	c.RunN("rules", c.N(40, 400), 6, p13Rules)
	c.RunN("lotus", c.N(24, 240), 4, p13Lotus)
}

func newDiscReg(m *mockDisc, ds datastore.Datastore, wait, timeout time.Duration) *registry.Registry {
	dc := regConfig()
	dc.RediscoverWait = config.Duration(wait)
	dc.Timeout = config.Duration(timeout)
	reg, err := registry.NewRegistry(bg, dc, ds, m)
	must(err)
	return reg
}

func refusal(err error) bool {
	return errors.Is(err, registry.ErrInProgress) || errors.Is(err, registry.ErrTooSoon)
}

func p13Storm(c *Ctx, n int) {
	r := c.Rng("storm", n)
	wait := []time.Duration{0, 2 * time.Millisecond, 15 * time.Millisecond, far}[r.Intn(4)]
	m := &mockDisc{active: map[string]int{}}
	m.behave = func(k int, ctx context.Context, addr string) error {
		time.Sleep(time.Duration((k*7919)%5) * 400 * time.Microsecond)
		if (k*31+n)%3 == 0 {
			return errors.New("no such miner")
		}
		return nil
	}
	wb := newWB(nil)
	reg := newDiscReg(m, wb, wait, time.Minute)
	newDrain(reg)
	ids := make([]peer.ID, 3)
	for i, x := range newIdents(r, 3) {
		ids[i] = x.ID
	}
	// Address k belongs to provider k mod 3.
	nAddr := 1 + r.Intn(4)
	// Sometimes odd addresses, several much alike.
	names := []string{"t00", "t01", "t02", "t03"}
	if n%3 == 1 {
		names = []string{"f01000", " f01000", "f01000 ", "F01000"}
		if n%2 == 1 {
			names = []string{"é", "e\u0301", "\x00", "\xff/../x"}
		}
	}
	type answer struct {
		id   peer.ID
		addr string
		err  error
	}
	var mu sync.Mutex
	var answers []answer
	var async int64
	workers := 3 + r.Intn(6)
	var wg sync.WaitGroup
	stop := make(chan struct{})
	go func() {
		for !isDone(stop) {
			reg.VerifCleanup()
			time.Sleep(300 * time.Microsecond)
		}
	}()
	start := make(chan struct{})
	for w := 0; w < workers; w++ {
		wg.Add(1)
		q := c.Rng("storm", n, "w", w)
		go func() {
			defer wg.Done()
			<-start
			for i := 0; i < 10; i++ {
				k := q.Intn(nAddr)
				addr := names[k]
				id := ids[k%3]
				if n%4 == 3 && q.Intn(5) == 0 {
					if err := reg.Discover(id, addr, false); err != nil {
						mu.Lock()
						answers = append(answers, answer{id, addr, fmt.Errorf("asynchronous request refused: %w", err)})
						mu.Unlock()
					}
					atomic.AddInt64(&async, 1)
					continue
				}
				err := reg.Discover(id, addr, true)
				mu.Lock()
				answers = append(answers, answer{id, addr, err})
				mu.Unlock()
				time.Sleep(time.Duration(q.Intn(3)) * time.Millisecond)
			}
		}()
	}
	close(start)
	done := make(chan struct{})
	go func() { wg.Wait(); close(done) }()
	if !c.Await("no-answer", "synchronous discoveries to be answered", func() bool { return isDone(done) }) {
		close(stop)
		return
	}
	close(stop)
	view := regView(reg, ids)
	cl := make(chan struct{})
	go func() { reg.Close(); close(cl) }()
	if !c.Await("close-stuck", "registry to close", func() bool { return isDone(cl) }) {
		return
	}
	m.mu.Lock()
	defer m.mu.Unlock()
	c.Eval(len(answers) + len(m.calls))
	c.Count("discoveries", int64(len(m.calls)))
	c.Count("answers", int64(len(answers)))
	if len(m.over) != 0 {
		c.Violate("overlap", "two discoveries of address %s ran at the same time", m.over[0])
		return
	}
	last := map[string]*discCall{}
	for _, k := range m.calls {
		if p := last[k.addr]; p != nil && k.start.Sub(p.end) < wait {
			c.Violate("too-soon", "discovery of %s started %s after the last one finished; the wait is %s", k.addr, k.start.Sub(p.end), wait)
			return
		}
		last[k.addr] = k
		if !k.deadline {
			c.Violate("no-timeout", "a discovery ran without the configured timeout")
			return
		}
	}
	// Answers and calls match one to one.
	nilAns, errAns := map[string]int{}, map[int]int{}
	ref := 0
	for _, a := range answers {
		switch {
		case a.err == nil:
			nilAns[a.addr]++
		case refusal(a.err):
			ref++
		default:
			var k int
			i := strings.Index(a.err.Error(), "call-")
			if i < 0 {
				c.Violate("answer", "unexpected answer: %v", a.err)
				return
			}
			_, _ = fmt.Sscanf(a.err.Error()[i:], "call-%d-failed", &k)
			errAns[k]++
			if k >= len(m.calls) || m.calls[k].addr != a.addr || m.calls[k].ok {
				c.Violate("answer", "a caller asking for %s got the answer of another discovery: %v", a.addr, a.err)
				return
			}
		}
	}
	okCalls, bad := map[string]int{}, 0
	for _, k := range m.calls {
		if k.ok {
			okCalls[k.addr]++
		} else {
			bad++
		}
		if !k.ok && errAns[k.n] > 1 {
			c.Violate("answer", "the failure of one discovery was answered to %d callers", errAns[k.n])
			return
		}
	}
	for a, x := range nilAns {
		if x > okCalls[a] {
			c.Violate("answer", "%d callers were told that discovering %s succeeded, but it did %d times", x, a, okCalls[a])
			return
		}
	}
	if async == 0 {
		tot := 0
		for a := range okCalls {
			tot += nilAns[a]
			if nilAns[a] != okCalls[a] {
				c.Violate("answer", "%d discoveries of %s succeeded, %d callers were told so", okCalls[a], a, nilAns[a])
				return
			}
		}
		if len(errAns) != bad {
			c.Violate("answer", "%d discoveries failed, %d failures were answered", bad, len(errAns))
			return
		}
	}
	// The registry holds exactly results of discoveries of that provider.
	for i, id := range ids {
		var okSet []*discCall
		for _, k := range m.calls {
			if k.ok && k.peer == id {
				okSet = append(okSet, k)
			}
		}
		got := view[id]
		if got == nil {
			if len(okSet) != 0 && async == 0 {
				c.Violate("not-registered", "provider %d was discovered but is not registered", i)
				return
			}
			continue
		}
		match := false
		for _, k := range okSet {
			match = match || strings.Join(k.res, ",") == strings.Join(got.addrs, ",") && k.addr == got.disc
		}
		if !match {
			c.Violate("wrong-record", "registered %s, which no discovery returned", got)
			return
		}
	}
	c.Seen(fmt.Sprint(wait, workers, nAddr, len(m.calls), ref))
	if n < 2 {
		c.Sample("%d callers, %d addresses, wait %s: %d discoveries, %d refusals, %d answers", workers, nAddr, wait, len(m.calls), ref, len(answers))
	}
}

func p13Rules(c *Ctx, n int) {
	r := c.Rng("rules", n)
	m := &mockDisc{active: map[string]int{}}
	var gate chan struct{}
	fail := false
	m.behave = func(k int, ctx context.Context, addr string) error {
		m.mu.Lock()
		g, f := gate, fail
		m.mu.Unlock()
		if g != nil {
			select {
			case <-g:
			case <-ctx.Done():
				return ctx.Err()
			}
		}
		if f {
			return errors.New("failing")
		}
		return nil
	}
	set := func(g chan struct{}, f bool) {
		m.mu.Lock()
		gate, fail = g, f
		m.mu.Unlock()
	}
	count := func() int {
		m.mu.Lock()
		defer m.mu.Unlock()
		return len(m.calls)
	}
	wait := []time.Duration{0, 4 * time.Millisecond, far}[n%3]
	timeout := time.Duration(0)
	if r.Intn(3) == 0 {
		timeout = 30 * time.Millisecond
	}
	wb := newWB(nil)
	reg := newDiscReg(m, wb, wait, timeout)
	newDrain(reg)
	defer reg.Close()
	ids := make([]peer.ID, 2)
	for i, x := range newIdents(r, 2) {
		ids[i] = x.ID
	}
	want := map[peer.ID]*regRec{}
	if r.Intn(2) == 0 {
		info := randInfo(r, ids[0], ids[1:], 1)
		must(reg.Register(bg, info))
		want[ids[0]] = recOf(info)
	}
	// A failing discovery leaves the registration as it was.
	set(nil, true)
	err := reg.Discover(ids[0], "t0a", true)
	c.Eval(2)
	if err == nil || refusal(err) {
		c.Violate("answer", "a failing discovery was answered with %v", err)
		return
	}
	if !checkReg(c, "failed-changes", "after a failed discovery", reg, ids, want) {
		return
	}
	// Rediscovery before and after the wait.
	set(nil, false)
	if wait == far {
		if r.Intn(2) == 0 {
			reg.VerifCleanup()
		}
		if err := reg.Discover(ids[0], "t0a", true); !errors.Is(err, registry.ErrTooSoon) {
			c.Violate("too-soon", "rediscovery within the wait was answered with %v", err)
			return
		}
		if count() != 1 {
			c.Violate("too-soon", "rediscovery within the wait ran")
			return
		}
	} else {
		time.Sleep(wait * 3)
		if r.Intn(2) == 0 {
			reg.VerifCleanup()
		}
		if err := reg.Discover(ids[0], "t0a", true); err != nil {
			c.Violate("refused", "rediscovery after the wait (%s) was refused: %v", wait, err)
			return
		}
		want[ids[0]] = &regRec{id: ids[0], addrs: []string{testAddr(5).String(), testAddr(6).String()}, disc: "t0a"}
		if !checkReg(c, "wrong-record", "after a discovery", reg, ids, want) {
			return
		}
		r2 := newReg(newWB(wb.Durable()), nil)
		ok := checkReg(c, "not-stored", "after a discovery, reopened", r2, ids, want)
		r2.Close()
		if !ok {
			return
		}
	}
	// A discovery that finds a provider without addresses does not register it
	// with others.
	if r.Intn(2) == 0 {
		m.mu.Lock()
		m.bare = func(int) bool { return true }
		m.mu.Unlock()
		err := reg.Discover(ids[0], "t0bare", true)
		m.mu.Lock()
		m.bare = nil
		m.mu.Unlock()
		if err == nil {
			want[ids[0]] = &regRec{id: ids[0], disc: "t0bare"}
		}
		if !checkReg(c, "wrong-record", fmt.Sprintf("after a discovery that returned no address (answer %v)", err), reg, ids, want) {
			return
		}
		c.Count("discoveries without addresses", 1)
	}
	// While one is in progress, others for that address are refused, also
	// after a clean-up pass; other addresses are not held up.
	g := make(chan struct{})
	if timeout != 0 {
		// The discovery ends by the timeout, with an error.
		set(g, false)
		base := count()
		if err := reg.Discover(ids[1], "t0slow", true); err == nil || refusal(err) {
			c.Violate("timeout", "a discovery that never ended was answered with %v", err)
			return
		}
		if count() != base+1 || reg.IsRegistered(ids[1]) {
			c.Violate("timeout", "a discovery that timed out registered the provider")
			return
		}
		close(g)
		return
	}
	set(g, false)
	base := count()
	res := make(chan error, 1)
	go func() { res <- reg.Discover(ids[1], "t0b", true) }()
	if !c.Await("not-started", "a discovery to start", func() bool { return count() == base+1 }) {
		return
	}
	for i := 0; i < 3; i++ {
		if err := reg.Discover(ids[i%2], "t0b", true); !errors.Is(err, registry.ErrInProgress) {
			c.Violate("overlap", "a request for an address under discovery was answered with %v", err)
			close(g)
			return
		}
		reg.VerifCleanup()
	}
	set(nil, false)
	oth := make(chan error, 1)
	go func() { oth <- reg.Discover(ids[0], "t0other", true) }()
	var oerr error
	got := false
	if !c.Await("held-up", "discovery of another address while one is in progress", func() bool {
		select {
		case oerr = <-oth:
			got = true
		default:
		}
		return got
	}) {
		close(g)
		return
	}
	if oerr != nil {
		c.Violate("refused", "discovery of another address failed: %v", oerr)
	}
	c.Eval(6)
	if reg.IsRegistered(ids[1]) {
		c.Violate("early", "registered before its discovery finished")
	}
	close(g)
	var rerr error
	fin := false
	if !c.Await("no-answer", "answer of a finished discovery", func() bool {
		select {
		case rerr = <-res:
			fin = true
		default:
		}
		return fin
	}) {
		return
	}
	if rerr != nil || !reg.IsRegistered(ids[1]) {
		c.Violate("answer", "a successful discovery was answered with %v, registered: %v", rerr, reg.IsRegistered(ids[1]))
	}
	c.Seen(fmt.Sprint("rules", wait, timeout, want[ids[0]] != nil))
	c.Count("rule cases", 1)
}
