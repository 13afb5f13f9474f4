package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	mrand "math/rand"
	"net"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/filecoin-project/storetheindex/api/v0/finder/model"
	"github.com/filecoin-project/storetheindex/config"
	"github.com/ipfs/go-cid"
	"github.com/libp2p/go-libp2p-core/network"
	"github.com/libp2p/go-libp2p-core/peer"
	"github.com/multiformats/go-multihash"
)

func init() {
	register("P24", "the real daemon binary runs with generated configurations (value stores, watching the file or not, servers disabled) through random histories of registrations, imports, syncs from a live publisher, discover requests, administrator policy changes, and reloads by administrator, signal and file change, alone and several at once, of valid files and of missing, truncated, malformed and invalid ones, and of orderly stops and restarts, also with reload requests in flight; "+
		"monitored are: the process staying up, the answer to each reload request, the policy in force (by probing registrations), content and provider listings after each step and restart, peering connections, and the exit status. distinct counts (trigger, kind of file, outcome)",
		runP24, "a policy that a reload must change is awaited as long as the daemon is not idle")
}

func runP24(c *Ctx) {
	var wg sync.WaitGroup
	wg.Add(1)
	go func() {
		defer wg.Done()
		c.RunN("peering", c.N(1, 6), 2, func(c *Ctx, i int) { c.p24peering(i) })
	}()
	c.RunN("hist", c.N(20, 300), 6, func(c *Ctx, i int) { c.p24(i) })
	c.RunN("servers", c.N(11, 42), 4, func(c *Ctx, i int) { c.p24servers(i) })
	wg.Wait()
}

type syncBuf struct {
	mu sync.Mutex
	b  bytes.Buffer
}

func (s *syncBuf) Write(p []byte) (int, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.b.Len() > 4<<20 {
		return len(p), nil
	}
	return s.b.Write(p)
}
func (s *syncBuf) String() string {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.b.String()
}

// Daemon is one daemon process.
type Daemon struct {
	known string // a panic at start that is a known finding
	puts  int
	c     *Ctx
	dir   string
	cfg   *config.Config
	args  []string
	bin   string
	hc    *http.Client

	cmd  *exec.Cmd
	out  *syncBuf
	done chan struct{}
	err  error

	find, ingest, admin string
}

func tcpMaddr(a string) string {
	h, p, err := net.SplitHostPort(a)
	must(err)
	return "/ip4/" + h + "/tcp/" + p
}

func newDaemon(c *Ctx, r *mrand.Rand) *Daemon {
	dir, err := os.MkdirTemp(c.Scratch, "p24-")
	must(err)
	id, err := config.CreateIdentity(io.Discard)
	must(err)
	cfg, err := config.InitWithIdentity(id)
	must(err)
	cfg.Bootstrap.Peers, cfg.Bootstrap.MinimumPeers = []string{}, 0
	cfg.Discovery.LotusGateway = "none"
	cfg.Indexer.ShutdownTimeout = config.Duration(10 * time.Minute)
	cfg.Indexer.ValueStoreType = []string{"sth", "pogreb"}[r.Intn(2)]
	cfg.Indexer.CacheSize = -1
	cfg.Addresses.P2PAddr = "/ip4/127.0.0.1/tcp/0"
	cfg.Logging.Level, cfg.Logging.Loggers = "error", map[string]string{}
	bin := os.Getenv("VERIFMON_DAEMON")
	if bin == "" {
		panic("verifmon harness: no daemon binary")
	}
	return &Daemon{c: c, dir: dir, cfg: cfg, bin: bin, hc: &http.Client{Transport: &http.Transport{MaxIdleConnsPerHost: 8}}}
}

func (d *Daemon) path() string { return filepath.Join(d.dir, "config") }

// put replaces the configuration file at once.
func (d *Daemon) put(b []byte) {
	tmp := d.path() + ".tmp"
	must(os.WriteFile(tmp, b, 0o600))
	d.puts++
	if d.puts%3 != 0 {
		// As if moved here from elsewhere: older than the file it replaces.
		old := time.Now().Add(-time.Duration(d.puts) * time.Hour)
		must(os.Chtimes(tmp, old, old))
	}
	must(os.Rename(tmp, d.path()))
}

func (d *Daemon) putCfg(cfg *config.Config) {
	b, err := config.Marshal(cfg)
	must(err)
	d.put(b)
}

func copyCfg(cfg *config.Config) *config.Config {
	b, err := json.Marshal(cfg)
	must(err)
	var out config.Config
	must(json.Unmarshal(b, &out))
	return &out
}

// Start starts the daemon and waits until its servers answer.
func (d *Daemon) Start() bool {
	for try := 0; try < 8; try++ {
		set := func(on string, url *string) string {
			if on == "none" {
				*url = ""
				return on
			}
			a := freeAddr()
			*url = "http://" + a
			return tcpMaddr(a)
		}
		d.cfg.Addresses.Finder = set(d.cfg.Addresses.Finder, &d.find)
		d.cfg.Addresses.Ingest = set(d.cfg.Addresses.Ingest, &d.ingest)
		d.cfg.Addresses.Admin = set(d.cfg.Addresses.Admin, &d.admin)
		for _, a := range d.args {
			switch a {
			case "--noadmin":
				d.admin = ""
			case "--nofinder":
				d.find = ""
			case "--noingest":
				d.ingest = ""
			}
		}
		d.putCfg(d.cfg)
		d.out = &syncBuf{}
		d.cmd = exec.Command(d.bin, append([]string{"daemon"}, d.args...)...)
		d.cmd.Dir = d.dir
		d.cmd.Env = []string{"HOME=" + d.dir, "TMPDIR=" + d.dir, "STORETHEINDEX_PATH=" + d.dir, "PATH=/usr/bin:/bin", "GOTRACEBACK=all"}
		d.cmd.Stdout, d.cmd.Stderr = d.out, d.out
		d.done = make(chan struct{})
		must(d.cmd.Start())
		go func() { d.err = d.cmd.Wait(); close(d.done) }()
		tick()
		ok := d.await(func() bool {
			if isDone(d.done) {
				return true
			}
			if !strings.Contains(d.out.String(), "Indexer is ready") {
				return false
			}
			for _, u := range []string{d.find, d.ingest, d.admin} {
				if u == "" {
					continue
				}
				if rp := d.get(u + map[string]string{d.find: "/health", d.ingest: "/health", d.admin: "/healthcheck"}[u]); rp.Err != nil {
					return false
				}
			}
			return true
		})
		if isDone(d.done) {
			if strings.Contains(d.out.String(), "address already in use") {
				continue
			}
			if d.known != "" && strings.Contains(d.out.String(), d.known) {
				d.c.Violate("known:admin-without-p2p", "the daemon ends with the panic %q when libp2p is disabled and the admin server is not", d.known)
				return false
			}
			d.c.Violate("start", "the daemon does not start with this configuration: %v: %s", d.err, tail(d.out.String(), 2500))
			return false
		}
		if ok != waitOK {
			d.undecided(ok, "start", "the daemon does not become ready")
			return false
		}
		return true
	}
	d.c.Inconclusive("no free ports")
	return false
}

func tail(s string, n int) string {
	if i := strings.Index(s, "panic: "); i >= 0 {
		s = s[i:]
		if len(s) > n {
			s = s[:n]
		}
		return s
	}
	if len(s) > n {
		s = s[len(s)-n:]
	}
	return s
}

func (d *Daemon) get(url string) reply {
	return (&Srv{hc: d.hc}).HTTP("GET", url, nil)
}

func (d *Daemon) do(method, url string, body []byte) reply {
	return (&Srv{hc: d.hc}).HTTP(method, url, body)
}

func (d *Daemon) undecided(w waitResult, key, what string) {
	if w == waitStuck {
		d.c.Violate(key, "%s; output: %s", what, tail(d.out.String(), 1500))
	} else if !d.c.Failed() {
		d.c.Inconclusive("timed out: %s", what)
	}
}

// childCPU is the CPU time a process has used, in ticks of 10 ms.
func childCPU(pid int) int64 {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/stat", pid))
	if err != nil {
		return 0
	}
	s := string(b)
	f := strings.Fields(s[strings.LastIndexByte(s, ')')+1:])
	if len(f) < 13 {
		return 0
	}
	u, _ := strconv.ParseInt(f[11], 10, 64)
	v, _ := strconv.ParseInt(f[12], 10, 64)
	return u + v
}

// await waits for cond; it gives up with a verdict only after the daemon has
// used next to no CPU for a long time.
func (d *Daemon) await(cond func() bool) waitResult {
	pid := d.cmd.Process.Pid
	start, win, cpu, ticks := time.Now(), time.Now(), childCPU(pid), 0
	for {
		if cond() {
			return waitOK
		}
		time.Sleep(5 * time.Millisecond)
		ticks++
		if w := time.Since(win); w > 25*time.Second {
			if now := childCPU(pid); ticks > 500 && now-cpu < 400 {
				if cond() {
					return waitOK
				}
				return waitStuck
			} else {
				win, cpu, ticks = time.Now(), now, 0
			}
		}
		if time.Since(start) > hardCap || d.c.Failed() {
			return waitUnknown
		}
	}
}

// Stop ends the daemon in an orderly way and judges its end.
func (d *Daemon) Stop(sig syscall.Signal) bool {
	if isDone(d.done) {
		d.c.Violate("died", "the daemon ended by itself: %v: %s", d.err, tail(d.out.String(), 2500))
		return false
	}
	d.hc.CloseIdleConnections()
	_ = d.cmd.Process.Signal(sig)
	if w := d.await(func() bool { return isDone(d.done) }); w != waitOK {
		d.undecided(w, "stop", "the daemon does not stop")
		return false
	}
	d.c.Eval(1)
	d.c.Count("stops", 1)
	if d.err != nil {
		d.c.Violate("exit", "an orderly stop ends with %v: %s", d.err, tail(d.out.String(), 2500))
		return false
	}
	if o := d.out.String(); strings.Contains(o, "panic:") || strings.Contains(o, "goroutine ") {
		d.c.Violate("exit", "the daemon panicked: %s", tail(o, 2500))
		return false
	}
	return true
}

func (d *Daemon) Cleanup() {
	if d.cmd != nil && d.cmd.Process != nil {
		_ = d.cmd.Process.Kill()
		<-d.done
	}
	d.hc.CloseIdleConnections()
	os.RemoveAll(d.dir)
}

func (d *Daemon) Alive() bool {
	d.c.Eval(1)
	if isDone(d.done) {
		d.c.Violate("died", "the daemon ended by itself: %v: %s", d.err, tail(d.out.String(), 3000))
		return false
	}
	return true
}

// dpol is the allow policy in force.
type dpol struct {
	allow  bool
	except map[peer.ID]bool
}

func (p dpol) ok(id peer.ID) bool { return p.allow != p.except[id] }

func (p dpol) config() config.Policy {
	out := config.Policy{Allow: p.allow, Publish: true}
	for id := range p.except {
		out.Except = append(out.Except, id.String())
	}
	sort.Strings(out.Except)
	return out
}

func (p *dpol) set(id peer.ID, ok bool) {
	if ok == p.allow {
		delete(p.except, id)
	} else {
		p.except[id] = true
	}
}

func (p dpol) clone() dpol {
	q := dpol{p.allow, map[peer.ID]bool{}}
	for k := range p.except {
		q.except[k] = true
	}
	return q
}

var p24seq = struct {
	sync.Mutex
	n uint64
}{n: uint64(time.Now().UnixNano())}

func nextSeq() uint64 {
	p24seq.Lock()
	defer p24seq.Unlock()
	p24seq.n += 1000
	if now := uint64(time.Now().UnixNano()); p24seq.n > now {
		now, p24seq.n = p24seq.n, p24seq.n
	} else {
		p24seq.n = now
	}
	return p24seq.n
}

// world24 is what the daemon must hold.
type world24 struct {
	*Daemon
	r     *mrand.Rand
	ids   []Ident
	pol   dpol
	reg   map[peer.ID]string // address
	model *Model
	mhs   []string
	pub   *Pub
	hist  []string
}

func (w *world24) bad(key, format string, args ...interface{}) bool {
	h := w.hist
	if len(h) > 14 {
		h = h[len(h)-14:]
	}
	w.c.Violate(key, "%s; history %v; output: %s", fmt.Sprintf(format, args...), h, tail(w.out.String(), 800))
	return false
}

// probe registers a peer; it says whether that was allowed.
func (w *world24) probe(v Ident) (bool, error) {
	addr := fmt.Sprintf("/ip4/127.0.0.1/tcp/%d", 1+w.r.Intn(60000))
	q := reqSpec{what: "register", prov: v.ID, seq: nextSeq(), addrs: []string{addr}}
	rp := w.do("POST", w.ingest+"/register", q.sign(v))
	if rp.Err != nil {
		return false, rp.Err
	}
	if rp.ok() {
		w.reg[v.ID] = addr
		return true, nil
	}
	if rp.Status != http.StatusForbidden && rp.Status != http.StatusBadRequest {
		return false, fmt.Errorf("answer %s", rp)
	}
	return false, nil
}

// judge checks the policy in force, the content and the providers.
func (w *world24) judge(when string) bool {
	if !w.Alive() {
		return false
	}
	for _, v := range w.ids {
		got, err := w.probe(v)
		if err != nil {
			if !w.Alive() {
				return false
			}
			return w.bad("no-answer", "%s: registration request: %v", when, err)
		}
		w.c.Eval(1)
		if got != w.pol.ok(v.ID) {
			return w.bad("policy", "%s: registration of %s allowed: %v, by the policy that must be in force: %v", when, shortPeer(v.ID), got, w.pol.ok(v.ID))
		}
	}
	return w.judgeData(when)
}

func (w *world24) judgeData(when string) bool {
	rp := w.get(w.find + "/providers")
	if rp.Err != nil || rp.Status != 200 {
		if !w.Alive() {
			return false
		}
		return w.bad("no-answer", "%s: provider listing: %s", when, rp)
	}
	var infos []model.ProviderInfo
	if err := json.Unmarshal(rp.Body, &infos); err != nil {
		return w.bad("providers", "%s: provider listing: %v", when, err)
	}
	got := map[peer.ID]string{}
	for _, p := range infos {
		if len(p.AddrInfo.Addrs) > 0 {
			got[p.AddrInfo.ID] = p.AddrInfo.Addrs[0].String()
		} else {
			got[p.AddrInfo.ID] = "none"
		}
	}
	w.c.Eval(1)
	if fmt.Sprint(got) != fmt.Sprint(w.reg) {
		return w.bad("providers", "%s: provider listing is %v, want %v", when, got, w.reg)
	}
	exp := w.model.Expect()
	for k := 0; k < 6; k++ {
		m := w.mhs[w.r.Intn(len(w.mhs))]
		rp := w.get(w.find + "/multihash/" + multihash.Multihash(m).B58String())
		if rp.Err != nil || (rp.Status != 200 && rp.Status != 404) {
			return w.bad("no-answer", "%s: find: %s", when, rp)
		}
		var have []string
		if rp.Status == 200 {
			var fr model.FindResponse
			if err := json.Unmarshal(rp.Body, &fr); err != nil {
				return w.bad("find", "%s: find: %v", when, err)
			}
			for _, mr := range fr.MultihashResults {
				for _, pr := range mr.ProviderResults {
					have = append(have, recString(pr.Provider.ID, string(pr.ContextID), string(pr.Metadata)))
				}
			}
		}
		sort.Strings(have)
		w.c.Eval(1)
		if strings.Join(have, " ") != strings.Join(exp[m], " ") {
			return w.bad("find", "%s: multihash %s gives %v, want %v", when, multihash.Multihash(m).B58String(), have, exp[m])
		}
	}
	return true
}

// invalid gives a configuration file that must be refused.
func (w *world24) invalid() ([]byte, string) {
	cfg := copyCfg(w.cfg)
	// The policy in it must not come into force.
	cfg.Discovery.Policy = dpol{!w.pol.allow, map[peer.ID]bool{}}.config()
	what := ""
	switch w.r.Intn(10) {
	case 0:
		b, err := config.Marshal(cfg)
		must(err)
		return b[:w.r.Intn(len(b))], "truncated"
	case 1:
		return []byte("not a configuration"), "text"
	case 2:
		cfg.Discovery.Policy.Except = append(cfg.Discovery.Policy.Except, "notapeer")
		what = "bad peer in policy"
	case 3:
		cfg.Ingest.RateLimit.BlocksPerSecond = -5
		what = "negative rate"
	case 4:
		cfg.Ingest.RateLimit.Except = []string{"x!"}
		cfg.Ingest.RateLimit.BlocksPerSecond = 1000 // else not looked at
		cfg.Ingest.RateLimit.BurstSize = 1000
		what = "bad peer in rate limit"
	case 5:
		cfg.Peering.Peers = []string{"/ip4/1.2.3.4"}
		what = "bad peering address"
	case 6:
		cfg.Logging.Level = "nosuchlevel"
		what = "bad log level"
	case 7:
		cfg.Datastore.Type = "nosuch"
		what = "bad datastore"
	case 8:
		cfg.Discovery.Policy.PublishExcept = []string{"zzz"}
		what = "bad peer in publish policy"
	default:
		return nil, "missing"
	}
	b, err := config.Marshal(cfg)
	must(err)
	return b, what
}

func (w *world24) valid() *config.Config {
	cfg := copyCfg(w.cfg)
	p := dpol{w.r.Intn(2) == 0, map[peer.ID]bool{}}
	for _, v := range w.ids {
		if w.r.Intn(3) == 0 {
			p.except[v.ID] = true
		}
	}
	cfg.Discovery.Policy = p.config()
	cfg.Ingest.RateLimit.BlocksPerSecond = []int{0, 100, 5000}[w.r.Intn(3)]
	cfg.Ingest.RateLimit.BurstSize = []int{0, 5000}[w.r.Intn(2)]
	cfg.Ingest.RateLimit.Apply = w.r.Intn(2) == 0
	cfg.Ingest.IngestWorkerCount = []int{0, 1, 3, 10, 20}[w.r.Intn(5)]
	cfg.Ingest.StoreBatchSize = []int{0, 1, 16}[w.r.Intn(3)]
	cfg.Logging.Level = []string{"error", "warn"}[w.r.Intn(2)]
	cfg.Peering.Peers = nil
	for n := w.r.Intn(3); n > 0; n-- {
		cfg.Peering.Peers = append(cfg.Peering.Peers, "/ip4/127.0.0.1/tcp/1/p2p/"+w.ids[w.r.Intn(len(w.ids))].ID.String())
	}
	return cfg
}

func (w *world24) adopt(cfg *config.Config) {
	w.cfg = cfg
	w.pol = dpol{cfg.Discovery.Policy.Allow, map[peer.ID]bool{}}
	for _, e := range cfg.Discovery.Policy.Except {
		id, err := peer.Decode(e)
		must(err)
		w.pol.except[id] = true
	}
}

// differs is a peer on which the policies differ.
func (w *world24) differs(old dpol) (Ident, bool) {
	for _, v := range w.ids {
		if old.ok(v.ID) != w.pol.ok(v.ID) {
			return v, true
		}
	}
	return Ident{}, false
}

func (w *world24) reload(n int) []reply {
	out := make([]reply, n)
	var wg sync.WaitGroup
	for k := range out {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			out[k] = w.do("POST", w.admin+"/reloadconfig", nil)
		}(k)
	}
	wg.Wait()
	return out
}

func (c *Ctx) p24(i int) {
	r := c.Rng("hist", i)
	d := newDaemon(c, r)
	defer d.Cleanup()
	mode := i % 3 // 0: administrator; 1: and signals; 2: and watching
	if mode == 2 {
		d.cfg.Indexer.ConfigCheckInterval = config.Duration(20 * time.Millisecond)
	} else {
		d.args = []string{"--watch-config=false"}
	}
	w := &world24{Daemon: d, r: r, ids: newIdents(r, 3), reg: map[peer.ID]string{}, model: newModel()}
	provs := newIdents(r, 2)
	w.pub = newPub(provs[1])
	defer w.pub.Close()
	w.adopt(d.cfg)
	for k := 0; k < 40; k++ {
		w.mhs = append(w.mhs, string(testMh(fmt.Sprint("p24-", i, "-", k))))
	}
	if !w.Start() {
		return
	}
	note := func(f string, a ...interface{}) { w.hist = append(w.hist, fmt.Sprintf(f, a...)) }
	if !w.judge("after start") {
		return
	}
	nAd := 0
	for step := 0; step < 14; step++ {
		switch x := r.Intn(14); {
		case x < 2: // import content
			if !w.pol.ok(provs[0].ID) {
				continue
			}
			if _, err := w.probe(provs[0]); err != nil {
				w.bad("no-answer", "registration: %v", err)
				return
			}
			var ls, ms []string
			for k := 0; k < 5; k++ {
				m := w.mhs[r.Intn(len(w.mhs))]
				ms = append(ms, m)
				ls = append(ls, cid.NewCidV1(cid.Raw, multihash.Multihash(m)).String())
			}
			f := filepath.Join(w.dir, "list")
			must(os.WriteFile(f, []byte(strings.Join(ls, "\n")+"\n"), 0o600))
			sp := AdSpec{Ctx: fmt.Sprint("ctx", r.Intn(2)), Meta: fmt.Sprint("meta", step), Mhs: ms}
			b, err := json.Marshal(map[string][]byte{"file": []byte(f), "context_id": []byte(sp.Ctx), "metadata": []byte(sp.Meta)})
			must(err)
			rp := w.do("POST", w.admin+"/import/cidlist/"+provs[0].ID.String(), b)
			if rp.Err != nil || rp.Status != 200 {
				if w.Alive() {
					w.bad("import", "import: %s", rp)
				}
				return
			}
			w.model.Apply(provs[0].ID, sp)
			note("import %d", len(ms))
		case x < 4: // sync with a publisher
			if !w.pol.ok(provs[1].ID) {
				continue
			}
			nAd++
			sp := AdSpec{Ctx: fmt.Sprint("ad", nAd%3), Meta: fmt.Sprint("m", nAd), ChunkLen: 3, Mhs: []string{w.mhs[r.Intn(len(w.mhs))], w.mhs[r.Intn(len(w.mhs))], string(testMh(fmt.Sprint("p24-", i, "-last-", nAd)))}}
			w.pub.Publish(sp)
			b, err := json.Marshal(w.pub.AddrInfo().Addrs[0].String())
			must(err)
			rp := w.do("POST", w.admin+"/ingest/sync/"+provs[1].ID.String(), b)
			if rp.Err != nil || !rp.ok() {
				if w.Alive() {
					w.bad("sync", "sync: %s", rp)
				}
				return
			}
			w.mhs = append(w.mhs, sp.Mhs[2])
			// The sync covers all published advertisements.
			last := multihash.Multihash(sp.Mhs[2]).B58String()
			if res := w.await(func() bool {
				return isDone(w.done) || w.get(w.find+"/multihash/"+last).Status == 200
			}); res != waitOK {
				w.undecided(res, "sync", fmt.Sprintf("advertisement %d is not ingested, history %v", nAd, w.hist))
				return
			}
			if !w.Alive() {
				return
			}
			w.model.Apply(provs[1].ID, sp)
			// Its address, in the listing.
			rp = w.get(w.find + "/providers/" + provs[1].ID.String())
			var pi model.ProviderInfo
			if err := json.Unmarshal(rp.Body, &pi); err != nil || len(pi.AddrInfo.Addrs) == 0 {
				w.bad("providers", "after a sync the provider is not listed: %s", rp)
				return
			}
			w.reg[provs[1].ID] = pi.AddrInfo.Addrs[0].String()
			note("sync %d", nAd)
		case x == 4: // discovery that cannot be done
			q := reqSpec{what: "discover", prov: w.ids[0].ID, seq: nextSeq(), disc: "t01000"}
			rp := w.do("POST", w.ingest+"/discover", q.sign(w.ids[0]))
			c.Eval(1)
			if rp.Err != nil {
				if w.Alive() {
					w.bad("no-answer", "discover request: %s", rp)
				}
				return
			}
			note("discover %d", rp.Status)
		case x == 5 && mode == 0: // administrator changes the policy
			v, ok := w.ids[r.Intn(len(w.ids))], r.Intn(2) == 0
			verb := map[bool]string{true: "allow", false: "block"}[ok]
			rp := w.do("PUT", w.admin+"/ingest/"+verb+"/"+v.ID.String(), nil)
			if rp.Err != nil || !rp.ok() {
				if w.Alive() {
					w.bad("no-answer", "%s: %s", verb, rp)
				}
				return
			}
			w.pol.set(v.ID, ok)
			note("%s %s", verb, shortPeer(v.ID))
		case x < 9: // invalid file
			b, what := w.invalid()
			if b == nil {
				must(os.Remove(w.path()))
			} else {
				w.put(b)
			}
			n, sig := 1, 0
			if r.Intn(3) == 0 {
				n = 4
			}
			if mode > 0 {
				sig = r.Intn(3)
			}
			for k := 0; k < sig; k++ {
				_ = w.cmd.Process.Signal(syscall.SIGHUP)
			}
			note("reload %s n=%d sig=%d", what, n, sig)
			if mode == 2 {
				time.Sleep(30 * time.Millisecond)
			}
			for _, rp := range w.reload(n) {
				if rp.Err != nil {
					if w.Alive() {
						w.bad("no-answer", "reload of a file that is %s: %s", what, rp)
					}
					return
				}
				c.Eval(1)
				if rp.Status < 400 {
					w.bad("invalid-accepted", "reload of a file that is %s: %s", what, rp)
					return
				}
			}
			c.Seen(fmt.Sprintf("invalid %s mode=%d n=%d sig=%d", what, mode, n, sig))
			c.Count("invalid reloads", int64(n+sig))
			if !w.judge("after reload of a file that is " + what) {
				return
			}
			w.putCfg(w.cfg) // as before, so that later triggers change nothing
			if mode == 0 {
				// A reload would drop the administrator's changes.
				continue
			}
		case x < 12: // valid file
			cfg := w.valid()
			old := w.pol.clone()
			w.adopt(cfg)
			w.putCfg(cfg)
			trig := "admin"
			v, differ := w.differs(old)
			if mode > 0 && differ {
				trig = []string{"admin", "signal", "signal+admin"}[r.Intn(3)]
			}
			if mode == 2 && differ && r.Intn(2) == 0 {
				trig = "watch"
			}
			note("reload valid by %s", trig)
			if strings.Contains(trig, "signal") {
				_ = w.cmd.Process.Signal(syscall.SIGHUP)
			}
			if strings.Contains(trig, "admin") {
				n := 1
				if r.Intn(3) == 0 {
					n = 5
				}
				for _, rp := range w.reload(n) {
					if rp.Err != nil {
						if w.Alive() {
							w.bad("no-answer", "reload of a valid file: %s", rp)
						}
						return
					}
					c.Eval(1)
					if rp.Status != 200 {
						w.bad("valid-refused", "reload of a valid file: %s", rp)
						return
					}
				}
			} else {
				var perr error
				if res := w.await(func() bool {
					if isDone(w.done) {
						return true
					}
					var got bool
					got, perr = w.probe(v)
					return perr != nil || got == w.pol.ok(v.ID)
				}); res != waitOK {
					w.undecided(res, "not-applied", fmt.Sprintf("the policy of a valid file (trigger: %s) does not come into force, history %v", trig, w.hist))
					return
				}
				if !w.Alive() {
					return
				}
				if perr != nil {
					w.bad("no-answer", "registration request: %v", perr)
					return
				}
			}
			c.Seen(fmt.Sprintf("valid mode=%d %s differ=%v", mode, trig, differ))
			c.Count("valid reloads", 1)
			if !w.judge("after reload of a valid file by " + trig) {
				return
			}
		default: // stop and start again
			inflight := r.Intn(2) == 0
			note("restart inflight=%v", inflight)
			var wg sync.WaitGroup
			if inflight {
				for k := 0; k < 6; k++ {
					wg.Add(1)
					go func() {
						defer wg.Done()
						for !isDone(w.done) {
							if rp := w.do("POST", w.admin+"/reloadconfig", nil); rp.Err != nil {
								return
							}
						}
					}()
				}
				time.Sleep(time.Duration(r.Intn(5)) * time.Millisecond)
			}
			ok := w.Stop([]syscall.Signal{syscall.SIGTERM, syscall.SIGINT}[r.Intn(2)])
			if !ok {
				return
			}
			wg.Wait()
			// Providers that the policy forbids are not loaded.
			w.cfg.Discovery.Policy = dpol{true, nil}.config()
			w.adopt(w.cfg)
			if !w.Start() {
				return
			}
			c.Seen(fmt.Sprintf("restart mode=%d inflight=%v store=%s", mode, inflight, w.cfg.Indexer.ValueStoreType))
			c.Count("restarts", 1)
			if !w.judgeData("after a restart") {
				return
			}
		}
		if !w.judge(fmt.Sprint("after step ", step)) {
			return
		}
	}
	if !w.Stop(syscall.SIGTERM) {
		return
	}
	w.cfg.Discovery.Policy = dpol{true, nil}.config()
	w.adopt(w.cfg)
	if !w.Start() || !w.judgeData("after the last restart") || !w.judge("after the last restart") || !w.Stop(syscall.SIGTERM) {
		return
	}
	if i < 3 {
		c.Sample("mode %d: %v", mode, w.hist)
	}
}

// p24servers: servers that are disabled.
func (c *Ctx) p24servers(i int) {
	r := c.Rng("servers", i)
	d := newDaemon(c, r)
	defer d.Cleanup()
	mask := 1 + i%7
	// The admin server needs libp2p, see known_findings.json.
	p2pOff := i >= 7
	if p2pOff {
		mask = []int{1, 0, 3, 5, 2, 7}[i%6]
	}
	byFlag := r.Intn(2) == 0
	for k, f := range []string{"--noadmin", "--nofinder", "--noingest"} {
		if mask&(1<<uint(k)) == 0 {
			continue
		}
		if byFlag {
			d.args = append(d.args, f)
			continue
		}
		switch k {
		case 0:
			d.cfg.Addresses.Admin = "none"
		case 1:
			d.cfg.Addresses.Finder = "none"
		default:
			d.cfg.Addresses.Ingest = "none"
		}
	}
	p2pAddr := tcpMaddr(freeAddr())
	d.cfg.Addresses.P2PAddr = p2pAddr
	if p2pOff {
		if byFlag {
			d.args = append(d.args, "--nop2p")
		} else {
			d.cfg.Addresses.P2PAddr, p2pAddr = "none", "none"
		}
		if mask&1 == 0 {
			d.known = "ingester cannot be nil"
		}
	}
	if !d.Start() {
		return
	}
	for k, a := range []string{d.cfg.Addresses.Admin, d.cfg.Addresses.Finder, d.cfg.Addresses.Ingest, p2pAddr} {
		if k < 3 && mask&(1<<uint(k)) == 0 || k == 3 && !p2pOff || a == "none" {
			continue
		}
		p := strings.Split(a, "/")
		c.Eval(1)
		if conn, err := net.DialTimeout("tcp", net.JoinHostPort(p[2], p[4]), 5*time.Second); err == nil {
			conn.Close()
			c.Violate("disabled", "a server that is disabled listens at %s", a)
			return
		}
	}
	_ = d.cmd.Process.Signal(syscall.SIGHUP)
	time.Sleep(20 * time.Millisecond)
	if !d.Alive() || !d.Stop(syscall.SIGTERM) {
		return
	}
	c.Seen(fmt.Sprintf("servers mask=%d flag=%v p2p=%v", mask, byFlag, !p2pOff))
}

// p24peering: peering stays in force through invalid reloads.
func (c *Ctx) p24peering(i int) {
	r := c.Rng("peering", i)
	d := newDaemon(c, r)
	defer d.Cleanup()
	d.args = []string{"--watch-config=false"}
	h := newHost(true)
	defer h.Close()
	base := copyCfg(d.cfg)
	d.cfg.Peering.Peers = []string{h.Addrs()[0].String() + "/p2p/" + h.ID().String()}
	id, _, err := d.cfg.Identity.Decode()
	must(err)
	if !d.Start() {
		return
	}
	connected := func() bool { return h.Network().Connectedness(id) == network.Connected }
	wait := func(what string) bool {
		if res := d.await(func() bool { return isDone(d.done) || connected() }); res != waitOK {
			d.undecided(res, "peering", what)
			return false
		}
		c.Eval(1)
		return d.Alive()
	}
	if !wait("the daemon does not connect to its peer") {
		return
	}
	bad := copyCfg(d.cfg)
	switch i % 3 {
	case 0:
		bad.Peering.Peers = []string{"/ip4/1.2.3.4"}
	case 1:
		bad.Peering.Peers, bad.Ingest.RateLimit.BlocksPerSecond = nil, -1
	default:
		bad.Peering.Peers, bad.Logging.Level = nil, "nosuch"
	}
	d.putCfg(bad)
	rp := d.do("POST", d.admin+"/reloadconfig", nil)
	if rp.Err != nil || rp.Status < 400 {
		if d.Alive() {
			c.Violate("invalid-accepted", "reload of an invalid file: %s", rp)
		}
		return
	}
	if err := h.Network().ClosePeer(id); err != nil && !errors.Is(err, io.EOF) {
		c.Inconclusive("close: %v", err)
		return
	}
	if !wait("after a reload that failed, the daemon no longer keeps the connection to its peer") {
		return
	}
	// And without peers the daemon reloads and stops.
	base.Addresses = d.cfg.Addresses
	d.putCfg(base)
	if rp = d.do("POST", d.admin+"/reloadconfig", nil); rp.Err != nil || rp.Status != 200 {
		if d.Alive() {
			c.Violate("valid-refused", "reload without peering: %s", rp)
		}
		return
	}
	if d.Stop(syscall.SIGTERM) {
		c.Seen(fmt.Sprint("peering ", i%3))
	}
}
