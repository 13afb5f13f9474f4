package main

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	mrand "math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	adminhttpclient "github.com/filecoin-project/storetheindex/api/v0/admin/client/http"
	"github.com/ipfs/go-cid"
	"github.com/libp2p/go-libp2p-core/peer"
	"github.com/multiformats/go-multibase"
	"github.com/multiformats/go-multihash"
)

func init() {
	register("P25", "random CID lists and aggregation manifests (CID versions, codecs and bases, line endings, missing final newline, blank, overlong and malformed lines, other record types, sizes around multiples of the batch size) are imported one after another and several at once through the admin HTTP server, by its client and by raw requests; "+
		"every mutation of the index is recorded and compared with the valid entries of the file, the whole index with a reference model, and sampled lookups go through the finder; unreadable files, files without a valid entry, incomplete requests and injected store failures must be reported. distinct counts (kind, shape of file, outcome)",
		runP25, "what a failed import leaves behind is judged only by a repeated import")
}

func runP25(c *Ctx) {
	c.RunN("hist", c.N(40, 800), 8, func(c *Ctx, i int) { c.p25(i) })
}

var importBases = []multibase.Encoding{multibase.Base32, multibase.Base32, multibase.Base58BTC, multibase.Base36, multibase.Base16, multibase.Base64url, multibase.Base32Upper, multibase.Base64pad}

// importCid is some text of a CID with the multihash.
func importCid(r *mrand.Rand, m multihash.Multihash, v1 bool) string {
	d, err := multihash.Decode(m)
	must(err)
	if !v1 && d.Code == multihash.SHA2_256 && d.Length == 32 && r.Intn(2) == 0 {
		return cid.NewCidV0(m).String()
	}
	x := cid.NewCidV1([]uint64{cid.Raw, cid.DagProtobuf, cid.DagCBOR, 0x0129, 0xf101}[r.Intn(5)], m)
	s, err := x.StringOfBase(importBases[r.Intn(len(importBases))])
	must(err)
	return s
}

// importFile is one generated file.
type importFile struct {
	kind  string
	path  string
	mhs   []string // valid entries
	long  bool     // has a line longer than any reader's buffer
	shape string
}

func genImport(r *mrand.Rand, dir, name string, u []string) importFile {
	f := importFile{kind: []string{"cidlist", "manifest"}[r.Intn(2)], path: filepath.Join(dir, name)}
	n := []int{0, 1, 2, 10, 255, 256, 257, 300, 511, 512, 513, 1000}[r.Intn(12)]
	start := r.Intn(len(u))
	crlf, last, junk := r.Intn(4) == 0, r.Intn(2) == 0, r.Intn(3) == 0
	f.long = junk && r.Intn(4) == 0
	f.shape = fmt.Sprintf("n=%d crlf=%v last=%v junk=%v long=%v", n, crlf, last, junk, f.long)
	var lines []string
	bad := func() string {
		m := multihash.Multihash(u[r.Intn(len(u))])
		var s string
		switch r.Intn(7) {
		case 0:
			return ""
		case 1:
			s = "# a comment"
		case 2:
			s = importCid(r, m, false)
			s = s[:len(s)/2]
		case 3:
			s = importCid(r, m, false) + "," + importCid(r, m, false)
		case 4:
			s = m.B58String() + "!"
		case 5:
			s = "\x00\xff\xfe"
		default:
			s = string(randBytes(r, 30))
			s = strings.NewReplacer("\n", "", "\r", "").Replace(s)
		}
		if _, err := cid.Decode(strings.TrimSpace(s)); err == nil {
			return "not a cid"
		}
		return s
	}
	entry := func(m multihash.Multihash) string {
		if f.kind == "cidlist" {
			return importCid(r, m, false)
		}
		e := map[string]interface{}{"RecordType": "DagAggregateEntry", "PathPrefixes": []string{"a", "b"}, "PathIndexes": []int{1, r.Intn(1000), 3}, "NodeCount": r.Intn(1 << 20)}
		d, err := multihash.Decode(m)
		must(err)
		v0 := d.Code == multihash.SHA2_256 && d.Length == 32
		switch {
		case v0 && r.Intn(3) == 0:
			e["DagCidV0"] = cid.NewCidV0(m).String()
			if r.Intn(2) == 0 {
				e["DagCidV1"] = bad()
			}
		case v0 && r.Intn(2) == 0:
			e["DagCidV0"] = cid.NewCidV0(m).String()
			e["DagCidV1"] = importCid(r, m, true)
		default:
			e["DagCidV1"] = importCid(r, m, true)
		}
		b, err := json.Marshal(e)
		must(err)
		return string(b)
	}
	badLine := func() string {
		if f.kind == "cidlist" {
			return bad()
		}
		m := multihash.Multihash(u[r.Intn(len(u))])
		switch r.Intn(8) {
		case 0:
			return `{"RecordType":"DagAggregatePreamble","Version":1}`
		case 1:
			return `{"RecordType":"DagAggregateSummary","EntryCount":3,"DagCidV1":"` + importCid(r, m, true) + `"}`
		case 2:
			return `{"RecordType":"DagAggregateEntry","DagCidV1":"` + importCid(r, m, true) + `"`
		case 3:
			return `{"RecordType":"DagAggregateEntry"}`
		case 4:
			return `{"RecordType":"DagAggregateEntry","DagCidV1":12}`
		case 5:
			return `{"DagCidV1":"` + importCid(r, m, true) + `"}`
		case 6:
			b, err := json.Marshal(map[string]interface{}{"RecordType": "DagAggregateEntry", "DagCidV1": "x!", "DagCidV0": "y!"})
			must(err)
			return string(b)
		}
		return bad()
	}
	if f.kind == "manifest" && r.Intn(2) == 0 {
		lines = append(lines, `{"RecordType":"DagAggregatePreamble","Version":1}`)
	}
	longAt := -1
	if f.long {
		longAt = r.Intn(n + 1)
	}
	for j := 0; j < n; j++ {
		if j == longAt {
			lines = append(lines, strings.Repeat("x", 70000+r.Intn(100000)))
		}
		if junk && r.Intn(5) == 0 {
			lines = append(lines, badLine())
		}
		m := u[(start+j)%len(u)]
		if r.Intn(50) == 0 && j > 0 {
			m = u[(start+r.Intn(j))%len(u)] // once more
		}
		f.mhs = append(f.mhs, m)
		lines = append(lines, entry(multihash.Multihash(m)))
	}
	if longAt == n {
		lines = append(lines, strings.Repeat("y", 70000+r.Intn(100000)))
	}
	if junk && r.Intn(2) == 0 {
		lines = append(lines, badLine())
	}
	eol := "\n"
	if crlf {
		eol = "\r\n"
	}
	s := strings.Join(lines, eol)
	if last && len(lines) > 0 {
		s += eol
	}
	must(os.WriteFile(f.path, []byte(s), 0o600))
	return f
}

func (c *Ctx) p25(i int) {
	r := c.Rng("hist", i)
	var failN int64 // the index mutation to fail
	var cnt int64
	rig := newRig(RigOpts{Listen: true, IXHook: func(op *IxOp) error {
		n := atomic.AddInt64(&cnt, 1)
		if f := atomic.LoadInt64(&failN); f > 0 && n == f {
			return errors.New("injected")
		}
		return nil
	}})
	s := newSrv(rig, srvOpts{noIngest: true})
	defer s.Stop()
	cl, err := adminhttpclient.New(s.AdminURL)
	must(err)
	dir, err := os.MkdirTemp(c.Scratch, "p25-")
	must(err)
	defer os.RemoveAll(dir)
	provs := newIdents(r, 2)
	for _, v := range provs {
		must(rig.Reg.RegisterOrUpdate(bg, v.ID, addrStrings(randMaddrs(r, 1)), cid.Undef, peer.AddrInfo{}))
	}
	var u []string
	for _, m := range testMhs(r, fmt.Sprint("p25-", i, "-"), 1300) {
		u = append(u, string(m))
	}
	model := newModel()
	a := newAsker(s)
	// send asks for one import and returns the status, or -1 (no answer).
	send := func(r *mrand.Rand, kind, path string, prov peer.ID, ctxID, meta []byte) (bool, string) {
		ctx, cancel := context.WithTimeout(bg, 90*time.Second)
		defer cancel()
		tick()
		defer tick()
		if r.Intn(2) == 0 {
			var err error
			if kind == "cidlist" {
				err = cl.ImportFromCidList(ctx, path, prov, ctxID, meta)
			} else {
				err = cl.ImportFromManifest(ctx, path, prov, ctxID, meta)
			}
			return err == nil, fmt.Sprintf("client error %v", err)
		}
		b, err := json.Marshal(map[string][]byte{"file": []byte(path), "context_id": ctxID, "metadata": meta})
		must(err)
		rp := s.HTTP("POST", s.AdminURL+"/import/"+kind+"/"+prov.String(), b, "Content-Type", "application/json")
		return rp.Err == nil && rp.Status == 200, rp.String()
	}
	puts := func(prov peer.ID, ctxID string, from int) (map[string]int, string) {
		out := map[string]int{}
		for _, op := range rig.IX.Log()[from:] {
			if op.Err != nil {
				continue
			}
			if op.Kind != "put" {
				return nil, "unexpected " + op.String()
			}
			if op.Prov != prov || op.Ctx != ctxID {
				continue
			}
			for _, m := range op.Mhs {
				out[m]++
			}
		}
		return out, ""
	}
	judge := func(f importFile, prov peer.ID, ctxID, meta string, from int, ok bool, how string) bool {
		what := fmt.Sprintf("import of %s (%s), context %q: %s", f.kind, f.shape, ctxID, how)
		c.Eval(1)
		mustErr := len(f.mhs) == 0
		if ok && mustErr {
			c.Violate("empty-accepted", "%s, although no line has a valid entry", what)
			return false
		}
		if !ok && !mustErr && !(f.long && f.kind == "manifest") {
			c.Violate("refused", "%s, although %d lines are valid", what, len(f.mhs))
			return false
		}
		got, bad := puts(prov, ctxID, from)
		if bad != "" {
			c.Violate("mutation", "%s: %s", what, bad)
			return false
		}
		want := map[string]bool{}
		for _, m := range f.mhs {
			want[m] = true
		}
		var extra, missing []string
		for m := range got {
			if !want[m] {
				extra = append(extra, multihash.Multihash(m).B58String())
			}
		}
		for m := range want {
			if got[m] == 0 {
				missing = append(missing, multihash.Multihash(m).B58String())
			}
		}
		sort.Strings(extra)
		sort.Strings(missing)
		if len(extra) > 0 {
			c.Violate("extra", "%s: indexed %d entries that the file does not have, such as %s", what, len(extra), extra[0])
			return false
		}
		if len(missing) > 0 && ok {
			c.Violate("missing", "%s: %d of %d valid entries are not indexed, such as %s", what, len(missing), len(want), missing[0])
			return false
		}
		if len(missing) == 0 && len(want) > 0 {
			model.Apply(prov, AdSpec{Ctx: ctxID, Meta: meta, Mhs: f.mhs})
		} else if len(got) > 0 {
			var l []string
			for m := range got {
				l = append(l, m)
			}
			model.Apply(prov, AdSpec{Ctx: ctxID, Meta: meta, Mhs: l})
		}
		c.Seen(fmt.Sprintf("%s %s ok=%v", f.kind, f.shape, ok))
		c.Count("entries", int64(len(f.mhs)))
		return true
	}
	whole := func() bool {
		d, n := diffIndex(rig.Core, model, u, nil)
		c.Eval(n)
		if d != "" {
			c.Violate("index", "after imports: %s", d)
			return false
		}
		return true
	}
	for step := 0; step < 7; step++ {
		prov := provs[r.Intn(2)].ID
		ctxID := []byte(fmt.Sprint("ctx-", r.Intn(3)))
		if r.Intn(3) == 0 {
			ctxID = randBytes(r, 1+r.Intn(40))
		}
		meta := []byte(randMeta(r))
		switch x := r.Intn(10); {
		case x < 5: // one import
			f := genImport(r, dir, fmt.Sprint("f", step), u)
			from := len(rig.IX.Log())
			ok, how := send(r, f.kind, f.path, prov, ctxID, meta)
			if !judge(f, prov, string(ctxID), string(meta), from, ok, how) || !whole() {
				return
			}
			for k := 0; k < 3 && len(f.mhs) > 0 && ok; k++ {
				m := multihash.Multihash(f.mhs[r.Intn(len(f.mhs))])
				route := singleRoutes[r.Intn(len(singleRoutes))]
				res, _, err := a.Ask(r, route, []multihash.Multihash{m})
				if err != nil {
					c.Inconclusive("%s: %v", route, err)
					return
				}
				found := false
				for _, mr := range res {
					for _, pr := range mr.ProviderResults {
						if pr.Provider.ID == prov && bytes.Equal(pr.ContextID, ctxID) && bytes.Equal(pr.Metadata, meta) {
							found = true
						}
					}
				}
				c.Eval(1)
				if !found {
					c.Violate("find", "by %s: imported multihash %s is not found under context %q", route, m.B58String(), ctxID)
					return
				}
			}
		case x < 7: // several at once, each its own context
			type job struct {
				f    importFile
				ctx  string
				meta []byte
				prov peer.ID
				seed int64
				ok   bool
				how  string
			}
			jobs := make([]*job, 4)
			for k := range jobs {
				jobs[k] = &job{f: genImport(r, dir, fmt.Sprintf("f%d-%d", step, k), u), ctx: fmt.Sprintf("conc-%d-%d", step, k), meta: []byte(randMeta(r)), prov: provs[r.Intn(2)].ID, seed: r.Int63()}
			}
			from := len(rig.IX.Log())
			var wg sync.WaitGroup
			for _, j := range jobs {
				wg.Add(1)
				go func(j *job) {
					defer wg.Done()
					j.ok, j.how = send(mrand.New(mrand.NewSource(j.seed)), j.f.kind, j.f.path, j.prov, []byte(j.ctx), j.meta)
				}(j)
			}
			wg.Wait()
			for _, j := range jobs {
				if !judge(j.f, j.prov, j.ctx, string(j.meta), from, j.ok, j.how) {
					return
				}
			}
			if !whole() {
				return
			}
			c.Count("concurrent imports", 4)
		case x < 9: // a store failure, then again
			f := genImport(r, dir, fmt.Sprint("f", step), u)
			if len(f.mhs) == 0 || f.long {
				continue
			}
			batches := (len(f.mhs) + 255) / 256
			at := 1 + r.Intn(batches)
			atomic.StoreInt64(&failN, atomic.LoadInt64(&cnt)+int64(at))
			n0 := atomic.LoadInt64(&cnt)
			ok, how := send(r, f.kind, f.path, prov, ctxID, meta)
			fired := atomic.LoadInt64(&cnt) >= n0+int64(at)
			atomic.StoreInt64(&failN, 0)
			c.Eval(1)
			if fired && ok {
				c.Violate("store-error", "import of %s (%s): storing batch %d of %d failed, the import was reported as done", f.kind, f.shape, at, batches)
				return
			}
			c.Seen(fmt.Sprintf("%s store failure batch %d of %d fired=%v", f.kind, at, batches, fired))
			c.Count("store failures", 1)
			from := len(rig.IX.Log())
			ok, how = send(r, f.kind, f.path, prov, ctxID, meta)
			if !judge(f, prov, string(ctxID), string(meta), from, ok, how) || !whole() {
				return
			}
		default: // requests that cannot be served
			kind := []string{"cidlist", "manifest"}[r.Intn(2)]
			full := map[string][]byte{"file": []byte(filepath.Join(dir, "good")), "context_id": ctxID, "metadata": meta}
			must(os.WriteFile(filepath.Join(dir, "good"), []byte(cid.NewCidV1(cid.Raw, multihash.Multihash(u[0])).String()+"\n"+
				`{"RecordType":"DagAggregateEntry","DagCidV1":"`+cid.NewCidV1(cid.Raw, multihash.Multihash(u[0])).String()+`"}`+"\n"), 0o600))
			pid, what := prov.String(), ""
			var body []byte
			switch r.Intn(7) {
			case 0:
				what = "missing file"
				full["file"] = []byte(filepath.Join(dir, "none"))
			case 1:
				what = "directory"
				full["file"] = []byte(dir)
			case 2:
				what = "no file"
				delete(full, "file")
			case 3:
				what = "no context"
				delete(full, "context_id")
			case 4:
				what = "no metadata"
				delete(full, "metadata")
			case 5:
				what = "bad provider"
				pid = "bad" + pid
			default:
				what = "not JSON"
				body = []byte("{")
			}
			if body == nil {
				body, err = json.Marshal(full)
				must(err)
			}
			from := len(rig.IX.Log())
			rp := s.HTTP("POST", s.AdminURL+"/import/"+kind+"/"+pid, body)
			c.Eval(1)
			if rp.Err != nil || rp.Status < 400 {
				c.Violate("bad-request", "import of %s with %s: %s", kind, what, rp)
				return
			}
			if l := rig.IX.Log()[from:]; len(l) > 0 {
				c.Violate("bad-request", "import of %s with %s: %s changed the index: %s", kind, what, rp, l[0])
				return
			}
			c.Seen(kind + " " + what)
		}
	}
	if i == 0 {
		c.Sample("index after the history: %d records, %d multihashes", len(model.recs), len(model.Expect()))
	}
}
