package main

import (
	"crypto/sha256"
	"fmt"
	"io"
	"math/rand"
	"sort"
	"strings"
	"sync"

	indexer "github.com/filecoin-project/go-indexer-core"
	"github.com/ipfs/go-cid"
	"github.com/libp2p/go-libp2p-core/crypto"
	"github.com/libp2p/go-libp2p-core/peer"
	"github.com/multiformats/go-multihash"
)

// Ident is a peer identity.
type Ident struct {
	ID   peer.ID
	Priv crypto.PrivKey
}

type rngReader struct{ r *rand.Rand }

func (r rngReader) Read(p []byte) (int, error) {
	for i := range p {
		p[i] = byte(r.r.Intn(256))
	}
	return len(p), nil
}

var _ io.Reader = rngReader{}

// newIdent makes an Ed25519 identity determined by the generator.
func newIdent(r *rand.Rand) Ident {
	priv, _, err := crypto.GenerateEd25519Key(rngReader{r})
	must(err)
	id, err := peer.IDFromPrivateKey(priv)
	must(err)
	return Ident{ID: id, Priv: priv}
}

func newIdents(r *rand.Rand, n int) []Ident {
	out := make([]Ident, n)
	for i := range out {
		out[i] = newIdent(r)
	}
	return out
}

// testMh is the multihash of a label. Kind selects the hash function.
func testMh(label string) multihash.Multihash {
	code := uint64(multihash.SHA2_256)
	n := -1
	switch len(label) % 7 {
	case 3:
		code = multihash.SHA2_512
	case 5:
		code, n = multihash.SHA2_256, 20
	}
	m, err := multihash.Sum([]byte(label), code, n)
	must(err)
	return m
}

func randBytes(r *rand.Rand, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(r.Intn(256))
	}
	return b
}

// AdSpec says what one advertisement does.
type AdSpec struct {
	Prov     int // index of provider identity within the case
	Ctx      string
	Meta     string
	Rm       bool
	NoEnts   bool
	Mhs      []string // in publication order, may hold duplicates and invalid ones
	Hamt     bool
	ChunkLen int
	RmEnts   bool // removal advertisement that carries an entries link
}

func (a AdSpec) String() string {
	switch {
	case a.Rm:
		return fmt.Sprintf("p%d rm(%q)", a.Prov, a.Ctx)
	case a.NoEnts:
		return fmt.Sprintf("p%d meta(%q=%q)", a.Prov, a.Ctx, a.Meta)
	case a.Hamt:
		return fmt.Sprintf("p%d hamt(%q=%q,%d)", a.Prov, a.Ctx, a.Meta, len(a.Mhs))
	default:
		return fmt.Sprintf("p%d add(%q=%q,%d/%d)", a.Prov, a.Ctx, a.Meta, len(a.Mhs), a.ChunkLen)
	}
}

func chainString(specs []AdSpec) string {
	var s []string
	for _, a := range specs {
		s = append(s, a.String())
	}
	return strings.Join(s, " ; ")
}

type recKey struct {
	prov peer.ID
	ctx  string
}

type rec struct {
	meta string
	mhs  map[string]struct{}
}

// Model is the reference index: what the advertisements mean.
type Model struct {
	mu   sync.Mutex
	recs map[recKey]*rec
}

func newModel() *Model { return &Model{recs: map[recKey]*rec{}} }

func (m *Model) Clone() *Model {
	m.mu.Lock()
	defer m.mu.Unlock()
	n := newModel()
	for k, r := range m.recs {
		c := &rec{meta: r.meta, mhs: map[string]struct{}{}}
		for h := range r.mhs {
			c.mhs[h] = struct{}{}
		}
		n.recs[k] = c
	}
	return n
}

// Apply applies one advertisement.
func (m *Model) Apply(prov peer.ID, a AdSpec) {
	m.mu.Lock()
	defer m.mu.Unlock()
	k := recKey{prov, a.Ctx}
	if a.Rm {
		delete(m.recs, k)
		return
	}
	if a.NoEnts {
		if r, ok := m.recs[k]; ok {
			r.meta = a.Meta
		}
		return
	}
	var valid []string
	for _, h := range a.Mhs {
		if _, err := multihash.Decode([]byte(h)); err == nil {
			valid = append(valid, h)
		}
	}
	r, ok := m.recs[k]
	if !ok {
		if len(valid) == 0 {
			return
		}
		r = &rec{mhs: map[string]struct{}{}}
		m.recs[k] = r
	}
	if len(valid) != 0 {
		r.meta = a.Meta
	}
	for _, h := range valid {
		r.mhs[h] = struct{}{}
	}
}

// Expect returns, per multihash, the sorted set of expected records.
func (m *Model) Expect() map[string][]string {
	m.mu.Lock()
	defer m.mu.Unlock()
	out := map[string][]string{}
	for k, r := range m.recs {
		for h := range r.mhs {
			out[h] = append(out[h], recString(k.prov, k.ctx, r.meta))
		}
	}
	for h := range out {
		sort.Strings(out[h])
	}
	return out
}

func recString(p peer.ID, ctx, meta string) string {
	return fmt.Sprintf("%s|%q|%q", p, ctx, meta)
}

type getter interface {
	Get(multihash.Multihash) ([]indexer.Value, bool, error)
}

// diffIndex compares the index with the model over the universe of
// multihashes. provs, if non-nil, restricts the comparison to those providers.
func diffIndex(ix getter, m *Model, universe []string, provs map[peer.ID]bool) (string, int) {
	exp := m.Expect()
	n := 0
	var diffs []string
	for _, h := range universe {
		vals, found, err := ix.Get(multihash.Multihash(h))
		if err != nil {
			diffs = append(diffs, fmt.Sprintf("Get(%x): %v", h, err))
			continue
		}
		var got []string
		if found {
			for _, v := range vals {
				if provs != nil && !provs[v.ProviderID] {
					continue
				}
				got = append(got, recString(v.ProviderID, string(v.ContextID), string(v.MetadataBytes)))
			}
		}
		sort.Strings(got)
		var want []string
		for _, w := range exp[h] {
			if provs != nil {
				ok := false
				for p := range provs {
					if strings.HasPrefix(w, p.String()+"|") {
						ok = true
					}
				}
				if !ok {
					continue
				}
			}
			want = append(want, w)
		}
		n++
		if strings.Join(got, ",") != strings.Join(want, ",") {
			if len(diffs) < 4 {
				diffs = append(diffs, fmt.Sprintf("multihash %s: got %v, want %v", multihash.Multihash(h).B58String(), got, want))
			} else {
				diffs = append(diffs, "")
			}
		}
	}
	if len(diffs) == 0 {
		return "", n
	}
	c := len(diffs)
	if len(diffs) > 4 {
		diffs = diffs[:4]
	}
	return fmt.Sprintf("%d of %d multihashes differ: %s", c, len(universe), strings.Join(diffs, "; ")), n
}

// GenOpts controls chain generation.
type GenOpts struct {
	NProv    int
	NCtx     int
	NMh      int // size of the multihash universe
	MaxMhs   int
	MaxChunk int
	Hamt     bool
	Invalid  bool // some multihashes do not decode
	Odd      bool // context IDs and metadata of unusual form
	Salt     string
}

func universe(o GenOpts) []string {
	var u []string
	for i := 0; i < o.NMh; i++ {
		if i%9 == 4 {
			// Data that is its own multihash.
			sum := sha256.Sum256([]byte(fmt.Sprintf("%s-id-%d", o.Salt, i)))
			m, err := multihash.Sum(sum[:24+i%8], multihash.IDENTITY, -1)
			must(err)
			u = append(u, string(m))
			continue
		}
		u = append(u, string(testMh(fmt.Sprintf("%s-mh-%d", o.Salt, i))))
	}
	return u
}

// genChain generates n advertisements.
func genChain(r *rand.Rand, n int, o GenOpts, u []string) []AdSpec {
	if o.NProv == 0 {
		o.NProv = 1
	}
	var out []AdSpec
	live := map[string]bool{}
	for i := 0; i < n; i++ {
		a := AdSpec{Prov: r.Intn(o.NProv), Ctx: fmt.Sprintf("ctx-%d", r.Intn(o.NCtx)), Meta: fmt.Sprintf("meta-%s-%d", o.Salt, i)}
		if o.Odd {
			odd := []string{"", "\x00", "ctx-", strings.Repeat("\xff\x00/", 21), "\n", "/sync/", "0"}
			a.Ctx = odd[r.Intn(o.NCtx+2)%len(odd)]
			switch r.Intn(6) {
			case 0:
				a.Meta = fmt.Sprintf("%d\x00%s", i, randBytes(r, 1000))
			case 1:
				a.Meta = string([]byte{0, byte(i)})
			}
		}
		k := fmt.Sprint(a.Prov, a.Ctx)
		x := r.Intn(100)
		switch {
		case x < 18 && (live[k] || r.Intn(4) == 0):
			a.Rm = true
			a.RmEnts = r.Intn(5) == 0
			live[k] = false
		case x < 30:
			a.NoEnts = true
		default:
			cnt := 1 + r.Intn(o.MaxMhs)
			switch r.Intn(10) {
			case 0:
				cnt = 1
			case 1:
				cnt = o.MaxMhs
			}
			for j := 0; j < cnt; j++ {
				if o.Invalid && r.Intn(12) == 0 {
					bad := []string{"\x12\x20short", "\x00", "not a multihash", "\x12\x05abc"}[r.Intn(4)]
					a.Mhs = append(a.Mhs, bad)
					continue
				}
				x := r.Intn(len(u))
				if o.NProv > 1 {
					// No entry blocks shared between concurrently processed
					// providers (see DESIGN.md, known findings).
					x = x - x%o.NProv + a.Prov
					if x >= len(u) {
						x = a.Prov
					}
				}
				a.Mhs = append(a.Mhs, u[x])
			}
			a.ChunkLen = 1 + r.Intn(o.MaxChunk)
			if r.Intn(20) == 0 && o.NProv == 1 {
				a.Mhs = nil // an empty chunk
			}
			if o.Hamt && r.Intn(4) == 0 {
				a.Hamt = true
				a.Mhs = dedup(a.Mhs)
			}
			if r.Intn(7) == 0 && o.NProv == 1 {
				// Reuse an earlier advertisement's entry blocks.
				for j := len(out) - 1; j >= 0; j-- {
					if len(out[j].Mhs) != 0 {
						a.Mhs, a.ChunkLen, a.Hamt = out[j].Mhs, out[j].ChunkLen, out[j].Hamt
						break
					}
				}
			}
			live[k] = true
		}
		out = append(out, a)
	}
	return out
}

func dedup(s []string) []string {
	seen := map[string]bool{}
	var out []string
	for _, x := range s {
		if !seen[x] {
			seen[x] = true
			out = append(out, x)
		}
	}
	return out
}

func shortCid(c cid.Cid) string {
	s := c.String()
	if len(s) > 8 {
		return s[len(s)-8:]
	}
	return s
}
