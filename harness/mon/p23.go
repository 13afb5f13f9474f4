package main

import (
	"bytes"
	"context"
	"encoding/base64"
	"encoding/json"
	"fmt"
	mrand "math/rand"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"time"

	"github.com/filecoin-project/storetheindex/command"
	"github.com/filecoin-project/storetheindex/config"
	"github.com/libp2p/go-libp2p-core/crypto"
	"github.com/libp2p/go-libp2p-core/peer"
	"github.com/urfave/cli/v2"
)

func init() {
	register("P23", "random configurations (every field, including zero, negative, extreme and escaped values) are saved and loaded; random subsets of their settings are written as files of any version and loaded and upgraded; every setting of the result is compared with the file or, where the file lacks it, with a table of the documented defaults; "+
		"backups of upgrades are compared byte by byte; truncated, mistyped and malformed files must be refused; identities are checked over key types, matching, foreign and malformed peer IDs, and keys from a file; the init command runs with random flags and on existing files. distinct counts (kind of file, settings present)",
		runP23, "null and duplicate keys and data after the configuration object are not judged")
}

// docDefaults are the documented defaults.
const docDefaults = `{
"Addresses":{"Admin":"/ip4/127.0.0.1/tcp/3002","Finder":"/ip4/0.0.0.0/tcp/3000","Ingest":"/ip4/0.0.0.0/tcp/3001","P2PAddr":"/ip4/0.0.0.0/tcp/3003","NoResourceManager":false},
"Bootstrap":{"MinimumPeers":4,"Peers":[
"/dns4/bootstrap-0.mainnet.filops.net/tcp/1347/p2p/12D3KooWCVe8MmsEMes2FzgTpt9fXtmCY7wrq91GRiaC8PHSCCBj",
"/dns4/bootstrap-1.mainnet.filops.net/tcp/1347/p2p/12D3KooWCwevHg1yLCvktf2nvLu7L9894mcrJR4MsBCcm4syShVc",
"/dns4/bootstrap-2.mainnet.filops.net/tcp/1347/p2p/12D3KooWEWVwHGn2yR36gKLozmb4YjDJGerotAPGxmdWZx2nxMC4",
"/dns4/bootstrap-3.mainnet.filops.net/tcp/1347/p2p/12D3KooWKhgq8c7NQ9iGjbyK7v7phXvG6492HQfiDaGHLHLQjk7R",
"/dns4/bootstrap-4.mainnet.filops.net/tcp/1347/p2p/12D3KooWL6PsFNPhYftrJzGgF5U18hFoaVhfGk7xwzD8yVrHJ3Uc",
"/dns4/bootstrap-5.mainnet.filops.net/tcp/1347/p2p/12D3KooWLFynvDQiUpXoHroV1YxKHhPJgysQGH2k3ZGwtWzR4dFH",
"/dns4/bootstrap-6.mainnet.filops.net/tcp/1347/p2p/12D3KooWP5MwCiqdMETF9ub1P3MbCvQCcfconnYHbWg6sUJcDRQQ",
"/dns4/bootstrap-7.mainnet.filops.net/tcp/1347/p2p/12D3KooWRs3aY1p3juFjPy8gPN95PEQChm2QKGUCAdcDCC4EBMKf",
"/dns4/bootstrap-8.mainnet.filops.net/tcp/1347/p2p/12D3KooWScFR7385LTyR4zU1bYdzSiiAb5rnNABfVahPvVSzyTkR",
"/dns4/lotus-bootstrap.ipfsforce.com/tcp/41778/p2p/12D3KooWGhufNmZHF3sv48aQeS13ng5XVJZ9E6qy2Ms4VzqeUsHk",
"/dns4/bootstrap-0.starpool.in/tcp/12757/p2p/12D3KooWGHpBMeZbestVEWkfdnC9u7p6uFHXL1n7m1ZBqsEmiUzz",
"/dns4/bootstrap-1.starpool.in/tcp/12757/p2p/12D3KooWQZrGH1PxSNZPum99M1zNvjNFM33d1AAu5DcvdHptuU7u",
"/dns4/node.glif.io/tcp/1235/p2p/12D3KooWBF8cpp65hp2u9LK5mh19x67ftAam84z9LsfaquTDSBpt",
"/dns4/bootstrap-0.ipfsmain.cn/tcp/34721/p2p/12D3KooWQnwEGNqcM2nAcPtRR9rAX8Hrg4k9kJLCHoTR5chJfz6d",
"/dns4/bootstrap-1.ipfsmain.cn/tcp/34723/p2p/12D3KooWMKxMkD5DMpSWsW7dBddKxKT7L2GgbNuckz9otxvkvByP"]},
"Datastore":{"Dir":"datastore","Type":"levelds"},
"Discovery":{"LotusGateway":"https://api.chain.love","Policy":{"Allow":true,"Publish":true},"PollInterval":"24h","PollRetryAfter":"5h","PollStopAfter":"168h","RediscoverWait":"5m","Timeout":"2m"},
"Indexer":{"CacheSize":300000,"ConfigCheckInterval":"30s","GCInterval":"30m","ShutdownTimeout":"10s","ValueStoreDir":"valuestore","ValueStoreType":"sth"},
"Ingest":{"AdvertisementDepthLimit":33554432,"EntriesDepthLimit":65536,"HttpSyncRetryMax":4,"HttpSyncRetryWaitMax":"30s","HttpSyncRetryWaitMin":"1s","HttpSyncTimeout":"10s","IngestWorkerCount":10,"PubSubTopic":"/indexer/ingest/mainnet",
"RateLimit":{"Apply":false,"BlocksPerSecond":100,"BurstSize":500},"ResendDirectAnnounce":false,"StoreBatchSize":4096,"SyncSegmentDepthLimit":2000,"SyncTimeout":"2h"},
"Logging":{"Level":"info","Loggers":{"basichost":"warn","bootstrap":"warn","dt_graphsync":"warn","dt-impl":"warn","graphsync":"warn"}}
}`

// zeroMeans are settings for which zero is documented as a value of its own.
var zeroMeans = map[string]bool{
	"Addresses.NoResourceManager": true, "Bootstrap.MinimumPeers": true, "Bootstrap.Peers": true,
	"Discovery.LotusGateway": true, "Discovery.RediscoverWait": true, "Ingest.RateLimit.BlocksPerSecond": true,
}

func runP23(c *Ctx) {
	c.RunN("saveload", c.N(600, 30000), 8, func(c *Ctx, i int) { c.p23save(i) })
	c.RunN("partial", c.N(1500, 60000), 8, func(c *Ctx, i int) { c.p23partial(i) })
	c.RunN("invalid", c.N(300, 10000), 8, func(c *Ctx, i int) { c.p23invalid(i) })
	c.RunN("identity", c.N(300, 6000), 8, func(c *Ctx, i int) { c.p23identity(i, false) })
	// These depend on environment variables.
	c.RunN("idfile", c.N(40, 600), 1, func(c *Ctx, i int) { c.p23identity(i, true) })
	c.RunN("init", c.N(60, 1500), 1, func(c *Ctx, i int) { c.p23init(i) })
}

// cfgLeaves flattens a configuration.
func cfgLeaves(v reflect.Value, path string, out map[string]reflect.Value) {
	if v.Kind() == reflect.Struct {
		for i := 0; i < v.NumField(); i++ {
			f := v.Type().Field(i)
			if f.PkgPath != "" {
				continue
			}
			p := f.Name
			if path != "" {
				p = path + "." + p
			}
			cfgLeaves(v.Field(i), p, out)
		}
		return
	}
	out[path] = v
}

func leavesOf(cfg *config.Config) map[string]reflect.Value {
	out := map[string]reflect.Value{}
	cfgLeaves(reflect.ValueOf(cfg).Elem(), "", out)
	return out
}

// leafText is a value as text; empty and absent lists and maps are the same.
func leafText(v reflect.Value) string {
	switch v.Kind() {
	case reflect.Slice:
		var s []string
		for i := 0; i < v.Len(); i++ {
			s = append(s, fmt.Sprintf("%+v", v.Index(i).Interface()))
		}
		sort.Strings(s) // no list of the configuration is ordered
		return fmt.Sprintf("%q", s)
	case reflect.Map:
		var s []string
		for _, k := range v.MapKeys() {
			s = append(s, fmt.Sprintf("%v=%v", k.Interface(), v.MapIndex(k).Interface()))
		}
		sort.Strings(s)
		return fmt.Sprintf("%q", s)
	}
	return fmt.Sprint(v.Interface())
}

var durType = reflect.TypeOf(config.Duration(0))

func randText(r *mrand.Rand) string {
	switch r.Intn(6) {
	case 0:
		return ""
	case 1:
		return "none"
	case 2:
		return "a \"q\" \\ <b>&\u2028 ünï \n\t\x01"
	case 3:
		return strings.Repeat("x", 1+r.Intn(300))
	}
	return fmt.Sprintf("v%d", r.Intn(1000))
}

// randLeaf sets a setting to something.
func randLeaf(r *mrand.Rand, v reflect.Value) {
	switch {
	case v.Type() == durType:
		d := []time.Duration{0, 1, time.Second, -time.Minute, 1500 * time.Millisecond, time.Duration(r.Int63()), 3*time.Hour + 7*time.Nanosecond}[r.Intn(7)]
		v.SetInt(int64(d))
	case v.Kind() == reflect.Int:
		v.SetInt([]int64{0, 1, -1, 7, 1 << 40, r.Int63() >> uint(r.Intn(62))}[r.Intn(6)])
	case v.Kind() == reflect.Bool:
		v.SetBool(r.Intn(2) == 0)
	case v.Kind() == reflect.String:
		v.SetString(randText(r))
	case v.Kind() == reflect.Slice:
		n := r.Intn(4)
		v.Set(reflect.MakeSlice(v.Type(), n, n))
		for i := 0; i < n; i++ {
			randLeaf(r, v.Index(i))
		}
	case v.Kind() == reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			randLeaf(r, v.Field(i))
		}
	case v.Kind() == reflect.Map:
		v.Set(reflect.MakeMap(v.Type()))
		for n := r.Intn(4); n > 0; n-- {
			v.SetMapIndex(reflect.ValueOf(fmt.Sprintf("l%d", r.Intn(9))), reflect.ValueOf(randText(r)))
		}
	}
}

func randConfig(r *mrand.Rand) *config.Config {
	cfg := &config.Config{}
	for _, k := range sortedKeys(leavesOf(cfg)) {
		randLeaf(r, leavesOf(cfg)[k])
	}
	cfg.Version = r.Intn(6) - 1
	return cfg
}

func sortedKeys(m map[string]reflect.Value) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func p23defaults() map[string]reflect.Value {
	var d config.Config
	must(json.Unmarshal([]byte(docDefaults), &d))
	return leavesOf(&d)
}

// judgeConfig compares a loaded configuration with the settings in the file.
func (c *Ctx) judgeConfig(what string, got *config.Config, file map[string]reflect.Value, version *int) bool {
	g, def := leavesOf(got), p23defaults()
	for _, k := range sortedKeys(g) {
		v, present := file[k]
		have := leafText(g[k])
		var want []string
		switch {
		case k == "Version":
			if version != nil {
				want = []string{fmt.Sprint(*version)}
			} else if present {
				want = []string{leafText(v)}
			} else {
				want = []string{"0"}
			}
		case k == "Ingest.RateLimit.BurstSize" && present && v.Int() == 0:
			bps := g["Ingest.RateLimit.BlocksPerSecond"].Int()
			want = []string{fmt.Sprint(5 * bps), fmt.Sprint(10 * bps)}
		case k == "Logging.Loggers" && present && v.Len() == 0:
			want = []string{leafText(v)}
			if l, ok := file["Logging.Level"]; ok && l.String() == "" {
				want = append(want, leafText(def[k]))
			}
		case !present:
			want = []string{leafText(def[k])}
		case v.IsZero() && !zeroMeans[k] && v.Kind() != reflect.Bool:
			want = []string{leafText(def[k])}
		default:
			want = []string{leafText(v)}
		}
		c.Eval(1)
		ok := false
		for _, w := range want {
			if have == w {
				ok = true
			}
		}
		if !ok {
			in := "the file lacks it"
			if present {
				in = "the file has " + leafText(v)
			}
			c.Violate("setting", "%s: %s is %s, want %s (%s)", what, k, have, strings.Join(want, " or "), in)
			return false
		}
	}
	return true
}

func (c *Ctx) p23dir() (string, func()) {
	dir, err := os.MkdirTemp(c.Scratch, "p23-")
	must(err)
	return dir, func() { os.RemoveAll(dir) }
}

func (c *Ctx) p23save(i int) {
	r := c.Rng("save", i)
	dir, rm := c.p23dir()
	defer rm()
	path := filepath.Join(dir, "sub", "config")
	for round := 0; round < 2; round++ {
		cfg := randConfig(r)
		if r.Intn(4) == 0 {
			cfg = &config.Config{} // shorter than what was there
			cfg.Logging.Loggers = map[string]string{"a": "b"}
		}
		before := map[string]string{}
		for k, v := range leavesOf(cfg) {
			before[k] = leafText(v)
		}
		if err := cfg.Save(path); err != nil {
			c.Violate("save", "cannot save: %v", err)
			return
		}
		for k, v := range leavesOf(cfg) {
			if before[k] != leafText(v) {
				c.Violate("save", "saving changed %s from %s to %s", k, before[k], leafText(v))
				return
			}
		}
		if b, err := os.ReadFile(path); err != nil || !json.Valid(b) {
			c.Violate("save", "the saved file is not one JSON value (%v)", err)
			return
		}
		got, err := config.Load(path)
		if err != nil {
			c.Violate("load", "cannot load a saved configuration: %v", err)
			return
		}
		file := leavesOf(cfg)
		if cfg.Logging.Loggers == nil {
			delete(file, "Logging.Loggers")
		}
		if !c.judgeConfig("saved and loaded", got, file, nil) {
			return
		}
		if got.Identity != cfg.Identity || !reflect.DeepEqual(append([]config.Polling{}, got.Discovery.PollOverrides...), append([]config.Polling{}, cfg.Discovery.PollOverrides...)) {
			c.Violate("setting", "saved and loaded: identity or polling overrides differ")
			return
		}
		// Once complete, it stays the same.
		must(got.Save(path))
		again, err := config.Load(path)
		if err != nil {
			c.Violate("load", "cannot load: %v", err)
			return
		}
		a, b := leavesOf(got), leavesOf(again)
		for k := range a {
			c.Eval(1)
			if leafText(a[k]) != leafText(b[k]) {
				c.Violate("setting", "loaded, saved and loaded again: %s was %s, is %s", k, leafText(a[k]), leafText(b[k]))
				return
			}
		}
	}
	c.Seen(fmt.Sprint("save ", i%50))
}

// prune removes settings from a JSON object; it returns those left.
func prune(r *mrand.Rand, o map[string]interface{}, path string, keep int, left map[string]bool) {
	var ks []string
	for k := range o {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		p := k
		if path != "" {
			p = path + "." + k
		}
		sub, isObj := o[k].(map[string]interface{})
		if isObj && k != "Loggers" {
			if r.Intn(6) == 0 {
				delete(o, k)
				continue
			}
			prune(r, sub, p, keep, left)
			continue
		}
		if r.Intn(10) >= keep {
			delete(o, k)
			continue
		}
		left[p] = true
	}
}

func (c *Ctx) p23partial(i int) {
	r := c.Rng("partial", i)
	dir, rm := c.p23dir()
	defer rm()
	path := filepath.Join(dir, "config")
	cfg := randConfig(r)
	b, err := json.Marshal(cfg)
	must(err)
	var o map[string]interface{}
	dec := json.NewDecoder(bytes.NewReader(b))
	dec.UseNumber()
	must(dec.Decode(&o))
	left := map[string]bool{}
	prune(r, o, "", []int{0, 1, 3, 7, 10}[r.Intn(5)], left)
	if r.Intn(3) == 0 { // settings this version does not know
		o["Obsolete"] = map[string]interface{}{"Setting": 1}
		if m, ok := o["Ingest"].(map[string]interface{}); ok {
			m["NewFeature"] = []int{1, 2}
		}
	}
	b, err = json.MarshalIndent(o, "", " ")
	must(err)
	must(os.WriteFile(path, b, 0o600))
	file := map[string]reflect.Value{}
	for k, v := range leavesOf(cfg) {
		if left[k] {
			file[k] = v
		}
	}
	what := fmt.Sprintf("file with %d settings", len(file))
	got, err := config.Load(path)
	if err != nil {
		c.Violate("load", "%s: %v", what, err)
		return
	}
	if !c.judgeConfig(what, got, file, nil) {
		return
	}
	if after, err := os.ReadFile(path); err != nil || !bytes.Equal(after, b) {
		c.Violate("load", "%s: loading changed the file", what)
		return
	}
	// Upgrade.
	old := got.Version
	if err := got.UpgradeConfig(path); err != nil {
		c.Violate("upgrade", "%s: %v", what, err)
		return
	}
	bak, err := os.ReadFile(fmt.Sprintf("%s.v%d", path, old))
	c.Eval(1)
	if err != nil || !bytes.Equal(bak, b) {
		c.Violate("backup", "%s: the backup of version %d is not the file as it was (%v)", what, old, err)
		return
	}
	up, err := config.Load(path)
	if err != nil {
		c.Violate("upgrade", "%s: upgraded file: %v", what, err)
		return
	}
	ver := config.Version
	if !c.judgeConfig(what+", upgraded", up, file, &ver) {
		return
	}
	c.Count("partial files", 1)
	c.Seen(fmt.Sprintf("partial %d of %d settings", len(file), len(leavesOf(cfg))))
}

func (c *Ctx) p23invalid(i int) {
	r := c.Rng("invalid", i)
	dir, rm := c.p23dir()
	defer rm()
	path := filepath.Join(dir, "config")
	cfg := randConfig(r)
	b, err := json.MarshalIndent(cfg, "", "  ")
	must(err)
	what := ""
	switch r.Intn(5) {
	case 0:
		n := r.Intn(len(b))
		b, what = b[:n], "truncated"
	case 1: // wrong type
		var o map[string]interface{}
		must(json.Unmarshal(b, &o))
		sec := []string{"Addresses", "Ingest", "Indexer", "Discovery", "Bootstrap", "Datastore", "Identity", "Logging", "Peering", "Version"}[r.Intn(10)]
		if m, ok := o[sec].(map[string]interface{}); ok && r.Intn(2) == 0 {
			var ks []string
			for k := range m {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			k := ks[r.Intn(len(ks))]
			m[k] = map[string]interface{}{"x": []int{1}}
			what = "wrong type of " + sec + "." + k
			if k == "Loggers" || k == "Policy" || k == "RateLimit" {
				m[k] = 7
			}
		} else {
			o[sec] = "text"
			what = "wrong type of " + sec
		}
		b, err = json.Marshal(o)
		must(err)
	case 2: // bad duration
		k := []string{`"SyncTimeout"`, `"GCInterval"`, `"PollInterval"`, `"Timeout"`, `"HttpSyncTimeout"`}[r.Intn(5)]
		v := []string{`"5 parsecs"`, `"5"`, `5`, `"h"`, `""`, `"1h1"`}[r.Intn(6)]
		sec := map[string]string{`"SyncTimeout"`: "Ingest", `"HttpSyncTimeout"`: "Ingest", `"GCInterval"`: "Indexer", `"PollInterval"`: "Discovery", `"Timeout"`: "Discovery"}[k]
		b, what = []byte(`{"Version":2,"`+sec+`":{`+k+`:`+v+`}}`), "duration "+v
	case 3:
		b = [][]byte{nil, []byte("   "), []byte("[]"), []byte(`"x"`), []byte("12"), []byte("Version = 2"), []byte("\x00\x01"), []byte("{'Version': 2}")}[r.Intn(8)]
		what = fmt.Sprintf("not an object: %q", b)
	default:
		n := r.Intn(len(b))
		b = append(append(append([]byte(nil), b[:n]...), 0x00), b[n:]...)
		what = "with a NUL byte"
	}
	must(os.WriteFile(path, b, 0o600))
	got, err := config.Load(path)
	c.Eval(1)
	if err == nil {
		c.Violate("invalid-accepted", "file that is not a configuration (%s) is accepted: %.200s", what, got)
		return
	}
	if after, err := os.ReadFile(path); err != nil || !bytes.Equal(after, b) {
		c.Violate("load", "loading a file that is %s changed it", what)
		return
	}
	c.Count("invalid files", 1)
	c.Seen("invalid " + strings.SplitN(what, " ", 2)[0])
	// A missing file and a path that cannot be written.
	if i%10 == 0 {
		if _, err := config.Load(filepath.Join(dir, "none")); err == nil {
			c.Violate("invalid-accepted", "a missing file is accepted")
		}
		if err := cfg.Save(dir); err == nil {
			c.Violate("save", "saving to a directory reports no error")
		}
		c.Eval(2)
	}
}

func (c *Ctx) p23identity(i int, env bool) {
	r := c.Rng("identity", env, i)
	typ := []int{crypto.Ed25519, crypto.Ed25519, crypto.Secp256k1, crypto.ECDSA}[r.Intn(4)]
	mk := func(typ int) (crypto.PrivKey, peer.ID, []byte) {
		priv, _, err := crypto.GenerateKeyPairWithReader(typ, 2048, rngReader{r})
		must(err)
		id, err := peer.IDFromPrivateKey(priv)
		must(err)
		b, err := crypto.MarshalPrivateKey(priv)
		must(err)
		return priv, id, b
	}
	priv, id, pb := mk(typ)
	_, other, ob := mk(crypto.Ed25519)
	ident := config.Identity{PrivKey: base64.StdEncoding.EncodeToString(pb)}
	dir, rm := c.p23dir()
	defer rm()
	keyFile := filepath.Join(dir, "key")
	ok, what := true, ""
	useFile := env && r.Intn(2) == 0
	switch r.Intn(7) {
	case 0:
		what = "no peer ID"
	case 1, 2:
		ident.PeerID, what = id.String(), "matching peer ID"
	case 3:
		ident.PeerID, what, ok = other.String(), "foreign peer ID", false
	case 4:
		s := id.String()
		ident.PeerID, what, ok = s[:len(s)-1-r.Intn(5)], "truncated peer ID", false
	case 5:
		ident.PeerID, what, ok = id.String(), "damaged key", false
		ident.PrivKey, pb = ident.PrivKey[:len(ident.PrivKey)/2]+"!", pb[:len(pb)/2]
	default:
		ident.PeerID, what, ok = id.String(), "foreign key", false
		ident.PrivKey, pb = base64.StdEncoding.EncodeToString(ob), ob
	}
	if env {
		if useFile {
			ident.PrivKey = ""
			must(os.WriteFile(keyFile, pb, 0o600))
			what += ", key in a file"
			if r.Intn(5) == 0 {
				must(os.Remove(keyFile))
				ok, what = false, "missing key file"
			}
		} else {
			must(os.WriteFile(keyFile, ob, 0o600)) // must not be used
		}
		must(os.Setenv(config.PrivateKeyPathEnvVar, keyFile))
		defer os.Unsetenv(config.PrivateKeyPathEnvVar)
	}
	// As it is stored.
	cfg := &config.Config{Version: config.Version, Identity: ident}
	path := filepath.Join(dir, "config")
	must(cfg.Save(path))
	ld, err := config.Load(path)
	if err != nil {
		c.Violate("load", "cannot load: %v", err)
		return
	}
	gotID, gotKey, err := ld.Identity.Decode()
	c.Eval(1)
	if (err == nil) != ok {
		c.Violate("identity", "identity with %s (key type %d): id %s, error %v", what, typ, gotID, err)
		return
	}
	if ok && (gotID != id || !gotKey.Equals(priv)) {
		c.Violate("identity", "identity with %s (key type %d): gives another key or peer ID (%s, want %s)", what, typ, gotID, id)
		return
	}
	c.Seen(fmt.Sprintf("identity %s type %d", what, typ))
	// Bootstrap and peering addresses.
	var as []string
	for n := r.Intn(4); n > 0; n-- {
		as = append(as, randMaddrs(r, 1)[0].String()+"/p2p/"+[]peer.ID{id, other}[r.Intn(2)].String())
	}
	ai, err := config.Bootstrap{Peers: as}.PeerAddrs()
	if err != nil {
		c.Violate("peers", "peers %v: %v", as, err)
		return
	}
	pi, err := config.Peering{Peers: as}.PeerAddrs()
	if err != nil || len(pi) != len(ai) {
		c.Violate("peers", "peers %v: bootstrap gives %v, peering %v (%v)", as, ai, pi, err)
		return
	}
	var bs config.Bootstrap
	bs.SetPeers(ai)
	x, y := append([]string(nil), as...), append([]string(nil), bs.Peers...)
	sort.Strings(x)
	sort.Strings(y)
	c.Eval(1)
	if strings.Join(x, " ") != strings.Join(y, " ") {
		c.Violate("peers", "peers %v become %v", x, y)
		return
	}
	if _, err := (config.Bootstrap{Peers: append(as, "/ip4/1.2.3.4/tcp/1")}).PeerAddrs(); err == nil {
		c.Violate("peers", "a bootstrap address without peer ID is accepted")
	}
}

func (c *Ctx) p23init(i int) {
	r := c.Rng("init", i)
	dir, rm := c.p23dir()
	defer rm()
	must(os.Setenv(config.EnvDir, dir))
	defer os.Unsetenv(config.EnvDir)
	path := filepath.Join(dir, "config")
	run := func(args ...string) error {
		app := &cli.App{Name: "indexer", Commands: []*cli.Command{command.InitCmd}}
		tick()
		return app.RunContext(context.Background(), append([]string{"storetheindex", "init"}, args...))
	}
	exp := p23defaults()
	set := func(k string, v interface{}) { exp[k] = reflect.ValueOf(v) }
	var args []string
	bad := false
	maddr := func() string { return fmt.Sprintf("/ip4/127.0.0.1/tcp/%d", 1+r.Intn(60000)) }
	if r.Intn(2) == 0 {
		n := []int{-1, 1, 5000, 1 << 30}[r.Intn(4)]
		args = append(args, "-cachesize", fmt.Sprint(n))
		set("Indexer.CacheSize", n)
	}
	if r.Intn(3) == 0 {
		s := []string{"sth", "pogreb", "memory"}[r.Intn(3)]
		args = append(args, "-store", s)
		set("Indexer.ValueStoreType", s)
	}
	for _, f := range []string{"admin", "finder", "ingest"} {
		if r.Intn(3) == 0 {
			a := maddr()
			args = append(args, "-listen-"+f, a)
			set("Addresses."+strings.Title(f), a)
		}
	}
	if r.Intn(3) == 0 {
		args = append(args, "-lotus-gateway", "none")
		set("Discovery.LotusGateway", "none")
	}
	if r.Intn(3) == 0 {
		args = append(args, "-no-bootstrap")
		set("Bootstrap.Peers", []string{})
		set("Bootstrap.MinimumPeers", 1)
	}
	if r.Intn(3) == 0 {
		args = append(args, "-pubsub-topic", "/t/x")
		set("Ingest.PubSubTopic", "/t/x")
	}
	switch r.Intn(8) {
	case 0:
		args, bad = append(args, "-store", "nosuch"), true
	case 1:
		args, bad = append(args, "-listen-"+[]string{"admin", "finder", "ingest"}[r.Intn(3)], "ip3/1.2.3.4"), true
	}
	err := run(args...)
	c.Eval(1)
	if bad {
		if err == nil {
			c.Violate("init", "init %v succeeds", args)
		}
		if _, err := os.Stat(path); err == nil {
			c.Violate("init", "init %v leaves a configuration", args)
		}
		c.Seen("init bad")
		return
	}
	if err != nil {
		c.Violate("init", "init %v: %v", args, err)
		return
	}
	got, err := config.Load("")
	if err != nil {
		c.Violate("init", "init %v: the file cannot be loaded: %v", args, err)
		return
	}
	g := leavesOf(got)
	for _, k := range sortedKeys(g) {
		if k == "Version" || strings.HasPrefix(k, "Identity.") {
			continue
		}
		c.Eval(1)
		if leafText(g[k]) != leafText(exp[k]) {
			c.Violate("init", "init %v: %s is %s, want %s", args, k, leafText(g[k]), leafText(exp[k]))
			return
		}
	}
	if got.Version != config.Version || got.Identity.PeerID == "" {
		c.Violate("init", "init %v: version %d, peer ID %q", args, got.Version, got.Identity.PeerID)
		return
	}
	if id, _, err := got.Identity.Decode(); err != nil || id.String() != got.Identity.PeerID {
		c.Violate("identity", "init %v: identity of the new configuration: %s %v", args, id, err)
		return
	}
	b, err := os.ReadFile(path)
	must(err)
	// Not over an existing configuration.
	err = run(args...)
	after, rerr := os.ReadFile(path)
	c.Eval(1)
	if err == nil || rerr != nil || !bytes.Equal(b, after) {
		c.Violate("init", "init on an existing configuration: error %v, file changed: %v", err, !bytes.Equal(b, after))
		return
	}
	// Upgrade of an older, partial file.
	var o map[string]interface{}
	must(json.Unmarshal(b, &o))
	ver := r.Intn(3)
	o["Version"] = ver
	drop := []string{"Ingest", "Logging", "Indexer", "Peering", "Bootstrap"}[r.Intn(5)]
	delete(o, drop)
	b, err = json.Marshal(o)
	must(err)
	must(os.WriteFile(path, b, 0o600))
	if err = run("--upgrade"); err != nil {
		c.Violate("upgrade", "init --upgrade: %v", err)
		return
	}
	got, err = config.Load("")
	if err != nil {
		c.Violate("upgrade", "init --upgrade: %v", err)
		return
	}
	def := p23defaults()
	g = leavesOf(got)
	for _, k := range sortedKeys(g) {
		if k == "Version" || strings.HasPrefix(k, "Identity.") {
			continue
		}
		w := exp[k]
		if strings.HasPrefix(k, drop+".") {
			w = def[k]
		}
		c.Eval(1)
		if leafText(g[k]) != leafText(w) {
			c.Violate("upgrade", "init --upgrade of a version %d file without %s: %s is %s, want %s", ver, drop, k, leafText(g[k]), leafText(w))
			return
		}
	}
	bak, err := os.ReadFile(fmt.Sprintf("%s.v%d", path, ver))
	if err != nil || !bytes.Equal(bak, b) || got.Version != config.Version {
		c.Violate("backup", "init --upgrade of a version %d file: version %d, backup: %v", ver, got.Version, err)
		return
	}
	c.Seen(fmt.Sprintf("init flags=%d drop=%s", len(args), drop))
	c.Count("init runs", 3)
}
