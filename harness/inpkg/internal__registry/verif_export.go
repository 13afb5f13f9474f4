package registry

import (
	"time"

	"github.com/libp2p/go-libp2p-core/peer"
)

// VerifHooks says that the hooks below do something.
const VerifHooks = true

// VerifPolling mirrors the polling settings of one provider.
type VerifPolling struct{ Interval, RetryAfter, StopAfter time.Duration }

// VerifPoll runs one poll pass, as the registry's timer does.
func (r *Registry) VerifPoll(p VerifPolling, over map[peer.ID]VerifPolling) {
	var m map[peer.ID]polling
	if over != nil {
		m = map[peer.ID]polling{}
		for id, o := range over {
			m[id] = polling{interval: o.Interval, retryAfter: o.RetryAfter, stopAfter: o.StopAfter}
		}
	}
	r.pollProviders(polling{interval: p.Interval, retryAfter: p.RetryAfter, stopAfter: p.StopAfter}, m)
}

// VerifCleanup runs one clean-up pass, as the registry's timer does.
func (r *Registry) VerifCleanup() { r.cleanup() }
