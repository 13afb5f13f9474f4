package registry

import (
	"time"

	"github.com/libp2p/go-libp2p-core/peer"
)

// This stands in for the real hooks where those do not compile, because the
// functions they call were renamed or changed. What needs them is left out.

const VerifHooks = false

type VerifPolling struct{ Interval, RetryAfter, StopAfter time.Duration }

func (r *Registry) VerifPoll(p VerifPolling, over map[peer.ID]VerifPolling) {}
func (r *Registry) VerifCleanup()                                           {}
