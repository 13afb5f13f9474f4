From eb3a89f3f64c0ea026b5b404e60bd095e55deaa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:54 +0000
Subject: [PATCH 01/38] fix: do not wait forever for an already processed or
 absent head in Sync

---
 internal/ingest/ingest.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/internal/ingest/ingest.go b/internal/ingest/ingest.go
index 66e272d..de2a20d 100644
--- a/internal/ingest/ingest.go
+++ b/internal/ingest/ingest.go
@@ -380,9 +380,11 @@ func (ing *Ingester) Sync(ctx context.Context, peerID peer.ID, peerAddr multiadd
 		// Do not persist the latest sync here, because that is done after
 		// processing the ad.
 
-		// If latest head had already finished syncing, then do not wait for
-		// syncDone since it will never happen.
-		if latest == c && !resync {
+		// If the publisher has no head, or the head had already finished
+		// processing, then do not wait for syncDone since it will never
+		// happen. The head may already be processed without being the latest
+		// sync if the chain has advertisements from multiple providers.
+		if c == cid.Undef || (!resync && (latest == c || ing.adAlreadyProcessed(c))) {
 			log.Infow("Latest advertisement already processed", "adCid", c)
 			out <- c
 			return
-- 
2.43.0


From 984fe945bfd2cade5e81567c04f2351b887f3bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:14 +0000
Subject: [PATCH 02/38] fix: a sync that is not reading events no longer blocks
 ingestion or deadlocks on cancel

---
 internal/ingest/ingest.go | 40 +++++++++++++++++++++++++++++++++------
 1 file changed, 34 insertions(+), 6 deletions(-)

diff --git a/internal/ingest/ingest.go b/internal/ingest/ingest.go
index de2a20d..45c405e 100644
--- a/internal/ingest/ingest.go
+++ b/internal/ingest/ingest.go
@@ -393,7 +393,11 @@ func (ing *Ingester) Sync(ctx context.Context, peerID peer.ID, peerAddr multiadd
 		log.Debugw("Syncing advertisements up to latest", "adCid", c)
 		for {
 			select {
-			case adProcessedEvent := <-syncDone:
+			case adProcessedEvent, ok := <-syncDone:
+				if !ok {
+					log.Warnw("Sync cancelled because of close")
+					return
+				}
 				log.Debugw("Synced advertisement", "adCid", adProcessedEvent.adCid)
 				if adProcessedEvent.adCid == c || adProcessedEvent.err != nil && adProcessedEvent.headAdCid == c {
 					// If an error occurred then the adProcessedEvent.adCid
@@ -537,9 +541,33 @@ func (ing *Ingester) distributeEvents() {
 // the list of channels to be notified on changes, and closes the channel to
 // allow any reading goroutines to stop waiting on the channel.
 func (ing *Ingester) onAdProcessed(peerID peer.ID) (<-chan adProcessedEvent, context.CancelFunc) {
-	// Channel is buffered to prevent distribute() from blocking if a reader is
-	// not reading the channel immediately.
-	ch := make(chan adProcessedEvent, 1)
+	// Events are queued so that distributeEvents never blocks on a reader that
+	// is not reading the channel, such as one waiting on a slow publisher or
+	// one that is calling the cancel function.
+	ch := make(chan adProcessedEvent)
+	out := make(chan adProcessedEvent)
+	go func() {
+		defer close(out)
+		var queue []adProcessedEvent
+		for {
+			var next adProcessedEvent
+			var send chan<- adProcessedEvent
+			if len(queue) != 0 {
+				next = queue[0]
+				send = out
+			}
+			select {
+			case event, ok := <-ch:
+				if !ok {
+					return
+				}
+				queue = append(queue, event)
+			case send <- next:
+				queue = queue[1:]
+			}
+		}
+	}()
+
 	ing.outEventsMutex.Lock()
 	defer ing.outEventsMutex.Unlock()
 
@@ -561,6 +589,7 @@ func (ing *Ingester) onAdProcessed(peerID peer.ID) (<-chan adProcessedEvent, con
 
 		for i, ca := range outEventsChans {
 			if ca == ch {
+				close(ch)
 				if len(outEventsChans) == 1 {
 					if len(ing.outEventsChans) == 1 {
 						ing.outEventsChans = nil
@@ -571,14 +600,13 @@ func (ing *Ingester) onAdProcessed(peerID peer.ID) (<-chan adProcessedEvent, con
 					outEventsChans[i] = outEventsChans[len(outEventsChans)-1]
 					outEventsChans[len(outEventsChans)-1] = nil
 					outEventsChans = outEventsChans[:len(outEventsChans)-1]
-					close(ch)
 					ing.outEventsChans[peerID] = outEventsChans
 				}
 				break
 			}
 		}
 	}
-	return ch, cncl
+	return out, cncl
 }
 
 // signalMetricsUpdate signals that metrics should be updated.
-- 
2.43.0


From 82ebcba808fa6c53bbb1a4e97072a48546337f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:11 +0000
Subject: [PATCH 03/38] fix: end a sync whose staged assignment was replaced by
 one that failed

---
 internal/ingest/ingest.go | 31 +++++++++++++++++++++++++++++--
 1 file changed, 29 insertions(+), 2 deletions(-)

diff --git a/internal/ingest/ingest.go b/internal/ingest/ingest.go
index 45c405e..633613e 100644
--- a/internal/ingest/ingest.go
+++ b/internal/ingest/ingest.go
@@ -51,6 +51,29 @@ type adProcessedEvent struct {
 	adCid cid.Cid
 	// A non-nil value indicates failure to process the ad for adCid.
 	err error
+	// If err is non-nil, the ads that are not going to be processed because of
+	// the failure.
+	unprocessed []adInfo
+}
+
+// isFor returns true if the event tells that processing of the given ad is
+// done, with or without error.
+func (e adProcessedEvent) isFor(adCid cid.Cid) bool {
+	if e.adCid == adCid {
+		return true
+	}
+	if e.err == nil {
+		return false
+	}
+	if e.headAdCid == adCid {
+		return true
+	}
+	for i := range e.unprocessed {
+		if e.unprocessed[i].cid == adCid {
+			return true
+		}
+	}
+	return false
 }
 
 type providerID peer.ID
@@ -399,11 +422,13 @@ func (ing *Ingester) Sync(ctx context.Context, peerID peer.ID, peerAddr multiadd
 					return
 				}
 				log.Debugw("Synced advertisement", "adCid", adProcessedEvent.adCid)
-				if adProcessedEvent.adCid == c || adProcessedEvent.err != nil && adProcessedEvent.headAdCid == c {
+				if adProcessedEvent.isFor(c) {
 					// If an error occurred then the adProcessedEvent.adCid
 					// will be the cid that caused the error, and there will
 					// not be any future adProcessedEvents. Therefore check the
-					// headAdCid to see if this was the sync that was started.
+					// headAdCid to see if this was the sync that was started,
+					// and check the unprocessed ads in case the assignment of
+					// the sync that was started was replaced by a later one.
 					out <- c
 					ing.signalMetricsUpdate()
 					return
@@ -953,6 +978,8 @@ func (ing *Ingester) ingestWorkerLogic(provider peer.ID) {
 				headAdCid: assignment.adInfos[0].cid,
 				adCid:     ai.cid,
 				err:       err,
+
+				unprocessed: assignment.adInfos[:i+1],
 			}
 			return
 		}
-- 
2.43.0


From e52d0304db963e024d20e41d88e2337541f03509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:52 +0000
Subject: [PATCH 04/38] fix: do not leave a deferred announce pending when its
 provider is no longer processed

---
 internal/ingest/ingest.go | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/internal/ingest/ingest.go b/internal/ingest/ingest.go
index 633613e..6c6eb65 100644
--- a/internal/ingest/ingest.go
+++ b/internal/ingest/ingest.go
@@ -464,6 +464,7 @@ func (ing *Ingester) Announce(ctx context.Context, nextCid cid.Cid, addrInfo pee
 		log.Info("Handling direct announce request")
 		err := ing.sub.Announce(ctx, nextCid, provider, addrInfo.Addrs)
 		<-pc
+		ing.handleDeferredAnnounce(provider, pc)
 		return err
 	case <-ctx.Done():
 		return ctx.Err()
@@ -473,6 +474,7 @@ func (ing *Ingester) Announce(ctx context.Context, nextCid cid.Cid, addrInfo pee
 			nextCid:  nextCid,
 		})
 		log.Info("Deferred handling direct announce request")
+		ing.handleDeferredAnnounce(provider, pc)
 		return nil
 	}
 }
@@ -856,6 +858,7 @@ func (ing *Ingester) ingestWorker() {
 			ing.ingestWorkerLogic(pid)
 			ing.handlePendingAnnounce(pid)
 			<-pc
+			ing.handleDeferredAnnounce(pid, pc)
 		}
 	}
 }
@@ -996,6 +999,26 @@ func (ing *Ingester) ingestWorkerLogic(provider peer.ID) {
 	}
 }
 
+// handleDeferredAnnounce handles a pending announce, unless the provider is
+// being processed. It is called after deferring an announce, and after the
+// provider is no longer being processed. This makes sure that an announce is
+// not left pending if it is deferred after whoever processes the provider has
+// looked for a pending announce.
+func (ing *Ingester) handleDeferredAnnounce(pid peer.ID, pc chan struct{}) {
+	for {
+		if _, found := ing.providersPendingAnnounce.Load(pid); !found {
+			return
+		}
+		select {
+		case pc <- struct{}{}:
+			ing.handlePendingAnnounce(pid)
+			<-pc
+		default:
+			return
+		}
+	}
+}
+
 func (ing *Ingester) handlePendingAnnounce(pid peer.ID) {
 	log := log.With("provider", pid)
 	// Process pending announce request if any.
-- 
2.43.0


From 461c9211d07c22c7eeaf83241283c605a3f385ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:52 +0000
Subject: [PATCH 05/38] fix: read the ingester batch size atomically

---
 internal/ingest/linksystem.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/internal/ingest/linksystem.go b/internal/ingest/linksystem.go
index abbcfb2..415ea8d 100644
--- a/internal/ingest/linksystem.go
+++ b/internal/ingest/linksystem.go
@@ -289,7 +289,7 @@ func (ing *Ingester) ingestAd(publisherID peer.ID, adCid cid.Cid, ad schema.Adve
 			// the HAMT, instead of loading all the multihashes in the HAMT then batch them later in
 			// indexContentBlock.
 			// TODO: See how we can refactor code to make batching logic more flexible in indexContentBlock.
-			if len(mhs) >= int(ing.batchSize) {
+			if len(mhs) >= ing.BatchSize() {
 				err := ing.indexAdMultihashes(ad, mhs, log)
 				if err != nil {
 					return adIngestError{adIngestIndexerErr, fmt.Errorf("failed to index content from HAMT: %w", err)}
@@ -416,7 +416,8 @@ func (ing *Ingester) indexAdMultihashes(ad schema.Advertisement, mhs []multihash
 		}
 	}()
 
-	batch := make([]multihash.Multihash, 0, ing.batchSize)
+	batchSize := ing.BatchSize()
+	batch := make([]multihash.Multihash, 0, batchSize)
 	var prevBatch []multihash.Multihash
 
 	// Iterate over all entries and ingest (or remove) them.
@@ -442,7 +443,7 @@ func (ing *Ingester) indexAdMultihashes(ad schema.Advertisement, mhs []multihash
 			}
 			count += len(batch)
 			if prevBatch == nil {
-				prevBatch = make([]multihash.Multihash, 0, ing.batchSize)
+				prevBatch = make([]multihash.Multihash, 0, batchSize)
 			}
 			// Since batchChan is unbuffered, the goroutine is done reading the previous batch.
 			prevBatch, batch = batch, prevBatch
-- 
2.43.0


From 704cd0851242f1964c6c2bf00881cc8bd96c9258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:13 +0000
Subject: [PATCH 06/38] fix: check that fetched blocks match the CID they were
 fetched by

---
 internal/ingest/linksystem.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/internal/ingest/linksystem.go b/internal/ingest/linksystem.go
index 415ea8d..bd5d7fd 100644
--- a/internal/ingest/linksystem.go
+++ b/internal/ingest/linksystem.go
@@ -62,6 +62,18 @@ func mkLinkSystem(ds datastore.Batching, reg *registry.Registry) ipld.LinkSystem
 
 			log := log.With("cid", c)
 
+			// Check that the data is what the link refers to. Not all
+			// transports do this.
+			sum, err := c.Prefix().Sum(origBuf)
+			if err != nil {
+				log.Errorw("Cannot verify data received for link", "err", err)
+				return errors.New("cannot verify data")
+			}
+			if !sum.Equals(c) {
+				log.Errorw("Data received for link does not match its hash", "got", sum)
+				return errors.New("data does not match link")
+			}
+
 			// Decode the node to check its type.
 			n, err := decodeIPLDNode(codec, buf, basicnode.Prototype.Any)
 			if err != nil {
-- 
2.43.0


From 2c7365883ade43f23f567ecd365c2a8e199a4baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:20 +0000
Subject: [PATCH 07/38] fix: skip only advertisements whose entries cannot be
 decoded, retry those that failed to load or store

---
 internal/ingest/linksystem.go | 52 +++++++++++++++++++++++++++++------
 1 file changed, 44 insertions(+), 8 deletions(-)

diff --git a/internal/ingest/linksystem.go b/internal/ingest/linksystem.go
index bd5d7fd..b291cb8 100644
--- a/internal/ingest/linksystem.go
+++ b/internal/ingest/linksystem.go
@@ -37,6 +37,8 @@ import (
 var (
 	errBadAdvert              = errors.New("bad advertisement")
 	errInvalidAdvertSignature = errors.New("invalid advertisement signature")
+	errBadIPLDData            = errors.New("bad ipld data")
+	errReadNode               = errors.New("cannot fetch the node from datastore")
 )
 
 // mkLinkSystem makes the indexer linkSystem which checks advertisement
@@ -78,7 +80,7 @@ func mkLinkSystem(ds datastore.Batching, reg *registry.Registry) ipld.LinkSystem
 			n, err := decodeIPLDNode(codec, buf, basicnode.Prototype.Any)
 			if err != nil {
 				log.Errorw("Error decoding IPLD node in linksystem", "err", err)
-				return errors.New("bad ipld data")
+				return errBadIPLDData
 			}
 			// If it is an advertisement.
 			if isAdvertisement(n) {
@@ -227,7 +229,7 @@ func (ing *Ingester) ingestAd(publisherID peer.ID, adCid cid.Cid, ad schema.Adve
 	// TODO: See if it is worth detecting and reducing depth the depth in entries selectors by one.
 	syncedFirstEntryCid, err := ing.sub.Sync(ctx, publisherID, entriesCid, Selectors.One, nil)
 	if err != nil {
-		return adIngestError{adIngestSyncEntriesErr, fmt.Errorf("failed to sync first entry while checking entries type: %w", err)}
+		return adIngestError{syncEntriesErrState(err), fmt.Errorf("failed to sync first entry while checking entries type: %w", err)}
 	}
 
 	node, err := ing.loadNode(syncedFirstEntryCid, basicnode.Prototype.Any)
@@ -236,6 +238,8 @@ func (ing *Ingester) ingestAd(publisherID peer.ID, adCid cid.Cid, ad schema.Adve
 	}
 
 	var errsIngestingEntryChunks []error
+	// Only an entry chunk that cannot be decoded is a permanent error.
+	errState := adIngestEntryChunkErr
 	if isHAMT(node) {
 		log = log.With("entriesKind", "hamt")
 		// Keep track of all CIDs in the HAMT to remove them later when the processing is done.
@@ -257,7 +261,7 @@ func (ing *Ingester) ingestAd(publisherID peer.ID, adCid cid.Cid, ad schema.Adve
 		// Load the CID as HAMT root node.
 		hn, err := ing.loadHamt(syncedFirstEntryCid)
 		if err != nil {
-			return adIngestError{adIngestIndexerErr, fmt.Errorf("failed to load entries as HAMT root node: %w", err)}
+			return adIngestError{loadEntriesErrState(err, adIngestMalformedErr), fmt.Errorf("failed to load entries as HAMT root node: %w", err)}
 		}
 
 		// Sync all the links in the hamt, since so far we have only synced the root.
@@ -271,7 +275,7 @@ func (ing *Ingester) ingestAd(publisherID peer.ID, adCid cid.Cid, ad schema.Adve
 					// TODO: see if segmented sync for HAMT makes sense and if so modify block hook action above appropriately.
 					legs.ScopedSegmentDepthLimit(-1))
 				if err != nil {
-					return adIngestError{adIngestSyncEntriesErr, fmt.Errorf("failed to sync remaining HAMT: %w", err)}
+					return adIngestError{syncEntriesErrState(err), fmt.Errorf("failed to sync remaining HAMT: %w", err)}
 				}
 			}
 		}
@@ -286,6 +290,13 @@ func (ing *Ingester) ingestAd(publisherID peer.ID, adCid cid.Cid, ad schema.Adve
 		for !mi.Done() {
 			k, _, err := mi.Next()
 			if err != nil {
+				// Find out if the HAMT is malformed.
+				for _, c := range hamtCids[1:] {
+					_, loadErr := ing.loadNode(c, hamt.HashMapNodePrototype)
+					if loadErr != nil && !errors.Is(loadErr, errReadNode) {
+						return adIngestError{adIngestMalformedErr, fmt.Errorf("failed to load HAMT node: %w", loadErr)}
+					}
+				}
 				return adIngestError{adIngestIndexerErr, fmt.Errorf("faild to iterate through HAMT: %w", err)}
 			}
 			ks, err := k.AsString()
@@ -322,10 +333,12 @@ func (ing *Ingester) ingestAd(publisherID peer.ID, adCid cid.Cid, ad schema.Adve
 		// So process that first
 		chunk, err := ing.loadEntryChunk(syncedFirstEntryCid)
 		if err != nil {
+			errState = loadEntriesErrState(err, errState)
 			errsIngestingEntryChunks = append(errsIngestingEntryChunks, err)
 		} else {
 			err = ing.ingestEntryChunk(ctx, ad, syncedFirstEntryCid, *chunk, log)
 			if err != nil {
+				errState = adIngestIndexerErr
 				errsIngestingEntryChunks = append(errsIngestingEntryChunks, err)
 			}
 		}
@@ -338,12 +351,14 @@ func (ing *Ingester) ingestAd(publisherID peer.ID, adCid cid.Cid, ad schema.Adve
 				chunk, err := ing.loadEntryChunk(c)
 				if err != nil {
 					actions.FailSync(err)
+					errState = loadEntriesErrState(err, errState)
 					errsIngestingEntryChunks = append(errsIngestingEntryChunks, err)
 					return
 				}
 				err = ing.ingestEntryChunk(ctx, ad, c, *chunk, log)
 				if err != nil {
 					actions.FailSync(err)
+					errState = adIngestIndexerErr
 					errsIngestingEntryChunks = append(errsIngestingEntryChunks, err)
 					return
 				}
@@ -353,11 +368,13 @@ func (ing *Ingester) ingestAd(publisherID peer.ID, adCid cid.Cid, ad schema.Adve
 					actions.SetNextSyncCid(cid.Undef)
 				}
 			}))
-			if err != nil {
+			// If ingesting an entry chunk failed, then that is why the sync
+			// failed.
+			if err != nil && len(errsIngestingEntryChunks) == 0 {
 				if strings.Contains(err.Error(), "datatransfer failed: content not found") {
 					return adIngestError{adIngestContentNotFound, fmt.Errorf("failed to sync entries: %w", err)}
 				}
-				return adIngestError{adIngestSyncEntriesErr, fmt.Errorf("failed to sync entries: %w", err)}
+				return adIngestError{syncEntriesErrState(err), fmt.Errorf("failed to sync entries: %w", err)}
 			}
 		}
 	}
@@ -369,11 +386,30 @@ func (ing *Ingester) ingestAd(publisherID peer.ID, adCid cid.Cid, ad schema.Adve
 	ing.signalMetricsUpdate()
 
 	if len(errsIngestingEntryChunks) > 0 {
-		return adIngestError{adIngestEntryChunkErr, fmt.Errorf("failed to ingest entry chunks: %v", errsIngestingEntryChunks)}
+		return adIngestError{errState, fmt.Errorf("failed to ingest entry chunks: %v", errsIngestingEntryChunks)}
 	}
 	return nil
 }
 
+// syncEntriesErrState returns the state for an error that happened when
+// syncing entries. Data that can be fetched but cannot be decoded is a
+// permanent error.
+func syncEntriesErrState(err error) adIngestState {
+	if errors.Is(err, errBadIPLDData) {
+		return adIngestMalformedErr
+	}
+	return adIngestSyncEntriesErr
+}
+
+// loadEntriesErrState returns the state for an error that happened when loading
+// entries: decodeErrState if the entries cannot be decoded.
+func loadEntriesErrState(err error, decodeErrState adIngestState) adIngestState {
+	if errors.Is(err, errReadNode) {
+		return adIngestIndexerErr
+	}
+	return decodeErrState
+}
+
 // ingestEntryChunk ingests a block of entries as that block is received
 // through graphsync.
 //
@@ -543,7 +579,7 @@ func (ing *Ingester) loadNode(c cid.Cid, prototype ipld.NodePrototype) (ipld.Nod
 	key := datastore.NewKey(c.String())
 	val, err := ing.ds.Get(context.Background(), key)
 	if err != nil {
-		return nil, fmt.Errorf("cannot fetch the node from datastore: %w", err)
+		return nil, fmt.Errorf("%w: %s", errReadNode, err)
 	}
 	return decodeIPLDNode(c.Prefix().Codec, bytes.NewBuffer(val), prototype)
 }
-- 
2.43.0


From 21e3e34ce1f6989cac97dace5560c1d1a597a3c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:07:14 +0000
Subject: [PATCH 08/38] fix: do not use a closed subscriber for syncs and
 announces when closing the ingester

---
 internal/ingest/ingest.go | 119 ++++++++++++++++++++++++++++++--------
 1 file changed, 94 insertions(+), 25 deletions(-)

diff --git a/internal/ingest/ingest.go b/internal/ingest/ingest.go
index 6c6eb65..1c76c50 100644
--- a/internal/ingest/ingest.go
+++ b/internal/ingest/ingest.go
@@ -35,6 +35,12 @@ import (
 
 var log = logging.Logger("indexer/ingest")
 
+var errClosed = errors.New("ingester closed")
+
+// closeSyncTimeout is how long Close waits for ongoing syncs to stop before it
+// closes the subscriber.
+const closeSyncTimeout = 5 * time.Second
+
 // prefix used to track latest sync in datastore.
 const (
 	// syncPrefix identifies the latest sync for each provider.
@@ -127,7 +133,11 @@ type Ingester struct {
 	outEventsMutex sync.Mutex
 
 	waitForPendingSyncs sync.WaitGroup
-	closePendingSyncs   chan struct{}
+	// closeCtx is canceled to stop pending syncs when closing.
+	closeCtx    context.Context
+	cancelSyncs context.CancelFunc
+	closed      bool
+	closeMutex  sync.Mutex
 
 	cancelOnSyncFinished context.CancelFunc
 
@@ -175,14 +185,14 @@ func NewIngester(cfg config.Ingest, h host.Host, idxr indexer.Interface, reg *re
 		cfg:         cfg,
 		inEvents:    make(chan adProcessedEvent, 1),
 
-		closePendingSyncs: make(chan struct{}),
-
 		providersBeingProcessed: make(map[peer.ID]chan struct{}),
 		providerAdChainStaging:  make(map[peer.ID]*atomic.Value),
 		toWorkers:               make(chan providerID),
 		closeWorkers:            make(chan struct{}),
 	}
 
+	ing.closeCtx, ing.cancelSyncs = context.WithCancel(context.Background())
+
 	var err error
 	ing.rateApply, ing.rateBurst, ing.rateLimit, err = configRateLimit(cfg.RateLimit)
 	if err != nil {
@@ -274,24 +284,32 @@ func (ing *Ingester) getRateLimiter(publisher peer.ID) *rate.Limiter {
 }
 
 func (ing *Ingester) Close() error {
-	// Close leg transport.
-	err := ing.sub.Close()
-
-	// Dismiss any event readers.
-	ing.outEventsMutex.Lock()
-	for _, chans := range ing.outEventsChans {
-		for _, ch := range chans {
-			close(ch)
+	var err error
+	ing.closeOnce.Do(func() {
+		// Do not start any more syncs or announces, and stop pending syncs.
+		// Completing these panics if the subscriber is closed.
+		ing.closeMutex.Lock()
+		ing.closed = true
+		ing.closeMutex.Unlock()
+		ing.cancelSyncs()
+		ing.waitSyncs(closeSyncTimeout)
+
+		// Close leg transport.
+		err = ing.sub.Close()
+
+		// Dismiss any event readers.
+		ing.outEventsMutex.Lock()
+		for _, chans := range ing.outEventsChans {
+			for _, ch := range chans {
+				close(ch)
+			}
 		}
-	}
-	ing.outEventsChans = nil
-	ing.outEventsMutex.Unlock()
+		ing.outEventsChans = nil
+		ing.outEventsMutex.Unlock()
 
-	ing.closeOnce.Do(func() {
 		ing.cancelOnSyncFinished()
 		close(ing.closeWorkers)
 		ing.waitForWorkers.Wait()
-		close(ing.closePendingSyncs)
 		ing.waitForPendingSyncs.Wait()
 
 		// Stop the distribution goroutine.
@@ -303,6 +321,45 @@ func (ing *Ingester) Close() error {
 	return err
 }
 
+// waitSyncs waits for pending syncs to finish, but not longer than the given
+// time. Some transports only stop a sync when the subscriber is closed.
+func (ing *Ingester) waitSyncs(timeout time.Duration) {
+	done := make(chan struct{})
+	go func() {
+		ing.waitForPendingSyncs.Wait()
+		close(done)
+	}()
+	timer := time.NewTimer(timeout)
+	defer timer.Stop()
+	select {
+	case <-done:
+	case <-timer.C:
+		log.Warn("Pending syncs did not stop in time")
+	}
+}
+
+// startSync is called before starting a sync or announce. It returns false if
+// the ingester is closed. Otherwise, waitForPendingSyncs.Done must be called
+// when done.
+func (ing *Ingester) startSync() bool {
+	ing.closeMutex.Lock()
+	defer ing.closeMutex.Unlock()
+	if ing.closed {
+		return false
+	}
+	ing.waitForPendingSyncs.Add(1)
+	return true
+}
+
+// announce sends an announce message to go-legs.
+func (ing *Ingester) announce(ctx context.Context, nextCid cid.Cid, addrInfo peer.AddrInfo) error {
+	if !ing.startSync() {
+		return errClosed
+	}
+	defer ing.waitForPendingSyncs.Done()
+	return ing.sub.Announce(ctx, nextCid, addrInfo.ID, addrInfo.Addrs)
+}
+
 // Sync syncs advertisements, up to the the latest advertisement, from a
 // publisher. A channel is returned that gives the caller the option to wait
 // for Sync to complete. The channel returns the final CID that was synced by
@@ -338,13 +395,27 @@ func (ing *Ingester) Sync(ctx context.Context, peerID peer.ID, peerAddr multiadd
 		return nil, err
 	}
 
+	if !ing.startSync() {
+		return nil, errClosed
+	}
+
 	out := make(chan cid.Cid, 1)
 
-	ing.waitForPendingSyncs.Add(1)
 	go func() {
 		defer ing.waitForPendingSyncs.Done()
 		defer close(out)
 
+		// Stop the sync if the ingester is closed.
+		ctx, cancelSync := context.WithCancel(ctx)
+		defer cancelSync()
+		go func() {
+			select {
+			case <-ing.closeCtx.Done():
+				cancelSync()
+			case <-ctx.Done():
+			}
+		}()
+
 		log := log.With("provider", peerID, "peerAddr", peerAddr, "depth", depth, "resync", resync)
 		log.Info("Explicitly syncing the latest advertisement from peer")
 
@@ -436,9 +507,6 @@ func (ing *Ingester) Sync(ctx context.Context, peerID peer.ID, peerAddr multiadd
 			case <-ctx.Done():
 				log.Warnw("Sync cancelled", "err", ctx.Err())
 				return
-			case <-ing.closePendingSyncs:
-				log.Warnw("Sync cancelled because of close")
-				return
 			}
 		}
 	}()
@@ -462,7 +530,7 @@ func (ing *Ingester) Announce(ctx context.Context, nextCid cid.Cid, addrInfo pee
 	select {
 	case pc <- struct{}{}:
 		log.Info("Handling direct announce request")
-		err := ing.sub.Announce(ctx, nextCid, provider, addrInfo.Addrs)
+		err := ing.announce(ctx, nextCid, addrInfo)
 		<-pc
 		ing.handleDeferredAnnounce(provider, pc)
 		return err
@@ -690,8 +758,7 @@ func (ing *Ingester) removePublisher(ctx context.Context, publisherID peer.ID) e
 }
 
 func (ing *Ingester) autoSync() {
-	ctx, cancel := context.WithCancel(context.Background())
-	defer cancel()
+	ctx := ing.closeCtx
 
 	for provInfo := range ing.reg.SyncChan() {
 		if provInfo.Deleted() {
@@ -707,7 +774,9 @@ func (ing *Ingester) autoSync() {
 
 		// If a separate goroutine, attempt to sync the provider at its last
 		// know publisher.
-		ing.waitForPendingSyncs.Add(1)
+		if !ing.startSync() {
+			continue
+		}
 		go func(pubID peer.ID, pubAddr multiaddr.Multiaddr, provID peer.ID) {
 			defer ing.waitForPendingSyncs.Done()
 
@@ -1035,7 +1104,7 @@ func (ing *Ingester) handlePendingAnnounce(pid peer.ID) {
 		return
 	}
 	log = log.With("cid", pa.nextCid, "addrinfo", pa.addrInfo)
-	err := ing.sub.Announce(context.Background(), pa.nextCid, pa.addrInfo.ID, pa.addrInfo.Addrs)
+	err := ing.announce(context.Background(), pa.nextCid, pa.addrInfo)
 	if err != nil {
 		log.Errorw("Failed to handle pending announce", "err", err)
 		return
-- 
2.43.0


From df80f1a13546917da7d3ded26e5f85fb8b0ed3a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:14:45 +0000
Subject: [PATCH 09/38] fix: do not lose staged advertisements when a later
 sync is staged for the same provider

---
 internal/ingest/ingest.go | 63 ++++++++++++++++++++++++++++++++++++---
 1 file changed, 59 insertions(+), 4 deletions(-)

diff --git a/internal/ingest/ingest.go b/internal/ingest/ingest.go
index 1c76c50..eb86eb1 100644
--- a/internal/ingest/ingest.go
+++ b/internal/ingest/ingest.go
@@ -102,6 +102,9 @@ type workerAssignment struct {
 	adInfos   []adInfo
 	publisher peer.ID
 	provider  peer.ID
+	// earlier has assignments, from other publishers for the same provider,
+	// to handle before this one.
+	earlier []workerAssignment
 }
 
 // Ingester is a type that uses go-legs for the ingestion protocol.
@@ -893,13 +896,28 @@ func (ing *Ingester) runIngestStep(syncFinishedEvent legs.SyncFinished) {
 			wa = &atomic.Value{}
 			ing.providerAdChainStaging[p] = wa
 		}
-		ing.providersBeingProcessedMu.Unlock()
 
-		oldAssignment := wa.Swap(workerAssignment{
+		assignment := workerAssignment{
 			adInfos:   adInfos,
 			publisher: syncFinishedEvent.PeerID,
 			provider:  p,
-		})
+		}
+
+		// If there is an assignment that no worker has started, then do not
+		// lose it. Keep its ads that are not part of the new assignment. If it
+		// is from another publisher, then it needs to be handled separately.
+		if old, ok := wa.Load().(workerAssignment); ok && !old.none {
+			assignment.earlier = old.earlier
+			if old.publisher == assignment.publisher {
+				assignment.adInfos = mergeAds(adInfos, old.adInfos)
+			} else {
+				old.earlier = nil
+				assignment.earlier = append(assignment.earlier, old)
+			}
+		}
+
+		oldAssignment := wa.Swap(assignment)
+		ing.providersBeingProcessedMu.Unlock()
 
 		if oldAssignment == nil || oldAssignment.(workerAssignment).none {
 			// No previous run scheduled a worker to handle this provider, so
@@ -909,6 +927,35 @@ func (ing *Ingester) runIngestStep(syncFinishedEvent legs.SyncFinished) {
 	}
 }
 
+// mergeAds merges the ads from a sync with those that are already staged from
+// the same publisher, keeping them ordered from newest to oldest.
+func mergeAds(synced, staged []adInfo) []adInfo {
+	for i := range staged {
+		if staged[i].cid == synced[0].cid {
+			// The sync was for an older head than what is staged.
+			return appendMissingAds(staged, synced)
+		}
+	}
+	// The staged ads that are missing are older. The new sync did not include
+	// them because it was depth limited or stopped at a newer ad of another
+	// provider.
+	return appendMissingAds(synced, staged)
+}
+
+// appendMissingAds appends to newer the ads from older that it does not have.
+func appendMissingAds(newer, older []adInfo) []adInfo {
+	have := make(map[cid.Cid]struct{}, len(newer))
+	for i := range newer {
+		have[newer[i].cid] = struct{}{}
+	}
+	for i := range older {
+		if _, ok := have[older[i].cid]; !ok {
+			newer = append(newer, older[i])
+		}
+	}
+	return newer
+}
+
 func (ing *Ingester) ingestWorker() {
 	log.Debug("started ingest worker")
 	defer ing.waitForWorkers.Done()
@@ -937,9 +984,9 @@ func (ing *Ingester) ingestWorkerLogic(provider peer.ID) {
 	// populates this atomic.Value.
 	ing.providersBeingProcessedMu.Lock()
 	wa := ing.providerAdChainStaging[provider]
+	assignmentInterface := wa.Swap(workerAssignment{none: true})
 	ing.providersBeingProcessedMu.Unlock()
 
-	assignmentInterface := wa.Swap(workerAssignment{none: true})
 	if assignmentInterface == nil || assignmentInterface.(workerAssignment).none {
 		// Note this is here for completeness. This would not happen
 		// normally. Execution could get here if someone manually calls this
@@ -948,6 +995,14 @@ func (ing *Ingester) ingestWorkerLogic(provider peer.ID) {
 	}
 	assignment := assignmentInterface.(workerAssignment)
 
+	for _, earlier := range assignment.earlier {
+		ing.handleAssignment(earlier)
+	}
+	ing.handleAssignment(assignment)
+}
+
+// handleAssignment ingests the ads of an assignment, from oldest to newest.
+func (ing *Ingester) handleAssignment(assignment workerAssignment) {
 	rmCtxID := make(map[string]struct{})
 	var skips []int
 	skip := -1
-- 
2.43.0


From 11d511642dad487c3f2ac38a4560a49a7c0e6b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:21:41 +0000
Subject: [PATCH 10/38] fix: do not fail a sync because its advertisements were
 processed meanwhile

---
 internal/ingest/ingest.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/ingest/ingest.go b/internal/ingest/ingest.go
index eb86eb1..6c293d5 100644
--- a/internal/ingest/ingest.go
+++ b/internal/ingest/ingest.go
@@ -265,6 +265,12 @@ func (ing *Ingester) generalLegsBlockHook(_ peer.ID, c cid.Cid, actions legs.Seg
 	// Therefore, we only attempt to load advertisements here and signal failure if the
 	// load fails.
 	if ad, err := ing.loadAd(c); err != nil {
+		if ing.adAlreadyProcessed(c) {
+			// The ad was processed, and removed from the datastore, after it
+			// was synced. All earlier ads are processed too.
+			actions.SetNextSyncCid(cid.Undef)
+			return
+		}
 		actions.FailSync(err)
 	} else if ad.PreviousID != nil {
 		actions.SetNextSyncCid(ad.PreviousID.(cidlink.Link).Cid)
-- 
2.43.0


From 275bdc7f7d6cefa851580f30446b3f491638a412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:29 +0000
Subject: [PATCH 11/38] fix: stop syncing entries when closing the ingester

---
 internal/ingest/ingest.go     | 12 ++++++++++--
 internal/ingest/linksystem.go |  2 +-
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/internal/ingest/ingest.go b/internal/ingest/ingest.go
index 6c293d5..4fbc2cd 100644
--- a/internal/ingest/ingest.go
+++ b/internal/ingest/ingest.go
@@ -139,8 +139,11 @@ type Ingester struct {
 	// closeCtx is canceled to stop pending syncs when closing.
 	closeCtx    context.Context
 	cancelSyncs context.CancelFunc
-	closed      bool
-	closeMutex  sync.Mutex
+	// ingestCtx is canceled to stop ingesting ads after closing the subscriber.
+	ingestCtx    context.Context
+	cancelIngest context.CancelFunc
+	closed       bool
+	closeMutex   sync.Mutex
 
 	cancelOnSyncFinished context.CancelFunc
 
@@ -195,6 +198,7 @@ func NewIngester(cfg config.Ingest, h host.Host, idxr indexer.Interface, reg *re
 	}
 
 	ing.closeCtx, ing.cancelSyncs = context.WithCancel(context.Background())
+	ing.ingestCtx, ing.cancelIngest = context.WithCancel(context.Background())
 
 	var err error
 	ing.rateApply, ing.rateBurst, ing.rateLimit, err = configRateLimit(cfg.RateLimit)
@@ -306,6 +310,10 @@ func (ing *Ingester) Close() error {
 		// Close leg transport.
 		err = ing.sub.Close()
 
+		// Stop syncing entries. Syncs that are started after the subscriber is
+		// closed may never finish otherwise.
+		ing.cancelIngest()
+
 		// Dismiss any event readers.
 		ing.outEventsMutex.Lock()
 		for _, chans := range ing.outEventsChans {
diff --git a/internal/ingest/linksystem.go b/internal/ingest/linksystem.go
index b291cb8..63347ba 100644
--- a/internal/ingest/linksystem.go
+++ b/internal/ingest/linksystem.go
@@ -214,7 +214,7 @@ func (ing *Ingester) ingestAd(publisherID peer.ID, adCid cid.Cid, ad schema.Adve
 	}
 	log = log.With("entriesCid", entriesCid)
 
-	ctx := context.Background()
+	ctx := ing.ingestCtx
 	if ing.syncTimeout != 0 {
 		var cancel context.CancelFunc
 		ctx, cancel = context.WithTimeout(ctx, ing.syncTimeout)
-- 
2.43.0


From 4106dc6b76b41c6a1881c335d9fd923440caa697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:46 +0000
Subject: [PATCH 12/38] fix: do not hang in Close because of a publisher that
 does not respond or a canceled data transfer

---
 internal/ingest/ingest.go     | 41 +++++++++++++++++++++++++++++------
 internal/ingest/linksystem.go |  5 ++++-
 2 files changed, 38 insertions(+), 8 deletions(-)

diff --git a/internal/ingest/ingest.go b/internal/ingest/ingest.go
index 4fbc2cd..f4e0827 100644
--- a/internal/ingest/ingest.go
+++ b/internal/ingest/ingest.go
@@ -136,7 +136,8 @@ type Ingester struct {
 	outEventsMutex sync.Mutex
 
 	waitForPendingSyncs sync.WaitGroup
-	// closeCtx is canceled to stop pending syncs when closing.
+	// closeCtx is canceled, when closing, to stop everything that can be
+	// stopped before closing the subscriber.
 	closeCtx    context.Context
 	cancelSyncs context.CancelFunc
 	// ingestCtx is canceled to stop ingesting ads after closing the subscriber.
@@ -369,14 +370,35 @@ func (ing *Ingester) startSync() bool {
 }
 
 // announce sends an announce message to go-legs.
-func (ing *Ingester) announce(ctx context.Context, nextCid cid.Cid, addrInfo peer.AddrInfo) error {
+func (ing *Ingester) announce(nextCid cid.Cid, addrInfo peer.AddrInfo) error {
 	if !ing.startSync() {
 		return errClosed
 	}
 	defer ing.waitForPendingSyncs.Done()
+	// The sync started by the announce continues after this function returns,
+	// until it is done or the ingester is closed.
+	ctx := ing.stoppable(context.Background(), ing.closeCtx, addrInfo.ID, addrInfo.Addrs...)
 	return ing.sub.Announce(ctx, nextCid, addrInfo.ID, addrInfo.Addrs)
 }
 
+// stoppable returns the cancelable context to use for a sync with a publisher
+// over HTTP. If the sync is a data transfer, then it returns ctx, because
+// go-legs never finishes a data transfer whose context is canceled. Data
+// transfers are stopped by closing the subscriber.
+func (ing *Ingester) stoppable(ctx, cancelable context.Context, publisherID peer.ID, addrs ...multiaddr.Multiaddr) context.Context {
+	if len(addrs) == 0 || addrs[0] == nil {
+		addrs = ing.sub.HttpPeerStore().Addrs(publisherID)
+	}
+	for _, addr := range addrs {
+		for _, p := range addr.Protocols() {
+			if p.Code == multiaddr.P_HTTP || p.Code == multiaddr.P_HTTPS {
+				return cancelable
+			}
+		}
+	}
+	return ctx
+}
+
 // Sync syncs advertisements, up to the the latest advertisement, from a
 // publisher. A channel is returned that gives the caller the option to wait
 // for Sync to complete. The channel returns the final CID that was synced by
@@ -483,7 +505,7 @@ func (ing *Ingester) Sync(ctx context.Context, peerID peer.ID, peerAddr multiadd
 				ing.generalLegsBlockHook(i, c, actions)
 			}))
 		}
-		c, err := ing.sub.Sync(ctx, peerID, cid.Undef, sel, peerAddr, opts...)
+		c, err := ing.sub.Sync(ing.stoppable(context.Background(), ctx, peerID, peerAddr), peerID, cid.Undef, sel, peerAddr, opts...)
 		if err != nil {
 			log.Errorw("Failed to sync with provider", "err", err)
 			return
@@ -547,7 +569,7 @@ func (ing *Ingester) Announce(ctx context.Context, nextCid cid.Cid, addrInfo pee
 	select {
 	case pc <- struct{}{}:
 		log.Info("Handling direct announce request")
-		err := ing.announce(ctx, nextCid, addrInfo)
+		err := ing.announce(nextCid, addrInfo)
 		<-pc
 		ing.handleDeferredAnnounce(provider, pc)
 		return err
@@ -800,7 +822,7 @@ func (ing *Ingester) autoSync() {
 			log := log.With("provider", provID, "publisher", pubID, "addr", pubAddr)
 			log.Info("Auto-syncing the latest advertisement with publisher")
 
-			_, err := ing.sub.Sync(ctx, pubID, cid.Undef, nil, pubAddr)
+			_, err := ing.sub.Sync(ing.stoppable(context.Background(), ctx, pubID, pubAddr), pubID, cid.Undef, nil, pubAddr)
 			if err != nil {
 				log.Errorw("Failed to auto-sync with publisher", "err", err)
 				return
@@ -936,7 +958,12 @@ func (ing *Ingester) runIngestStep(syncFinishedEvent legs.SyncFinished) {
 		if oldAssignment == nil || oldAssignment.(workerAssignment).none {
 			// No previous run scheduled a worker to handle this provider, so
 			// schedule one.
-			ing.toWorkers <- providerID(p)
+			select {
+			case ing.toWorkers <- providerID(p):
+			case <-ing.closeCtx.Done():
+				// Closing, so there may be no worker left.
+				return
+			}
 		}
 	}
 }
@@ -1173,7 +1200,7 @@ func (ing *Ingester) handlePendingAnnounce(pid peer.ID) {
 		return
 	}
 	log = log.With("cid", pa.nextCid, "addrinfo", pa.addrInfo)
-	err := ing.announce(context.Background(), pa.nextCid, pa.addrInfo)
+	err := ing.announce(pa.nextCid, pa.addrInfo)
 	if err != nil {
 		log.Errorw("Failed to handle pending announce", "err", err)
 		return
diff --git a/internal/ingest/linksystem.go b/internal/ingest/linksystem.go
index 63347ba..d2828b1 100644
--- a/internal/ingest/linksystem.go
+++ b/internal/ingest/linksystem.go
@@ -214,7 +214,10 @@ func (ing *Ingester) ingestAd(publisherID peer.ID, adCid cid.Cid, ad schema.Adve
 	}
 	log = log.With("entriesCid", entriesCid)
 
-	ctx := ing.ingestCtx
+	if err = ing.closeCtx.Err(); err != nil {
+		return adIngestError{adIngestSyncEntriesErr, fmt.Errorf("failed to sync entries: %w", err)}
+	}
+	ctx := ing.stoppable(ing.ingestCtx, ing.closeCtx, publisherID)
 	if ing.syncTimeout != 0 {
 		var cancel context.CancelFunc
 		ctx, cancel = context.WithTimeout(ctx, ing.syncTimeout)
-- 
2.43.0


From e1ac3988254149c526584c1135000c6f6483d68e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:24 +0000
Subject: [PATCH 13/38] fix: remove advertisements from the datastore that were
 synced again after they were processed

---
 internal/ingest/ingest.go | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/internal/ingest/ingest.go b/internal/ingest/ingest.go
index f4e0827..147a818 100644
--- a/internal/ingest/ingest.go
+++ b/internal/ingest/ingest.go
@@ -244,7 +244,11 @@ func NewIngester(cfg config.Ingest, h host.Host, idxr indexer.Interface, reg *re
 		return nil, errors.New("ingester worker count must be > 0")
 	}
 	ing.RunWorkers(cfg.IngestWorkerCount)
-	go ing.runIngesterLoop()
+	ing.waitForWorkers.Add(1)
+	go func() {
+		defer ing.waitForWorkers.Done()
+		ing.runIngesterLoop()
+	}()
 
 	// Start distributor to send SyncFinished messages to interested parties.
 	go ing.distributeEvents()
@@ -648,6 +652,19 @@ func (ing *Ingester) markAdProcessed(publisher peer.ID, adCid cid.Cid) error {
 	return ing.ds.Put(context.Background(), datastore.NewKey(syncPrefix+publisher.String()), adCid.Bytes())
 }
 
+// removeProcessedAds removes ads from the datastore that were synced again
+// after they were processed.
+func (ing *Ingester) removeProcessedAds(adCids []cid.Cid) {
+	for _, c := range adCids {
+		if !ing.adAlreadyProcessed(c) {
+			continue
+		}
+		if err := ing.ds.Delete(context.Background(), datastore.NewKey(c.String())); err != nil {
+			log.Errorw("Cound not remove advertisement from datastore", "err", err)
+		}
+	}
+}
+
 // distributeEvents reads a adProcessedEvent, sent by a peer handler, and
 // copies the event to all channels in outEventsChans. This delivers the event
 // to all onAdProcessed channel readers.
@@ -892,7 +909,7 @@ func (ing *Ingester) runIngestStep(syncFinishedEvent legs.SyncFinished) {
 	log := log.With("publisher", syncFinishedEvent.PeerID)
 	// 1. Group the incoming CIDs by provider.
 	adsGroupedByProvider := map[peer.ID][]adInfo{}
-	for _, c := range syncFinishedEvent.SyncedCids {
+	for i, c := range syncFinishedEvent.SyncedCids {
 		// Group the CIDs by the provider. Most of the time a publisher will
 		// only publish Ads for one provider, but it's possible that an ad
 		// chain can include multiple providers.
@@ -900,6 +917,7 @@ func (ing *Ingester) runIngestStep(syncFinishedEvent legs.SyncFinished) {
 		if ing.adAlreadyProcessed(c) {
 			// This ad has been processed so all earlier ads already have been
 			// processed.
+			ing.removeProcessedAds(syncFinishedEvent.SyncedCids[i:])
 			break
 		}
 
@@ -1059,6 +1077,9 @@ func (ing *Ingester) handleAssignment(assignment workerAssignment) {
 			// processed yet; the cids after are older and have already been
 			// processed.
 			splitAtIndex = i
+			for _, processed := range assignment.adInfos[i:] {
+				ing.removeProcessedAds([]cid.Cid{processed.cid})
+			}
 			break
 		}
 		ctxIdStr := string(ai.ad.ContextID)
-- 
2.43.0


From e822415c46f8844438cb91d8ee56ad56d82e6908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:40 +0000
Subject: [PATCH 14/38] fix: return an error for invalid provider addresses,
 and handle a new publisher without addresses, instead of panicking

---
 internal/registry/registry.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/internal/registry/registry.go b/internal/registry/registry.go
index 708f328..0e290da 100644
--- a/internal/registry/registry.go
+++ b/internal/registry/registry.go
@@ -418,7 +418,10 @@ func (r *Registry) RegisterOrUpdate(ctx context.Context, providerID peer.ID, add
 			if publisher.ID != info.Publisher {
 				// Publisher ID changed.
 				info.Publisher = publisher.ID
-				info.PublisherAddr = publisher.Addrs[0]
+				info.PublisherAddr = nil
+				if len(publisher.Addrs) != 0 {
+					info.PublisherAddr = publisher.Addrs[0]
+				}
 				fullRegister = true
 			} else if len(publisher.Addrs) != 0 {
 				// Use provided publisher addrs.
@@ -452,7 +455,7 @@ func (r *Registry) RegisterOrUpdate(ctx context.Context, providerID peer.ID, add
 	if len(addrs) != 0 {
 		maddrs, err := stringsToMultiaddrs(addrs)
 		if err != nil {
-			panic(err)
+			return v0.NewError(err, http.StatusBadRequest)
 		}
 		info.AddrInfo.Addrs = maddrs
 	}
-- 
2.43.0


From 65b21b85d2dec51e43e6505390eb4e161d93184c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:40 +0000
Subject: [PATCH 15/38] fix: do not panic when importing providers that have no
 addresses

---
 internal/registry/registry.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/internal/registry/registry.go b/internal/registry/registry.go
index 0e290da..66b31b2 100644
--- a/internal/registry/registry.go
+++ b/internal/registry/registry.go
@@ -562,6 +562,9 @@ func (r *Registry) ImportProviders(ctx context.Context, fromURL *url.URL) (int,
 
 	var newProvs []*ProviderInfo
 	for _, pInfo := range provs {
+		if pInfo == nil {
+			continue
+		}
 		if r.IsRegistered(pInfo.AddrInfo.ID) {
 			continue
 		}
@@ -582,7 +585,9 @@ func (r *Registry) ImportProviders(ctx context.Context, fromURL *url.URL) (int,
 			// provider ad publisher.
 			log.Infow("Provider does not have valid publisher, assuming same as provider", "reason", pubErr, "provider", regInfo.AddrInfo.ID)
 			regInfo.Publisher = regInfo.AddrInfo.ID
-			regInfo.PublisherAddr = regInfo.AddrInfo.Addrs[0]
+			if len(regInfo.AddrInfo.Addrs) != 0 {
+				regInfo.PublisherAddr = regInfo.AddrInfo.Addrs[0]
+			}
 		} else {
 			regInfo.Publisher = pInfo.Publisher.ID
 			regInfo.PublisherAddr = pInfo.Publisher.Addrs[0]
-- 
2.43.0


From fa96a839676b8b9ff75c0ff18a4163996c696ba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:59 +0000
Subject: [PATCH 16/38] fix: apply a polling override only to the provider it
 is for

---
 internal/registry/registry.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/registry/registry.go b/internal/registry/registry.go
index 66b31b2..8472e6b 100644
--- a/internal/registry/registry.go
+++ b/internal/registry/registry.go
@@ -826,6 +826,7 @@ func (r *Registry) pollProviders(poll polling, pollOverrides map[peer.ID]polling
 				// No publisher.
 				continue
 			}
+			poll := poll
 			override, ok := pollOverrides[peerID]
 			if ok {
 				poll = override
-- 
2.43.0


From 0e5ec692d80979037251255e315ab3ce0e42bfb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:59 +0000
Subject: [PATCH 17/38] fix: keep the registration of an inactive provider when
 it becomes active again

---
 internal/registry/registry.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/internal/registry/registry.go b/internal/registry/registry.go
index 8472e6b..be21b8f 100644
--- a/internal/registry/registry.go
+++ b/internal/registry/registry.go
@@ -399,8 +399,9 @@ func (r *Registry) BlockPeer(peerID peer.ID) bool {
 // provider's previous publisher information.
 func (r *Registry) RegisterOrUpdate(ctx context.Context, providerID peer.ID, addrs []string, adID cid.Cid, publisher peer.AddrInfo) error {
 	var fullRegister bool
-	// Check that the provider has been discovered and validated
-	info := r.ProviderInfo(providerID)
+	// Check that the provider has been discovered and validated. Do not lose
+	// the information of a provider that was inactive.
+	info := r.providerInfoAlways(providerID)
 	if info != nil {
 		info = &ProviderInfo{
 			AddrInfo: peer.AddrInfo{
-- 
2.43.0


From 554a301e6db3dde38484b159088803bc87c89ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:43 +0000
Subject: [PATCH 18/38] fix: do not modify provider information that is shared
 with readers of the registry

---
 internal/registry/registry.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/internal/registry/registry.go b/internal/registry/registry.go
index be21b8f..16b9428 100644
--- a/internal/registry/registry.go
+++ b/internal/registry/registry.go
@@ -98,6 +98,13 @@ func (p *ProviderInfo) Inactive() bool {
 	return p.inactive
 }
 
+// clone returns a copy of the ProviderInfo that can be modified without
+// affecting existing references.
+func (p *ProviderInfo) clone() *ProviderInfo {
+	cp := *p
+	return &cp
+}
+
 func (p *ProviderInfo) dsKey() datastore.Key {
 	return peerIDToDsKey(p.AddrInfo.ID)
 }
@@ -632,6 +639,7 @@ func (r *Registry) RemoveProvider(ctx context.Context, providerID peer.ID) error
 	}
 	if pinfo != nil {
 		// Tell ingester to delete its provider data.
+		pinfo = pinfo.clone()
 		pinfo.deleted = true
 		r.syncChan <- pinfo
 	}
@@ -835,7 +843,9 @@ func (r *Registry) pollProviders(poll polling, pollOverrides map[peer.ID]polling
 			if info.lastContactTime.IsZero() {
 				// There has been no contact since startup.  Poll during next
 				// call to this function if no update for provider.
+				info = info.clone()
 				info.lastContactTime = now.Add(-poll.interval)
+				r.providers[peerID] = info
 				continue
 			}
 			noContactTime := now.Sub(info.lastContactTime)
@@ -855,11 +865,14 @@ func (r *Registry) pollProviders(poll polling, pollOverrides map[peer.ID]polling
 					log.Errorw("Failed to update deleted provider info", "err", err)
 				}
 				// Tell the ingester to remove data for the provider.
+				info = info.clone()
 				info.deleted = true
 			} else if sincePollingStarted >= 2*poll.retryAfter {
 				// Still polling after at least one retry, so mark inactive.
 				// This will exclude the provider from find responses.
+				info = info.clone()
 				info.inactive = true
+				r.providers[peerID] = info
 			}
 			select {
 			case r.syncChan <- info:
-- 
2.43.0


From 500e0f6e5e3d0b153d852f474e7fa8fe04592e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:54 +0000
Subject: [PATCH 19/38] fix: do not send on the closed sync channel of the
 registry, or block forever, when the registry is closed

---
 internal/registry/registry.go | 30 ++++++++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/internal/registry/registry.go b/internal/registry/registry.go
index 16b9428..e6081d0 100644
--- a/internal/registry/registry.go
+++ b/internal/registry/registry.go
@@ -52,6 +52,9 @@ type Registry struct {
 	rediscoverWait   time.Duration
 
 	syncChan chan *ProviderInfo
+	// syncMutex is read-locked while sending to syncChan outside of the run
+	// goroutine, so that syncChan is not closed meanwhile.
+	syncMutex sync.RWMutex
 }
 
 // ProviderInfo is an immutable data structure that holds information about a
@@ -286,7 +289,9 @@ running:
 		close(done)
 	}
 	<-done
+	r.syncMutex.Lock()
 	close(r.syncChan)
+	r.syncMutex.Unlock()
 
 	// Wait for any pending discoveries to complete, then stop the main run
 	// goroutine.
@@ -614,9 +619,7 @@ func (r *Registry) ImportProviders(ctx context.Context, fromURL *url.URL) (int,
 	// Start gorouting to sync with all the new providers.
 	go func() {
 		for _, pinfo := range newProvs {
-			select {
-			case r.syncChan <- pinfo:
-			case <-r.closing:
+			if !r.sendSync(pinfo) {
 				return
 			}
 		}
@@ -641,11 +644,30 @@ func (r *Registry) RemoveProvider(ctx context.Context, providerID peer.ID) error
 		// Tell ingester to delete its provider data.
 		pinfo = pinfo.clone()
 		pinfo.deleted = true
-		r.syncChan <- pinfo
+		r.sendSync(pinfo)
 	}
 	return nil
 }
 
+// sendSync sends the provider info over the sync channel, waiting until it is
+// taken. Returns false if the registry is closing.
+func (r *Registry) sendSync(pinfo *ProviderInfo) bool {
+	r.syncMutex.RLock()
+	defer r.syncMutex.RUnlock()
+
+	select {
+	case <-r.closing:
+		return false
+	default:
+	}
+	select {
+	case r.syncChan <- pinfo:
+		return true
+	case <-r.closing:
+		return false
+	}
+}
+
 func (r *Registry) CheckSequence(peerID peer.ID, seq uint64) error {
 	return r.sequences.check(peerID, seq)
 }
-- 
2.43.0


From ed6f1679fd3edf90fedcaea570c0a51199bb4d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:06 +0000
Subject: [PATCH 20/38] fix: do not delete the indexed content of inactive
 providers when looking it up

---
 server/finder/handler/finder_handler.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/server/finder/handler/finder_handler.go b/server/finder/handler/finder_handler.go
index 0255d29..46f57ba 100644
--- a/server/finder/handler/finder_handler.go
+++ b/server/finder/handler/finder_handler.go
@@ -59,6 +59,10 @@ func (h *FinderHandler) Find(mhashes []multihash.Multihash) (*model.FindResponse
 			addrs, ok := provAddrs[provID]
 			if !ok {
 				pinfo := h.registry.ProviderInfo(provID)
+				if pinfo == nil && h.registry.IsRegistered(provID) {
+					// If provider is inactive, do not return in result.
+					continue
+				}
 				if pinfo == nil {
 					// If provider not in registry, then provider was deleted.
 					// Tell the indexed core to delete the contextID for the
-- 
2.43.0


From 6c11c9c4ba551dacb5ee434aba8086b096d2add6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:36 +0000
Subject: [PATCH 21/38] fix: do not lose concurrent updates of a provider's
 registration

---
 internal/registry/registry.go | 69 +++++++++++++++++++++++------------
 1 file changed, 46 insertions(+), 23 deletions(-)

diff --git a/internal/registry/registry.go b/internal/registry/registry.go
index e6081d0..6cabf0b 100644
--- a/internal/registry/registry.go
+++ b/internal/registry/registry.go
@@ -327,6 +327,30 @@ func (r *Registry) Discover(peerID peer.ID, discoveryAddr string, sync bool) err
 // Register is used to directly register a provider, bypassing discovery and
 // adding discovered data directly to the registry.
 func (r *Registry) Register(ctx context.Context, info *ProviderInfo) error {
+	err := r.checkRegister(info)
+	if err != nil {
+		return err
+	}
+
+	// If provider is allowed and publisher is allowed to publish for the
+	// provider, then register.
+	errCh := make(chan error, 1)
+	r.actions <- func() {
+		errCh <- r.syncRegister(ctx, info)
+	}
+
+	err = <-errCh
+	if err != nil {
+		return err
+	}
+
+	log.Infow("Registered provider", "id", info.AddrInfo.ID, "addrs", info.AddrInfo.Addrs)
+	return nil
+}
+
+// checkRegister checks that the provider info is valid and is allowed to be
+// registered.
+func (r *Registry) checkRegister(info *ProviderInfo) error {
 	if len(info.AddrInfo.Addrs) == 0 {
 		return errors.New("missing provider address")
 	}
@@ -352,20 +376,6 @@ func (r *Registry) Register(ctx context.Context, info *ProviderInfo) error {
 			return v0.NewError(ErrCannotPublish, http.StatusForbidden)
 		}
 	}
-
-	// If provider is allowed and publisher is allowed to publish for the
-	// provider, then register.
-	errCh := make(chan error, 1)
-	r.actions <- func() {
-		errCh <- r.syncRegister(ctx, info)
-	}
-
-	err = <-errCh
-	if err != nil {
-		return err
-	}
-
-	log.Infow("Registered provider", "id", info.AddrInfo.ID, "addrs", info.AddrInfo.Addrs)
 	return nil
 }
 
@@ -410,10 +420,20 @@ func (r *Registry) BlockPeer(peerID peer.ID) bool {
 // If publisher has a valid ID, then the data in publisher replaces the
 // provider's previous publisher information.
 func (r *Registry) RegisterOrUpdate(ctx context.Context, providerID peer.ID, addrs []string, adID cid.Cid, publisher peer.AddrInfo) error {
+	// Read and update the provider's information in a single action, so that
+	// concurrent updates are not lost.
+	errCh := make(chan error, 1)
+	r.actions <- func() {
+		errCh <- r.syncRegisterOrUpdate(ctx, providerID, addrs, adID, publisher)
+	}
+	return <-errCh
+}
+
+func (r *Registry) syncRegisterOrUpdate(ctx context.Context, providerID peer.ID, addrs []string, adID cid.Cid, publisher peer.AddrInfo) error {
 	var fullRegister bool
 	// Check that the provider has been discovered and validated. Do not lose
 	// the information of a provider that was inactive.
-	info := r.providerInfoAlways(providerID)
+	info := r.providers[providerID]
 	if info != nil {
 		info = &ProviderInfo{
 			AddrInfo: peer.AddrInfo{
@@ -484,20 +504,23 @@ func (r *Registry) RegisterOrUpdate(ctx context.Context, providerID peer.ID, add
 	// If there is a new providerID or publisherID then do a full Register that
 	// checks the allow policy.
 	if fullRegister {
-		return r.Register(ctx, info)
+		err := r.checkRegister(info)
+		if err != nil {
+			return err
+		}
 	}
 
-	// If laready registered and no new IDs, register without verification.
-	errCh := make(chan error, 1)
-	r.actions <- func() {
-		errCh <- r.syncRegister(ctx, info)
-	}
-	err := <-errCh
+	// If already registered and no new IDs, register without verification.
+	err := r.syncRegister(ctx, info)
 	if err != nil {
 		return err
 	}
 
-	log.Debugw("Updated registered provider info", "id", info.AddrInfo.ID, "addrs", info.AddrInfo.Addrs)
+	if fullRegister {
+		log.Infow("Registered provider", "id", info.AddrInfo.ID, "addrs", info.AddrInfo.Addrs)
+	} else {
+		log.Debugw("Updated registered provider info", "id", info.AddrInfo.ID, "addrs", info.AddrInfo.Addrs)
+	}
 	return nil
 }
 
-- 
2.43.0


From ee424cb51f02f24ef27a222a30214abb882129ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:41 +0000
Subject: [PATCH 22/38] fix: refuse direct requests not signed by the provider
 they name

---
 api/v0/ingest/model/discover_request.go |  5 ++++-
 api/v0/ingest/model/ingest_request.go   |  5 ++++-
 api/v0/ingest/model/model.go            | 15 +++++++++++++++
 api/v0/ingest/model/register_request.go |  5 ++++-
 4 files changed, 27 insertions(+), 3 deletions(-)

diff --git a/api/v0/ingest/model/discover_request.go b/api/v0/ingest/model/discover_request.go
index 83c2dbc..3e747b4 100644
--- a/api/v0/ingest/model/discover_request.go
+++ b/api/v0/ingest/model/discover_request.go
@@ -64,7 +64,7 @@ func MakeDiscoverRequest(providerID peer.ID, privateKey crypto.PrivKey, discover
 // ReadDiscoverRequest unmarshals a DiscoverRequest from bytes, verifies the
 // signature, and returns the DiscoverRequest
 func ReadDiscoverRequest(data []byte) (*DiscoverRequest, error) {
-	_, untypedRecord, err := record.ConsumeEnvelope(data, DiscoverRequestEnvelopeDomain)
+	envelope, untypedRecord, err := record.ConsumeEnvelope(data, DiscoverRequestEnvelopeDomain)
 	if err != nil {
 		return nil, fmt.Errorf("cannot consume discover request envelope: %s", err)
 	}
@@ -72,5 +72,8 @@ func ReadDiscoverRequest(data []byte) (*DiscoverRequest, error) {
 	if !ok {
 		return nil, fmt.Errorf("unmarshaled request is not a *DiscoverRequest")
 	}
+	if err = checkSigner(envelope, rec.ProviderID); err != nil {
+		return nil, err
+	}
 	return rec, nil
 }
diff --git a/api/v0/ingest/model/ingest_request.go b/api/v0/ingest/model/ingest_request.go
index 7678e05..718c039 100644
--- a/api/v0/ingest/model/ingest_request.go
+++ b/api/v0/ingest/model/ingest_request.go
@@ -73,7 +73,7 @@ func MakeIngestRequest(providerID peer.ID, privateKey crypto.PrivKey, m multihas
 // ReadIngestRequest unmarshals an IngestRequest from bytes, verifies the
 // signature, and returns the IngestRequest
 func ReadIngestRequest(data []byte) (*IngestRequest, error) {
-	_, untypedRecord, err := record.ConsumeEnvelope(data, IngestRequestEnvelopeDomain)
+	envelope, untypedRecord, err := record.ConsumeEnvelope(data, IngestRequestEnvelopeDomain)
 	if err != nil {
 		return nil, fmt.Errorf("cannot consume register request envelope: %s", err)
 	}
@@ -81,5 +81,8 @@ func ReadIngestRequest(data []byte) (*IngestRequest, error) {
 	if !ok {
 		return nil, fmt.Errorf("unmarshaled request is not a *IngestRequest")
 	}
+	if err = checkSigner(envelope, rec.ProviderID); err != nil {
+		return nil, err
+	}
 	return rec, nil
 }
diff --git a/api/v0/ingest/model/model.go b/api/v0/ingest/model/model.go
index 0266293..0c934df 100644
--- a/api/v0/ingest/model/model.go
+++ b/api/v0/ingest/model/model.go
@@ -1,9 +1,11 @@
 package model
 
 import (
+	"errors"
 	"fmt"
 
 	"github.com/libp2p/go-libp2p-core/crypto"
+	"github.com/libp2p/go-libp2p-core/peer"
 	"github.com/libp2p/go-libp2p-core/record"
 )
 
@@ -20,3 +22,16 @@ func makeRequestEnvelop(rec record.Record, privateKey crypto.PrivKey) ([]byte, e
 
 	return data, nil
 }
+
+// checkSigner checks that a request envelope was signed by the provider that
+// is named in the request.
+func checkSigner(envelope *record.Envelope, providerID peer.ID) error {
+	signerID, err := peer.IDFromPublicKey(envelope.PublicKey)
+	if err != nil {
+		return fmt.Errorf("cannot convert public key to peer ID: %s", err)
+	}
+	if signerID != providerID {
+		return errors.New("request not signed by provider")
+	}
+	return nil
+}
diff --git a/api/v0/ingest/model/register_request.go b/api/v0/ingest/model/register_request.go
index 135aff6..8b692f0 100644
--- a/api/v0/ingest/model/register_request.go
+++ b/api/v0/ingest/model/register_request.go
@@ -36,7 +36,7 @@ func MakeRegisterRequest(providerID peer.ID, privateKey crypto.PrivKey, addrs []
 // ReadRegisterRequest unmarshals a peer.PeerRequest from bytes, verifies the
 // signature, and returns a peer.PeerRecord
 func ReadRegisterRequest(data []byte) (*peer.PeerRecord, error) {
-	_, untypedRecord, err := record.ConsumeEnvelope(data, peer.PeerRecordEnvelopeDomain)
+	envelope, untypedRecord, err := record.ConsumeEnvelope(data, peer.PeerRecordEnvelopeDomain)
 	if err != nil {
 		return nil, fmt.Errorf("cannot consume register request envelope: %s", err)
 	}
@@ -44,5 +44,8 @@ func ReadRegisterRequest(data []byte) (*peer.PeerRecord, error) {
 	if !ok {
 		return nil, fmt.Errorf("unmarshaled register request record is not a *PeerRecord")
 	}
+	if err = checkSigner(envelope, rec.PeerID); err != nil {
+		return nil, err
+	}
 	return rec, nil
 }
-- 
2.43.0


From fe4b5261c899b966bf758311aec43e1e80ac437b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:58 +0000
Subject: [PATCH 23/38] fix: do not leak a connection for each find query that
 has no result

---
 api/v0/finder/client/http/client.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/api/v0/finder/client/http/client.go b/api/v0/finder/client/http/client.go
index 203034e..b895ebc 100644
--- a/api/v0/finder/client/http/client.go
+++ b/api/v0/finder/client/http/client.go
@@ -164,6 +164,8 @@ func (c *Client) sendRequest(req *http.Request) (*model.FindResponse, error) {
 	if err != nil {
 		return nil, err
 	}
+	defer resp.Body.Close()
+
 	// Handle failed requests
 	if resp.StatusCode != http.StatusOK {
 		if resp.StatusCode == http.StatusNotFound {
@@ -172,7 +174,6 @@ func (c *Client) sendRequest(req *http.Request) (*model.FindResponse, error) {
 		return nil, fmt.Errorf("batch find query failed: %v", http.StatusText(resp.StatusCode))
 	}
 
-	defer resp.Body.Close()
 	b, err := io.ReadAll(resp.Body)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 0ee012a840ffd94426de396235edad401fcfb3ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:17 +0000
Subject: [PATCH 24/38] fix: import the last line of a CID list and CIDs that
 are not base32

A CID list whose last line has no newline lost that CID, and lines were
decoded with their newline, which only some base encodings tolerate.
---
 internal/importer/cidlist.go | 41 ++++++++++++++++++++----------------
 1 file changed, 23 insertions(+), 18 deletions(-)

diff --git a/internal/importer/cidlist.go b/internal/importer/cidlist.go
index 0bae227..d9991de 100644
--- a/internal/importer/cidlist.go
+++ b/internal/importer/cidlist.go
@@ -5,6 +5,7 @@ import (
 	"context"
 	"errors"
 	"io"
+	"strings"
 
 	"github.com/ipfs/go-cid"
 	logging "github.com/ipfs/go-log/v2"
@@ -24,26 +25,30 @@ func ReadCids(ctx context.Context, in io.Reader, out chan<- multihash.Multihash,
 	var badEntryCount, entryCount int
 	r := bufio.NewReader(in)
 	for {
-		line, err := r.ReadString('\n')
-		if err != nil {
-			if err != io.EOF {
-				done <- err
-				return
-			}
-			break
+		line, readErr := r.ReadString('\n')
+		if readErr != nil && readErr != io.EOF {
+			done <- readErr
+			return
 		}
-		c, err := cid.Decode(line)
-		if err != nil || !c.Defined() {
-			badEntryCount++
-			// Ignore malformed CIDs
-			continue
+		// The last line may not end with a newline.
+		line = strings.TrimSpace(line)
+		if line != "" {
+			c, err := cid.Decode(line)
+			if err != nil || !c.Defined() {
+				// Ignore malformed CIDs
+				badEntryCount++
+			} else {
+				select {
+				case out <- c.Hash():
+					entryCount++
+				case <-ctx.Done():
+					done <- ctx.Err()
+					return
+				}
+			}
 		}
-		select {
-		case out <- c.Hash():
-			entryCount++
-		case <-ctx.Done():
-			done <- ctx.Err()
-			return
+		if readErr == io.EOF {
+			break
 		}
 	}
 	if badEntryCount != 0 {
-- 
2.43.0


From a1795a7e35f407a6e9e79fde296b5495cfd1211a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:14 +0000
Subject: [PATCH 25/38] fix: do not add the default loggers to those in the
 config file

---
 config/config.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/config/config.go b/config/config.go
index fd984af..f4f74d4 100644
--- a/config/config.go
+++ b/config/config.go
@@ -111,10 +111,20 @@ func Load(filePath string) (*Config, error) {
 		Peering:   NewPeering(),
 	}
 
+	// Decoding a map adds to the values that are already there. Only use the
+	// default loggers if the config has none, so that the configured loggers
+	// are not mixed with the defaults.
+	defLoggers := cfg.Logging.Loggers
+	cfg.Logging.Loggers = nil
+
 	if err = json.NewDecoder(f).Decode(&cfg); err != nil {
 		return nil, err
 	}
 
+	if cfg.Logging.Loggers == nil {
+		cfg.Logging.Loggers = defLoggers
+	}
+
 	cfg.populateUnset()
 
 	return &cfg, nil
-- 
2.43.0


From b7c6f286ab93aec27a5e2f2a9427d55ded737d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:17 +0000
Subject: [PATCH 26/38] fix: let init store a negative cache size, which
 disables the cache

---
 command/init.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/command/init.go b/command/init.go
index ef61e61..d939082 100644
--- a/command/init.go
+++ b/command/init.go
@@ -59,7 +59,7 @@ func initCommand(cctx *cli.Context) error {
 
 	// Use values from flags to override defaults
 	cacheSize := int(cctx.Int64("cachesize"))
-	if cacheSize >= 0 {
+	if cacheSize != 0 {
 		cfg.Indexer.CacheSize = cacheSize
 	}
 
-- 
2.43.0


From 0c863fbec7a7352261d96a63f740c958b4899dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:43 +0000
Subject: [PATCH 27/38] fix: daemon without lotus gateway crashed on a discover
 request

---
 command/daemon.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/command/daemon.go b/command/daemon.go
index 09ff055..b970188 100644
--- a/command/daemon.go
+++ b/command/daemon.go
@@ -20,6 +20,7 @@ import (
 	"github.com/filecoin-project/storetheindex/internal/ingest"
 	"github.com/filecoin-project/storetheindex/internal/lotus"
 	"github.com/filecoin-project/storetheindex/internal/registry"
+	"github.com/filecoin-project/storetheindex/internal/registry/discovery"
 	httpadminserver "github.com/filecoin-project/storetheindex/server/admin/http"
 	httpfinderserver "github.com/filecoin-project/storetheindex/server/finder/http"
 	p2pfinderserver "github.com/filecoin-project/storetheindex/server/finder/libp2p"
@@ -119,7 +120,9 @@ func daemonCommand(cctx *cli.Context) error {
 		return err
 	}
 
-	var lotusDiscoverer *lotus.Discoverer
+	// Leave this a nil interface, not a nil *lotus.Discoverer, when not using
+	// lotus, so that the registry sees that there is no discoverer.
+	var lotusDiscoverer discovery.Discoverer
 	if cfg.Discovery.LotusGateway != "none" {
 		log.Infow("discovery using lotus", "gateway", cfg.Discovery.LotusGateway)
 		// Create lotus client
-- 
2.43.0


From 527c0d4839024e3a2b4d41f041d6bb6a5c7808e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:46 +0000
Subject: [PATCH 28/38] fix: let the daemon start with the admin server
 disabled in the config

---
 command/daemon.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/command/daemon.go b/command/daemon.go
index b970188..af95f55 100644
--- a/command/daemon.go
+++ b/command/daemon.go
@@ -254,7 +254,7 @@ func daemonCommand(cctx *cli.Context) error {
 
 	// Create admin HTTP server
 	var adminSvr *httpadminserver.Server
-	if cfg.Addresses.Admin != "" && !cctx.Bool("noadmin") {
+	if cfg.Addresses.Admin != "none" && !cctx.Bool("noadmin") {
 		maddr, err := multiaddr.NewMultiaddr(cfg.Addresses.Admin)
 		if err != nil {
 			return fmt.Errorf("bad admin address in config %s: %s", cfg.Addresses.Admin, err)
-- 
2.43.0


From f22c5dd6b52eacf77a35750f949b522b9011481a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:32 +0000
Subject: [PATCH 29/38] fix: keep the daemon and its settings intact when a
 config reload fails

A reload triggered by a signal or a file change dereferenced a nil config
when the file was not valid, and one triggered by an administrator left a nil
config behind for the next reload or shutdown. An invalid setting was found
only after others had been applied, an error in the peering config lost the
running peering service, a changed check interval was never used, and a
signal while a reload request was pending blocked the daemon for good.
---
 command/daemon.go | 94 +++++++++++++++++++++++++++++------------------
 1 file changed, 58 insertions(+), 36 deletions(-)

diff --git a/command/daemon.go b/command/daemon.go
index af95f55..0950c12 100644
--- a/command/daemon.go
+++ b/command/daemon.go
@@ -21,6 +21,7 @@ import (
 	"github.com/filecoin-project/storetheindex/internal/lotus"
 	"github.com/filecoin-project/storetheindex/internal/registry"
 	"github.com/filecoin-project/storetheindex/internal/registry/discovery"
+	"github.com/filecoin-project/storetheindex/internal/registry/policy"
 	httpadminserver "github.com/filecoin-project/storetheindex/server/admin/http"
 	httpfinderserver "github.com/filecoin-project/storetheindex/server/finder/http"
 	p2pfinderserver "github.com/filecoin-project/storetheindex/server/finder/libp2p"
@@ -324,6 +325,30 @@ func daemonCommand(cctx *cli.Context) error {
 		timeChan = ticker.C
 	}
 
+	// reload loads the config file and applies it. If that fails then the
+	// previous configuration remains in use.
+	reload := func() error {
+		newCfg, err := reloadConfig(cfgPath, cfg, ingester, reg)
+		if err != nil {
+			log.Errorw("Error reloading conifg", "err", err)
+			return errors.New("could not reload configuration")
+		}
+		if ticker != nil && newCfg.Indexer.ConfigCheckInterval != cfg.Indexer.ConfigCheckInterval {
+			ticker.Reset(time.Duration(newCfg.Indexer.ConfigCheckInterval))
+		}
+		cfg = newCfg
+
+		if p2pHost != nil {
+			newPeering, err := reloadPeering(cfg.Peering, peeringService, p2pHost)
+			if err != nil {
+				log.Errorw("Error reloading peering service", "err", err)
+				return errors.New("could not reload peering service")
+			}
+			peeringService = newPeering
+		}
+		return nil
+	}
+
 	for endDaemon := false; !endDaemon; {
 		select {
 		case <-cctx.Done():
@@ -334,36 +359,10 @@ func daemonCommand(cctx *cli.Context) error {
 			finalErr = ErrDaemonStart
 			endDaemon = true
 		case <-reloadSig:
-			reloadErrsChan <- nil
+			// Any error is already logged.
+			_ = reload()
 		case errChan := <-reloadErrsChan:
-			prevCfgChk := cfg.Indexer.ConfigCheckInterval
-			if prevCfgChk != cfg.Indexer.ConfigCheckInterval {
-				ticker.Reset(time.Duration(cfg.Indexer.ConfigCheckInterval))
-			}
-
-			cfg, err = reloadConfig(cfgPath, ingester, reg)
-			if err != nil {
-				log.Errorw("Error reloading conifg", "err", err)
-				if errChan != nil {
-					errChan <- errors.New("could not reload configuration")
-					continue
-				}
-			}
-
-			if p2pHost != nil {
-				peeringService, err = reloadPeering(cfg.Peering, peeringService, p2pHost)
-				if err != nil {
-					log.Errorw("Error reloading peering service", "err", err)
-					if errChan != nil {
-						errChan <- errors.New("could not reload peering service")
-						continue
-					}
-				}
-			}
-
-			if errChan != nil {
-				errChan <- nil
-			}
+			errChan <- reload()
 		case <-timeChan:
 			var changed bool
 			modTime, changed, err = fileChanged(cfgPath, modTime)
@@ -376,7 +375,7 @@ func daemonCommand(cctx *cli.Context) error {
 			}
 			statErr = nil
 			if changed {
-				reloadErrsChan <- nil
+				_ = reload()
 			}
 		}
 	}
@@ -514,35 +513,58 @@ func loadConfig(filePath string) (*config.Config, error) {
 	return cfg, nil
 }
 
-func reloadConfig(cfgPath string, ingester *ingest.Ingester, reg *registry.Registry) (*config.Config, error) {
+func reloadConfig(cfgPath string, prevCfg *config.Config, ingester *ingest.Ingester, reg *registry.Registry) (*config.Config, error) {
 	cfg, err := loadConfig(cfgPath)
 	if err != nil {
 		return nil, err
 	}
 
-	err = reg.SetPolicy(cfg.Discovery.Policy)
+	// Check what can be checked before changing anything, so that an invalid
+	// config does not get partly applied.
+	_, err = policy.New(cfg.Discovery.Policy)
 	if err != nil {
 		return nil, fmt.Errorf("failed to set policy config: %w", err)
 	}
+	_, err = cfg.Peering.PeerAddrs()
+	if err != nil {
+		return nil, fmt.Errorf("bad peering peer: %w", err)
+	}
+
+	err = setLoggingConfig(cfg.Logging)
+	if err != nil {
+		restoreLogging(prevCfg.Logging)
+		return nil, fmt.Errorf("failed to configure logging: %w", err)
+	}
 
 	if ingester != nil {
 		err = ingester.SetRateLimit(cfg.Ingest.RateLimit)
 		if err != nil {
+			restoreLogging(prevCfg.Logging)
 			return nil, fmt.Errorf("failed to set rate limit config: %w", err)
 		}
-		ingester.SetBatchSize(cfg.Ingest.StoreBatchSize)
-		ingester.RunWorkers(cfg.Ingest.IngestWorkerCount)
 	}
 
-	err = setLoggingConfig(cfg.Logging)
+	err = reg.SetPolicy(cfg.Discovery.Policy)
 	if err != nil {
-		return nil, fmt.Errorf("failed to configure logging: %w", err)
+		return nil, fmt.Errorf("failed to set policy config: %w", err)
+	}
+
+	if ingester != nil {
+		ingester.SetBatchSize(cfg.Ingest.StoreBatchSize)
+		ingester.RunWorkers(cfg.Ingest.IngestWorkerCount)
 	}
 
 	fmt.Println("Reloaded policy, rate limit, and logging configuration")
 	return cfg, nil
 }
 
+func restoreLogging(cfgLogging config.Logging) {
+	err := setLoggingConfig(cfgLogging)
+	if err != nil {
+		log.Errorw("Cannot restore logging config", "err", err)
+	}
+}
+
 func reloadPeering(cfg config.Peering, peeringService *peering.PeeringService, p2pHost host.Host) (*peering.PeeringService, error) {
 	// If no peers are configured, then stop peering service if it is running.
 	if len(cfg.Peers) == 0 {
-- 
2.43.0


From f5edca241c1bc96aca5230bdf76b11fe68e85962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:33 +0000
Subject: [PATCH 30/38] fix: refuse config values that crash or block the
 daemon

A negative check interval panics in the ticker and a negative number of
workers waits for workers to stop when there are none.
---
 command/daemon.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/command/daemon.go b/command/daemon.go
index 0950c12..8342f13 100644
--- a/command/daemon.go
+++ b/command/daemon.go
@@ -510,6 +510,13 @@ func loadConfig(filePath string) (*config.Config, error) {
 		return nil, fmt.Errorf("only levelds datastore type supported, %q not supported", cfg.Datastore.Type)
 	}
 
+	if cfg.Indexer.ConfigCheckInterval < 0 {
+		return nil, errors.New("ConfigCheckInterval must not be negative")
+	}
+	if cfg.Ingest.IngestWorkerCount < 0 {
+		return nil, errors.New("IngestWorkerCount must not be negative")
+	}
+
 	return cfg, nil
 }
 
-- 
2.43.0


From e34618d85f9ec1fc4f8599347c9116475c4a3dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:47 +0000
Subject: [PATCH 31/38] fix: do not let a reload request keep the daemon from
 stopping

---
 server/admin/http/handler.go | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/server/admin/http/handler.go b/server/admin/http/handler.go
index 53d732e..72d852b 100644
--- a/server/admin/http/handler.go
+++ b/server/admin/http/handler.go
@@ -41,6 +41,8 @@ func newHandler(ctx context.Context, indexer indexer.Interface, ingester *ingest
 
 const importBatchSize = 256
 
+var errShuttingDown = errors.New("shutting down")
+
 // ----- ingest handlers -----
 
 func (h *adminHandler) allowPeer(w http.ResponseWriter, r *http.Request) {
@@ -181,9 +183,20 @@ func (h *adminHandler) importProviders(w http.ResponseWriter, r *http.Request) {
 }
 
 func (h *adminHandler) reloadConfig(w http.ResponseWriter, r *http.Request) {
-	errChan := make(chan error)
-	h.reloadErrChan <- errChan
-	err := <-errChan
+	errChan := make(chan error, 1)
+	var err error
+	// Do not keep waiting if the server is shutting down, since there may be
+	// nothing left to handle the reload.
+	select {
+	case h.reloadErrChan <- errChan:
+		select {
+		case err = <-errChan:
+		case <-h.ctx.Done():
+			err = errShuttingDown
+		}
+	case <-h.ctx.Done():
+		err = errShuttingDown
+	}
 	if err != nil {
 		http.Error(w, err.Error(), http.StatusInternalServerError)
 		return
-- 
2.43.0


From 16ea418b1bd399ba3b1ab7a0c6d860c461f3b947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:02:46 +0000
Subject: [PATCH 32/38] fix: do not remove a publisher's handler while it may
 be in use

Removing a provider removed the go-legs handler of its publisher, even
if the handler was running a sync. A second handler for the same
publisher then ran concurrently with the first, and block hooks, which
go-legs keeps per publisher, got mixed up: chunks of one sync were given
to the hook of another, and syncs never completed.
---
 internal/ingest/ingest.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/ingest/ingest.go b/internal/ingest/ingest.go
index 147a818..c029cc9 100644
--- a/internal/ingest/ingest.go
+++ b/internal/ingest/ingest.go
@@ -805,7 +805,10 @@ func (ing *Ingester) removePublisher(ctx context.Context, publisherID peer.ID) e
 		// Invalid publisher ID, registered provider never got a published ad.
 		return nil
 	}
-	ing.sub.RemoveHandler(publisherID)
+	// Do not remove the handler for the publisher, because it may be in use. A
+	// second handler would run syncs with the same publisher concurrently, and
+	// go-legs would then give the blocks of one sync to the other's block
+	// hook. An idle handler is removed by go-legs.
 	err := ing.ds.Delete(ctx, datastore.NewKey(syncPrefix+publisherID.String()))
 	if err != nil {
 		return fmt.Errorf("could not remove latest sync for publisher %s: %w", publisherID, err)
-- 
2.43.0


From 4ee70e5d0192763b624dfcc03ee2a826136e0722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:06:28 +0000
Subject: [PATCH 33/38] fix: limit the size of delegated routing requests

Requests are decoded recursively. A request of a few megabytes that is
nothing but nested lists overflowed the stack, which ended the process.
---
 server/reframe/reframe.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/server/reframe/reframe.go b/server/reframe/reframe.go
index 8cbe41d..2165f7b 100644
--- a/server/reframe/reframe.go
+++ b/server/reframe/reframe.go
@@ -24,8 +24,16 @@ import (
 	"go.opencensus.io/tag"
 )
 
+// maxRequestSize is the maximum size of a request. Requests are decoded
+// recursively, so this also limits the stack needed to decode nested data.
+const maxRequestSize = 1 << 20
+
 func NewReframeHTTPHandler(indexer indexer.Interface, registry *registry.Registry) http.HandlerFunc {
-	return server.DelegatedRoutingAsyncHandler(NewReframeService(handler.NewFinderHandler(indexer, registry)))
+	reframeHandler := server.DelegatedRoutingAsyncHandler(NewReframeService(handler.NewFinderHandler(indexer, registry)))
+	return func(w http.ResponseWriter, r *http.Request) {
+		r.Body = http.MaxBytesReader(w, r.Body, maxRequestSize)
+		reframeHandler(w, r)
+	}
 }
 
 func NewReframeService(fh *handler.FinderHandler) *ReframeService {
-- 
2.43.0


From a881f718492e8973bd69516b68dfb86fbd2fc1d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:30:46 +0000
Subject: [PATCH 34/38] fix: do not crash on a malformed HAMT of a publisher

---
 internal/ingest/linksystem.go | 34 ++++++++++++++++++++++++++++++++--
 1 file changed, 32 insertions(+), 2 deletions(-)

diff --git a/internal/ingest/linksystem.go b/internal/ingest/linksystem.go
index d2828b1..238471b 100644
--- a/internal/ingest/linksystem.go
+++ b/internal/ingest/linksystem.go
@@ -289,10 +289,16 @@ func (ing *Ingester) ingestAd(publisherID peer.ID, adCid cid.Cid, ad schema.Adve
 		//
 		// Group the mutlihashes in StoreBatchSize batches and process as usual.
 		var mhs []multihash.Multihash
-		mi := hn.MapIterator()
+		mi, err := hamtIterator(hn)
+		if err != nil {
+			return adIngestError{adIngestMalformedErr, fmt.Errorf("failed to iterate through HAMT: %w", err)}
+		}
 		for !mi.Done() {
-			k, _, err := mi.Next()
+			k, err := nextHamtKey(mi)
 			if err != nil {
+				if errors.Is(err, hamt.ErrMalformedHamt) {
+					return adIngestError{adIngestMalformedErr, fmt.Errorf("failed to iterate through HAMT: %w", err)}
+				}
 				// Find out if the HAMT is malformed.
 				for _, c := range hamtCids[1:] {
 					_, loadErr := ing.loadNode(c, hamt.HashMapNodePrototype)
@@ -578,6 +584,30 @@ func (ing *Ingester) loadHamt(c cid.Cid) (*hamt.Node, error) {
 	return hn, nil
 }
 
+// hamtIterator returns an iterator over the HAMT. Positioning the iterator
+// panics if a node of the HAMT is malformed: it has a bitmap that does not
+// match its data, or an empty bucket.
+func hamtIterator(hn *hamt.Node) (mi ipld.MapIterator, err error) {
+	defer func() {
+		if r := recover(); r != nil {
+			err = fmt.Errorf("%w: %v", hamt.ErrMalformedHamt, r)
+		}
+	}()
+	return hn.MapIterator(), nil
+}
+
+// nextHamtKey returns the next key of the HAMT, and an error if the iterator
+// cannot be advanced because the HAMT is malformed. See hamtIterator.
+func nextHamtKey(mi ipld.MapIterator) (key ipld.Node, err error) {
+	defer func() {
+		if r := recover(); r != nil {
+			err = fmt.Errorf("%w: %v", hamt.ErrMalformedHamt, r)
+		}
+	}()
+	key, _, err = mi.Next()
+	return key, err
+}
+
 func (ing *Ingester) loadNode(c cid.Cid, prototype ipld.NodePrototype) (ipld.Node, error) {
 	key := datastore.NewKey(c.String())
 	val, err := ing.ds.Get(context.Background(), key)
-- 
2.43.0


From 18801400ccbbcfbc3e6816a9216868560d195ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:34:43 +0000
Subject: [PATCH 35/38] fix: end a sync whose head is not an advertisement

---
 internal/ingest/ingest.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/ingest/ingest.go b/internal/ingest/ingest.go
index c029cc9..9d00ca6 100644
--- a/internal/ingest/ingest.go
+++ b/internal/ingest/ingest.go
@@ -527,6 +527,12 @@ func (ing *Ingester) Sync(ctx context.Context, peerID peer.ID, peerAddr multiadd
 			return
 		}
 
+		// If the head is not an advertisement, then it is never processed.
+		if _, err = ing.loadAd(c); err != nil && !errors.Is(err, errReadNode) {
+			log.Errorw("Head of publisher is not an advertisement", "err", err, "cid", c)
+			return
+		}
+
 		log.Debugw("Syncing advertisements up to latest", "adCid", c)
 		for {
 			select {
-- 
2.43.0


From 83f3ea99a9b3bda31eb50fca107edd3c5b783d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:47 +0000
Subject: [PATCH 36/38] fix: end a discovery at its timeout when the gateway
 does not answer

---
 internal/lotus/discovery.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/internal/lotus/discovery.go b/internal/lotus/discovery.go
index fe08c10..25da5f1 100644
--- a/internal/lotus/discovery.go
+++ b/internal/lotus/discovery.go
@@ -42,6 +42,16 @@ type MinerInfo struct {
 	ConsensusFaultElapsed      int64
 }
 
+// contextTransport makes the requests of a client, whose calls do not take a
+// context, end when the context is done.
+type contextTransport struct {
+	ctx context.Context
+}
+
+func (t contextTransport) RoundTrip(req *http.Request) (*http.Response, error) {
+	return http.DefaultTransport.RoundTrip(req.WithContext(t.ctx))
+}
+
 // New creates a new lotus Discoverer
 func NewDiscoverer(gateway string) (*Discoverer, error) {
 	if gateway == "" {
@@ -66,7 +76,11 @@ func (d *Discoverer) Discover(ctx context.Context, peerID peer.ID, minerAddr str
 		return nil, fmt.Errorf("invalid provider filecoin address: %s", err)
 	}
 
-	jrpcClient := jrpc.NewClient(d.gatewayURL)
+	jrpcClient := jrpc.NewClientWithOpts(d.gatewayURL, &jrpc.RPCClientOpts{
+		HTTPClient: &http.Client{
+			Transport: contextTransport{ctx},
+		},
+	})
 
 	var ets ExpTipSet
 	err = jrpcClient.CallFor(&ets, "Filecoin.ChainHead")
-- 
2.43.0


From 804737b1ac9537badd48980e3af4229433c0cad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:51 +0000
Subject: [PATCH 37/38] fix: keep a provider whose publisher answers polls

A publisher that answered a poll without a new advertisement was treated like
one that did not answer: its provider became inactive, and was removed after
PollStopAfter.
---
 internal/ingest/ingest.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/ingest/ingest.go b/internal/ingest/ingest.go
index 9d00ca6..798477b 100644
--- a/internal/ingest/ingest.go
+++ b/internal/ingest/ingest.go
@@ -853,6 +853,12 @@ func (ing *Ingester) autoSync() {
 				log.Errorw("Failed to auto-sync with publisher", "err", err)
 				return
 			}
+			// The publisher responded, even if it has no new advertisement, so
+			// update the time of last contact with the provider.
+			err = ing.reg.RegisterOrUpdate(context.Background(), provID, nil, cid.Undef, peer.AddrInfo{})
+			if err != nil {
+				log.Errorw("Failed to update contact with provider", "err", err)
+			}
 		}(provInfo.Publisher, provInfo.PublisherAddr, provInfo.AddrInfo.ID)
 	}
 }
-- 
2.43.0


From 06b1e2c0ec36ee09bfddf89d3264423c40e1ce46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:49:09 +0000
Subject: [PATCH 38/38] fix: do not hang in Close because entries are about to
 be synced by data transfer

---
 internal/ingest/linksystem.go | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/internal/ingest/linksystem.go b/internal/ingest/linksystem.go
index 238471b..72f0107 100644
--- a/internal/ingest/linksystem.go
+++ b/internal/ingest/linksystem.go
@@ -230,7 +230,7 @@ func (ing *Ingester) ingestAd(publisherID peer.ID, adCid cid.Cid, ad schema.Adve
 	// Sync the very first entry so that we can check which type it is.
 	// Note, this means the maximum depth of entries traversal will be 1 plus the configured max depth.
 	// TODO: See if it is worth detecting and reducing depth the depth in entries selectors by one.
-	syncedFirstEntryCid, err := ing.sub.Sync(ctx, publisherID, entriesCid, Selectors.One, nil)
+	syncedFirstEntryCid, err := ing.syncEntries(ctx, publisherID, entriesCid, Selectors.One)
 	if err != nil {
 		return adIngestError{syncEntriesErrState(err), fmt.Errorf("failed to sync first entry while checking entries type: %w", err)}
 	}
@@ -271,7 +271,7 @@ func (ing *Ingester) ingestAd(publisherID peer.ID, adCid cid.Cid, ad schema.Adve
 		for _, e := range hn.Hamt.Data {
 			if e.HashMapNode != nil {
 				nodeCid := (*e.HashMapNode).(cidlink.Link).Cid
-				_, err = ing.sub.Sync(ctx, publisherID, nodeCid, Selectors.All, nil,
+				_, err = ing.syncEntries(ctx, publisherID, nodeCid, Selectors.All,
 					// Gather all the HAMT Cids so that we can remove them from datastore once finished processing.
 					legs.ScopedBlockHook(gatherCids),
 					// Disable segmented sync.
@@ -355,7 +355,7 @@ func (ing *Ingester) ingestAd(publisherID peer.ID, adCid cid.Cid, ad schema.Adve
 		if chunk != nil && chunk.Next != nil {
 			nextChunkCid := chunk.Next.(cidlink.Link).Cid
 			// Traverse remaining entry chunks based on the entries selector that limits recursion depth.
-			_, err = ing.sub.Sync(ctx, publisherID, nextChunkCid, ing.entriesSel, nil, legs.ScopedBlockHook(func(p peer.ID, c cid.Cid, actions legs.SegmentSyncActions) {
+			_, err = ing.syncEntries(ctx, publisherID, nextChunkCid, ing.entriesSel, legs.ScopedBlockHook(func(p peer.ID, c cid.Cid, actions legs.SegmentSyncActions) {
 				// Load CID as entry chunk since the selector should only select entry chunk nodes.
 				chunk, err := ing.loadEntryChunk(c)
 				if err != nil {
@@ -400,6 +400,17 @@ func (ing *Ingester) ingestAd(publisherID peer.ID, adCid cid.Cid, ad schema.Adve
 	return nil
 }
 
+// syncEntries syncs a part of an advertisement's entries. Close waits for it,
+// since closing the subscriber does not finish while a data transfer is being
+// opened.
+func (ing *Ingester) syncEntries(ctx context.Context, publisherID peer.ID, c cid.Cid, sel ipld.Node, opts ...legs.SyncOption) (cid.Cid, error) {
+	if !ing.startSync() {
+		return cid.Undef, errClosed
+	}
+	defer ing.waitForPendingSyncs.Done()
+	return ing.sub.Sync(ctx, publisherID, c, sel, nil, opts...)
+}
+
 // syncEntriesErrState returns the state for an error that happened when
 // syncing entries. Data that can be fetched but cannot be decoded is a
 // permanent error.
-- 
2.43.0

