#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that it stays consistent)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=observe, hook_needed=hook)))

ING="internal/ingest/ingest.go"; LS="internal/ingest/linksystem.go"; REG="internal/registry/registry.go"

prop("P01","Index equals sequential application of the advertisement chain",
 "Once a sync of a valid advertisement chain has completed, looking up any multihash returns exactly the (provider, context, metadata) records obtained by applying the chain's advertisements one by one from oldest to newest: additions, metadata-only updates, context removals and re-additions, with entries given as linked chunks or as a HAMT. The outcome does not depend on the store batch size, sync segment size, worker count, transport, result cache, or on how many syncs the chain was ingested in, and a later full re-sync reproduces it.",
 ["inputs","histories","configurations"],"all advertisement chains (kinds, sizes, context reuse, duplicate multihashes, invalid multihashes interspersed) x ingest configurations x splits of the chain into syncs",
 "ingest tests use a few fixed chains with unique contexts and one configuration; they cannot sample the combinations of removal/re-add/metadata update, batch boundaries and sync splits.",
 [ING,LS,"api/v0/ingest/schema/types.go"],
 [("ads processed oldest to newest, ads of later-removed contexts skipped",ING+" ingestWorkerLogic"),("entries fetched, batched and stored",LS+" ingestAd, ingestEntryChunk, indexAdMultihashes")],
 ["indexer.Interface.Get after Ingester.Sync's channel delivers the head CID","GetLatestSync"])

prop("P02","Concurrent ingestion is serial and in chain order for each provider",
 "However announcements, explicit syncs and newly published advertisements from many publishers interleave, changes to one provider's index records are made one advertisement at a time, in chain order from oldest to newest, and no advertisement's changes are applied again after it completed unless a re-sync is requested. When activity stops and each publisher has been synced once more, the index equals the sequential application of every publisher's final chain.",
 ["schedules","histories"],"all interleavings of announces, syncs, publishing and worker scheduling over several publishers and providers",
 "tests drive one publisher at a time with at most one overlapping announce; ordering violations need specific timings between staging, workers and new syncs.",
 [ING],[("per-provider processing slot and staged assignment",ING+" runIngestStep, ingestWorker, ingestWorkerLogic"),("processed markers",ING+" adAlreadyProcessed, markAdProcessed")],
 ["recorded begin/end log of index mutations per provider","final index state"])

prop("P03","Interrupted ingestion loses nothing after restart",
 "If the indexer stops abruptly at any point during ingestion and is restarted on the state it left behind, then the advertisement it reports as latest synced, and every older one, already has all its effects in the index, and syncing the publisher again brings the index to exactly the state of an uninterrupted ingestion. An interrupted full re-sync is completed by requesting it again.",
 ["crash_points","histories"],"every datastore write and index mutation boundary during ingestion of a chain, including repeated crashes and crashes during re-sync",
 "one test restarts at one hand-picked point; the guarantee is over every write boundary.",
 [ING,LS],[("processed marker written only after the ad's effects",ING+" ingestWorkerLogic, markAdProcessed"),("skip already processed ads on resume",ING+" runIngestStep, ingestWorkerLogic")],
 ["index contents and GetLatestSync at and after the simulated crash, on stores frozen at the crash point"])

prop("P04","Failed advertisements are retried, malformed ones skipped, none lost",
 "If fetching an advertisement's entries, storing them in the index, or registering its provider fails, the advertisement is not treated as ingested and no newer advertisement of that provider is applied before it; once the fault is gone, the next sync ingests it and everything after it. Entries that are valid IPLD data but can never be decoded as entries do not stop the rest of the chain from being ingested.",
 ["fault_sequences","histories"],"all sequences of injected fetch, index-store and registration failures at any operation of an ingestion, plus malformed entry data anywhere in a chain",
 "tests inject one read failure at one place; index-store failures and failures inside later chunks or HAMT nodes are never injected.",
 [ING,LS,"internal/ingest/error.go"],[("error classification and early bail-out",ING+" ingestWorkerLogic"),("errors of each ingestion step",LS+" ingestAd")],
 ["index contents, GetLatestSync and index mutation order while faults are injected and after they stop"])

prop("P05","Only authentically signed advertisements take effect",
 "No advertisement changes the index or the provider registry unless its signature verifies over its provider, addresses, entries link, previous link, metadata and removal flag, and the signer is the named provider or a peer that policy allows to publish for others. An advertisement that fails this is refused wherever it appears in a chain, and nothing of it becomes visible. An authentically signed one is accepted, including one in the earlier signature format.",
 ["inputs","histories","configurations"],"all tampered field combinations, signers, signature encodings and positions in a chain, under every publish policy",
 "tests try one fake signature; tampering of each field, foreign signers and policy combinations are not covered.",
 [LS,"api/v0/ingest/schema/envelope.go","internal/registry/policy/policy.go"],[("signature verified when a block is stored",LS+" mkLinkSystem, verifyAdvertisement"),("signature payload and envelope",
 "api/v0/ingest/schema/envelope.go signaturePayload, VerifySignature")],
 ["index contents, provider list and latest sync after syncing hostile chains"])

prop("P06","Fetched data is only used if it matches the link it was fetched by",
 "Data received from a publisher is ingested only if it hashes to the content identifier that the signed advertisement chain names; a publisher or network path that returns different bytes for an advertisement, entry chunk or HAMT node makes that sync fail and cannot place other multihashes, metadata or addresses in the index or registry.",
 ["inputs","fault_sequences"],"all substitutions, truncations, bit flips and replays of block contents at any position of the fetched DAG",
 "no test serves bytes that differ from the requested CID.",
 [LS],[("block commit into the link system's storage",LS+" mkLinkSystem")],
 ["index contents and registry after syncing from a publisher that serves substituted blocks"])

prop("P07","Direct requests take effect only if signed by the provider they name",
 "A register, discover or index-content request changes registry or index state only if it is an intact signed envelope of that request type whose signer is the provider named in it; every other request is answered with an error and leaves registry and index untouched, over HTTP and libp2p alike.",
 ["inputs"],"all request payloads: tampered bytes, other signers, other request types, truncated or oversized fields, over both transports",
 "tests cover one good request per type and one bad signer that is rejected for policy reasons.",
 ["api/v0/ingest/model/ingest_request.go","api/v0/ingest/model/register_request.go","api/v0/ingest/model/discover_request.go","server/ingest/handler/ingest_handler.go","server/ingest/http/handler.go","server/ingest/libp2p/handler.go"],
 [("envelope verification","api/v0/ingest/model Read*Request"),("request handlers","server/ingest/handler/ingest_handler.go")],
 ["client-visible status, registry contents and index contents after each request"])

prop("P08","Replayed or stale direct requests are refused",
 "While the indexer runs, each provider's signed direct requests are accepted only with strictly increasing sequence numbers that are not older than the acceptance window, whatever their type, transport and concurrency; of several concurrent copies of one request at most one is accepted, and one provider's requests never affect whether another's are accepted.",
 ["schedules","histories","inputs"],"all interleavings and orders of fresh, duplicate, reordered and stale requests from several providers",
 "sequence checking is not exercised concurrently by any test and replay is not tested at all.",
 ["internal/registry/sequences.go","server/ingest/handler/ingest_handler.go",REG],[("per-peer highest sequence","internal/registry/sequences.go check, retire")],
 ["acceptance history of requests checked against a sequential model"])

prop("P09","Allow and publish policy gates every way into the indexer",
 "A peer that policy does not allow cannot become a registered provider, cannot have its announcements acted on and, unless policy permits it, cannot publish for another provider, by any route: registration, discovery, direct content, announcement, advertisement ingestion, provider import or reload at startup. Policy changes made by an administrator or by configuration apply to later requests exactly as configured, and a rejected policy configuration leaves the old one in force.",
 ["inputs","histories","configurations","schedules"],"all policy configurations (defaults, exceptions, publish rules), peers and sequences of policy updates interleaved with requests",
 "policy tests evaluate a handful of peers on the policy object; the enforcement points are not tested as a whole.",
 ["internal/registry/policy/policy.go","peerutil/policy.go",REG,"server/ingest/handler/ingest_handler.go",LS,"server/admin/http/handler.go"],
 [("policy evaluation","peerutil/policy.go Eval, SetPeer; internal/registry/policy/policy.go"),("enforcement",REG+" Register, Discover, loadPersistedProviders; server/ingest/handler Announce")],
 ["registered provider list, request status, publisher fetch log and index contents, compared with a reference policy"])

prop("P10","Registered providers survive restart exactly",
 "After any sequence of registrations, updates, removals and imports, every change that was acknowledged is present after closing or abruptly stopping the registry and reopening it on the same datastore: each provider comes back with the same addresses, publisher, publisher address, discovery address and last advertisement, and removed providers stay removed. A failed write is reported to the caller.",
 ["histories","crash_points","inputs"],"all operation sequences, provider data values and stop points between datastore writes",
 "one test persists two providers once; removal, update sequences, address forms and crash points are not covered.",
 [REG],[("persist and sync on every change",REG+" syncRegister, syncPersistProvider, syncRemoveProvider"),("reload",REG+" loadPersistedProviders, ProviderInfo MarshalJSON/UnmarshalJSON")],
 ["AllProviderInfo/ProviderInfo of a reopened registry compared with a reference model"])

prop("P11","Concurrent registry operations are linearizable",
 "Registering, removing, looking up and listing providers from many goroutines behaves as if the operations took effect one at a time in an order consistent with real time: a lookup returns one whole record written by a single registration, an acknowledged registration or removal is visible to every later lookup and listing, and returned records never change afterwards.",
 ["schedules","histories"],"all interleavings of register, remove, is-registered, get and list operations on a small set of providers",
 "registry tests are sequential.",
 [REG],[("single goroutine executes all state changes",REG+" run, actions channel")],
 ["call/return history checked for linearizability against a sequential map (porcupine)"])

prop("P12","Provider polling follows each provider's own schedule",
 "A registered provider with a publisher is polled only after its configured interval without contact, stops being listed and returned in find results once it stays silent past its retry time, and is removed only after its own stop time; any contact, a poll that its publisher answers with nothing new included, makes it fully active again with its registration intact. A polling override applies to the provider it names and to no other, and waiting for polls to be consumed never blocks other registry operations.",
 ["histories","configurations","schedules"],"all sets of providers, overrides, silence durations and orders of polls and contacts",
 "two tests poll a single provider; several providers in one pass, overrides next to defaults and reactivation are not covered.",
 [REG],[("poll pass over all providers",REG+" pollProviders"),("contact time update",REG+" RegisterOrUpdate"),("poll answered","internal/ingest/ingest.go autoSync")],
 ["sync channel, provider lookups and datastore after each poll pass, compared with a reference schedule"],
 hook="in-package overlay file reaches the poll pass, whose private name existing tests already pin")

prop("P13","Discovery runs once per address, respects waits, registers only results",
 "For one discovery address at most one discovery is in progress at a time and none starts before the rediscovery wait has passed since the last one finished; a provider is registered by discovery only with the addresses its discovery returned (through the Lotus gateway: those of the miner whose peer ID is the provider's), and every synchronous caller gets exactly one answer, at the latest when the discovery timeout ends it, under any concurrency and discoverer failures.",
 ["schedules","histories","fault_sequences"],"all interleavings of concurrent discovery requests with slow, failing or hanging discoverers",
 "tests run single sequential discoveries with an immediate mock.",
 [REG,"internal/lotus/discovery.go"],[("in-progress marker and completion time",REG+" syncStartDiscover, syncNeedDiscover, cleanup"),("gateway discoverer","internal/lotus/discovery.go Discover")],
 ["discoverer call log (overlaps, spacing), answers received, registry contents"])

prop("P14","All lookup interfaces give the same, exact answer",
 "For every set of indexed content and registered providers, single multihash lookup, CID lookup, batch lookup over HTTP and lookup over libp2p all return the same answer: for each requested multihash that has content, each record of a registered, active provider with its exact context, metadata and current addresses, and nothing else. Delegated routing returns the active providers whose metadata is the bitswap identifier, and none whose metadata does not begin with it.",
 ["inputs","histories"],"all index contents, provider states, address updates and query batches (duplicates, unknown, mixed)",
 "finder tests query a couple of multihashes of one provider through each interface separately.",
 ["server/finder/handler/finder_handler.go","server/finder/http/handler.go","server/finder/libp2p/handler.go","server/reframe/reframe.go","api/v0/finder/model/model.go","api/v0/finder/client"],
 [("find","server/finder/handler/finder_handler.go Find"),("transports","server/finder/http, server/finder/libp2p, server/reframe")],
 ["responses decoded by the shipped clients and by raw HTTP, compared with a reference index"])

prop("P15","Lookups never destroy live data and purge removed providers",
 "Answering queries never deletes index records of a registered provider, whether active or temporarily inactive, and never touches records of other providers or contexts; records of a removed provider never appear in answers, and querying them makes the indexer discard them. A provider that registers again after being removed has its newly published content served, once lookups begun before that have ended.",
 ["histories","schedules"],"all interleavings of queries with registration, removal, inactivity and re-registration of several providers sharing multihashes",
 "one test removes one provider and queries it; inactivity and shared multihashes are not covered.",
 ["server/finder/handler/finder_handler.go",REG],[("lazy removal on lookup","server/finder/handler/finder_handler.go Find")],
 ["log of index removals, index contents and find answers"],
 hook="in-package overlay file drives the poll pass that makes a provider inactive")

prop("P16","Hostile input never crashes, hangs or corrupts the indexer",
 "Arbitrary bytes, malformed or extreme values sent to any public interface - find, ingest, admin and delegated-routing HTTP endpoints, libp2p protocols, announcements, advertisements and entries from publishers, and provider lists from other indexers - never crash the process or leave a request unanswered: well-formed refusals are returned, and valid requests before, during and after are served correctly from unchanged data.",
 ["inputs","histories"],"all byte strings and structured mutations on every externally reachable interface",
 "tests send almost only well-formed input.",
 ["server/ingest/http/handler.go","server/ingest/libp2p/handler.go","server/finder/http/handler.go","server/finder/libp2p/handler.go","server/admin/http/handler.go","server/reframe/reframe.go","internal/libp2pserver/server.go",REG,LS],
 [("input validation in every handler","server/*, internal/libp2pserver"),("ad and entry decoding",LS)],
 ["process survival, one HTTP status or libp2p reply per request, canary requests and data interleaved with hostile ones"])

prop("P17","No data races under concurrent use",
 "No two goroutines access the same memory without synchronisation, at least one of them writing, while ingestion, announcements, lookups, registration, polling, policy and configuration changes, provider removal and shutdown run concurrently.",
 ["schedules"],"all interleavings of concurrent use of the ingester, registry, servers and clients",
 "tests are mostly sequential and are not run with the race detector.",
 [ING,LS,REG,"server/finder/handler/finder_handler.go","internal/registry/policy/policy.go","internal/registry/sequences.go","api/v0/libp2pclient/client.go"],
 [("locks, atomics, action goroutine, immutable provider records",ING+"; "+REG)],
 ["Go race detector reports whose stacks involve this repository, over stress workloads of all parts"])

prop("P18","Every sync request finishes and no client can stall ingestion",
 "Every explicit sync request ends: its channel delivers the head once that head has been processed or has failed, or closes when the request is cancelled, fails or the indexer closes. Abandoned, cancelled, failing or redundant sync requests, slow publishers, and failing advertisements of one publisher never stop other publishers' advertisements from being ingested, as long as an ingest worker is left (a publisher whose fetches hang can occupy two); requests for one publisher may be served one after the other.",
 ["schedules","histories","fault_sequences"],"all combinations of concurrent sync requests, cancellations at any point, failing or stalled publishers and processing delays",
 "tests wait for single well-behaved syncs.",
 [ING],[("processed-event distribution to waiting syncs",ING+" distributeEvents, onAdProcessed, Sync"),("worker pool",ING+" ingestWorker")],
 ["completion of sync channels and of canary publishers, judged by logical progress with quiescence detection"])

prop("P19","Shutdown terminates cleanly at any moment",
 "Shutting down the servers, then closing the ingester, and then the registry, at any moment of ongoing syncs, announcements, requests, discoveries and processing, returns, answers the requests being handled and releases everyone waiting, does not crash, and makes no further index or datastore change after it has returned; closing twice is harmless, and everything reported as ingested before remains so.",
 ["schedules","crash_points"],"all moments of shutdown relative to ongoing work",
 "tests close idle instances.",
 [ING,REG],[("ordered close",ING+" Close"),("registry close",REG+" Close, runPollCheck")],
 ["return of Close, completion of waiters, store operations recorded after Close, process survival"])

prop("P20","The latest announcement of an allowed publisher gets ingested",
 "After an accepted announcement of a publisher's head, the indexer fetches and ingests that advertisement chain, even if the announcement arrives while the same publisher is being processed; of several announcements arriving meanwhile, at least the last is acted on. Re-announcing what is already ingested is harmless.",
 ["schedules","histories"],"all timings of announcements relative to ongoing processing of the same and of other publishers",
 "one test defers one announce at one fixed point.",
 [ING,"server/ingest/handler/ingest_handler.go"],[("pending announce per provider",ING+" Announce, handlePendingAnnounce")],
 ["ingestion of the last announced head after announcements stop"])

prop("P21","Each client call gets its own response",
 "A client for the find or ingest service returns to each caller the response to that caller's own request or an error, under concurrent calls, cancelled calls, slow servers and dropped streams; a cancelled or failed call never makes a later call return another request's response, and the client stays usable and does not accumulate connections.",
 ["schedules","fault_sequences"],"all interleavings of concurrent, cancelled and failing calls over one client",
 "client tests issue single calls in sequence.",
 ["api/v0/libp2pclient/client.go","api/v0/libp2pclient/message_writer.go","api/v0/finder/client/libp2p/client.go","api/v0/ingest/client/libp2p/client.go","internal/libp2pserver/server.go"],
 [("stream reset on failure, context-aware lock","api/v0/libp2pclient/client.go SendRequest")],
 ["returned multihash of every answer compared with the request that was made"])

prop("P22","Published and stored formats round-trip and stay compatible",
 "Every value of the wire and storage formats - advertisements, entry chunks, signed requests, find requests and responses, provider listings, stored provider records, the text of API errors - decodes to an equal value after encoding, encoding the same value always yields the same bytes and content identifier, and advertisements and requests in previously published encodings are still accepted. Data that does not encode such a value is rejected with an error, never a crash.",
 ["inputs"],"all field values including empty, absent and extreme ones (strings being valid UTF-8), and all malformed encodings",
 "serde tests use one or two sample values.",
 ["api/v0/ingest/schema/types.go","api/v0/ingest/schema/envelope.go","api/v0/ingest/model","api/v0/finder/model/model.go","api/v0/finder/model/provider_info.go","api/v0/error.go"],
 [("IPLD schema bindings","api/v0/ingest/schema"),("JSON models","api/v0/finder/model, api/v0/ingest/model, api/v0/error.go")],
 ["decoded values, encoded bytes and CIDs, golden encodings"])

prop("P23","Configuration is stored faithfully and completed safely",
 "Saving and loading a configuration returns the same settings; settings given to init are stored; loading or upgrading any older or partial configuration file keeps every setting the file contains and fills in documented defaults for those it lacks; files that are not valid configuration are refused with an error; and an identity is accepted only if its private key belongs to its peer ID.",
 ["inputs","configurations"],"all configurations and all subsets of settings present in a file",
 "tests save and load one default configuration.",
 ["config/config.go","config/ingest.go","config/indexer.go","config/discovery.go","config/identity.go","config/init.go","config/bootstrap.go","command/init.go"],
 [("defaults and population of unset values","config/*.go populateUnset, Load, Save, UpgradeConfig")],
 ["loaded configuration compared field by field with what was written and with defaults"])

prop("P24","A running daemon survives reloads and keeps its data across restarts",
 "The daemon starts with exactly the servers its configuration enables. A running indexer daemon stays up and keeps serving through any sequence of valid and invalid configuration reloads triggered by signal, file change or administrator: a valid file's policy takes effect, an invalid file is reported and leaves the settings in force unchanged. After an orderly stop it exits cleanly and a restarted daemon serves the same content and providers.",
 ["histories","configurations","fault_sequences"],"all sequences of reload triggers with valid, unreadable and invalid files, and stop/restart points",
 "no test runs the daemon with reloads.",
 ["command/daemon.go","server/admin/http/handler.go",REG],[("daemon main loop and reload","command/daemon.go daemonCommand, reloadConfig, reloadPeering")],
 ["real daemon process: liveness, policy behaviour through HTTP, exit code, find answers after restart"])

prop("P25","Imports index exactly the valid entries of the file",
 "Importing a CID list or aggregation manifest through the admin interface makes exactly the valid content identifiers in the file findable under the given provider, context and metadata - whatever the line endings, final newline, CID versions, blank or malformed lines and file size - and reports an error when the file cannot be read or has no valid entry, or when storing fails.",
 ["inputs","fault_sequences"],"all file contents, sizes around the batch size, and storage failures",
 "no test imports through the admin interface; importer tests use well-formed files.",
 ["internal/importer/cidlist.go","internal/importer/manifest.go","server/admin/http/handler.go"],[("line readers","internal/importer"),("batching","server/admin/http/handler.go batchIndexerEntries")],
 ["index contents and HTTP status after each import"])

prop("P26","Rate limits apply to the configured peers and to no others",
 "With a rate limit configured, each sync (of the advertisement chain, or of one advertisement's entries) fetches blocks from a publisher to which the limit applies no faster than the configured rate beyond the burst, publishers to which it does not apply are never limited, limits changed at run time govern later syncs, and an invalid limit set at run time is refused and leaves the previous one in force; limiting never changes what is ingested.",
 ["configurations","histories"],"all limit settings, apply/except rules and run-time changes",
 "one test checks that configurations parse.",
 [ING,"config/ratelimit.go","peerutil/policy.go"],[("limiter per sync",ING+" getRateLimiter, SetRateLimit, configRateLimit")],
 ["request timestamps at the publisher (lower bounds only) and ingested content"])

prop("P27","Ingestion leaves no fetched blocks behind",
 "After an advertisement has been ingested or removed a context, none of the blocks fetched for it - the advertisement itself, its entry chunks or its HAMT nodes - remain in the indexer's datastore, in any combination of chunking, sharing of blocks, retries after failures, re-syncs and incremental syncs; only per-advertisement and per-publisher progress records and provider registrations remain.",
 ["histories","fault_sequences","inputs"],"all chains, splits into syncs and failure/retry histories",
 "no test inspects what remains in the datastore.",
 [ING,LS],[("deletion after processing",ING+" markAdProcessed; "+LS+" ingestEntryChunk, ingestAd")],
 ["datastore key listing after successful ingestion"])

prop("P28","Provider import mirrors another indexer's listing",
 "Importing providers from another indexer registers every listed provider that is not yet registered and that policy allows, with its listed addresses and publisher (or itself where none is usable), counts exactly those, hands each to syncing, and leaves already registered providers, and everything else, unchanged; unusable entries are skipped without stopping the import.",
 ["inputs","histories","configurations"],"all provider listings (missing or invalid publishers, addresses, duplicates), local registrations and policies",
 "no test imports providers.",
 [REG,"server/admin/http/handler.go","api/v0/finder/model/provider_info.go"],[("import",REG+" ImportProviders")],
 ["count, registry contents and sync channel compared with a reference model"])

prop("P29","Registration records follow each update's rules",
 "Each announcement of content for a provider leaves its registration with the newest provided addresses (or the earlier ones if none were provided), the latest advertisement and its time, and the latest publisher with its address (or the earlier one if none was provided), never losing information that the update did not replace; an update with invalid data is refused and changes nothing.",
 ["histories","inputs"],"all sequences of registrations and updates with any subset of fields present, valid or invalid, for active and inactive providers",
 "tests update a provider once with complete data.",
 [REG,LS,"server/ingest/handler/ingest_handler.go"],[("register or update",REG+" RegisterOrUpdate")],
 ["provider info through the registry and the find API compared with a reference record"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"),"w") as f:
    for p in P: f.write(json.dumps(p)+"\n")
print(len(P))
