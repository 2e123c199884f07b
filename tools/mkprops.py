#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

OCTO = "cmd/octorpki/octorpki.go"
p("C01", "Only authorised ROA payloads are ever published",
  "Every (ASN, prefix, max length, trust anchor) entry that the validator publishes - over HTTP or in its output file - is asserted by a ROA that, at the time of the validation that produced the list, was reachable from a configured trust anchor through unexpired, unrevoked, correctly signed certificates and manifests in the local cache, lies within the resources of its whole chain, and is attributed to that trust anchor. No behaviour of publication points, networks, disks or schedules can add an unauthorised entry.",
  ["inputs", "fault_sequences", "schedules", "histories", "crash_points"],
  "all repository contents (honest or hostile), all fetch failures and partial transfers, all crash points and interleavings of fetchers, validation and HTTP clients",
  "The unit tests validate a few fixed objects in memory; none runs a whole tree through fetch, cache, validation and publication, and none corrupts, delays or reorders anything.",
  [OCTO, "validator/pki/pki.go", "validator/lib/cert.go", "validator/lib/cms.go", "validator/lib/roa.go", "sync/lib/fetch.go"],
  [("certificate, manifest, CRL and ROA validation", "validator/pki/pki.go"), ("list generation from valid ROAs", OCTO)],
  ["GET /output.json", "the -output.roa file in oneoff mode", "the cache directory at the start of each validation"])
p("C02", "Published list converges to everything authorised once faults stop",
  "After the last fault and the last repository change, within a bounded number of revalidation cycles the server publishes exactly the set of ROA payloads that the repositories' current, unexpired contents authorise - nothing missing, nothing stale - whatever happened before.",
  ["histories", "fault_sequences", "schedules", "crash_points"],
  "all histories of publication events, transport failures, disk faults, stalls, crashes and restarts that eventually stop",
  "No test runs two refresh cycles, a restart or any failed transfer; convergence is a property of whole histories.",
  [OCTO, "sync/lib/rrdp.go", "sync/lib/rsync.go", "validator/pki/pki.go"],
  [("validation loop", OCTO), ("RRDP session/serial bookkeeping", "sync/lib/rrdp.go"), ("rsync failover", OCTO)],
  ["GET /output.json compared with the repositories' contents"])
p("C03", "One failing or hostile publication point does not affect other CAs",
  "Whatever one CA publishes, and whatever its repository servers do (garbage, truncation, hangs, refusals, endless redirection of endpoints), the authorised ROA payloads of CAs that are neither below it nor published on a repository host that it names are still published: they are contained in every list that is published.",
  ["inputs", "fault_sequences", "histories"],
  "all contents and transport behaviours of one publication point, combined with all trees of the remaining CAs",
  "Tests use one well-formed tree; nothing checks what a bad neighbour does to others.",
  [OCTO, "validator/pki/pki.go", "sync/lib/rrdp.go"],
  [("per-file error handling during exploration", "validator/pki/pki.go"), ("RRDP host binding", OCTO), ("invalidation limited to the faulty CA", "validator/pki/pki.go")],
  ["GET /output.json while one publication point misbehaves"])
p("C04", "Nothing received or transiently failing locally terminates the validator",
  "No data obtained from a publication point, no behaviour of a remote peer or HTTP client, and no transient local I/O error after start-up makes the server process exit or panic, or stop revalidating.",
  ["inputs", "fault_sequences", "schedules"],
  "all bytes in fetched objects, XML documents, rsync output and URIs; all error returns of file and process operations after start-up",
  "A handful of regression tests cover single decoder crashes; the combinations of contents, positions in the tree and I/O errors are unbounded.",
  [OCTO, "validator/lib/ber.go", "validator/lib/cms.go", "validator/lib/cert.go", "validator/pki/pki.go", "sync/lib/rrdp.go", "sync/lib/rsync.go"],
  [("decoder bounds checks", "validator/lib/ber.go"), ("error returns instead of fatal exits in fetch paths", OCTO)],
  ["process exit, panics, continued validations"])
p("C05", "An RRDP round without failures leaves the local copy equal to the repository",
  "Whenever the notification, snapshot and deltas of an RRDP repository are all fetched intact in a round and local writes succeed, the local copy afterwards holds exactly the published content of every object of that repository version, and objects withdrawn by the processed deltas no longer hold content - whatever failed, was skipped, truncated or corrupted in earlier rounds. Documents whose contents do not match the hash announced for them are not applied.",
  ["histories", "fault_sequences", "crash_points"],
  "all sequences of publications, withdrawals, session resets, delta expirations, failed or garbled transfers, disk errors and restarts",
  "The existing RRDP code has no test that processes a delta, a session change or a failed transfer.",
  ["sync/lib/rrdp.go", OCTO],
  [("session and serial tracking", "sync/lib/rrdp.go"), ("persisted RRDP state", OCTO)],
  ["the cache directory after each round compared with the repository version served"],
  [("RRDP session and serial", "last repository version applied locally", "rrdp.json")])
p("C06", "The validator recovers from a crash at any instant",
  "If the process is killed at any point and restarted on the files left behind (including partially written ones), it starts, never publishes anything unauthorised, and converges to the same published list as an instance that never crashed.",
  ["crash_points", "histories", "fault_sequences"],
  "all crash points between any two file-system, network or scheduling steps, including in the middle of a file write, followed by restart, repeatedly",
  "No test kills or restarts the program, and the on-disk state is written in many separate steps.",
  [OCTO, "sync/lib/rrdp.go", "sync/lib/fetch.go"],
  [("RRDP state saved after its data", OCTO), ("reload of the state at start", OCTO)],
  ["GET /output.json after restart"],
  [("cache tree and rrdp.json", "the only durable state", "cache/")])
p("C07", "Fetched data is written only where its origin allows",
  "Nothing a publication point, trust anchor certificate URI list or rsync server provides makes the validator create, modify or remove any file or directory outside its cache directory (and its configured state and output files), and data fetched over RRDP for one rsync host never changes files under another host's directory or the validator's own state.",
  ["inputs", "histories", "fault_sequences"],
  "all URIs and file names in certificates, manifests, snapshots, deltas and rsync listings, including symbolic links planted by an earlier transfer",
  "Only a few literal path strings are tested; the combination of URIs, existing files and links is open-ended.",
  [OCTO, "sync/lib/rsync.go", "sync/lib/utils.go", "validator/pki/pki.go"],
  [("path element checks", OCTO), ("RRDP host binding", OCTO), ("rsync destination construction", "sync/lib/rsync.go")],
  ["every file-system mutation of the process and of its rsync children"])
p("C08", "Readiness: no partial data before the first complete exploration",
  "In the default waiting mode the ROA list and resource endpoints answer 503 and the health endpoint reports not ready until a validation has completed in which no new repository was discovered (or the iteration limit was reached), and from then on, while the process runs and until a later exploration discovers new repositories, they keep answering 200 with a completed validation - including during every refresh.",
  ["schedules", "histories", "fault_sequences"],
  "all interleavings of HTTP requests with fetching, validation and state publication, over all trees needing several exploration rounds",
  "No test starts the server; the windows between publication of a list and of its status are a few statements wide.",
  [OCTO],
  [("stable / previously stable flags", OCTO), ("status check in the HTTP handlers", OCTO)],
  ["GET /output.json, /resources.json, /health over the whole run"])
p("C09", "Every served list is one complete, correctly signed, self-consistent document",
  "Every 200 response for the ROA list is the complete result of a single validation (in non-waiting mode, before the first validation completes, an empty list), contains no duplicate entries, carries metadata of that same validation and (when signing is on) a signature that verifies over exactly the served entries; its cache lifetime never exceeds the document's own validity, and a 304 is given only if the client's tagged document has the same contents as the current one.",
  ["schedules", "inputs", "histories"],
  "all interleavings of requests (slow, concurrent, conditional) with revalidations whose results change, appear or disappear",
  "No test exercises the HTTP handlers, concurrently or otherwise.",
  [OCTO, "cmd/octorpki/filter.go"],
  [("single list object swapped under a lock", OCTO), ("signing before publication", OCTO), ("Etag and Cache-Control computation", OCTO)],
  ["GET /output.json bodies, headers, conditional requests"])
p("C10", "Exploration terminates and is declared complete only when it is",
  "Exploration reaches a result within the configured number of iterations whatever chains of delegations the repositories publish, and short of that limit the process reports itself stable only if every repository (rsync module and RRDP endpoint) referenced by a valid CA certificate was attempted before the validation that produced the published list.",
  ["inputs", "histories", "fault_sequences"],
  "all certificate trees, including ones that reveal new endpoints each round or for ever, with any mix of fetch failures",
  "Tests never iterate the loop.",
  [OCTO],
  [("reduction of current against previous repositories", OCTO), ("iteration limit", OCTO)],
  ["fetch attempts recorded before each published list", "GET /infos"])
p("C11", "Transport failover is used exactly when it should be",
  "When fetching a repository over RRDP fails, the same round fetches it over rsync (if failover is enabled), and when RRDP succeeds the module is not fetched over rsync unless another CA there needs it; a response beyond the size limit never triggers failover, and with failover disabled no failure does. A trust anchor certificate is obtained from the first of its HTTPS locations, in their order, that delivers one matching its key, and otherwise from its rsync location, in any failure pattern of the others.",
  ["fault_sequences", "configurations", "inputs"],
  "all patterns of failures over the notification, snapshot, deltas and trust anchor locations, all flag combinations",
  "No test simulates a failing transport.",
  [OCTO, "cmd/octorpki/rsync_fetcher.go", "cmd/octorpki/rrdp_fetcher.go", "sync/lib/rrdp.go"],
  [("rsync job bookkeeping", OCTO), ("size limit on responses", "sync/lib/rrdp.go"), ("trust anchor fetch loop", OCTO)],
  ["HTTP requests and rsync executions in each round"])
p("C12", "Hung peers and slow clients delay the validator only boundedly",
  "No remote server that accepts a request and then stalls, drips or never answers, no rsync process that hangs, and no HTTP client that stops reading can hold up revalidation beyond the configured timeouts, and the number of simultaneous retrievals never exceeds the configured maximum.",
  ["schedules", "fault_sequences"],
  "all stalls at any point of any exchange, any number of peers and clients stalling together",
  "Tests involve no clocks, no peers and no concurrency.",
  [OCTO, "sync/lib/rrdp.go", "sync/lib/rsync.go", "cmd/octorpki/rrdp_fetcher.go", "cmd/octorpki/rsync_fetcher.go"],
  [("HTTP client timeout", "sync/lib/rrdp.go"), ("rsync timeout", OCTO), ("worker pools", "cmd/octorpki/rrdp_fetcher.go")],
  ["simulated time between validations", "simultaneous requests and rsync processes"])
p("C13", "A trust anchor certificate is used only if it matches its locator",
  "A trust anchor contributes to the published list only through a certificate that carries the public key in its locator file and is within its validity period; a certificate that does not match, is unreadable or has expired is never used and is fetched again in the next round, until a good one arrives.",
  ["inputs", "fault_sequences", "histories"],
  "all contents served at any location of any trust anchor in any order, including key mismatch, expiry, corruption and later repair",
  "One test decodes a locator; acceptance, rejection and refetch are untested.",
  [OCTO, "validator/pki/pki.go", "validator/lib/tal.go"],
  [("key comparison", "validator/lib/tal.go"), ("refetch of trust anchors without a valid certificate", OCTO)],
  ["GET /output.json", "requests to trust anchor locations per round"])
p("C14", "Revocation removes a certificate and everything below it, in any order",
  "If a CA's current CRL lists a certificate (CA or end-entity), nothing that depends on that certificate is published by a validation that sees that CRL, irrespective of the order in which certificates, CRLs, manifests and ROAs are encountered; nothing not depending on it is affected.",
  ["inputs", "histories"],
  "all trees, all positions of the CRL and of the revoked certificate in manifests, all serial numbers, all times of revocation relative to fetches",
  "The single PKI test uses one fixed order.",
  ["validator/pki/pki.go", "validator/lib/crl.go"],
  [("revocation table and invalidation of descendants", "validator/pki/pki.go")],
  ["GET /output.json"])
p("C15", "Manifests are all-or-nothing",
  "With strict manifests (the default), a CA whose current manifest is missing, unparseable, wrongly signed, outside its validity window, or lists a file that is absent or has a different hash contributes nothing to the published list, nor do its descendants; a file not listed on a valid manifest never contributes. A CA with a complete manifest contributes everything the manifest authorises.",
  ["inputs", "histories", "fault_sequences"],
  "all combinations of missing, altered, stale, replayed or extra files at every level of the tree, with any transfer history",
  "No test validates a tree with a damaged or stale publication point.",
  ["validator/pki/pki.go", "validator/lib/manifest.go", "sync/lib/fetch.go"],
  [("hash check and invalidation of the issuing CA", "validator/pki/pki.go")],
  ["GET /output.json"])
p("C16", "No certificate or ROA can claim resources its chain does not hold",
  "A certificate that claims an IP range or AS number not contained in what its issuer effectively holds - with inheritance resolved through any number of levels - is rejected together with everything below it, and a ROA contributes only prefixes within its end-entity certificate's resources.",
  ["inputs"],
  "all trees of explicit, range, prefix and inherited resources for IPv4, IPv6 and AS numbers at any depth",
  "Tests check one level with one inherit case.",
  ["validator/pki/pki.go", "validator/lib/cert.go", "validator/lib/roa.go"],
  [("resource containment along the chain", "validator/pki/pki.go"), ("range arithmetic", "validator/lib/cert.go")],
  ["GET /output.json"])
p("C17", "Certificate chains are submitted to the CT log completely and harmlessly",
  "With CT submission enabled, after each complete validation every valid certificate's chain, ordered from it up to its trust anchor, is submitted to the log; failures, refusals or stalls of the log, and unreadable files, neither stop nor indefinitely delay validation nor drop other chains.",
  ["schedules", "fault_sequences"],
  "all interleavings of submission workers and all failure patterns of the log and of local reads",
  "CT submission has no test.",
  ["cmd/octorpki/ct.go", OCTO],
  [("submission workers", "cmd/octorpki/ct.go"), ("chain construction", OCTO)],
  ["requests received by the simulated log"])
p("C18", "One-off mode leaves a complete, final output file or none",
  "In one-off mode the process, when it ends normally, has written a complete list that satisfies the same authorisation and completeness rules as the served one (only once exploration is complete, unless told not to wait); if it is killed or writing fails at any point, a previously complete output file is still complete and unchanged or replaced by the new complete one.",
  ["crash_points", "fault_sequences", "configurations"],
  "all crash points and write errors while the output is produced, with and without waiting mode",
  "Output writing has no test.",
  [OCTO],
  [("output writing", OCTO)],
  ["the -output.roa file at the end of each run and after each crash"])
p("C19", "Auxiliary endpoints tell the same story as the ROA list",
  "The resources document lists only certificates, manifests and ROAs that were valid in one validation, with the hash of their bytes in the cache and the attribution used for the ROA list, and the information and metrics endpoints report the authorities, counts and state of a completed validation; requests to them never corrupt or block the validator.",
  ["schedules", "inputs"],
  "all interleavings of requests with validations",
  "No handler is tested.",
  [OCTO, "api/schemas/schema.go"],
  [("resources generation", OCTO)],
  ["GET /resources.json, /infos, /metrics"])
p("C20", "Offline validation depends only on the files and the given time",
  "The local validator's output is exactly what the given files authorise at the given validation time, in any directory mapping and file order, with or without manifests, and does not depend on the wall clock, map iteration order or timing when a validation time is given.",
  ["inputs", "schedules", "configurations"],
  "all trees, mappings, validation times and wall-clock times, iteration orders and file-read faults",
  "The command has no test.",
  ["cmd/localrpki/localrpki.go", "validator/pki/pki.go", "sync/lib/fetch.go"],
  [("validation time option", "cmd/localrpki/localrpki.go"), ("directory mapping", "sync/lib/fetch.go")],
  ["the -output file of localrpki"])
p("C21", "The API-backed file source reports truncated or failed transfers",
  "A validation that reads its objects through the gRPC resource API sees exactly the objects the server has: a listing or object transfer that fails or is cut short at any point is reported as an error and never silently taken as complete, and object hashes are enforced as they are for local files.",
  ["fault_sequences", "inputs"],
  "all points of failure of listing streams and object requests, all altered object contents",
  "The API package has no test.",
  ["sync/api/fetch.go", "validator/pki/pki.go"],
  [("stream reading", "sync/api/fetch.go")],
  ["validation results and errors when run over the API source"])
p("C22", "Route origin validation is right for every route, also when shared",
  "For any set of ROA payloads and any route with an AS number other than 0, origin validation returns Valid if some covering payload matches origin and length, Invalid if covering payloads exist but none matches, NotFound otherwise, together with exactly the covering payloads - also when one validator is used by many goroutines at once.",
  ["inputs", "schedules"],
  "all payload sets and routes, IPv4 and IPv6, and all interleavings of concurrent lookups",
  "Tests sample a few routes, sequentially.",
  ["ov/ov.go"],
  [("prefix tree lookup with filter", "ov/ov.go")],
  ["results of concurrent Validate calls"])
p("C23", "The CT submission tool submits every chain before it exits",
  "The stand-alone CT tool submits every valid certificate's chain to the log exactly once with any number of worker threads and any timing, log failures included, before it exits.",
  ["schedules", "fault_sequences", "configurations"],
  "all interleavings of producer and workers, all thread counts, all log failures and unreadable files",
  "The command has no test.",
  ["cmd/ctrpki/ctrpki.go"],
  [("worker threads and shutdown", "cmd/ctrpki/ctrpki.go")],
  ["requests received by the simulated log before exit"])
p("C24", "Provisioning and publication messages decode to what was sent",
  "The XML messages of the provisioning and publication protocols decode to the values that were encoded, for every message type and field content.",
  ["inputs"],
  "all messages of every type",
  "One round trip per sampled message at most.",
  ["ca/xml.go", "validator/lib/xml.go"],
  [("XML structures", "ca/xml.go")],
  ["decoded structures"])
p("C25", "Object encoders and decoders are inverse to each other",
  "Any certificate extension, manifest, ROA, CRL or trust anchor locator that the library encodes decodes back to the same value.",
  ["inputs"],
  "all values of every encodable type",
  "Round trips are sampled for a few values.",
  ["validator/lib/cert.go", "validator/lib/cms.go", "validator/lib/roa.go", "validator/lib/manifest.go", "validator/lib/tal.go", "validator/lib/crl.go"],
  [("encoders and decoders", "validator/lib")],
  ["round trips through the library's public functions"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x) + "\n")
print(len(P))
