#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source for property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
            **({"state": [dict(name=a, meaning=b, where=c) for a, b, c in state]} if state else {}),
            **({"observe_at": observe} if observe else {}), hook_needed=hook)))
ST = "go/storage/certdatabase.go"; RC = "go/storage/rediscache.go"; STY = "go/storage/types.go"; TY = "go/types.go"
FE = "go/cmd/ct-fetch/ct-fetch.go"; RF = "go/cmd/ct-fetch/rfc6962.go"; TI = "go/cmd/ct-fetch/tiled.go"

prop("C01", "Published coverage never runs ahead of stored serials",
 "At every instant, including after a crash, power loss or failed operation at any point of a commit and while ct-fetch keeps storing entries, every certificate that the coverage metadata in persistent storage declares covered, and that is at least an hour from expiry, has its serial in persistent storage under its own issuer and expiry. The coverage metadata and every serial file are always complete and readable.",
 ["schedules", "crash_points", "fault_sequences", "histories"],
 "every interleaving (up to a preemption bound) of a commit with a concurrent ingester, every crash/power-loss point and every single failing Redis command or file operation, for histories of several commits",
 "Unit tests run Commit to completion on a mock cache with nothing else running and no failures; the guarantee is about every instant of an interrupted or concurrent commit.",
 [ST, STY, RC, TY],
 [("coverage snapshot taken before serials are read", ST + " Commit"), ("temporary file + atomic replace", ST + " moveOneBinOfCachedSerialsToStorage"), ("coverage cutoff test", STY + " IsCovered"), ("cutoff = newest timestamp - MMD", TY + " CoverageCutoff")],
 [("ct-logs.json", "coverage claims in persistent storage", "<storage>/ct-logs.json"), ("serial files", "known serials per issuer and expiry", "<storage>/serials")],
 ["files under the storage directory after any prefix of operations"])

prop("C02", "A recorded serial is never lost before it expires",
 "Once the ingester has been told that a serial was stored, that serial is at every later instant either in the cache or in persistent storage until it expires, whatever crashes, failing Redis commands, failing file operations or concurrent ingestion and commits occur (short of losing the cache itself). Repeated commits only ever add serials to an issuer's expiry bin; serials that are not yet covered stay in the cache, and nothing is recorded under a different issuer, expiry, log or serial than the one stored.",
 ["schedules", "crash_points", "fault_sequences", "histories"],
 "every interleaving, crash point and single failing operation of histories of store/commit/expire steps, including bins larger than the internal batch sizes and paged or duplicated cache scans",
 "Tests sample a handful of sequential histories on the mock cache, whose sets, paging, errors and expiry differ from Redis.",
 [ST, RC, STY],
 [("merge with stored serials before replace", ST + " moveOneBinOfCachedSerialsToStorage"), ("remove only the entries written, only after the rename", ST + " moveOneBinOfCachedSerialsToStorage"), ("pipelined insert reports errors", RC + " SetInsertMany")],
 None, ["union of cache sets and serial files"])

prop("C03", "An interrupted commit always recovers to a complete one",
 "After any crash, power loss or failed operation during a commit, restarting the ingester and committing again (once the abandoned lock has lapsed) succeeds and leaves persistent storage with every covered serial, the cache with exactly the uncovered ones, and coverage equal to the ingester's saved progress. No reachable state leaves commits refused forever, and a commit that reports success has really moved everything that was covered when it started.",
 ["crash_points", "fault_sequences", "histories"],
 "every crash point and every single or paired failing operation of a first, second or later commit, followed by the documented recovery procedure",
 "Tests exercise two hand-made epoch mismatches; recovery must work from every intermediate state.",
 [ST, RC, "go/cmd/aggregate-known/aggregate-known.go", "go/cmd/commit/commit.go"],
 [("cache epoch one ahead of storage epoch", ST + " Commit"), ("reset of cached log states from storage", ST + " EnsureCacheIsConsistent"), ("4 hour lock lapse", RC + " COMMIT_LOCK_EXPIRATION")],
 [("epoch", "commit counters in cache and storage", "<storage>/epoch, key epoch")])

prop("C04", "Cache loss and stale caches are detected and resumed from storage",
 "If the cache is emptied, replaced by an older one, or otherwise disagrees with persistent storage about how many commits have happened, no commit touches persistent storage until the ingester has restarted, and the restart resets the cached log positions to exactly those in persistent storage so that ingestion resumes contiguously with what is stored. A cache that agrees with storage is never reset, and coverage in storage never moves backwards or over entries that were not stored.",
 ["histories", "crash_points", "fault_sequences"],
 "every history up to a depth over {ingest, commit, lose cache, roll cache back, restart ingester} with faults during the reset",
 "Tests cover single fixed epoch values; the guarantee is about all histories mixing cache loss with commits.",
 [ST, RC],
 [("epoch comparison", ST + " EnsureCacheIsConsistent / Commit"), ("Restore under the commit lock", RC + " Restore")])

prop("C05", "The commit lock is exclusive and honoured",
 "At most one process at a time is given the commit lock; a commit or cache reset by a process that does not hold it is refused without changing cache or storage; releasing with a token that is not the holder's changes nothing; and an abandoned lock lapses after its expiry so that a later process can proceed. Read-only storage refuses commits.",
 ["schedules", "fault_sequences"],
 "every interleaving of the Redis commands of two or three processes acquiring, checking, using, abandoning and releasing the lock, with lost replies",
 "Tests call the lock functions sequentially; exclusion is a property of interleavings at command granularity.",
 [RC, ST, "go/cmd/aggregate-known/aggregate-known.go"],
 [("set-if-absent with expiry", RC + " AcquireCommitLock"), ("token comparison", RC + " HasCommitLock / ReleaseCommitLock"), ("lock check", ST + " Commit")])

prop("C06", "Expiry removes expired serials and nothing else",
 "Serials are kept, both in the cache-to-storage move and in persistent storage, until the end of the expiry bin they belong to and are dropped afterwards; a commit at any time removes exactly the bins that have ended (hour bins an hour after their label, day bins a day after) and leaves unrelated files alone. The bin of a certificate is the UTC hour of its NotAfter, in whatever time zone or precision that was encoded.",
 ["inputs", "histories"],
 "every NotAfter on a grid of boundary instants and zone offsets, every commit time on a grid around each boundary, both bin resolutions",
 "Tests check a few dates; the guarantee is at every boundary and offset.",
 [ST, TY],
 [("bin label and last-good instant", TY + " NewExpDate / NewExpDateFromTime / IsExpiredAt"), ("removal pass", ST + " removeExpiredSerialsFromStorage")])

prop("C07", "The Redis cache behaves like its reference model",
 "Every sequence of cache operations gives the same results as a simple model of sets with expiry, log records, epoch and lock: inserts are idempotent and carry the bin's expiry, removals remove exactly the given members whatever their number, scans deliver every member however the server pages or duplicates them, and log records are addressed consistently with or without trailing slashes. Migrating a log's old-style record keeps its progress, never overwrites a newer record, and is safe to interrupt and repeat; errors from the server are reported, not swallowed.",
 ["histories", "fault_sequences", "inputs"],
 "every operation sequence up to a depth over a small alphabet of keys, members and log names, with every scan paging mode and every single failing command",
 "Tests call each operation once or twice on a live server with the default paging and no failures.",
 [RC, STY],
 [("pipelined SADD+EXPIREAT", RC + " SetInsertMany"), ("batched SREM", RC + " SetRemove"), ("scan iteration", RC + " SetToChan / KeysToChan"), ("key normalisation and migration", RC + " Migrate")])

prop("C08", "RFC 6962 progress is saved only over verified entries",
 "When ingesting an RFC 6962 log, progress (and hence coverage) is saved only for index ranges whose downloaded leaves reproduce the corresponding hashes of the log's consistency proof, within a tree head that carries the log's signature. For every tree size, batch and range, honest data verifies, and any altered, substituted, reordered, dropped or truncated leaf, proof hash or tree head stops that log's progress before it is saved. (Whether the proof's hashes lead up to the signed root is a documented TODO of the code, and the chain in extra_data is not authenticated by the tree; neither is claimed.)",
 ["inputs", "fault_sequences"],
 "every tree size and sub-range up to a bound, every single-leaf/proof corruption, against an independent RFC 6962 tree implementation",
 "No test exercises the tree verification or the log worker at all.",
 [RF],
 [("subtree hashing", RF + " CtLogSubtree / CtLogSubtreeVerifier"), ("proof to subtrees", RF + " consistencyProofToSubtrees"), ("verify before save", RF + " LogWorker.Run")])

prop("C09", "RFC 6962 logs are ingested completely and contiguously",
 "Whatever way an RFC 6962 log grows and however it answers (short batches, rate limiting, transient errors) and wherever the ingester is stopped and restarted, the saved range of indices is contiguous, only ever widens, and every unexpired certificate entry inside it has been stored under the right issuer, expiry, serial, log and timestamp; saved coverage timestamps never exceed what the signed tree head justifies; and with a log of more than three entries that stays available the saved range reaches the whole log.",
 ["histories", "fault_sequences", "schedules"],
 "every history up to a depth of growth, restart and fault events over small logs with small batches",
 "No test runs the log worker; growth, backfill, restart and short-read histories are exactly where index arithmetic fails.",
 [RF, FE],
 [("task selection (initial, update, backfill, sleep)", RF + " LogWorker"), ("range bookkeeping", RF + " updateState"), ("store before save", RF + " storeLogEntry / FE insertCTWorker")])

prop("C10", "Tiled logs are ingested completely and contiguously",
 "The same guarantees hold for tiled (static-ct-api) logs: only entries included in a checkpoint signed by the log are accepted, the saved index range is contiguous and only widens, every unexpired entry in it has been stored with the right issuer, expiry, serial, log and timestamp (issuers resolved by fingerprint and checked against it), and corrupted tiles, entries, issuers or checkpoints stop progress without being recorded.",
 ["histories", "fault_sequences", "inputs"],
 "every history up to a depth of growth, restart and fault events over small tiled logs, every single corruption of a served object",
 "No test runs the tiled worker.",
 [TI, FE],
 [("checkpoint and tile verification", TI + " NewTiledLogWorker / Run"), ("issuer lookup", TI + " GetCertificate"), ("progress bookkeeping", TI)])

prop("C11", "Every log entry is attributed to the right certificate",
 "For every kind of log entry (certificate, precertificate, precertificate signed by a dedicated signing certificate; parseable by either parser), the recorded item carries the serial exactly as encoded, the issuer whose key will sign the final certificate, the UTC-hour bin of its expiry, and the log identity and timestamp of the entry; encoding and decoding these through cache and storage returns the same values.",
 ["inputs"],
 "every combination of entry kind, chain shape, serial encoding (lengths, leading zeros, high bit), expiry encoding and timestamp from boundary alphabets",
 "Tests use a few fixed certificates.",
 [RF, TI, FE, TY, STY],
 [("issuer selection for precertificates", RF + " storeLogEntry / TI"), ("raw serial extraction", TY + " NewSerialFromTBS"), ("member encoding", STY + " NewMember / AsSerial")])

prop("C12", "Fetch runs start, stop and re-enrol without gaps",
 "A one-shot ct-fetch run performs its sync job for every enrolled log it can reach and ends only after all downloaded entries and progress have been stored; stopping a run at any moment loses no entry whose progress was saved and does not crash; and a change of the enrolled log list starts exactly the newly enrolled logs and stops exactly those marked as no longer enrolled, with never more than one downloader per log. An unusable log in the list does not keep the others from being synced.",
 ["schedules", "histories"],
 "every interleaving (up to a bound) of the log workers, the entry writer, shutdown and list refresh, and every sequence of enrolment lists up to a depth",
 "No test runs the engine.",
 [FE],
 [("worker and writer wait groups", FE + " LogSyncEngine"), ("enrolment refresh", FE + " EnrolledLogs / main")])

prop("C13", "The known-certificates output equals storage for enrolled issuers",
 "A successful aggregate-known run writes, for every enrolled issuer with stored serials, exactly the unexpired stored serials grouped by expiry, writes nothing for issuers that are not enrolled, and publishes the coverage metadata that matches those serials; if it is interrupted, or any read, write or commit fails, it exits with failure rather than presenting a partial output as complete.",
 ["schedules", "fault_sequences", "inputs", "crash_points"],
 "every storage content over small alphabets of issuers, bins and enrolment, every worker count, every failing operation or signal point",
 "aggregate-known has no tests.",
 ["go/cmd/aggregate-known/aggregate-known.go", ST],
 [("lock held from commit to end of read", "go/cmd/aggregate-known/aggregate-known.go work"), ("cancel on error", "go/cmd/aggregate-known/aggregate-known.go knownWorker.run")])

prop("C14", "Revoked lists are the exact, verified union of an issuer's CRLs",
 "For each enrolled issuer the revoked list contains exactly the serial and reason of every entry of every CRL listed for it, each serial as encoded; if any of the issuer's CRLs is missing, unverifiable, signed by another key, or malformed then no list is written for that issuer at all (never a partial one), and other issuers are unaffected. A run that is interrupted or cannot write its output exits with failure rather than presenting incomplete lists as complete.",
 ["inputs", "fault_sequences", "schedules"],
 "every assignment of {valid, missing, wrong signer, corrupt, bad entry, stale} to the CRLs of a few issuers, every failing operation, every worker count",
 "Tests cover single-issuer happy paths and a few failures.",
 ["go/cmd/aggregate-crls/aggregate-crls.go", TY],
 [("signature check", "go/cmd/aggregate-crls/aggregate-crls.go loadAndCheckSignatureOfCRL"), ("drop the issuer on any failure", "go/cmd/aggregate-crls/aggregate-crls.go aggregateCRLWorker")])

prop("C15", "Downloads replace a file only with verified content",
 "Whatever a server, the network or the disk does (errors, truncation, resumption, redirects, wrong content, crashes at any point), a downloaded file on disk is always either the previous one or a complete new one that passed verification; a usable file is reported exactly when one is on disk, an unusable download falls back to the existing file when that one is still valid, and different URLs never share or overwrite each other's file.",
 ["fault_sequences", "crash_points", "inputs"],
 "every sequence of server behaviours and failing file operations up to a depth, every crash point, on a grid of URL pairs",
 "Tests cover a few server behaviours, one at a time, with no crashes or disk failures.",
 ["go/downloader/verifying-downloader.go", "go/downloader/downloader.go", "go/cmd/aggregate-crls/aggregate-crls.go"],
 [("download to temporary, verify, rename", "go/downloader/verifying-downloader.go"), ("resume and retry decision", "go/downloader/downloader.go"), ("file name from URL", "go/cmd/aggregate-crls/aggregate-crls.go makeFilenameFromUrl")])

prop("C16", "The enrolled issuers are exactly those CCADB justifies",
 "From any CCADB report, the enrolled set is exactly the issuers with at least one certificate that chains through valid issuing certificates to an included root and is within its validity, with the union of their disclosed CRL locations (full or partitioned); malformed rows or URLs never enrol an issuer, drop another one, or stop a valid one; a report is used only as a whole, whatever interrupted its download; and saving and reloading the enrolled list preserves it.",
 ["inputs", "configurations", "fault_sequences", "crash_points"],
 "every small PKI graph (roots, intermediates, cross-signs, expired, untrusted, shared keys), row order and CRL-disclosure shape, and every failing operation or crash while the report is obtained or the list saved",
 "Tests use one or two fixed reports.",
 ["go/rootprogram/issuers.go"],
 [("chain verification", "go/rootprogram/issuers.go LoadFromDisk"), ("CRL field decoding", "go/rootprogram/issuers.go decodeCrls"), ("save and load", "go/rootprogram/issuers.go SaveIssuersList / LoadEnrolledIssuers")])

prop("C17", "CRL entries decode exactly",
 "For every CRL the decoder yields for each revoked entry exactly the serial bytes and the reason the CRL encodes (unspecified when absent), and rejects entries whose reason is repeated, malformed or not representable (negative or above 255) rather than guessing; the revoked list's textual form is a faithful, unambiguous encoding of these pairs.",
 ["inputs"],
 "every combination of entry extension lists, reason encodings and serial encodings from boundary alphabets, in CRLs of several entries",
 "Tests decode a few fixed CRLs.",
 [TY, "go/cmd/aggregate-crls/aggregate-crls.go"],
 [("raw decode", TY + " DecodeRawTBSCertList / Reason"), ("textual form", "go/cmd/aggregate-crls/aggregate-crls.go StoreRevokedCertificateList")])

prop("C18", "Configuration sources take precedence consistently",
 "For every option, the command line overrides the environment, which overrides the configuration file, which overrides the default; an unset or malformed lower-priority source never overrides a higher one, and an unset option takes its documented default.",
 ["configurations"],
 "every combination of {absent, valid, malformed} over flag, environment, file for every option",
 "Tests check a few combinations.",
 ["go/config/config.go"],
 [("layered lookup", "go/config/config.go Init")])

prop("C19", "Published filters always form a consistent chain",
 "From any state of the published records (consistent or not, including unsupported, malformed or attachment-less records), any history of filter runs, and any failure or crash between or during publisher operations: whenever the publisher asks for review, and after every run that reports success, each enabled channel holds one base filter followed by deltas in run order with no missing link, ending at the newest run; records target their own channel and carry the timestamp of the run they come from; disabled channels have none. A base filter is published instead of deltas exactly when there is nothing usable to extend (records missing, inconsistent, unsupported or malformed, base too old or too large with its deltas, new runs not all valid or not strictly newer than the published ones); nothing is published from a run that is incomplete or not newer than what is published, nor while the newest run is unfinished; `--noop` changes nothing; and the next undisturbed publisher run always brings every channel up to the newest complete run.",
 ["histories", "crash_points", "fault_sequences"],
 "every small record state, every history of runs and every crash point or failing request of the publisher, up to a depth",
 "The Python tests cover consistency helpers on a few lists; nothing runs the publisher against a server that fails.",
 ["moz_kinto_publisher/main.py"],
 [("record consistency checks", "moz_kinto_publisher/main.py crlite_verify_record_consistency / crlite_verify_run_id_consistency"), ("decision", "moz_kinto_publisher/main.py crlite_determine_publish"), ("clear/publish order", "moz_kinto_publisher/main.py publish_crlite")])

prop("C20", "The published intermediates match the enrolled list",
 "After a successful publishing run the intermediates collection contains exactly the enrolled list of the newest stored run: each issuer certificate once, with its own attachment and current attributes, and nothing else. At no point, whatever request fails or wherever the publisher is killed, does the collection lose the correct record of an intermediate that stays listed, and the next undisturbed run reaches the same result from whatever was left. `--noop` changes nothing.",
 ["histories", "fault_sequences", "crash_points"],
 "every small pair of local and remote record sets, every failing request or crash point",
 "Tests do not run the synchronisation against a server.",
 ["moz_kinto_publisher/main.py"],
 [("set differences", "moz_kinto_publisher/main.py publish_intermediates")])

prop("C21", "The published CT log list matches the source list",
 "After a successful run the ct-logs collection holds exactly one record per log of the source list, with its current attributes, marked admissible exactly when the log's state is qualified, usable, read-only or retired; the enrolment flags of logs that stay are preserved, logs that disappear are removed, a source list that contradicts itself changes nothing, a change that Kinto refuses is left for the next run and affects no other log, and the operation is idempotent and reaches the same result after any failing request or crash part-way. `--noop` changes nothing.",
 ["histories", "inputs", "fault_sequences"],
 "every small pair of source list and remote collection, every failing request",
 "Tests do not cover it.",
 ["moz_kinto_publisher/main.py"],
 [("set differences", "moz_kinto_publisher/main.py publish_ctlogs")])

prop("C22", "Run identifiers are unique and completed runs are complete",
 "Each run is given an identifier that is neither stored nor on disk and later than all earlier ones of the same day; a run is only marked completed, and the generation job only reports success, after all its artifacts are in place, whatever step fails or crashes; each filter's difference files are computed against the previous run's set of the same kind; and readers only ever select completed runs, in the true chronological order, and never take other directories for runs.",
 ["histories", "crash_points", "inputs"],
 "every set of existing identifiers up to a size, every crash point of the upload scripts, every pair of identifiers",
 "Only small samples are tested.",
 ["workflow/__init__.py", "workflow/0-allocate_identifier", "workflow/1-upload_data_to_storage", "workflow/3-upload_mlbf_to_storage", "moz_kinto_publisher/main.py"],
 [("identifier allocation", "workflow/0-allocate_identifier"), ("marker written last", "workflow/3-upload_mlbf_to_storage"), ("ordering of identifiers", "moz_kinto_publisher/main.py PublishedRunDB")])

prop("C23", "Filters built from known and revoked sets classify every certificate",
 "From any known and revoked directories, a successful run of the filter builder yields filters that call a certificate revoked exactly when its serial is in both its issuer's known list and its revoked list with a reason the filter type includes, and not revoked for every other known certificate; every known issuer has a block and the coverage is that of ct-logs.json. The delta filter answers the same for the certificates newly revoked since the previous revoked set (and the stash lists exactly those), the saved set applied next time yields exactly the next difference, and a missing or unusable previous set counts as empty. This holds in any order of directory entries and parallel tasks. The builder exits with success only when all its artifacts are in place and right, whatever file operation fails or wherever an earlier run was killed, and never replaces existing output without --clobber.",
 ["inputs", "histories", "faults", "crash_points"],
 "every combination of known and revoked sets for up to three issuers, every evolution of them over consecutive runs, every failing file operation and kill point",
 "Rust unit tests sample a few sets.",
 ["rust-create-cascade/src/main.rs", "rust-create-cascade/src/clubcard_helper.rs", "rust-create-cascade/src/cascade_helper.rs"],
 [("inclusion and check", "rust-create-cascade/src/main.rs include/exclude/check"), ("delta and stash", "rust-create-cascade/src/main.rs write_revset_and_delta / write_stash"), ("reasons", "rust-create-cascade/src/main.rs ReasonSet / decode_revoked_line")])

prop("C24", "Only reviewed collections of bounded size are signed off",
 "The sign-off tool marks a collection to be signed only if that collection was waiting for review when its status was read and has not been changed since, and only the collection it was asked for; in any other state, in no-op mode or with an unknown collection it changes nothing, and failures are reported by its exit code. The sign-off script signs cert-revocations off only when the size of the filter is at most the configured limit and the instance is recognised.",
 ["inputs", "interleavings", "faults"],
 "every state of the collection, every answer and failure of each request, every change made by others between the tool's requests, every filter size around the limit",
 "There are no tests of these scripts.",
 ["containers/scripts/crlite-signoff-tool.py", "containers/scripts/crlite-signoff.sh"],
 [("status check and conditional change", "containers/scripts/crlite-signoff-tool.py main"), ("size limit", "containers/scripts/crlite-signoff.sh FILTER_SIZE")])

prop("C25", "The query tool answers exactly what the published filters say",
 "For every certificate, database of filters and enrolled list, the query tool reports revoked (and exits with failure) exactly when the certificate's issuer is enrolled (found by name and by its signature), the certificate is within its validity and some filter that covers one of its timestamps lists its issuer and serial; otherwise it reports good, expired, not covered or not enrolled as documented, whichever way and in whichever encoding it is asked. A successful update leaves exactly the channel's full filter and deltas, each with the announced digest, and the enrolled list of the newest run, whatever was there before; it is refused for a collection without exactly one full filter. Whatever request or file operation fails, or wherever the tool is killed, it never answers from damaged or missing filters, a sign-off over hosts succeeds only if every listed host's certificate was obtained and is not revoked, and the next undisturbed update reaches the right state.",
 ["inputs", "histories", "faults", "crash_points"],
 "every certificate form against every set of up to two (thorough three) filters, every pair of previous and published databases, every failing request, file operation and kill point",
 "The query tool has no tests.",
 ["rust-query-crlite/src/main.rs"],
 [("verdict", "rust-query-crlite/src/main.rs CRLiteDB::query"), ("update", "rust-query-crlite/src/main.rs update_db / update_intermediates"), ("issuer lookup", "rust-query-crlite/src/main.rs Intermediates::lookup_issuer_spki"), ("hosts", "rust-query-crlite/src/main.rs signoff / query_https_host")])

prop("C26", "End to end, clients are told what the CAs' CRLs say",
 "Whatever is logged in the CT logs in whichever order, log format and step, and however the lists of the CAs, the enrolled logs, the enrolled issuers and their certificates change from run to run, a client that updates from what is published after the latest run is told: revoked, for every unexpired ingested certificate of an enrolled issuer that is on that issuer's latest available CRL with a reason its channel includes; good, for every ingested certificate of an enrolled issuer that was on no such CRL in any of the runs its filters come from; not enrolled, for issuers that are not (or no longer) disclosed as trusted; not covered, for certificates that no run has ingested. Serial numbers of one issuer never affect another's, not even one of the same name, no run fails because of anything its sources may contain, and all of this still holds once a program or run that was cut short at any point, or whose cache was lost after a commit, has been started again. The publishing job publishes nothing when told not to (DoNotUpload, KINTO_NOOP), and reports failure when the publisher fails, and only then.",
 ["histories", "inputs"],
 "every single event and every pair of events in the life of the system over three runs, every point at which a program is killed, every fate of a certificate, every choice of when the publisher runs and when the client updates",
 "No test runs more than one program, and the programs (three languages) are joined only by file formats, names and identifiers that nothing checks.",
 ["go/cmd/ct-fetch", "go/cmd/aggregate-crls", "go/cmd/aggregate-known", "workflow", "rust-create-cascade/src/main.rs", "moz_kinto_publisher/main.py", "rust-query-crlite/src/main.rs"],
 [("known and revoked files", "go/storage/certdatabase.go, go/cmd/aggregate-known, go/cmd/aggregate-crls -> rust-create-cascade/src/main.rs"), ("coverage", "go/cmd/aggregate-known ct-logs.json -> rust-create-cascade/src/clubcard_helper.rs"), ("differences between runs", "workflow/2-generate_mlbf"), ("what is published", "moz_kinto_publisher/main.py"), ("publishing job", "containers/scripts/crlite-publish.sh"), ("verdict", "rust-query-crlite/src/main.rs")])

prop("C27", "The audit report accounts for every CRL",
 "After a successful aggregation of the CRLs, the audit report is readable JSON and accounts for every CRL disclosed for every enrolled issuer, whatever the servers answered, whatever an earlier run left behind, whatever local operation failed and however the workers interleaved: each CRL is listed as used (with the number of its revocations and the hash of the very file that was used), or as empty, or with the reason why it was not used; a failed download, a failed verification, a stale file and a wrong distribution point are listed for every CRL they concern also if the run could make do without it; an issuer lacks a list of revocations exactly if the report names one of its CRLs as unusable; and the report lists nothing that did not happen: no entry twice, none of another run, none for another issuer or URL.",
 ["inputs", "faults", "interleavings", "histories"],
 "every pair of answers for two CRLs of an issuer, with every state of the earlier files and way of disclosure; every failing request pair, every failing local operation, every schedule of the workers within the bound",
 "Tests call each method of the auditor once; that something is reported wherever a CRL is lost is a property of all the paths of the downloader and both worker pools.",
 ["go/cmd/aggregate-crls", "go/downloader"],
 [("entries", "go/cmd/aggregate-crls/crl-auditor.go"), ("uses", "go/cmd/aggregate-crls/aggregate-crls.go crlFetchWorkerProcessOne, aggregateCRLWorker"), ("downloads", "go/downloader/verifying-downloader.go DownloadAndVerifyFileSync")])

prop("C28", "The ingester's health endpoint tells whether it is getting anywhere",
 "ct-fetch running forever answers every request to /health at once, in every state: 503 with a Retry-After header until it has finished something; 200 while it works, i.e. whenever a log's round of checking or downloading was finished, with what it delivered stored, or put off because the log did not answer, within the last two polling delays, however idle or busy the logs are, and again within one round once a cache that refused writes accepts them; and 500, and not 200, once nothing has been finished for more than two polling delays, because the cache refuses what was downloaded, every log's downloader has given up for good or no log is enrolled: attempts to store that fail do not count as progress.",
 ["schedules", "faults", "histories"],
 "every moment at which the cache starts to refuse writes or everything x its duration, every failing request, every sequence of lists of logs; the endpoint asked throughout; virtual time",
 "No test starts the endpoint; what it says depends on when which goroutine did what over hours.",
 ["go/cmd/ct-fetch"],
 [("endpoint", "go/cmd/ct-fetch/ct-fetch.go main"), ("useful work", "go/cmd/ct-fetch/ct-fetch.go SyncLog, insertCTWorker, RegisterUpdate"), ("liveness probe", "containers/crlite-fetch/pod.yaml")])

prop("C29", "Every log is followed in time, at a bearable rate",
 "Running forever, ct-fetch follows every enrolled log that answers and whose data verifies to its newest entry, back to its oldest one, and its coverage up to the time of the log's tree head, within three polling delays and a quarter of an hour, whatever the size of the log and of the batches, however it keeps growing, however many logs there are and whatever state the others are in. Trouble that passes (failing, hanging, malformed, empty, cut, short or rate-limited answers to any request; a cache that refuses writes) delays a log only for as long as it lasts and that long. Meanwhile no log is hammered: after a round that brought nothing new, or a failed request, it is left alone for about a polling delay (the client for tiled logs first repeats the request a few times, at growing intervals); after 'too many requests' for entries, for growing pauses of up to ten minutes; and no request is repeated at once without need.",
 ["schedules", "faults", "histories"],
 "sizes x batches x growth; every failing request x kind of failure x duration; every kind of permanent trouble of another log; every refused cache command x duration; up to 40 logs; virtual time",
 "No test lets the ingester run for more than one round; pace and lag show over hours.",
 ["go/cmd/ct-fetch"],
 [("what to do next", "go/cmd/ct-fetch/rfc6962.go NewLogWorker, go/cmd/ct-fetch/tiled.go NewTiledLogWorker"), ("pauses", "go/cmd/ct-fetch/rfc6962.go Run, sleep, downloadCTRangeToChannel; go/cmd/ct-fetch/tiled.go Run"), ("one downloader per log", "go/cmd/ct-fetch/ct-fetch.go SyncLog"), ("retries", "go/cmd/ct-fetch/ct-fetch.go insertCTWorker")])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
