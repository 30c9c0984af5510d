SCHED = "deviation-bounded exhaustive exploration of the real Go code in a controlled world (schedules, crash points, faults)"
CHECKS = {
 "C01": dict(technique=SCHED, note="All executions within the stated budgets (up to 2 preemptions / 1 crash + 1 fault / 2 faults) of the real commit against the simulated Redis and a real directory, invariant evaluated independently after every step. Assumes Redis command atomicity, atomic ordered renames, and the Go runtime and third-party libraries as compiled."),
 "C02": dict(technique=SCHED, note="As C01 plus bins and bin counts around the internal batch sizes and paged/duplicating scans; the cache itself is assumed not to be lost."),
 "C03": dict(technique=SCHED, note="Every explored interrupted commit is followed by the documented recovery (restart ct-fetch, commit again, commit once more) and must end complete."),
 "C04": dict(technique="exhaustive enumeration of operation histories with faults and crashes on the real code", note="All histories up to the depth over ingest/commit/lose/roll back/restart, plus crash and fault budgets; excluded: rollback to a snapshot of the same epoch, two ingesters at once. Two known findings (see known_findings.txt) do not stop the exploration."),
 "C05": dict(technique="exhaustive exploration of all interleavings of Redis commands of 2 and 3 lock users on the real code", note="All interleavings at command granularity for 2 and 3 processes with lost replies and lock lapses; assumes a holder does not stall past its 4 h lease between two commands of one commit."),
 "C06": dict(technique="exhaustive enumeration of boundary inputs and commit instants on the real code under a virtual clock", note="NotAfter grid (boundaries x zones x encodings), commit instants around every bin boundary, for one and two bins and both resolutions, against an independent calendar oracle."),
 "C07": dict(technique="exhaustive enumeration of operation sequences on the real RedisCache against a reference model, with model-to-server conformance", note="All sequences up to the depth over the stated alphabet, all scan pagings, all single failing commands; the simulated server is compared command by command with the installed redis-server on all command sequences of length 3 (4 in thorough)."),
 "C08": dict(technique="exhaustive enumeration of corrupted answers on the real ct-fetch under a controlled world", note="Tree sizes up to 20 (quick) / 40 (thorough) with batch sizes 1-16, every single corruption of every answer (leaves, proof hashes, tree heads), pairs and triples for one size; independent RFC 6962 tree. The proof is not checked against the tree head by the code (documented TODO), extra_data is unauthenticated."),
 "C09": dict(technique=SCHED, note="All sizes/batches/growth/restart histories within the stated bounds, up to 2 faults or crashes per history, after each step an oracle over saved progress and the cache; liveness: ingestion is complete once faults stop. Logs of at most three entries are documented as not ingested."),
 "C10": dict(technique=SCHED, note="As C09 for tiled logs, including logs around the 256-entry tile boundary, partial tiles, and every single corruption of checkpoints, tiles and issuers."),
 "C11": dict(technique="exhaustive enumeration of entry forms on the real ct-fetch and commit commands", note="All combinations of log kind, entry kind, certificate and issuer form, serial form, time encoding, place in the log and chain shape from boundary alphabets, followed through cache and persistent storage; bytes built by an independent encoder."),
 "C12": dict(technique=SCHED, note="All orders of wait-group, channel-visible and Redis/HTTP operations within the intra-process budget for one to three logs, SIGTERM at every operation, all enrolment histories of 3-4 updates, single and double faults. The health endpoint is not covered."),
 "C13": dict(technique=SCHED, note="Contents (bins, issuers, boundary instants, damaged files), up to 2 failing operations (thorough 3), crash points incl. power loss, worker orders, up to 25 000 serials in up to 2 001 bins, an ingester running alongside and holders of the commit lock. The documented recovery (an ingester restart) may be needed after Redis failures."),
 "C14": dict(technique=SCHED, note="Every pair of 17 kinds of answers for the two CRLs of an issuer with and without earlier (possibly damaged) files; every single fault, pair of faults, signal point and crash, and worker orders within the budgets on two to three issuers; CRLs of up to 40 000 (thorough 300 000) entries. An IDP mismatch is only audited by the program and is not judged; a CRL older than the cached one is not refused."),
 "C15": dict(technique=SCHED, note="Histories of two downloads with up to 2 (thorough 3) faults and of three downloads with a fault and 1-2 crashes incl. power loss, on the real downloader; all pairs of 44 URLs through aggregate-crls with four second-run outages. After a crash a leftover temporary may be taken as up to date for one run (an older valid version, never an invalid one)."),
 "C16": dict(technique="exhaustive enumeration of small PKI graphs, reports and disclosures on the real rootprogram package", note="All graphs of three intermediates (parents x 14 certificate variants x root situations), of four certificates with a shared name and key, chains of up to ten, three certificates per key with all disclosure shapes under several map orders, odd rows, odd certificates and mangled reports, pairs of 18 URLs in 8 list notations, and saving/obtaining with faults and crashes. Path lengths on the direct parent and non-CA certificates are not judged; a report that is not well-formed CSV may be refused as a whole."),
 "C17": dict(technique="exhaustive enumeration of CRL encodings on the real aggregate-crls and decoder", note="54 reason forms x 15 serial forms in every pair, places in the list, CRL shapes, dates and versions, and 21 malformed structures, made by an independent byte-level encoder. Ten malformed TBSCertList structures that the decoder skips over are known findings."),
 "C18": dict(technique="exhaustive enumeration of configuration sources on the real configuration code", note="Every option x {absent, valid, odd, malformed} texts of flag, environment and file (three notations, named or default place, or both), all pairs of options with seven situations each, and malformed files; all 17 options are compared every time. Only batchSize has a flag; the flag's zero value counts as unset."),
}
PY = "exhaustive exploration of states, histories, failing requests and crash points of the real %s in a controlled world"
CHECKS.update({
 "C19": dict(technique=PY % "publisher (Python)", note="All published record states over the stated alphabet (single and paired deviations from a consistent chain), all outcomes of up to four runs, all single failing or half-done requests and crashes in one and in two successive publisher runs, and runs that appear while the publisher waits. Storage and record server are in-memory stand-ins; two publishers at once are excluded."),
 "C20": dict(technique=PY % "publisher (Python)", note="All states of up to three (thorough four) intermediates over record/list variants (shared names and keys, other attachments, malformed records), with every single failing request or crash, pairs of them, and failures in two successive runs."),
 "C21": dict(technique=PY % "publisher (Python)", note="All pairs of published records and source list over one and two logs (thorough three) with all states, operators and malformed shapes, lists that change between runs, failing requests and crashes in pairs. Logs without a state, operators without tiled_logs and records without an enrolment flag are not judged."),
 "C22": dict(technique=PY % "workflow scripts (Python and shell)", note="All sets of existing identifiers up to the stated size, all pairs of identifiers and object layouts of the reader, and every failing or killed step (and storage operation) of the real crlite-generate.sh driven with stand-in tools."),
 "C23": dict(technique="exhaustive enumeration of inputs, histories, directory and task orders, failing file operations and kill points of the real filter generator (Rust), run as a process with contract stand-ins for the filter libraries", note="All combinations for up to three issuers over small serial alphabets, all evolutions over two (thorough three) runs, every nth file operation failing or killing, on the compiled generator; the libraries that encode the filters are stand-ins that keep exactly what they are given."),
 "C24": dict(technique=PY % "sign-off tool and script (Python and shell)", note="All collection states, answers, malformed answers and failures, all changes by others between the tool's requests, all sizes around the limit. One known finding."),
 "C25": dict(technique="exhaustive enumeration of databases, certificates, published collections, failing requests, failing file operations and kill points of the real query tool (Rust), run as a process with stand-ins for network, TLS, certificate and filter libraries", note="All certificates of the alphabet against all sets of up to two (thorough three) filters and seven enrolled lists; all pairs of previous and published databases; every failing answer and file operation; every kill point."),
 "C26": dict(technique="exhaustive enumeration of histories of the whole system, every program real, in one controlled world", note="All of 22 events in the life of the system and all pairs of them (thorough: at either of two steps), over three runs, with all choices of when the publisher runs and the client updates, on a population of some 100 certificates with every fate; every fate alone; and a kill of any Go program of the first two runs before any operation, or of the run around any command, followed by a new start; every way of configuring the publishing job, with and without failures. crlite-generate.sh, crlite-publish.sh, the workflow scripts and all programs are the real ones. Other failures are explored by C01-C25; CT logs, CRL servers, Redis, bucket, Kinto and the filter library are stand-ins."),
 "C27": dict(technique=SCHED, note="All pairs of 18 answers for two CRLs of an issuer x three states of the earlier run x three ways of disclosure; two runs in a row; every schedule with up to 2 preemptions of the workers on two issuers; every pair of failing requests (up to all retries) and every single failing local operation. A report that cannot be written at the end only warns, and is not judged."),
 "C29": dict(technique=SCHED, note="One log of any of some sizes, growing in every of some ways; two logs, of which one meets every kind of failure, for one request or three longer times, from every request of the first three polling delays on (thorough: two such times), or is out of order for good in 16 ways; 12 or 40 logs; Redis refuses writes from every command on for 1, 40 or 100 minutes. Failures of Redis reads end a downloader until the log is enrolled again or ct-fetch restarted (by design) and are left out."),
 "C28": dict(technique=SCHED, note="One or two logs (RFC 6962, tiled), two polling delays, growing or idle; Redis refuses writes or everything from every command on, for 0.5, 2 or 6 polling delays; every failing request (quick: one, thorough: two); every sequence of four lists of logs. Asked every eighth of a polling delay. Between the moments at which 200 and 500 are certain, either is accepted."),
})
NA = {}
for p in props:
    NA.setdefault(p["id"], "no check built yet")
