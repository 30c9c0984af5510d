package main

import (
	"fmt"
	"os"
	"strings"

	sim "github.com/mozilla/crlite/go/verifsim"
)

func accept(prefixes ...string) func(string) bool {
	return func(key string) bool {
		for _, p := range prefixes {
			if strings.HasPrefix(key, p) {
				return true
			}
		}
		return false
	}
}

var sched = "Each execution drives the real CertDatabase/RedisCache code in a closed world; choices are which process or goroutine performs its next Redis command or file operation, which operation fails and how, and where a process dies (kill or power loss). All executions within the stated deviation budgets are run; distinct_nontrivial counts distinct final outcomes (storage, cache, epochs, coverage, elapsed time). "

var rules = map[string]string{
	"C01": sched + "Oracle: after every step, every serial covered by the coverage file on disk (recomputed from the ingestion record) is in its serial file, and every file parses completely.",
	"C02": sched + "Oracle: after every step, every acknowledged serial is in the cache or in storage; nothing is stored that was not ingested under that issuer and bin.",
	"C03": sched + "Oracle: after recovery the storage holds every covered serial, the cache exactly the uncovered ones, coverage equals the ingester's progress.",
	"C04": "Each execution is one history of ingest, commit, cache loss, cache rollback and restart operations (plus crash and fault choices inside them) on the real code. Oracle: a small reference machine of epochs, positions and stored entries; commits on a mismatching cache must leave storage untouched; restart must restore exactly the stored positions; a matching cache is never reset.",
	"C05": "Each execution is one interleaving, at Redis command granularity, of two or three processes that acquire, check, use, release or abandon the lock (with lost replies and lapse). Oracle: ghost ownership derived from the replies; refused operations leave the dump of server and storage unchanged; progress after lapse.",
	"C06": "Each execution is one certificate NotAfter (instant x encoding x zone), or one combination of bins and commit instants. Oracle: an independent calendar computation of the bin and its end.",
	"C07": "Each execution is one sequence of cache operations on the real RedisCache (sets, logs, faults, batches) or one block of command sequences sent to both the simulated and the installed redis-server. Oracle: a reference model of sets with expiry, log records, epoch; distinct_nontrivial counts distinct final model states.",
}

func main() {
	prop := os.Args[1]
	if os.Getenv("VERIF_SHARD") != "" || os.Getenv("VERIF_REPLAY") != "" {
		// renameio then writes its temporary files beside their destination
		os.Setenv("TMPDIR", "/nonexistent-verif")
	}
	c := &sim.Check{Property: prop, Level: "model_checking", Rule: rules[prop], Assumptions: []string{
		"each Redis command is atomic and Redis keeps its data unless the scenario says otherwise",
		"rename is atomic and renames reach the disk in order (directory entries are not fsynced by the code); power loss drops file data never fsynced",
		"Go runtime, go-redis and renameio behave as compiled; map iteration order is fixed per run and varied over seeds",
	}}
	switch prop {
	case "C01":
		sim.Accept = accept("C01", "panic")
		c.Scenarios = commitScenarios()
	case "C02":
		sim.Accept = accept("C02", "panic")
		c.Scenarios = append(commitScenarios(), bigScenarios()...)
	case "C03":
		sim.Accept = accept("C03", "panic")
		c.Scenarios = append(commitScenarios(), bigScenarios()...)
	case "C04":
		sim.Accept = accept("C04", "panic", "cache-lost-before-first-commit", "uncovered-serials-lost-with-cache")
		c.Scenarios = cacheScenarios()
	case "C05":
		sim.Accept = accept("C05", "panic")
		c.Scenarios = lockScenarios()
	case "C06":
		sim.Accept = accept("C06", "panic")
		c.Scenarios = expiryScenarios()
	case "C07":
		sim.Accept = accept("C07", "panic", "harness-conformance")
		c.Scenarios = modelScenarios()
	default:
		fmt.Println("unknown property", prop)
		os.Exit(3)
	}
	os.Exit(c.Main())
}
