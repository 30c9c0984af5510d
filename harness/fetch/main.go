package main

import (
	"fmt"
	"os"
	"strings"

	sim "github.com/mozilla/crlite/go/verifsim"
)

func accept(prefixes ...string) func(string) bool {
	return func(key string) bool {
		for _, p := range prefixes {
			if strings.HasPrefix(key, p) {
				return true
			}
		}
		return false
	}
}

var driven = "Each execution runs the real ct-fetch command (its main function) as a simulated process in a closed world: fake logs that hold real certificates, entries, signed heads and proofs, a simulated Redis, virtual time. All combinations of the scenario's sizes, batch sizes and choices, and all executions within the fault, crash and ordering budgets, are run; distinct_nontrivial counts distinct final outcomes. Oracle, after every step that changes the cache: "

var rules = map[string]string{
	"C08": driven + "saved progress only spans entries whose place in the log's consistency proof was served unaltered and which were delivered unaltered at least once, under a head signed by the log; an honest log is always ingested completely.",
	"C09": driven + "saved progress only spans entries whose serials are in the cache (unless expired or of a kind that is skipped), never shrinks, never claims coverage of an entry beyond it, carries the log's identity; once faults stop, every log of four or more entries is ingested completely.",
	"C10": driven + "as C08 and C09 for tiled logs (checkpoints, hash tiles, data tiles, issuers).",
	"C11": driven + "exactly the serials of the eligible entries (form of entry, serial, expiry, issuer) are in the cache under the issuer and bin of the certificate, and after the real commit command, in storage; twins of one issuer or serial stay apart.",
	"C12": driven + "a one-shot run ends with status 0 and only after every reachable enrolled log is complete; a stopped run stops with what it downloaded stored; logs are contacted exactly while enrolled, each by one worker.",
	"C29": driven + "the pace of the requests to every log, and how far behind each log that is in order its saved progress and coverage are.",
	"C28": driven + "the health endpoint is asked all along; every answer is judged by what the ingester has done.",
}

func main() {
	prop := os.Args[1]
	c := &sim.Check{Property: prop, Level: "model_checking", Rule: rules[prop], Assumptions: []string{
		"each Redis command is atomic and Redis keeps its data unless the scenario says otherwise",
		"logs hold at least four entries (smaller RFC 6962 logs are documented as skipped by the verifier)",
		"net/http above the round trip, go-redis, certificate-transparency-go, sunlight and the Go runtime behave as compiled",
	}}
	c.Scenarios = scenarios(prop)
	if c.Scenarios == nil {
		fmt.Println("unknown property", prop)
		os.Exit(3)
	}
	switch prop {
	case "C08":
		sim.Accept = accept("C08", "C12-crash", "panic")
	case "C09":
		sim.Accept = accept("C09", "C12-crash", "panic")
	case "C10":
		sim.Accept = accept("C10", "C11-invented", "C12-crash", "panic")
	case "C11":
		sim.Accept = accept("C11", "C12-crash", "panic")
	case "C12":
		sim.Accept = accept("C12-stuck", "C12-crash", "C12-exit", "C12-early-exit", "C12-not-enrolled", "C12-not-synced", "C12-twice", "C12-gap", "C12-not-stored", "C12-lost-progress", "panic")
	case "C29":
		sim.Accept = accept("C29", "C12-crash", "panic")
	case "C28":
		sim.Accept = accept("C28", "C12-crash", "panic")
	}
	os.Exit(c.Main())
}
