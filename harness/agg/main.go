package main

import (
	"fmt"
	"os"
	"strings"

	sim "github.com/mozilla/crlite/go/verifsim"
)

func accept(prefixes ...string) func(string) bool {
	return func(key string) bool {
		for _, p := range prefixes {
			if strings.HasPrefix(key, p) {
				return true
			}
		}
		return false
	}
}

var rules = map[string]string{
	"C13": "Each execution lays out storage and cache (independent encoding), then runs the real aggregate-known with chosen contents, enrolment, worker counts, failing Redis commands and file operations, signals, crashes, worker orders, a concurrent ingester or another holder of the commit lock. Oracle: after a successful exit the known files equal storage's unexpired bins for exactly the enrolled issuers, the coverage file equals storage's, and every entry the coverage promises is in the output; undisturbed runs succeed.",
	"C14": "Each execution runs the real aggregate-crls on a CCADB report and a simulated web of CRLs (made by an independent encoder), with chosen CRLs, earlier files, answers, failing operations, signals, crashes and worker orders. Oracle: the lists of a successful run are the union of what the CRLs that must be used encode; an issuer with an unusable CRL has no list; enrolled.json is complete.",
	"C15": "Each execution is one history of downloads of a file from a simulated server by the real downloader (or the real aggregate-crls) with chosen answers, failing file operations, cancellations and crashes. After every step the file must hold its previous content or a complete verified version; the report of each run must agree with the file; an undisturbed last run must end with the current version.",
	"C16": "Each execution loads one CCADB report through the real rootprogram package and compares enrolled issuers, their CRLs, names and certificates with an independent search over all paths to an included root; saving and reloading is explored with failing file operations and crashes.",
	"C17": "Each execution gives one encoding of a CRL to the real aggregate-crls (or its decoder) and compares the list with what the independent encoder put in; malformed CRLs must not be taken for shorter ones.",
	"C27": "Each execution runs the real aggregate-crls on disclosed CRLs with chosen answers, distribution points, earlier files, failing requests and worker orders, and compares the entries of the audit report, URL by URL, with what was offered, and the revoked lists with the report.",
	"C18": "Each execution runs the real configuration code with chosen texts for the flag, the environment and the file (named or in the default place) and compares every option with the value its highest well-formed source gives.",
}

func main() {
	prop := os.Args[1]
	c := &sim.Check{Property: prop, Level: "model_checking", Rule: rules[prop], Assumptions: []string{
		"rename is atomic and renames reach the disk in order; power loss drops file data never fsynced",
		"the Go runtime, net/http above the transport and third-party libraries behave as compiled; map iteration order is fixed per execution and varied where stated",
	}}
	sim.Accept = accept(prop, "panic")
	switch prop {
	case "C13":
		c.Scenarios = knownScenarios()
	case "C14":
		c.Scenarios = crlScenarios()
	case "C15":
		c.Scenarios = downloadScenarios()
	case "C16":
		c.Scenarios = issuerScenarios()
	case "C17":
		c.Scenarios = decScenarios()
	case "C27":
		c.Scenarios = auditScenarios()
	case "C18":
		c.Scenarios = configScenarios()
	default:
		fmt.Println("unknown property", prop)
		os.Exit(3)
	}
	os.Exit(c.Main())
}
