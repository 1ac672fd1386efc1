package main

import (
	"encoding/json"
	"os"
	"regexp"

	"verif.local/sim/h"
)

// finding is an entry of known-findings.json.  Only entries with status "open"
// suppress anything; "fixed" entries are a record.
type finding struct {
	ID       string `json:"id"`
	Property string `json:"property"`
	Status   string `json:"status"`
	What     string `json:"what"`
	Class    string `json:"class,omitempty"`
	Match    string `json:"match,omitempty"`
	re       *regexp.Regexp
}

func loadKnown() []*finding {
	f := os.Getenv("SIM_KNOWN")
	if f == "" {
		return nil
	}
	b, err := os.ReadFile(f)
	if err != nil {
		return nil
	}
	var doc struct {
		Findings []*finding `json:"findings"`
	}
	if err := json.Unmarshal(b, &doc); err != nil {
		fatal("known findings: %v", err)
	}
	var out []*finding
	for _, k := range doc.Findings {
		if k.Status == "open" {
			k.re = regexp.MustCompile(k.Match)
			out = append(out, k)
		}
	}
	return out
}

func matchKnown(l []*finding, prop string, o *h.Outcome) *finding {
	for _, k := range l {
		if k.Property == prop && k.Class == o.Class && k.re.MatchString(o.Msg) {
			return k
		}
	}
	return nil
}
