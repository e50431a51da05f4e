package main

import (
	"encoding/json"
	"os"
	"regexp"
)

// KnownFinding is a defect that is recorded rather than repaired.
type KnownFinding struct {
	ID       string `json:"id"`
	Property string `json:"property"`
	Kind     string `json:"kind"`
	Match    string `json:"match"` // regular expression on the violation's message
	Title    string `json:"title"`
	re       *regexp.Regexp
}

var knownFindings []*KnownFinding

func loadKnown(path string) {
	b, err := os.ReadFile(path)
	if err != nil {
		return
	}
	var f struct {
		Findings []*KnownFinding `json:"findings"`
	}
	if err := json.Unmarshal(b, &f); err != nil {
		panic("known findings: " + err.Error())
	}
	for _, k := range f.Findings {
		k.re = regexp.MustCompile(k.Match)
	}
	knownFindings = f.Findings
}

func matchKnown(prop, kind, msg string) string {
	for _, k := range knownFindings {
		if k.Property == prop && k.Kind == kind && k.re.MatchString(msg) {
			return k.ID
		}
	}
	return ""
}
