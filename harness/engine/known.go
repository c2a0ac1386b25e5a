package engine

import (
	"bytes"
	"encoding/json"
	"os"
	"path/filepath"
	"time"
)

// Known is an entry of known_findings.json.
type Known struct {
	Property string          `json:"property"`
	Status   string          `json:"status"` // "fixed" suppresses nothing; "known" lists one failing case
	What     string          `json:"what"`
	Commit   string          `json:"commit,omitempty"`
	Sub      string          `json:"sub,omitempty"`
	Case     json.RawMessage `json:"case,omitempty"`
}

func loadKnown() []Known {
	b, err := os.ReadFile(filepath.Join(*fVerif, "known_findings.json"))
	if err != nil {
		return nil
	}
	var f struct {
		Findings []Known `json:"findings"`
	}
	if json.Unmarshal(b, &f) != nil {
		return nil
	}
	return f.Findings
}

func canon(b []byte) []byte {
	var v any
	if json.Unmarshal(b, &v) != nil {
		return b
	}
	c, _ := json.Marshal(v)
	return c
}

func (k Known) matches(r *Replay) bool {
	return k.Status == "known" && k.Property == r.Property && k.Sub == r.Sub && bytes.Equal(canon(k.Case), canon(r.Case))
}

func (k Known) stillFails(work string) (bool, string) {
	s := find(k.Property, k.Sub)
	if s == nil {
		return false, ""
	}
	return runOne(&Replay{Property: k.Property, Sub: k.Sub, Mode: "case", Case: k.Case}, s.Binary, work, hangCPU, 60*time.Second).bad()
}
