package pbt

import (
	"encoding/json"
	"os"
)

// Outcome of an ad-hoc run (development).
func Adhoc(seed uint64, c Check) (outcome, msg, desc string) {
	r := runOne(c, newRandom(seed))
	return r.outcome, r.msg, r.t.Desc()
}

// Again replays a file n times in this process and counts the outcomes
// (development).
func Again(path string, n int) map[string]int {
	b, err := os.ReadFile(path)
	if err != nil {
		die("%v", err)
	}
	var rf replayFile
	if err := json.Unmarshal(b, &rf); err != nil {
		die("%v", err)
	}
	out := map[string]int{}
	for _, q := range Registry[rf.Property].Parts {
		if q.Name == rf.Part {
			for i := 0; i < n; i++ {
				r := runOne(q.Check, newReplay(rf.Choices))
				out[r.outcome+": "+r.msg]++
			}
		}
	}
	return out
}
