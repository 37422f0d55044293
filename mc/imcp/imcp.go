// Package imcp is the protocol between mc and imc.
package imcp

import "fmt"

type Request struct {
	Op       string
	Texts    []string
	Expect   []string `json:",omitempty"` // the results the texts have alone
	Warm     []string `json:",omitempty"` // texts that are parsed before
	Live     []int    `json:",omitempty"` // shared variables whose uses are scheduling points
	Every    bool     `json:",omitempty"` // function entries are scheduling points
	Bound    int      `json:",omitempty"`
	Shard    int      `json:",omitempty"`
	Shards   int      `json:",omitempty"`
	Millis   int      `json:",omitempty"`
	Plan     []int    `json:",omitempty"`
	Quantum  int      `json:",omitempty"` // the base schedule goes round the threads after so many points
	Backward bool     `json:",omitempty"`
	Scribble []bool   `json:",omitempty"`

	Probes      []string `json:",omitempty"`
	ProbeExpect []string `json:",omitempty"`
	Rounds      int      `json:",omitempty"`
	Limits      []int64  `json:",omitempty"`
}

type Answer struct {
	Fail       string
	Plan       []int    `json:",omitempty"`
	Dumps      []string `json:",omitempty"`
	Points     []int64  `json:",omitempty"`
	Written    []int    `json:",omitempty"`
	Choices    []int    `json:",omitempty"` // numbers of runnable threads at the choices, negative if the current one can continue
	Executions int64
	States     int64
	Diverged   int64
	MaxPoints  int64
	Complete   bool

	// Uncontrolled: the code under test uses goroutines that the scheduler does not control.
	Uncontrolled bool `json:",omitempty"`
}

// Diff shows where two texts differ.
func Diff(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	from := i - 60
	if from < 0 {
		from = 0
	}
	cut := func(s string) string {
		to := i + 100
		if to > len(s) {
			to = len(s)
		}
		if from > len(s) {
			return ""
		}
		return s[from:to]
	}
	return fmt.Sprintf("expected ...%q, is ...%q", cut(a), cut(b))
}
