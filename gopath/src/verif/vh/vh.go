// Package vh holds what the harness packages share: case accounting for the
// evidence file, tier-dependent case counts, and access to the interfaces of
// tricorder (in process, REST, text, HTML, Go RPC).
package vh

import (
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"pgregory.net/rapid"
)

type stats struct {
	Rule        string         `json:"rule"`
	Evaluations int            `json:"evaluations"`
	Nontrivial  int            `json:"distinct_nontrivial"`
	Labels      map[string]int `json:"labels"`
	Samples     []string       `json:"samples"`
	Known       []string       `json:"known"`
}

var (
	mu       sync.Mutex
	st       = stats{Labels: map[string]int{}}
	seen     = map[uint64]bool{}
	started  atomic.Int64 // when the running case began, 0 if none runs
	cmdFlags = flag.CommandLine
	tier     = os.Getenv("VERIF_TIER")
)

// Thorough tells whether this is a thorough run.
func Thorough() bool { return tier == "thorough" }

// N picks a count by tier.
func N(quick, thorough int) int {
	n := quick
	if Thorough() {
		n = thorough
	}
	if s := os.Getenv("VERIF_SCALE"); s != "" {
		f, err := strconv.ParseFloat(s, 64)
		if err == nil {
			n = int(float64(n)*f) + 1
		}
	}
	return n
}

// Seed is the run's seed, never 0.
func Seed() uint64 {
	n, _ := strconv.ParseUint(os.Getenv("VERIF_SEED"), 10, 63)
	return n*1000003 + 12345
}

// hang is how long a case may take before it counts as blocked for ever; cases
// take milliseconds.
const hang = 150 * time.Second

func watch() {
	for {
		time.Sleep(time.Second)
		if s := started.Load(); s != 0 && time.Since(time.Unix(0, s)) > hang {
			fmt.Printf("VERIF-HANG: a case did not finish within %v\n%s\n", hang, Stacks())
			os.Exit(1)
		}
	}
}

// Main runs the tests and writes the statistics for the runner. rule says how
// cases are made and which are non-trivial.
func Main(m *testing.M, rule string) {
	flag.Parse()
	st.Rule = rule
	go watch()
	cmdFlags.Set("rapid.seed", strconv.FormatUint(Seed(), 10))
	code := m.Run()
	if f := os.Getenv("VERIF_STATS"); f != "" {
		mu.Lock()
		b, _ := json.Marshal(&st)
		h := make([]byte, 0, 8*len(seen))
		for k := range seen {
			h = binary.BigEndian.AppendUint64(h, k)
		}
		mu.Unlock()
		err := os.WriteFile(f, b, 0o644)
		if err == nil {
			err = os.WriteFile(f+".h", h, 0o644)
		}
		if err != nil {
			fmt.Println("HARNESS-ERROR:", err)
			code = 3
		}
	}
	os.Exit(code)
}

// Check runs prop on quick or thorough many generated cases.
func Check(t *testing.T, quick, thorough int, prop func(*rapid.T)) {
	t.Helper()
	cmdFlags.Set("rapid.checks", strconv.Itoa(N(quick, thorough)))
	rapid.Check(t, func(t *rapid.T) {
		Begin()
		defer End()
		if Real {
			served.Store(rapid.IntRange(0, 7).Draw(t, "real server") == 7)
		}
		prop(t)
	})
}

// Begin and End bracket a case for the hang watchdog.
func Begin() { started.Store(time.Now().UnixNano()) }

// End see Begin.
func End() { started.Store(0) }

// Steps sets the average length of state machine runs.
func Steps(quick, thorough int) {
	n := quick
	if Thorough() {
		n = thorough
	}
	cmdFlags.Set("rapid.steps", strconv.Itoa(n))
}

// Case accounts for one generated case. desc describes it (and decides
// distinctness); nontrivial is the property's stated rule.
func Case(desc string, nontrivial bool, labels ...string) {
	mu.Lock()
	defer mu.Unlock()
	st.Evaluations++
	for _, l := range labels {
		st.Labels[l]++
	}
	if !nontrivial {
		st.Labels["trivial"]++
		return
	}
	h := fnv.New64a()
	h.Write([]byte(desc))
	k := h.Sum64()
	if seen[k] {
		return
	}
	seen[k] = true
	st.Nontrivial++
	n := st.Nontrivial
	if n == 1 || n == 20 || n == 200 || n == 1000 {
		if len(desc) > 1500 {
			desc = desc[:1500] + "..."
		}
		st.Samples = append(st.Samples, strings.ToValidUTF8(desc, "?"))
	}
}

// Label counts something seen during a case.
func Label(l string) {
	mu.Lock()
	st.Labels[l]++
	mu.Unlock()
}

// Within runs f and reports false if it has not returned after d. It is used
// only with generous bounds, for calls that must not block. Once it has
// reported false the case is lost, and shrinking need not be so patient.
func Within(d time.Duration, f func()) bool {
	if blocked.Load() && d > 5*time.Second {
		d = 5 * time.Second
	}
	done := make(chan struct{})
	go func() {
		defer close(done)
		f()
	}()
	select {
	case <-done:
		return true
	case <-time.After(d):
		blocked.Store(true)
		return false
	}
}

var blocked atomic.Bool

// After is like time.After, but shorter when something was blocked before,
// so that a failure can be shrunk.
func After(d time.Duration) <-chan time.Time {
	if blocked.Load() && d > 5*time.Second {
		d = 5 * time.Second
	}
	return time.After(d)
}

// Blocked records that something was blocked.
func Blocked() { blocked.Store(true) }

// Stacks returns all goroutine stacks.
func Stacks() string {
	b := make([]byte, 1<<20)
	return string(b[:runtime.Stack(b, true)])
}

// Panics runs f and tells whether it panicked, with the value.
func Panics(f func()) (did bool, val interface{}) {
	did = true
	defer func() {
		if did {
			val = recover()
		}
	}()
	f()
	did = false
	return
}
