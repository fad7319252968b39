package c12

import (
	"encoding/json"
	"fmt"
	"math"
	"runtime"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/Symantec/tricorder/go/tricorder"
	"github.com/Symantec/tricorder/go/tricorder/messages"
	"github.com/Symantec/tricorder/go/tricorder/units"
	"pgregory.net/rapid"
	"verif/vh"
)

func TestMain(m *testing.M) {
	vh.Main(m, "a case is a set of 2 to 4 generated scripts of adds, updates and removals run at once on one distribution while 1 to 3 readers read it through generated interfaces; every snapshot must decode to one position in each script, within what had started and finished; non-trivial if some snapshot was taken in the middle of the scripts; distinct by scripts")
}

// Worker w owns nb buckets; its value in bucket j is (j+1)*base^w, so that the
// sum of a snapshot, written in that base, tells the sum each worker holds.
const (
	nb   = 3
	base = 1 << 12
)

func val(w, j int) float64 { return float64(j+1) * math.Pow(base, float64(w)) }

type op struct {
	kind     byte // '+', '>', '-'
	old, new int
}

// state is what a worker holds after a prefix of its script.
type state struct {
	counts   [nb]uint64
	sum      uint64 // in units of base^w
	min, max int    // bucket limits ever held, or -1
}

type worker struct {
	script  []op
	states  []state
	started atomic.Int64
	done    atomic.Int64
}

func genWorker(t *rapid.T, n int, cumulative bool) *worker {
	w := &worker{states: []state{{min: -1, max: -1}}}
	s := w.states[0]
	for i := 0; i < n; i++ {
		var o op
		held := s.counts[0] + s.counts[1] + s.counts[2]
		kinds := []byte{'+'}
		if !cumulative && held > 0 {
			kinds = []byte{'+', '+', '>', '>', '-'}
		}
		if held > 200 {
			kinds = []byte{'>', '-'}
			if cumulative {
				break
			}
		}
		o.kind = rapid.SampledFrom(kinds).Draw(t, "op")
		if o.kind != '+' {
			var have []int
			for j := range s.counts {
				if s.counts[j] > 0 {
					have = append(have, j)
				}
			}
			o.old = rapid.SampledFrom(have).Draw(t, "old")
			s.counts[o.old]--
			s.sum -= uint64(o.old + 1)
		}
		if o.kind != '-' {
			o.new = rapid.IntRange(0, nb-1).Draw(t, "new")
			s.counts[o.new]++
			s.sum += uint64(o.new + 1)
			if s.min < 0 || o.new < s.min {
				s.min = o.new
			}
			if o.new > s.max {
				s.max = o.new
			}
		}
		w.script = append(w.script, o)
		w.states = append(w.states, s)
	}
	return w
}

type snap struct {
	d      *messages.Distribution
	lo, hi []int64 // per worker: finished before the read, started by its end
}

func read(how int) (*messages.Distribution, error) {
	switch how {
	case 1:
		m, err := vh.RpcGet("/vp/d")
		if err != nil {
			return nil, err
		}
		return m.Value.(*messages.Distribution), nil
	case 2:
		l, err := vh.RestList("/vp/d")
		if err != nil {
			return nil, err
		}
		var d messages.Distribution
		err = json.Unmarshal(l[0].Value, &d)
		return &d, err
	}
	l := tricorder.ReadMyMetrics("/vp/d")
	if len(l) != 1 {
		return nil, fmt.Errorf("%d metrics", len(l))
	}
	return l[0].Value.(*messages.Distribution), nil
}

const anchor = 0.5 // held throughout, in the first bucket

// judge decodes a snapshot. It returns what is wrong.
func judge(s *snap, ws []*worker, non bool) (wrong string, middle bool) {
	d := s.d
	var n uint64
	for _, r := range d.Ranges {
		n += r.Count
	}
	if n != d.Count {
		return fmt.Sprintf("bucket counts add up to %d, count is %d", n, d.Count), false
	}
	if d.Count == 0 || d.Average != d.Sum/float64(d.Count) {
		return fmt.Sprintf("average %v, sum %v, count %d", d.Average, d.Sum, d.Count), false
	}
	if d.IsNotCumulative != non {
		return "kind changed", false
	}
	if d.Ranges[0].Count != 1 {
		return fmt.Sprintf("first bucket has %d values, holds 1", d.Ranges[0].Count), false
	}
	if d.Median < d.Min || d.Median > d.Max*(1+1e-9) {
		return fmt.Sprintf("median %v outside %v..%v", d.Median, d.Min, d.Max), false
	}
	rest := d.Sum - anchor
	if rest < 0 || rest != math.Trunc(rest) || rest >= 1<<53 {
		return fmt.Sprintf("sum %v is not a sum of values added", d.Sum), false
	}
	digits := uint64(rest)
	var held uint64
	gens := map[uint64]bool{0: true}
	for i, w := range ws {
		sum := digits % base
		digits /= base
		var counts [nb]uint64
		for j := range counts {
			counts[j] = d.Ranges[1+i*nb+j].Count
			held += counts[j]
		}
		var at []uint64
		for p := s.lo[i]; p <= s.hi[i]; p++ {
			st := &w.states[p]
			if st.counts != counts || st.sum != sum {
				continue
			}
			// the last worker's values are the largest
			if i == len(ws)-1 && st.max >= 0 && d.Max != val(i, st.max) {
				continue
			}
			at = append(at, uint64(p))
		}
		if len(at) == 0 {
			return fmt.Sprintf("worker %d: bucket counts %v with sum %d (max %v) are no state between its operations %d and %d", i, counts, sum, d.Max, s.lo[i], s.hi[i]), false
		}
		if s.lo[i] > 0 && s.hi[i] < int64(len(w.script)) {
			middle = true
		}
		next := map[uint64]bool{}
		for g := range gens {
			for _, p := range at {
				next[g+p] = true
			}
		}
		gens = next
	}
	if digits != 0 {
		return fmt.Sprintf("sum %v is not a sum of values added", d.Sum), false
	}
	if held+1 != d.Count {
		return fmt.Sprintf("count %d, buckets of the workers hold %d", d.Count, held), false
	}
	if d.Generation == 0 || !gens[d.Generation-1] {
		return fmt.Sprintf("generation %d does not match the operations the counts and sum show", d.Generation), false
	}
	if d.Min != anchor {
		return fmt.Sprintf("min %v", d.Min), false
	}
	return "", middle
}

func TestConcurrent(t *testing.T) {
	vh.Check(t, 500, 6000, func(t *rapid.T) {
		vh.Reset()
		defer vh.Reset()
		k := rapid.IntRange(2, 4).Draw(t, "workers")
		cum := rapid.IntRange(0, 3).Draw(t, "cum") == 0
		n := rapid.SampledFrom([]int{5, 40, 150, 150}).Draw(t, "ops")
		ends := []float64{0.75}
		var ws []*worker
		for i := 0; i < k; i++ {
			ws = append(ws, genWorker(t, n, cum))
			for j := 0; j < nb; j++ {
				ends = append(ends, val(i, j)*1.25) // just above value j
			}
		}
		// the last endpoint opens a bucket that stays empty; sometimes there
		// are more such
		for n := rapid.SampledFrom([]int{0, 0, 8, 40, 150}).Draw(t, "empty buckets"); n > 0; n-- {
			ends = append(ends, ends[len(ends)-1]+1)
		}
		b := tricorder.NewArbitraryBucketer(ends...)
		var non *tricorder.NonCumulativeDistribution
		var c *tricorder.CumulativeDistribution
		var add func(interface{})
		if cum {
			c = b.NewCumulativeDistribution()
			vh.Must(t, tricorder.RegisterMetric("/vp/d", c, units.None, ""), "register")
			add = c.Add
		} else {
			non = b.NewNonCumulativeDistribution()
			vh.Must(t, tricorder.RegisterMetric("/vp/d", non, units.None, ""), "register")
			add = non.Add
		}
		add(anchor)
		var wg, rg sync.WaitGroup
		var stop atomic.Bool
		go1 := make(chan struct{})
		for i, w := range ws {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-go1
				for p, o := range w.script {
					w.started.Store(int64(p + 1))
					switch o.kind {
					case '+':
						add(val(i, o.new))
					case '>':
						non.Update(val(i, o.old), val(i, o.new))
					default:
						non.Remove(val(i, o.old))
					}
					w.done.Store(int64(p + 1))
					if p%7 == i {
						runtime.Gosched()
					}
				}
			}()
		}
		hows := make([]int, rapid.IntRange(1, 3).Draw(t, "readers"))
		snaps := make([][]*snap, len(hows))
		errs := make([]error, len(hows))
		for r := range hows {
			hows[r] = rapid.IntRange(0, 4).Draw(t, "how")
		}
		for r, how := range hows {
			rg.Add(1)
			go func() {
				defer rg.Done()
				<-go1
				for last := false; !last && len(snaps[r]) < 4000; {
					last = stop.Load()
					s := &snap{}
					for _, w := range ws {
						s.lo = append(s.lo, w.done.Load())
					}
					var err error
					if s.d, err = read(how); err != nil {
						errs[r] = err
						return
					}
					for _, w := range ws {
						s.hi = append(s.hi, w.started.Load())
					}
					snaps[r] = append(snaps[r], s)
				}
			}()
		}
		close(go1)
		ok := vh.Within(100*time.Second, func() { wg.Wait(); stop.Store(true); rg.Wait() })
		if !ok {
			t.Fatalf("blocked: the operations did not finish\n%s", vh.Stacks())
		}
		middle, total := 0, 0
		for r := range snaps {
			if errs[r] != nil {
				t.Fatalf("read failed: %v", errs[r])
			}
			var gen uint64
			for _, s := range snaps[r] {
				if s.d.Generation < gen {
					t.Fatalf("generation went back from %d to %d", gen, s.d.Generation)
				}
				gen = s.d.Generation
				wrong, mid := judge(s, ws, !cum)
				if wrong != "" {
					t.Fatalf("snapshot %+v: %s", *s.d, wrong)
				}
				total++
				if mid {
					middle++
				}
			}
		}
		// at the end nothing is lost or applied twice
		d, err := read(0)
		vh.Must(t, err, "read")
		s := &snap{d: d}
		for _, w := range ws {
			s.lo = append(s.lo, int64(len(w.script)))
			s.hi = append(s.hi, int64(len(w.script)))
		}
		if wrong, _ := judge(s, ws, !cum); wrong != "" {
			t.Fatalf("at the end, %+v: %s", *d, wrong)
		}
		if non != nil && (non.Count() != d.Count || non.Sum() != d.Sum) {
			t.Fatalf("Count %d Sum %v, reported %d and %v", non.Count(), non.Sum(), d.Count, d.Sum)
		}
		desc := fmt.Sprint("cum ", cum, " readers ", hows)
		for _, w := range ws {
			desc += " |"
			for _, o := range w.script {
				desc += fmt.Sprintf(" %c%d%d", o.kind, o.old, o.new)
			}
		}
		for i := 0; i < middle; i++ {
			vh.Label("snapshots in the middle")
		}
		vh.Case(desc, middle > 0)
	})
}

// Everything at once on one distribution, also registration at further paths,
// Sum and Count: the final state adds up and nothing races.
func TestStress(t *testing.T) {
	vh.Check(t, 40, 400, func(t *rapid.T) {
		vh.Reset()
		defer vh.Reset()
		d := tricorder.PowersOfTwo.NewNonCumulativeDistribution()
		u := rapid.SampledFrom([]units.Unit{units.None, units.Second, units.Millisecond}).Draw(t, "unit")
		k := rapid.IntRange(2, 8).Draw(t, "workers")
		n := rapid.IntRange(10, 300).Draw(t, "ops")
		var wg sync.WaitGroup
		// values that come before the first registration are refused
		var early atomic.Int64
		if rapid.Bool().Draw(t, "early") {
			start := make(chan struct{})
			for w := 0; w < k; w++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					<-start
					for i := 0; i < 20; i++ {
						if refused, _ := vh.Panics(func() { d.Add(1.0) }); !refused {
							early.Add(1)
						}
					}
				}()
			}
			close(start)
			time.Sleep(time.Duration(rapid.IntRange(0, 40).Draw(t, "us")) * time.Microsecond)
		}
		vh.Must(t, tricorder.RegisterMetric("/vp/d", d, u, ""), "register")
		for w := 0; w < k; w++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := 0; i < n; i++ {
					switch {
					case u == units.None:
						d.Add(float32(w + 1))
					case u == units.Second:
						d.Add(time.Duration(w+1) * time.Second)
					default:
						d.Add(time.Duration(w+1) * time.Millisecond)
					}
					switch i % 4 {
					case 0:
						d.Update(float64(w+1), float64(w+2))
					case 1:
						d.Remove(float64(w + 1))
					case 2:
						d.UpdateMinMax()
						_, _ = d.Sum(), d.Count()
					default:
						tricorder.RegisterMetric(fmt.Sprintf("/vp/x%d_%d", w, i), d, u, "")
						tricorder.RegisterMetric(fmt.Sprintf("/vp/y%d_%d", w, i), d, units.Celsius, "")
					}
				}
			}()
		}
		for r := 0; r < 2; r++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := 0; i < n/4; i++ {
					vh.Get("/metrics/vp/d")
					vh.Get("/metrics/vp/d?format=text")
					vh.Get("/metricsapi/vp/d")
				}
			}()
		}
		if !vh.Within(100*time.Second, wg.Wait) {
			t.Fatalf("blocked\n%s", vh.Stacks())
		}
		count := uint64(early.Load())
		sum := float64(count)
		for w := 0; w < k; w++ {
			for i := 0; i < n; i++ {
				count++
				sum += float64(w + 1)
				switch i % 4 {
				case 0:
					sum++
				case 1:
					count--
					sum -= float64(w + 1)
				}
			}
		}
		m := tricorder.ReadMyMetrics("/vp/d")[0].Value.(*messages.Distribution)
		if m.Count != count || m.Sum != sum || d.Count() != count || d.Sum() != sum {
			t.Fatalf("count %d sum %v, want %d and %v", m.Count, m.Sum, count, sum)
		}
		if gen := uint64(k*(n+(n+3)/4+(n+2)/4)) + uint64(early.Load()); m.Generation != gen {
			t.Fatalf("generation %d after %d changes", m.Generation, gen)
		}
		if early.Load() > 0 && early.Load() < int64(20*k) {
			vh.Label("registered amid adds")
		}
		vh.Case(fmt.Sprint("stress ", u, k, n), true)
	})
}
