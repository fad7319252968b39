package vh

import (
	"fmt"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/Symantec/tricorder/go/tricorder"
	"github.com/Symantec/tricorder/go/tricorder/messages"
	"pgregory.net/rapid"
)

// Req is a request whose answer does not depend on when it is made.
type Req struct {
	What string
	Do   func() string
}

// Parallel makes the requests one after the other, then from several
// goroutines at once, where each has to give the same answer. It returns what
// is wrong, or "".
func Parallel(t *rapid.T, reqs []Req) string {
	if len(reqs) > 10 {
		all := reqs
		reqs = nil
		for _, i := range rapid.SliceOfNDistinct(rapid.IntRange(0, len(all)-1), 2, 10, rapid.ID[int]).Draw(t, "requests") {
			reqs = append(reqs, all[i])
		}
	}
	want := make([]string, len(reqs))
	for i, r := range reqs {
		want[i] = r.Do()
	}
	workers := rapid.IntRange(2, 6).Draw(t, "workers")
	rounds := rapid.SampledFrom([]int{5, 10, 30}).Draw(t, "rounds")
	plans := make([][]int, workers)
	for w := range plans {
		plans[w] = rapid.SliceOfN(rapid.IntRange(0, len(reqs)-1), 1, 6).Draw(t, "plan")
	}
	var bad atomic.Value
	var at atomic.Int64
	var wg sync.WaitGroup
	for _, plan := range plans {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if p := recover(); p != nil {
					bad.Store(fmt.Sprintf("a request panics while others run: %v", p))
				}
			}()
			at.Add(1)
			for at.Load() < int64(workers) {
				time.Sleep(0)
			}
			for k := 0; k < rounds*len(plan) && bad.Load() == nil; k++ {
				i := plan[k%len(plan)]
				if got := reqs[i].Do(); got != want[i] {
					bad.Store(fmt.Sprintf("%s alone: %s\nwhile others run: %s", reqs[i].What, Clip(want[i]), Clip(got)))
				}
			}
		}()
	}
	if !Within(100*time.Second, wg.Wait) {
		return "blocked\n" + Stacks()
	}
	if b := bad.Load(); b != nil {
		return b.(string)
	}
	return ""
}

// Clip shortens a text for a message.
func Clip(s string) string {
	if len(s) > 1500 {
		return fmt.Sprintf("%q...", s[:1500])
	}
	return fmt.Sprintf("%q", s)
}

// Url is a request of a URL.
func Url(rawurl string, hdr ...string) Req {
	return Req{fmt.Sprint("GET ", rawurl, " ", hdr), func() string {
		r := Get(rawurl, hdr...)
		body := r.Body
		if r.Header.Get("Content-Encoding") == "gzip" {
			var err error
			if body, err = Gunzip(body); err != nil {
				return err.Error()
			}
		}
		return fmt.Sprint(r.Status, " ", r.Header.Get("Content-Type"), " ", body)
	}}
}

// Rpc is a request over Go RPC.
func Rpc(method, path string) Req {
	return Req{method + " " + path, func() string {
		if method == "GetMetric" {
			m, err := RpcGet(path)
			if err != nil {
				return err.Error()
			}
			return ShowMetric(m)
		}
		l, err := RpcList(path)
		if err != nil {
			return err.Error()
		}
		return ShowList(l)
	}}
}

// Local is an in-process request.
func Local(path string) Req {
	return Req{"ReadMyMetrics " + path, func() string { return ShowList(tricorder.ReadMyMetrics(path)) }}
}

// ShowList describes metrics deterministically.
func ShowList(l messages.MetricList) string {
	var b strings.Builder
	for _, m := range l {
		b.WriteString(ShowMetric(m))
		b.WriteByte('\n')
	}
	return b.String()
}

// ShowDist describes a distribution deterministically.
func ShowDist(x *messages.Distribution) string {
	d := *x
	d.Ranges = nil
	v := fmt.Sprintf("%v", d)
	for _, r := range x.Ranges {
		v += fmt.Sprintf(" %v", *r)
	}
	return v
}

// ShowMetric describes a metric deterministically.
func ShowMetric(m *messages.Metric) string {
	var v string
	switch x := m.Value.(type) {
	case *messages.Distribution:
		v = ShowDist(x)
	case []time.Time:
		for _, e := range x {
			v += " " + Show(e)
		}
	default:
		v = Show(x)
	}
	return fmt.Sprintf("%q %q %s %s %s %d %d %s: %s", m.Path, m.Description, m.Unit, m.Kind, m.SubType, m.Bits, m.GroupId, Show(m.TimeStamp), v)
}

// Requests lists requests of the given sorts for a population: of the whole,
// of each metric, of directories and of something that is not there.
func (p *Pop) Requests(hows ...string) (out []Req) {
	paths := []string{Base, Base + "/no such"}
	for _, it := range p.Items {
		paths = append(paths, it.Path)
		if len(it.Parts) > 2 {
			paths = append(paths, "/"+strings.Join(it.Parts[:2], "/"))
		}
	}
	for _, path := range paths {
		for _, how := range hows {
			switch how {
			case "local":
				out = append(out, Local(path))
			case "rpc":
				out = append(out, Rpc("ListMetrics", path), Rpc("GetMetric", path))
			case "rest":
				out = append(out, Url("/metricsapi"+URLPath(path)), Url("/metricsapi"+URLPath(path), "Accept-Encoding", "gzip"),
					Url("/metricsapi"+URLPath(path)+"?singleton=1"))
			case "text":
				out = append(out, Url("/metrics"+URLPath(path)+"?format=text"))
			case "html":
				out = append(out, Url("/metrics"+URLPath(path)))
			}
		}
	}
	return
}
