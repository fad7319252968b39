package c21

import (
	"encoding/json"
	"fmt"
	"net/http"
	"net/http/httptest"
	"os"
	"os/exec"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/Symantec/tricorder/go/healthserver"
	"pgregory.net/rapid"
	"verif/vh"
)

func TestMain(m *testing.M) {
	if s := os.Getenv("VERIF_CHILD"); s != "" {
		child(s)
		return
	}
	vh.Main(m, "a case is a generated history of the four setters (with any status text, also refused ones) and of requests with any method to both endpoints, from the state of a fresh process or a known one, checked against two independent model registers; or such a history while clients that stall, fail or abort are being answered; or setters and requests from several goroutines, whose answers must each be a state in force at some time during the request; non-trivial if both a failure status and its end are observed, or the run is concurrent; distinct by history")
}

type op struct {
	Kind   string // ok, fail, get
	Ready  bool
	Status []byte
	Method string
}

type answer struct {
	Code    int
	Body    []byte
	Paniced bool
}

var endpoint = map[bool]string{false: "/healthz", true: "/readiness"}

func ask(ready bool, method string) answer {
	if strings.HasPrefix(method, "real ") {
		r := vh.Serve(method[5:], endpoint[ready])
		return answer{Code: r.Status, Body: []byte(r.Body)}
	}
	w := httptest.NewRecorder()
	http.DefaultServeMux.ServeHTTP(w, httptest.NewRequest(method, endpoint[ready], nil))
	return answer{Code: w.Code, Body: w.Body.Bytes()}
}

func do(o op) answer {
	switch {
	case o.Kind == "get":
		return ask(o.Ready, o.Method)
	case o.Kind == "ok" && o.Ready:
		healthserver.SetReady()
	case o.Kind == "ok":
		healthserver.SetHealthy()
	case o.Ready:
		p, _ := vh.Panics(func() { healthserver.SetNotReady(string(o.Status)) })
		return answer{Paniced: p}
	default:
		p, _ := vh.Panics(func() { healthserver.SetNotHealthy(string(o.Status)) })
		return answer{Paniced: p}
	}
	return answer{}
}

func child(s string) {
	var ops []op
	if err := json.Unmarshal([]byte(s), &ops); err != nil {
		fmt.Println("HARNESS-ERROR:", err)
		os.Exit(0)
	}
	var out []answer
	for _, o := range ops {
		out = append(out, do(o))
	}
	b, _ := json.Marshal(out)
	fmt.Println(string(b))
	os.Exit(0)
}

func status(t *rapid.T) string {
	return rapid.OneOf(
		rapid.SampledFrom([]string{"", "OK", "OK", "ok", " OK", "OK\n", "not ready", "x", "a\nb", "<b>&", "\xff", "%s%d", " ", "\n", strings.Repeat("long", 3000)}),
		rapid.Custom(func(t *rapid.T) string { return vh.Text(t, "s") }),
		rapid.String()).Draw(t, "status")
}

func genOps(t *rapid.T, n int) []op {
	var ops []op
	for i := 0; i < n; i++ {
		o := op{Ready: rapid.Bool().Draw(t, "ready")}
		o.Kind = rapid.SampledFrom([]string{"ok", "fail", "fail", "get", "get", "get"}).Draw(t, "op")
		switch o.Kind {
		case "fail":
			o.Status = []byte(status(t))
		case "get":
			o.Method = rapid.SampledFrom([]string{"GET", "GET", "GET", "real GET", "POST", "HEAD", "real HEAD", "real POST"}).Draw(t, "method")
		}
		ops = append(ops, o)
	}
	return ops
}

// matches tells whether an answer is that of a state; "" is the good state.
func matches(a answer, state string) bool {
	if state == "" {
		return a.Code == 200 && string(a.Body) == "OK"
	}
	return a.Code == 503 && (string(a.Body) == state+"\n" || string(a.Body) == state)
}

// judge compares a history with the model.
func judge(t *rapid.T, ops []op, out []answer, model map[bool]string) (nontrivial bool) {
	seen := map[bool]int{}
	for i, o := range ops {
		a := out[i]
		switch o.Kind {
		case "ok":
			model[o.Ready] = ""
		case "fail":
			s := string(o.Status)
			refuse := s == "" || s == "OK"
			if a.Paniced != refuse {
				t.Fatalf("step %d: setting %s to failure status %q: panicked %v, want %v; history %s", i, endpoint[o.Ready], s, a.Paniced, refuse, show(ops[:i]))
			}
			if !refuse {
				model[o.Ready] = s
			}
		case "get":
			if strings.HasSuffix(o.Method, "HEAD") { // an answer to HEAD may leave the body out
				if want := map[bool]int{true: 200, false: 503}[model[o.Ready] == ""]; a.Code != want {
					t.Fatalf("step %d: HEAD %s answers %d, state is %q; history %s", i, endpoint[o.Ready], a.Code, model[o.Ready], show(ops[:i]))
				}
			} else if !matches(a, model[o.Ready]) {
				t.Fatalf("step %d: %s %s answers %d %q, state is %q; history %s", i, o.Method, endpoint[o.Ready], a.Code, a.Body, model[o.Ready], show(ops[:i]))
			}
			if model[o.Ready] == "" {
				seen[o.Ready] |= 1
			} else {
				seen[o.Ready] |= 2
			}
		}
	}
	return seen[true] == 3 || seen[false] == 3
}

func show(ops []op) string {
	s := ""
	for _, o := range ops {
		st := string(o.Status)
		if len(st) > 40 {
			st = st[:40]
		}
		s += fmt.Sprintf("%s %s %q; ", o.Kind, endpoint[o.Ready], st)
	}
	return s
}

func TestHistory(t *testing.T) {
	vh.Check(t, 10000, 100000, func(t *rapid.T) {
		healthserver.SetHealthy()
		healthserver.SetNotReady("start")
		ops := genOps(t, rapid.IntRange(1, 30).Draw(t, "n"))
		var out []answer
		for _, o := range ops {
			out = append(out, do(o))
		}
		nt := judge(t, ops, out, map[bool]string{false: "", true: "start"})
		vh.Case(show(ops), nt)
	})
}

func TestFresh(t *testing.T) {
	self, err := os.Executable()
	if err != nil {
		t.Fatal(err)
	}
	vh.Check(t, 60, 600, func(t *rapid.T) {
		ops := genOps(t, rapid.IntRange(0, 6).Draw(t, "n"))
		ops = append(ops, op{Kind: "get", Method: "GET"}, op{Kind: "get", Ready: true, Method: "GET"})
		b, _ := json.Marshal(ops)
		cmd := exec.Command(self)
		cmd.Env = []string{"VERIF_CHILD=" + string(b), "GORACE=atexit_sleep_ms=0"}
		res, err := cmd.CombinedOutput()
		var out []answer
		if err != nil || json.Unmarshal(res, &out) != nil || len(out) != len(ops) {
			t.Fatalf("process running %s: %v %s", show(ops), err, res)
		}
		nt := judge(t, ops, out, map[bool]string{false: "", true: "not ready"})
		vh.Label("fresh processes")
		vh.Case("fresh "+show(ops), nt)
	})
}

type event struct {
	start, end int64
	write      bool
	ready      bool
	state      string
	a          answer
}

func TestConcurrent(t *testing.T) {
	vh.Check(t, 1500, 20000, func(t *rapid.T) {
		healthserver.SetHealthy()
		healthserver.SetReady()
		var clock atomic.Int64
		clock.Store(1)
		workers := rapid.IntRange(2, 6).Draw(t, "workers")
		n := rapid.SampledFrom([]int{5, 30, 80}).Draw(t, "ops")
		scripts := make([][]byte, workers)
		for w := range scripts {
			scripts[w] = rapid.SliceOfN(rapid.Byte(), n, n).Draw(t, "script")
		}
		logs := make([][]event, workers)
		begin := make(chan struct{})
		var wg sync.WaitGroup
		for w := range scripts {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-begin
				for i, b := range scripts[w] {
					e := event{ready: b&1 != 0}
					// long texts of one letter, so that a torn one shows
					e.state = strings.Repeat(string(rune('a'+w)), 1+i%17) + fmt.Sprint(w, ".", i)
					e.start = clock.Add(1)
					switch b >> 1 & 7 {
					case 0:
						e.write, e.state = true, ""
						if e.ready {
							healthserver.SetReady()
						} else {
							healthserver.SetHealthy()
						}
					case 1, 2:
						e.write = true
						if e.ready {
							healthserver.SetNotReady(e.state)
						} else {
							healthserver.SetNotHealthy(e.state)
						}
					case 3:
						e.end = -1 // refused, changes nothing
						vh.Panics(func() {
							if e.ready {
								healthserver.SetNotReady("OK")
							} else {
								healthserver.SetNotHealthy("")
							}
						})
						continue
					default:
						e.a = ask(e.ready, "GET")
					}
					e.end = clock.Add(1)
					logs[w] = append(logs[w], e)
				}
			}()
		}
		close(begin)
		if !vh.Within(100*time.Second, wg.Wait) {
			t.Fatalf("blocked\n%s", vh.Stacks())
		}
		for _, ready := range []bool{false, true} {
			writes := []event{{write: true, ready: ready}} // the initial state
			var reads []event
			for _, l := range logs {
				for _, e := range l {
					if e.ready != ready {
						continue
					}
					if e.write {
						writes = append(writes, e)
					} else {
						reads = append(reads, e)
					}
				}
			}
			last := clock.Load()
			reads = append(reads, event{start: last, end: last + 1, ready: ready, a: ask(ready, "GET")})
			for _, r := range reads {
				ok := false
				for _, w := range writes {
					if !matches(r.a, w.state) || w.start > r.end {
						continue
					}
					over := false
					for _, x := range writes {
						if x.start > w.end && x.end < r.start {
							over = true
							break
						}
					}
					if !over {
						ok = true
						break
					}
				}
				if !ok {
					t.Fatalf("%s answers %d %q, no state in force during the request", endpoint[ready], r.a.Code, r.a.Body)
				}
			}
		}
		vh.Label("concurrent runs")
		vh.Case(fmt.Sprintf("concurrent %x", scripts), true)
	})
}

// badClient takes its answer slowly, or not at all.
type badClient struct {
	kind    string // stall, panic, error
	h       http.Header
	code    int
	body    []byte
	reached chan struct{} // closed when the answer is being written
	once    sync.Once
	release chan struct{}
}

func (b *badClient) Header() http.Header { return b.h }

func (b *badClient) WriteHeader(code int) {
	if b.code == 0 {
		b.code = code
	}
}

func (b *badClient) Write(p []byte) (int, error) {
	b.WriteHeader(200)
	if b.kind == "error" {
		return 0, fmt.Errorf("connection lost")
	}
	q := append([]byte(nil), p...)
	b.once.Do(func() { close(b.reached) })
	if b.kind == "panic" {
		panic(http.ErrAbortHandler)
	}
	<-b.release
	b.body = append(b.body, q...)
	return len(p), nil
}

// Clients that do not take their answer hold up nobody and change nothing.
func TestBadClients(t *testing.T) {
	vh.Check(t, 1500, 15000, func(t *rapid.T) {
		healthserver.SetHealthy()
		healthserver.SetNotReady("start")
		model := map[bool]string{false: "", true: "start"}
		release := make(chan struct{})
		defer func() {
			select {
			case <-release:
			default:
				close(release)
			}
		}()
		type stalled struct {
			c     *badClient
			ready bool
			state string
			done  chan struct{}
		}
		var waiting []*stalled
		desc := ""
		for n := rapid.IntRange(1, 5).Draw(t, "rounds"); n > 0; n-- {
			ready := rapid.Bool().Draw(t, "badready")
			c := &badClient{kind: rapid.SampledFrom([]string{"stall", "stall", "panic", "error"}).Draw(t, "kind"),
				h: http.Header{}, reached: make(chan struct{}), release: release}
			s := &stalled{c, ready, model[ready], make(chan struct{})}
			go func() {
				defer close(s.done)
				vh.Panics(func() { http.DefaultServeMux.ServeHTTP(c, httptest.NewRequest("GET", endpoint[ready], nil)) })
			}()
			if !vh.Within(100*time.Second, func() {
				if c.kind == "stall" {
					<-c.reached
				} else {
					<-s.done
				}
			}) {
				t.Fatalf("request to %s by a %s client gets no answer; %s\n%s", endpoint[ready], c.kind, desc, vh.Stacks())
			}
			if c.kind == "stall" {
				waiting = append(waiting, s)
			}
			desc += c.kind + " " + endpoint[ready] + "; "
			ops := genOps(t, rapid.IntRange(1, 8).Draw(t, "n"))
			ops = append(ops, op{Kind: "get", Method: "GET"}, op{Kind: "get", Ready: true, Method: "GET"})
			var out []answer
			if !vh.Within(100*time.Second, func() {
				for _, o := range ops {
					out = append(out, do(o))
				}
			}) {
				t.Fatalf("held up by a client that does not take its answer: %s%s\n%s", desc, show(ops), vh.Stacks())
			}
			judge(t, ops, out, model)
			desc += show(ops)
		}
		close(release)
		for _, s := range waiting {
			<-s.done
			if a := (answer{Code: s.c.code, Body: s.c.body}); !matches(a, s.state) {
				t.Fatalf("slow client of %s got %d %q, the state was %q; %s", endpoint[s.ready], a.Code, a.Body, s.state, desc)
			}
		}
		vh.Label("bad clients")
		vh.Case("bad clients "+desc, true)
	})
}
