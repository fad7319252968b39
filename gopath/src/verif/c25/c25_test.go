package c25

import (
	"bufio"
	"compress/gzip"
	"fmt"
	"io"
	"log"
	"net"
	"net/http"
	"net/rpc"
	"sort"
	"strings"
	"testing"
	"time"

	"github.com/Symantec/tricorder/go/healthserver"
	"github.com/Symantec/tricorder/go/tricorder"
	"github.com/Symantec/tricorder/go/tricorder/messages"
	"github.com/Symantec/tricorder/go/tricorder/units"
	"pgregory.net/rapid"
	"verif/vh"
)

func TestMain(m *testing.M) {
	log.SetOutput(io.Discard)
	healthserver.SetReady()
	vh.Main(m, "a case is a generated population and 1 to 8 generated requests (raw HTTP text of any method, target, query, headers and body sent to a real server, RPC calls of any method and argument, bytes that are no RPC, in-process calls with any string, requests left unfinished), or callbacks that themselves ask, register and remove; non-trivial if at least two requests were not a plain GET of something registered; distinct by population and requests")
}

const patience = 60 * time.Second

// state describes all there is under the base, and the names of what is elsewhere.
func state(t *rapid.T, p *vh.Pop) string {
	var b strings.Builder
	for _, m := range tricorder.ReadMyMetrics(vh.Base) {
		b.WriteString(vh.ShowMetric(m) + "\n")
	}
	for _, m := range tricorder.ReadMyMetrics("/proc") {
		fmt.Fprintf(&b, "%q %q %s %s %d\n", m.Path, m.Description, m.Unit, m.Kind, m.GroupId)
	}
	var dirs []string
	for d := range p.Dirs {
		dirs = append(dirs, d)
	}
	sort.Strings(dirs)
	if len(dirs) > 12 {
		dirs = dirs[:12]
	}
	for _, d := range append(dirs, "/", "/proc") {
		fmt.Fprintf(&b, "%q has %q\n", d, links(vh.Get("/metrics"+vh.URLPath(d)).Body))
	}
	for _, it := range p.Items {
		if it.How != "dist" {
			fmt.Fprintf(&b, "%q is %s\n", it.Path, vh.Show(it.Value()))
		}
	}
	return b.String()
}

// links are the links of a page.
func links(page string) (out []string) {
	toks, err := vh.Tokens(page)
	if err != nil {
		return []string{err.Error()}
	}
	for _, k := range toks {
		if k.Tag == "a" {
			out = append(out, fmt.Sprint(k.Attrs))
		}
	}
	return
}

func bytes(t *rapid.T, label string) string {
	return string(rapid.SliceOfN(rapid.Byte(), 0, 12).Draw(t, label))
}

// escape writes s so that it can be in a target, escaping what must be, and some of what need not be.
func escape(t *rapid.T, s string) string {
	all := rapid.IntRange(0, 3).Draw(t, "escape") == 3
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		c := s[i]
		if c <= ' ' || c >= 0x7f || c == '%' || c == '?' || c == '#' || all && c != '/' {
			fmt.Fprintf(&b, "%%%02x", c)
		} else {
			b.WriteByte(c)
		}
	}
	return b.String()
}

// path draws a path: one there is, or nearly, or anything.
func path(t *rapid.T, p *vh.Pop) (s string, plain bool) {
	s, plain = path1(t, p)
	if rapid.IntRange(0, 5).Draw(t, "slash") == 5 {
		return s + "/", false
	}
	return s, plain
}

func path1(t *rapid.T, p *vh.Pop) (s string, plain bool) {
	if rapid.IntRange(0, 7).Draw(t, "below") == 7 {
		var dirs []string
		for d := range p.Dirs {
			dirs = append(dirs, d)
		}
		sort.Strings(dirs)
		s = dirs[rapid.IntRange(0, len(dirs)-1).Draw(t, "dir")]
		for n := rapid.IntRange(0, 3).Draw(t, "further"); n > 0; n-- {
			s += "/" + rapid.SampledFrom([]string{"new", "x", " ", "a b", "\"", "é"}).Draw(t, "name")
		}
		return s, false
	}
	s = p.Items[rapid.IntRange(0, len(p.Items)-1).Draw(t, "item")].Path
	switch rapid.IntRange(0, 11).Draw(t, "path") {
	case 0, 1:
		return s, true
	case 2:
		return s[:rapid.IntRange(0, len(s)).Draw(t, "cut")], false
	case 3:
		return s + "/" + bytes(t, "tail"), false
	case 4:
		i := rapid.IntRange(0, len(s)).Draw(t, "at")
		return s[:i] + rapid.SampledFrom([]string{"/", "//", "/./", "/../", "/ /", "\x00", "\n", "\r\n", "?", "%", "%2f", "<", "é", "\xff", "/\u2028/"}).Draw(t, "insert") + s[i:], false
	case 5:
		return bytes(t, "any"), false
	case 6:
		return "/" + bytes(t, "any"), false
	case 7:
		return strings.Repeat(rapid.SampledFrom([]string{"/", "/a", "a", "/ ", "\u00a0", s}).Draw(t, "again"), rapid.IntRange(1, 400).Draw(t, "times")), false
	case 8:
		return rapid.SampledFrom([]string{"", "/", "//", ".", "..", "*", "/..", "/proc", "/proc/", "/proc/flags", "/proc/args", "/proc/flags/x", "/vp/", "vp"}).Draw(t, "special"), false
	case 9:
		return vh.Text(t, "text"), false
	case 10:
		return strings.ToUpper(s), false
	}
	return strings.TrimPrefix(s, "/"), false
}

type request struct {
	text   string // what is sent
	method string
	health bool
	plain  bool
}

// http1 draws a request as text.
func http1(t *rapid.T, p *vh.Pop) (r request) {
	r.method = rapid.SampledFrom([]string{"GET", "GET", "GET", "HEAD", "POST", "PUT", "DELETE", "OPTIONS", "PATCH", "TRACE", "PROPFIND", "get", "X"}).Draw(t, "method")
	s, plain := path(t, p)
	prefix := rapid.SampledFrom([]string{"/metrics", "/metrics", "/metricsapi", "/metricsapi", "/metrics", "/metricsapi", "/metricsstatic", "/has-tricorder-metrics", "/healthz", "/readiness", "", "//metrics", "/metrics/..", "http://example.com/metrics"}).Draw(t, "prefix")
	r.health = true // anything may turn out to be a health request after cleaning
	if strings.HasPrefix(prefix, "/metrics") && !strings.Contains(s, "..") && prefix != "/metrics/.." {
		r.health = false
	}
	if prefix == "/metricsstatic" && rapid.Bool().Draw(t, "css") {
		s = "/theme.css"
	}
	target := prefix + escape(t, s)
	if rapid.IntRange(0, 14).Draw(t, "bad escape") == 14 {
		target += rapid.SampledFrom([]string{"%", "%z", "%zz", "%0", "%00"}).Draw(t, "escape")
	}
	if target == "" {
		target = "/"
	}
	value := rapid.SampledFrom([]string{"", "text", "1", "0", "TEXT", "html", "%zz", "%00", "text%0a", "a;b", "é", "true", "text&format=html", "html&format=text"})
	key := rapid.SampledFrom([]string{"format", "format", "singleton", "singleton", "", "%", "x", "Format", "callback", "format[]", ";"})
	var q []string
	for n := rapid.IntRange(0, 3).Draw(t, "params"); n > 0; n-- {
		k := key.Draw(t, "key")
		if rapid.IntRange(0, 4).Draw(t, "eq") > 0 {
			k += "=" + value.Draw(t, "value")
		}
		q = append(q, k)
	}
	query := strings.Join(q, rapid.SampledFrom([]string{"&", "&", ";", "&&"}).Draw(t, "sep"))
	inBody := r.method == "POST" && rapid.Bool().Draw(t, "form")
	if query != "" && !inBody || rapid.IntRange(0, 9).Draw(t, "?") == 9 {
		target += "?" + escapeQuery(query)
	}
	var h []string
	for n := rapid.IntRange(0, 3).Draw(t, "headers"); n > 0; n-- {
		h = append(h, rapid.SampledFrom([]string{
			"Accept-Encoding: gzip", "Accept-Encoding: gzip, deflate, br", "Accept-Encoding: identity", "Accept-Encoding:", "Accept-Encoding: gzip;q=0.5", "Accept-Encoding: *",
			"Accept: text/html", "Accept: application/json", "Accept: */*;q=0.1", "Accept-Language: xx", "Range: bytes=0-0", "Range: bytes=-1", "Range: bytes=5-2", "Range: bytes=0-1,3-4", "Range: lines=1-2", "If-Range: \"x\"",
			"If-Modified-Since: Mon, 02 Jan 2006 15:04:05 GMT", "If-Modified-Since: Fri, 02 Jan 2099 15:04:05 GMT", "If-Modified-Since: x", "If-None-Match: *", "If-None-Match: \"x\"", "If-Match: \"x\"", "If-Unmodified-Since: Mon, 02 Jan 2006 15:04:05 GMT",
			"Cookie: a=b; c", "Authorization: Basic eDp5", "Referer: http://x/<script>", "User-Agent:", "Origin: null", "X-Forwarded-For: 1.2.3.4", "Connection: close", "Connection: Upgrade", "Upgrade: websocket", "TE: trailers", "Cache-Control: no-cache", "X-HTTP-Method-Override: DELETE",
		}).Draw(t, "header"))
	}
	body := ""
	switch {
	case inBody:
		body = query
		h = append(h, "Content-Type: "+rapid.SampledFrom([]string{"application/x-www-form-urlencoded", "application/x-www-form-urlencoded; charset=x", "multipart/form-data; boundary=x", "multipart/form-data", "text/plain", ";", "application/json"}).Draw(t, "ctype"))
	case rapid.IntRange(0, 5).Draw(t, "body") == 5:
		body = bytes(t, "content")
		if rapid.IntRange(0, 9).Draw(t, "big body") == 9 {
			body = strings.Repeat("format=text&x=", rapid.IntRange(1, 30000).Draw(t, "big"))
		}
	}
	version := rapid.SampledFrom([]string{"HTTP/1.1", "HTTP/1.1", "HTTP/1.1", "HTTP/1.0"}).Draw(t, "version")
	h = append(h, "Host: "+rapid.SampledFrom([]string{"example.com", "", "a:1", "[::1]"}).Draw(t, "host"))
	if body != "" || r.method == "POST" {
		if version == "HTTP/1.1" && rapid.IntRange(0, 3).Draw(t, "chunked") == 3 {
			h = append(h, "Transfer-Encoding: chunked")
			if body != "" {
				body = fmt.Sprintf("%x\r\n%s\r\n", len(body), body)
			}
			body += "0\r\n\r\n"
		} else {
			h = append(h, fmt.Sprintf("Content-Length: %d", len(body)))
		}
		if version == "HTTP/1.1" && rapid.IntRange(0, 7).Draw(t, "expect") == 7 {
			h = append(h, "Expect: 100-continue")
		}
	}
	r.text = r.method + " " + target + " " + version + "\r\n" + strings.Join(h, "\r\n") + "\r\n\r\n" + body
	r.plain = plain && r.method == "GET" && query == "" && len(h) == 1
	return
}

func escapeQuery(s string) string {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		if c := s[i]; c <= ' ' || c >= 0x7f || c == '#' {
			fmt.Fprintf(&b, "%%%02x", c)
		} else {
			b.WriteByte(c)
		}
	}
	return b.String()
}

// answer reads one answer to a request.
func answer(br *bufio.Reader, method string) (*http.Response, string, error) {
	for {
		r, err := http.ReadResponse(br, &http.Request{Method: method})
		if err != nil {
			return nil, "", fmt.Errorf("no answer: %v", err)
		}
		b, err := io.ReadAll(r.Body)
		if err != nil {
			return nil, "", fmt.Errorf("answer with status %d broken off: %v", r.StatusCode, err)
		}
		if r.StatusCode >= 200 {
			return r, string(b), nil
		}
	}
}

// send sends the request to the server and judges the answer.
func send(r request) (wrong string) {
	c := vh.Dial()
	defer c.Close()
	go c.Write([]byte(r.text))
	br := bufio.NewReader(c)
	res, body, err := answer(br, r.method)
	if err != nil {
		return err.Error()
	}
	vh.Label(fmt.Sprintf("status %d", res.StatusCode))
	if res.StatusCode >= 500 && !(r.health && res.StatusCode == 503) {
		return fmt.Sprintf("status %d", res.StatusCode)
	}
	if res.Header.Get("Content-Encoding") == "gzip" && r.method != "HEAD" {
		z, err := gzip.NewReader(strings.NewReader(body))
		if err == nil {
			_, err = io.ReadAll(z)
		}
		if err != nil {
			return fmt.Sprintf("status %d, body not gzip: %v", res.StatusCode, err)
		}
	}
	// the connection is still good
	if !res.Close && res.ProtoAtLeast(1, 1) && !strings.Contains(r.text, " HTTP/1.0\r\n") && !strings.Contains(r.text, "Expect:") && res.StatusCode != 400 {
		go io.WriteString(c, "GET /has-tricorder-metrics HTTP/1.1\r\nHost: x\r\n\r\n")
		res, body, err = answer(br, "GET")
		if err != nil {
			return "next request on the connection: " + err.Error()
		}
		if res.StatusCode != 200 || body != "true" {
			return fmt.Sprintf("next request on the connection: status %d, %q", res.StatusCode, body)
		}
	}
	return ""
}

// call makes an RPC on a connection of its own.
func call(t *rapid.T, p *vh.Pop, describe func(string)) (wrong string, plain bool) {
	a, b := net.Pipe()
	ended := make(chan bool)
	go func() {
		rpc.ServeConn(b)
		close(ended)
	}()
	what := rapid.IntRange(0, 5).Draw(t, "rpc")
	if what == 0 {
		junk := bytes(t, "junk")
		describe(fmt.Sprintf("RPC bytes %q", junk))
		done := make(chan bool)
		go func() {
			io.WriteString(a, junk)
			close(done)
		}()
		select {
		case <-done:
		case <-ended:
		case <-vh.After(patience):
			return "the server reads no further", false
		}
	} else {
		s, pl := path(t, p)
		method := rapid.SampledFrom([]string{"MetricsServer.ListMetrics", "MetricsServer.GetMetric"}).Draw(t, "method")
		var arg interface{} = s
		switch what {
		case 1:
			method = rapid.SampledFrom([]string{"", "x", "MetricsServer", "MetricsServer.", ".", "MetricsServer.X", "MetricsServer.listMetrics", "X.ListMetrics", "MetricsServer.ListMetrics.X", "rpcType.ListMetrics"}).Draw(t, "no method")
		case 2:
			arg = rapid.SampledFrom([]interface{}{1, 2.5, true, []string{s}, map[string]int{s: 1}, struct{ Path string }{s}, []byte(s)}).Draw(t, "arg")
		}
		plain = pl && what > 2
		describe(fmt.Sprintf("RPC %s(%#v)", method, arg))
		var reply interface{} = new(messages.MetricList)
		if strings.HasSuffix(method, "GetMetric") {
			reply = new(messages.Metric)
		}
		c := rpc.NewClient(a)
		var err error
		if !vh.Within(patience, func() { err = c.Call(method, arg, reply) }) {
			return "no answer", false
		}
		_, refused := err.(rpc.ServerError)
		vh.Label(fmt.Sprintf("rpc refused: %v", refused))
		switch {
		case err != nil && !refused:
			return fmt.Sprintf("no answer: %v", err), false
		case what <= 2 && err == nil:
			return "answered as if it made sense", false
		case what > 2 && method == "MetricsServer.ListMetrics" && err != nil:
			return fmt.Sprintf("listing refused: %v", err), false
		}
		// the connection is still good
		var l messages.MetricList
		if !vh.Within(patience, func() { err = c.Call("MetricsServer.ListMetrics", "/proc", &l) }) || err != nil || len(l) == 0 {
			return fmt.Sprintf("next call on the connection: %d metrics, %v", len(l), err), false
		}
		c.Close()
	}
	a.Close()
	select {
	case <-ended:
	case <-vh.After(patience):
		return "the server does not notice the end of the connection", false
	}
	return "", plain
}

// halves leaves a request unfinished while others are served.
func halves(t *rapid.T, p *vh.Pop, describe func(string)) (wrong string) {
	r := http1(t, p)
	cut := rapid.IntRange(0, len(r.text)-1).Draw(t, "cut")
	if i := strings.Index(r.text, "\r\n\r\n"); i >= 0 && rapid.Bool().Draw(t, "in body") {
		// the body never comes
		r.text = strings.Replace(r.text, "\r\n\r\n", "\r\nContent-Type: application/x-www-form-urlencoded\r\nContent-Length: 100\r\n\r\n", 1)
		if strings.Contains(r.text[:i], "Content-Length") || strings.Contains(r.text[:i], "Transfer-Encoding") {
			r.text = "POST /metricsapi/vp HTTP/1.1\r\nHost: x\r\nContent-Type: application/x-www-form-urlencoded\r\nContent-Length: 100\r\n\r\n"
		}
		cut = strings.Index(r.text, "\r\n\r\n") + 4
	}
	describe(fmt.Sprintf("unfinished %q", r.text[:cut]))
	c := vh.Dial()
	written := make(chan bool)
	go func() {
		io.WriteString(c, r.text[:cut])
		close(written)
	}()
	go io.Copy(io.Discard, c)
	select {
	case <-written:
	case <-vh.After(patience):
		return "the server reads no further"
	}
	how := rapid.SampledFrom([]string{"/metrics/vp", "/metricsapi/vp", "/metrics/vp?format=text"}).Draw(t, "meanwhile")
	var got vh.Resp
	if !vh.Within(patience, func() { got = vh.Serve("GET", how) }) {
		return "held up " + how
	}
	if got.Status != 200 {
		return fmt.Sprintf("meanwhile %s: status %d, %s", how, got.Status, got.Body)
	}
	c.Close()
	return ""
}

func TestRequests(t *testing.T) {
	group := tricorder.NewGroup()
	group.RegisterUpdateFunc(func() time.Time { return time.Unix(1234, 5678) })
	vh.Check(t, 5000, 60000, func(t *rapid.T) {
		vh.Reset()
		defer vh.Reset()
		p := vh.Populate(t, group, &vh.PopOpts{MaxItems: 6, NonFinite: true, ListNF: true})
		for _, it := range p.Items { // counting calls is not needed, and they come from several goroutines
			it.Calls = 0
		}
		before := state(t, p)
		var hist []string
		odd := 0
		describe := func(s string) { hist = append(hist, s) }
		for n := rapid.IntRange(1, 8).Draw(t, "requests"); n > 0; n-- {
			wrong, plain := "", false
			switch rapid.IntRange(0, 9).Draw(t, "sort") {
			case 0, 1:
				wrong, plain = call(t, p, describe)
			case 2:
				s, pl := path(t, p)
				plain = pl
				describe(fmt.Sprintf("ReadMyMetrics(%q)", s))
				if !vh.Within(patience, func() { tricorder.ReadMyMetrics(s) }) {
					wrong = "no answer"
				}
			case 3:
				s, pl := path(t, p)
				plain = pl
				describe(fmt.Sprintf("GetDirectory(%q)", s))
				if !vh.Within(patience, func() { tricorder.GetDirectory(s) }) {
					wrong = "no answer"
				}
			case 4:
				wrong = halves(t, p, describe)
			default:
				r := http1(t, p)
				plain = r.plain
				describe(fmt.Sprintf("%q", short(r.text)))
				if !vh.Within(patience, func() { wrong = send(r) }) {
					wrong = "no answer"
				}
			}
			if wrong != "" {
				t.Fatalf("%s: %s", hist[len(hist)-1], wrong)
			}
			if !plain {
				odd++
			}
		}
		if after := state(t, p); after != before {
			t.Fatalf("after %s\nthere is\n%s\nbut before there was\n%s", strings.Join(hist, "\n"), after, before)
		}
		vh.Case(p.String()+" | "+strings.Join(hist, " | "), odd > 1)
	})
}

func short(s string) string {
	if len(s) > 3000 {
		return s[:3000] + fmt.Sprintf("... %d bytes", len(s))
	}
	return s
}

// Callbacks that themselves ask, register and remove.
func TestCallbacks(t *testing.T) {
	vh.Check(t, 1500, 20000, func(t *rapid.T) {
		vh.Reset()
		defer vh.Reset()
		own, other := tricorder.NewGroup(), tricorder.NewGroup()
		var hist []string
		x, y := int64(7), int64(8)
		vh.Must(t, vh.RegisterIn(t, own, "/vp/d/x", &x, units.None, ""), "register")
		vh.Must(t, vh.RegisterIn(t, other, "/vp/e/y", &y, units.None, ""), "register")
		dir, err := tricorder.RegisterDirectory("/vp/d")
		vh.Must(t, err, "register")
		l := tricorder.NewList([]int64{1}, true)
		vh.Must(t, tricorder.RegisterMetric("/vp/d/l", l, units.None, ""), "register")
		d := tricorder.PowersOfTwo.NewNonCumulativeDistribution()
		vh.Must(t, tricorder.RegisterMetric("/vp/d/dist", d, units.None, ""), "register")
		depth, calls := 0, 0
		wrong := ""
		acts := rapid.SliceOfN(rapid.SampledFrom([]string{"read other", "read own", "read all", "read self", "rpc", "rest", "html", "text", "register", "register there", "remove", "remove self", "list", "dist", "update", "new group", "stale"}), 1, 4).Draw(t, "acts")
		callback := func() int64 {
			calls++
			if depth > 0 {
				return 5
			}
			depth++
			defer func() { depth-- }()
			for _, a := range acts {
				var z int64
				switch a {
				case "read other":
					if m := tricorder.ReadMyMetrics("/vp/e"); len(m) != 1 || m[0].Value != y {
						wrong = fmt.Sprintf("read of another group within a callback gives %d metrics", len(m))
					}
				case "read own":
					if m := tricorder.ReadMyMetrics("/vp/d/x"); len(m) != 1 || m[0].Value != x {
						wrong = fmt.Sprintf("read of the same group within a callback gives %d metrics", len(m))
					}
				case "read all":
					tricorder.ReadMyMetrics("/")
				case "read self":
					tricorder.ReadMyMetrics("/vp/d/cb")
				case "rpc":
					if m, err := vh.RpcGet("/vp/d/x"); err != nil || m.Value != x {
						wrong = fmt.Sprintf("RPC within a callback gives %v, %v", m.Value, err)
					}
				case "rest":
					vh.Get("/metricsapi/vp")
				case "html":
					vh.Get("/metrics/vp/d")
				case "text":
					vh.Get("/metrics/vp?format=text")
				case "register":
					tricorder.RegisterMetricInGroup("/vp/new/a", &z, own, units.None, "")
				case "register there":
					dir.RegisterMetricInGroup("z/z", &z, other, units.None, "")
				case "remove":
					tricorder.UnregisterPath("/vp/new")
				case "remove self":
					dir.UnregisterPath("cb")
				case "list":
					l.Change([]int64{x, y}, false)
				case "dist":
					d.Add(2.5)
				case "update":
					own.RegisterUpdateFunc(func() time.Time { return time.Unix(55, 0) })
				case "new group":
					g := tricorder.NewGroup()
					tricorder.RegisterMetricInGroup("/vp/new/b", &z, g, units.None, "")
				case "stale":
					if s, err := tricorder.RegisterDirectory("/vp/gone/deep"); err == nil {
						tricorder.UnregisterPath("/vp/gone")
						s.RegisterMetric("m", &z, units.None, "")
						s.UnregisterDirectory()
					}
				}
			}
			return 5
		}
		reg := func() {
			if err := tricorder.RegisterMetricInGroup("/vp/d/cb", callback, own, units.None, ""); err != nil {
				t.Fatalf("register: %v", err)
			}
		}
		reg()
		for n := rapid.IntRange(1, 3).Draw(t, "requests"); n > 0; n-- {
			how := rapid.SampledFrom([]string{"local", "rpc", "rpcget", "rest", "restone", "html", "htmldir", "text"}).Draw(t, "how")
			hist = append(hist, how)
			before := calls
			var got string
			if !vh.Within(patience, func() {
				switch how {
				case "local":
					for _, m := range tricorder.ReadMyMetrics("/vp") {
						got += m.Path + " "
					}
				case "rpc":
					l, err := vh.RpcList("/vp")
					for _, m := range l {
						got += m.Path + " "
					}
					if err != nil {
						wrong = err.Error()
					}
				case "rpcget":
					m, err := vh.RpcGet("/vp/d/cb")
					got = m.Path + " "
					if err != nil {
						wrong = err.Error()
					}
				case "rest":
					got = vh.Get("/metricsapi/vp").Body
				case "restone":
					got = vh.Get("/metricsapi/vp/d/cb?singleton=1").Body
				case "html":
					got = vh.Get("/metrics/vp/d/cb").Body
				case "htmldir":
					got = vh.Get("/metrics/vp/d").Body
				case "text":
					got = vh.Get("/metrics/vp?format=text").Body
				}
			}) {
				t.Fatalf("%s with a callback that does %q never ends", how, acts)
			}
			if wrong == "" && calls == before {
				wrong = "the callback was not called"
			}
			// the callback runs once the request is under way, so its metric is in the answer
			if wrong == "" && !strings.Contains(got, "cb") {
				wrong = "the metric is missing: " + got
			}
			if wrong != "" {
				t.Fatalf("%s with a callback that does %q: %s", how, acts, wrong)
			}
			if m := tricorder.ReadMyMetrics("/vp/d/cb"); len(m) > 0 && m[0].Value != int64(5) {
				t.Fatalf("callback reported as %v", m[0].Value)
			}
			tricorder.UnregisterPath("/vp/d/cb")
			reg()
		}
		vh.Case(fmt.Sprintf("callbacks %q %q", acts, hist), len(acts) > 1)
	})
}
