package vh

import (
	"bytes"
	"compress/gzip"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/http/httptest"
	"net/rpc"
	"net/url"
	"strings"
	"sync"

	"github.com/Symantec/tricorder/go/tricorder/messages"
	"pgregory.net/rapid"
)

// Resp is an HTTP response.
type Resp struct {
	Status int
	Header http.Header
	Body   string
}

// URLPath escapes an absolute metric path for use in a URL.
func URLPath(path string) string { return (&url.URL{Path: path}).EscapedPath() }

// Get performs a GET on the default mux.
func Get(rawurl string, hdr ...string) Resp {
	if served.Load() {
		return Serve("GET", rawurl, hdr...)
	}
	req := httptest.NewRequest("GET", rawurl, nil)
	for i := 0; i+1 < len(hdr); i += 2 {
		req.Header.Set(hdr[i], hdr[i+1])
	}
	w := httptest.NewRecorder()
	http.DefaultServeMux.ServeHTTP(w, req)
	return Resp{w.Code, w.Result().Header, w.Body.String()}
}

// Gunzip decompresses.
func Gunzip(s string) (string, error) {
	r, err := gzip.NewReader(strings.NewReader(s))
	if err != nil {
		return "", err
	}
	b, err := io.ReadAll(r)
	return string(b), err
}

// JMetric is a metric as found in REST JSON.
type JMetric struct {
	Path        *string         `json:"path"`
	Description *string         `json:"description"`
	Unit        string          `json:"unit"`
	Kind        string          `json:"kind"`
	SubType     string          `json:"subType"`
	Bits        int             `json:"bits"`
	Value       json.RawMessage `json:"value"`
	TimeStamp   json.RawMessage `json:"timestamp"`
	GroupId     *int            `json:"groupId"`
}

// UnmarshalJSON decodes a metric by the exact field names.
func (m *JMetric) UnmarshalJSON(b []byte) error {
	type plain JMetric
	var p plain
	if err := json.Unmarshal(b, &p); err != nil {
		return err
	}
	names := []string{"path", "description", "kind", "value", "timestamp", "groupId"}
	if p.Unit != "" {
		names = append(names, "unit")
	}
	if p.SubType != "" {
		names = append(names, "subType")
	}
	if p.Bits != 0 {
		names = append(names, "bits")
	}
	*m = JMetric(p)
	return Keys(b, names...)
}

// Keys tells whether a JSON object has the fields, spelled exactly so, and no two alike.
func Keys(raw []byte, names ...string) error {
	var o map[string]json.RawMessage
	if err := json.Unmarshal(raw, &o); err != nil {
		return err
	}
	for _, n := range names {
		if o[n] == nil {
			return fmt.Errorf("no field %q", n)
		}
	}
	seen := map[string]bool{}
	for k := range o {
		if seen[strings.ToLower(k)] {
			return fmt.Errorf("field %q twice", k)
		}
		seen[strings.ToLower(k)] = true
	}
	return nil
}

// Strict decodes JSON, refusing trailing data.
func Strict(body string, into interface{}) error {
	dec := json.NewDecoder(bytes.NewReader([]byte(body)))
	if err := dec.Decode(into); err != nil {
		return err
	}
	if _, err := dec.Token(); err != io.EOF {
		return errors.New("trailing data")
	}
	return nil
}

// RestList lists a path through the REST API.
func RestList(path string) ([]*JMetric, error) {
	r := Get("/metricsapi" + URLPath(path))
	if r.Status != 200 {
		return nil, fmt.Errorf("status %d: %q", r.Status, r.Body)
	}
	var l []*JMetric
	if err := Strict(r.Body, &l); err != nil {
		return nil, fmt.Errorf("%v in body %q", err, r.Body)
	}
	if l == nil {
		return nil, fmt.Errorf("null instead of an array: %q", r.Body)
	}
	return l, nil
}

var (
	rpcMu     sync.Mutex
	rpcClient *rpc.Client
)

func client() *rpc.Client {
	rpcMu.Lock()
	defer rpcMu.Unlock()
	if rpcClient == nil {
		c, s := net.Pipe()
		go rpc.ServeConn(s)
		rpcClient = rpc.NewClient(c)
	}
	return rpcClient
}

// RpcCall calls a method of the registered RPC service over a connection.
func RpcCall(method, path string, reply interface{}) error {
	err := client().Call("MetricsServer."+method, path, reply)
	if _, ok := err.(rpc.ServerError); err != nil && !ok {
		rpcMu.Lock()
		rpcClient.Close()
		rpcClient = nil
		rpcMu.Unlock()
	}
	return err
}

// RpcList lists a path over Go RPC.
func RpcList(path string) (messages.MetricList, error) {
	var l messages.MetricList
	err := RpcCall("ListMetrics", path, &l)
	return l, err
}

// RpcGet fetches one metric over Go RPC.
func RpcGet(path string) (*messages.Metric, error) {
	var m messages.Metric
	err := RpcCall("GetMetric", path, &m)
	return &m, err
}

// Must fails the case on error.
func Must(t *rapid.T, err error, what string) {
	t.Helper()
	if err != nil {
		t.Fatalf("%s: %v", what, err)
	}
}
