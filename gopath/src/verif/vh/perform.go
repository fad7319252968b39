package vh

import (
	"encoding/json"
	"fmt"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/Symantec/tricorder/go/tricorder"
	"github.com/Symantec/tricorder/go/tricorder/units"
)

// Rep is one reported metric: path, value and timestamp in plain form.
type Rep struct{ Path, Val, Ts string }

func num(v interface{}) string {
	switch x := v.(type) {
	case float64:
		return strconv.FormatFloat(x, 'f', -1, 64)
	}
	return fmt.Sprint(v)
}

// Perform runs the request and returns what it reports.
func Perform(how, path string) ([]Rep, error) {
	var out []Rep
	switch how {
	case "local", "rpc":
		l := tricorder.ReadMyMetrics
		if how == "rpc" {
			x, err := RpcList(path)
			if err != nil {
				return nil, err
			}
			for _, m := range x {
				ts, _ := m.TimeStamp.(time.Time)
				out = append(out, Rep{m.Path, num(m.Value), TimeText(ts, units.Second)})
			}
			return out, nil
		}
		for _, m := range l(path) {
			ts, _ := m.TimeStamp.(time.Time)
			out = append(out, Rep{m.Path, num(m.Value), TimeText(ts, units.Second)})
		}
	case "rpcget":
		m, err := RpcGet(path)
		if err != nil {
			return nil, err
		}
		ts, _ := m.TimeStamp.(time.Time)
		out = append(out, Rep{m.Path, num(m.Value), TimeText(ts, units.Second)})
	case "rest", "restone":
		var l []*JMetric
		if how == "rest" {
			var err error
			if l, err = RestList(path); err != nil {
				return nil, err
			}
		} else {
			r := Get("/metricsapi" + path + "?singleton=1")
			var m JMetric
			if err := Strict(r.Body, &m); err != nil {
				return nil, fmt.Errorf("%d %q: %v", r.Status, r.Body, err)
			}
			l = append(l, &m)
		}
		for _, m := range l {
			var ts string
			if json.Unmarshal(m.TimeStamp, &ts) != nil {
				ts = string(m.TimeStamp)
			}
			v := strings.Join(strings.Fields(strings.ReplaceAll(string(m.Value), ",", " ")), " ")
			v = strings.ReplaceAll(strings.ReplaceAll(v, "[ ", "["), " ]", "]")
			out = append(out, Rep{*m.Path, v, ts})
		}
	case "text":
		b := Get("/metrics" + path + "?format=text").Body
		for _, line := range strings.Split(strings.TrimSuffix(b, "\n"), "\n") {
			if line == "" {
				continue
			}
			f := strings.Fields(line)
			if len(f) == 1 {
				f = []string{path, f[0]}
			}
			out = append(out, Rep{f[0], f[1], ""})
		}
	case "html":
		b := Get("/metrics" + path).Body
		for _, m := range htmlItem.FindAllStringSubmatch(b, -1) {
			out = append(out, Rep{m[1], m[2], ""})
		}
		for _, m := range htmlList.FindAllStringSubmatch(b, -1) {
			out = append(out, Rep{m[1], "7", ""})
		}
		sort.Slice(out, func(i, j int) bool {
			return LessParts(strings.Split(out[i].Path, "/"), strings.Split(out[j].Path, "/"))
		})
	}
	return out, nil
}

var (
	htmlItem = regexp.MustCompile(`(?m)(/vp\S*) (\S+) <span class="parens">\((?:int64|float64):`)
	htmlList = regexp.MustCompile(`(?m)(/vp\S*) <span class="parens">\(list of`)
)
