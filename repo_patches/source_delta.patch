From 252f4320bf688ba22ed814776bc4e37914973aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:27 +0000
Subject: [PATCH 01/15] fix: refuse values that are not metrics with
 ErrWrongType

Registering nil, a non-pointer or a nil pointer crashed the application, and
a nil function or one that needs arguments, or a nil list or distribution,
was accepted and crashed it at the next request.
---
 go/tricorder/metric.go | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/go/tricorder/metric.go b/go/tricorder/metric.go
index 38739b3..93e34b0 100644
--- a/go/tricorder/metric.go
+++ b/go/tricorder/metric.go
@@ -824,6 +824,9 @@ func mustGetPrimitiveType(t reflect.Type) (
 
 func newValueForDist(dist *distribution, unit units.Unit) (
 	*value, error) {
+	if dist == nil {
+		return nil, ErrWrongType
+	}
 	if !dist.SetUnit(unit) {
 		return nil, ErrWrongUnit
 	}
@@ -831,6 +834,13 @@ func newValueForDist(dist *distribution, unit units.Unit) (
 
 }
 
+func newValueForList(alist *listType, unit units.Unit) (*value, error) {
+	if alist == nil {
+		return nil, ErrWrongType
+	}
+	return &value{alist: alist, unit: unit, valType: types.List}, nil
+}
+
 // unit parameter only used if spec is a *Distribution
 // In that case, it sets the unit of the *Distribution in place.
 func newValue(spec interface{}, region *region, unit units.Unit) (
@@ -848,10 +858,10 @@ func newValue(spec interface{}, region *region, unit units.Unit) (
 	}
 	if someList, ok := spec.(*List); ok {
 		alist := (*listType)(someList)
-		return &value{alist: alist, unit: unit, valType: types.List}, nil
+		return newValueForList(alist, unit)
 	}
 	if alist, ok := spec.(*listType); ok {
-		return &value{alist: alist, unit: unit, valType: types.List}, nil
+		return newValueForList(alist, unit)
 	}
 	flagValue, ok := spec.(flag.Value)
 	if ok {
@@ -875,6 +885,9 @@ func newValue(spec interface{}, region *region, unit units.Unit) (
 			isValAPointer: isValAPointer}, nil
 	}
 	v := reflect.ValueOf(spec)
+	if !v.IsValid() {
+		return nil, ErrWrongType
+	}
 	t := v.Type()
 	if t.Kind() == reflect.Func {
 		funcArgCount := t.NumOut()
@@ -883,6 +896,10 @@ func newValue(spec interface{}, region *region, unit units.Unit) (
 		if funcArgCount != 1 {
 			panic(panicBadFunctionReturnTypes)
 		}
+		// We call our functions with no arguments
+		if v.IsNil() || t.NumIn() > 1 || (t.NumIn() == 1 && !t.IsVariadic()) {
+			return nil, ErrWrongType
+		}
 		valType, isValAPointer, ok := getPrimitiveType(t.Out(0))
 		if !ok {
 			return nil, ErrWrongType
@@ -895,6 +912,9 @@ func newValue(spec interface{}, region *region, unit units.Unit) (
 			isfunc:        true,
 			isValAPointer: isValAPointer}, nil
 	}
+	if t.Kind() != reflect.Ptr || v.IsNil() {
+		return nil, ErrWrongType
+	}
 	v = v.Elem()
 	valType, isValAPointer, ok := getPrimitiveType(v.Type())
 	if !ok {
-- 
2.43.0


From 88f27cf685d784d1c5cf608407a9517b86c964ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:20 +0000
Subject: [PATCH 02/15] fix: a refused registration leaves no directory behind
 and assigns no unit

The metric was validated only after the directories of its path had been
created, and a distribution took the unit even if its path was in use.
---
 go/tricorder/metric.go | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/go/tricorder/metric.go b/go/tricorder/metric.go
index 93e34b0..aa15e02 100644
--- a/go/tricorder/metric.go
+++ b/go/tricorder/metric.go
@@ -377,6 +377,13 @@ func (d *distribution) SetUnit(unit units.Unit) bool {
 	return false
 }
 
+// AcceptsUnit returns true if calling SetUnit with unit would succeed
+func (d *distribution) AcceptsUnit(unit units.Unit) bool {
+	d.lock.RLock()
+	defer d.lock.RUnlock()
+	return !d.unitSet || unit == d.unit
+}
+
 func (d *distribution) GroupId() int {
 	return d.groupId
 }
@@ -827,7 +834,7 @@ func newValueForDist(dist *distribution, unit units.Unit) (
 	if dist == nil {
 		return nil, ErrWrongType
 	}
-	if !dist.SetUnit(unit) {
+	if !dist.AcceptsUnit(unit) {
 		return nil, ErrWrongUnit
 	}
 	return &value{dist: dist, unit: unit, valType: types.Dist}, nil
@@ -841,8 +848,9 @@ func newValueForList(alist *listType, unit units.Unit) (*value, error) {
 	return &value{alist: alist, unit: unit, valType: types.List}, nil
 }
 
-// unit parameter only used if spec is a *Distribution
-// In that case, it sets the unit of the *Distribution in place.
+// newValue has no side effects. In particular, if spec is a *Distribution,
+// newValue ensures that unit is acceptable, but it is storing the metric that
+// sets the unit of the *Distribution in place.
 func newValue(spec interface{}, region *region, unit units.Unit) (
 	*value, error) {
 	if someDist, ok := spec.(*NonCumulativeDistribution); ok {
@@ -1708,6 +1716,10 @@ func (d *directory) storeMetric(name string, m *metric) error {
 	if n != nil {
 		return ErrPathInUse
 	}
+	// Registering a distribution assigns its unit
+	if m.dist != nil && !m.dist.SetUnit(m.unit) {
+		return ErrWrongUnit
+	}
 	newListEntry := &listEntry{Name: name, Metric: m, parent: d.enclosingListEntry}
 	m.enclosingListEntry = newListEntry
 	d.contents[name] = newListEntry
@@ -1735,11 +1747,12 @@ func (d *directory) registerMetric(
 	if path.Empty() {
 		return ErrPathInUse
 	}
-	current, err := d.registerDirectory(path.Dir())
+	// Ensure that the metric is valid before creating any directories
+	avalue, err := newValue(value, region, unit)
 	if err != nil {
 		return
 	}
-	avalue, err := newValue(value, region, unit)
+	current, err := d.registerDirectory(path.Dir())
 	if err != nil {
 		return
 	}
-- 
2.43.0


From 352162f8d5e4b3181bdc4f766d7fa9b273b4d53b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:18 +0000
Subject: [PATCH 03/15] fix: report values of named types in the documented
 built-in type

A variable, callback or list of a named type such as 'type Celsius float64'
was reported as that type, so Go RPC could not send it and the whole listing
failed.
---
 go/tricorder/metric.go | 66 +++++++++++++++++++++---------------------
 1 file changed, 33 insertions(+), 33 deletions(-)

diff --git a/go/tricorder/metric.go b/go/tricorder/metric.go
index aa15e02..1ed368a 100644
--- a/go/tricorder/metric.go
+++ b/go/tricorder/metric.go
@@ -613,28 +613,10 @@ func copySlice(value reflect.Value) reflect.Value {
 	return result
 }
 
-// Converts []int or []uint slice to a slice having element type t.
-// If value is an []int, t has to be types.Int32 or types.Int64.
-// If value is an []uint, t has to be types.Uint32 or types.Uint64.
-func convertFromIntOrUintSlice(
-	value reflect.Value, t types.Type) reflect.Value {
-	var newType reflect.Type
-	switch t {
-	case types.Int32:
-		var unused []int32
-		newType = reflect.TypeOf(unused)
-	case types.Int64:
-		var unused []int64
-		newType = reflect.TypeOf(unused)
-	case types.Uint32:
-		var unused []uint32
-		newType = reflect.TypeOf(unused)
-	case types.Uint64:
-		var unused []uint64
-		newType = reflect.TypeOf(unused)
-	default:
-		panic("t is not compatible with int or uint")
-	}
+// Converts a slice such as an []int, an []uint, or a slice of some named type
+// to a slice of type newType having element type t by making a copy.
+func convertSlice(
+	value reflect.Value, newType reflect.Type, t types.Type) reflect.Value {
 	length := value.Len()
 	defensiveCopy := reflect.MakeSlice(newType, length, length)
 	for i := 0; i < length; i++ {
@@ -651,7 +633,9 @@ func convertFromIntOrUintSlice(
 // Returns aSlice as a value and its type. If sliceIsMutable is true,
 // always makes a defensive copy of aSlice. If sliceIsMutable is false,
 // may or may not make a defensive copy of aSlice. If aSlice is an []int
-// or []uint, returned value will be size specific, e.g []int64.
+// or []uint, returned value will be size specific, e.g []int64. If aSlice
+// is of a named type or has elements of a named type, returned value will
+// be of the corresponding built-in type.
 func asSliceValue(aSlice interface{}, sliceIsMutable bool) (
 	value reflect.Value, t types.Type) {
 	value = reflect.ValueOf(aSlice)
@@ -663,9 +647,9 @@ func asSliceValue(aSlice interface{}, sliceIsMutable bool) (
 	if isPtr {
 		panic("Lists cannot contain slices of pointrs.")
 	}
-	elemKind := elemType.Kind()
-	if elemKind == reflect.Int || elemKind == reflect.Uint {
-		value = convertFromIntOrUintSlice(value, t)
+	newType := reflect.TypeOf(t.NilSlice())
+	if value.Type() != newType {
+		value = convertSlice(value, newType, t)
 	} else if sliceIsMutable {
 		value = copySlice(value)
 	}
@@ -1086,27 +1070,43 @@ func valueToInterface(
 	value reflect.Value,
 	t types.Type,
 	isValueAPointer bool) interface{} {
-	// Int32, Int64, Uint32, and Uint64 cases are necessary in case
-	// client passed an int or uint pointer to RegisterMetric.
+	// These cases are necessary in case client passed a pointer to an
+	// int, a uint, or a named type such as "type Temperature float64" to
+	// RegisterMetric.
 	// If we were to just call v.evaluate(s).Interface() we would return
-	// that plain int or uint instead of a sized int or uint and violate
-	// the contract of the API which specifies that the value is always
-	// a sized int or uint.
+	// that plain int or uint or that named type instead of a sized int or
+	// uint or built-in type and violate the contract of the API which
+	// specifies the type of the value for each kind. Moreover, go rpc
+	// can't send types it doesn't know about.
 	switch {
+	case t == types.Bool && !isValueAPointer:
+		return value.Bool()
+	case t == types.Int8 && !isValueAPointer:
+		return int8(value.Int())
+	case t == types.Int16 && !isValueAPointer:
+		return int16(value.Int())
 	case t == types.Int32 && !isValueAPointer:
 		return int32(value.Int())
 	case t == types.Int64 && !isValueAPointer:
 		return int64(value.Int())
+	case t == types.Uint8 && !isValueAPointer:
+		return uint8(value.Uint())
+	case t == types.Uint16 && !isValueAPointer:
+		return uint16(value.Uint())
 	case t == types.Uint32 && !isValueAPointer:
 		return uint32(value.Uint())
 	case t == types.Uint64 && !isValueAPointer:
 		return uint64(value.Uint())
+	case t == types.Float32 && !isValueAPointer:
+		return float32(value.Float())
+	case t == types.Float64 && !isValueAPointer:
+		return value.Float()
+	case t == types.String && !isValueAPointer:
+		return value.String()
 	case t == types.GoTime:
 		return valueToTime(value, isValueAPointer)
 	case t == types.GoDuration:
 		return valueToGoDuration(value)
-	case !isValueAPointer:
-		return value.Interface()
 	default:
 		panic(panicIncompatibleTypes)
 	}
-- 
2.43.0


From 5e629eeec508b54300cc457a1e1af6baea7626d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:09 +0000
Subject: [PATCH 04/15] fix: leave metrics that JSON cannot express out of REST
 responses

A NaN or infinity inside a list or distribution, or fetched as a singleton,
made the whole REST response an error message with status 200.
---
 go/tricorder/json.go | 48 ++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 46 insertions(+), 2 deletions(-)

diff --git a/go/tricorder/json.go b/go/tricorder/json.go
index 1a5ae16..030788a 100644
--- a/go/tricorder/json.go
+++ b/go/tricorder/json.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/json"
 	"github.com/Symantec/tricorder/go/tricorder/messages"
+	"math"
 	"net/http"
 )
 
@@ -17,10 +18,48 @@ func jsonAsMetric(m *metric, s *session) *messages.Metric {
 	return &result
 }
 
+func isFinite(values ...float64) bool {
+	for _, v := range values {
+		if math.IsNaN(v) || math.IsInf(v, 0) {
+			return false
+		}
+	}
+	return true
+}
+
+// JSON can express neither NaN nor infinity.
+func canExpressInJson(value interface{}) bool {
+	switch v := value.(type) {
+	case float32:
+		return isFinite(float64(v))
+	case float64:
+		return isFinite(v)
+	case []float32:
+		for _, f := range v {
+			if !isFinite(float64(f)) {
+				return false
+			}
+		}
+	case []float64:
+		return isFinite(v...)
+	case *messages.Distribution:
+		for _, r := range v.Ranges {
+			if !isFinite(r.Lower, r.Upper) {
+				return false
+			}
+		}
+		return isFinite(v.Min, v.Max, v.Average, v.Median, v.Sum)
+	}
+	return true
+}
+
 type jsonMetricsCollector messages.MetricList
 
 func (c *jsonMetricsCollector) Collect(m *metric, s *session) (err error) {
-	*c = append(*c, jsonAsMetric(m, s))
+	metric := jsonAsMetric(m, s)
+	if canExpressInJson(metric.Value) {
+		*c = append(*c, metric)
+	}
 	return nil
 }
 
@@ -41,7 +80,12 @@ func jsonHandlerFunc(w http.ResponseWriter, r *http.Request) {
 			httpError(w, http.StatusNotFound)
 			return
 		}
-		content, err = json.Marshal(jsonAsMetric(m, nil))
+		metric := jsonAsMetric(m, nil)
+		if !canExpressInJson(metric.Value) {
+			httpError(w, http.StatusNotFound)
+			return
+		}
+		content, err = json.Marshal(metric)
 	} else {
 		collector := make(jsonMetricsCollector, 0)
 		root.GetAllMetricsByPath(path, &collector, nil)
-- 
2.43.0


From d47931b5891b363744953273312b8a567b1d7257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:48 +0000
Subject: [PATCH 05/15] fix: escape directory names in the links of HTML pages

A directory named with a question mark, a number sign or a percent sign was
linked by its raw path, so that following the link led to another page.
---
 go/tricorder/html.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/go/tricorder/html.go b/go/tricorder/html.go
index 6849d9d..3e57b2e 100644
--- a/go/tricorder/html.go
+++ b/go/tricorder/html.go
@@ -7,6 +7,7 @@ import (
 	"html/template"
 	"io"
 	"net/http"
+	"net/url"
 	"regexp"
 	"strconv"
 	"strings"
@@ -142,7 +143,7 @@ func (v *htmlView) HasUnit() bool {
 }
 
 func (v *htmlView) Link(d *directory) string {
-	return htmlUrl + d.AbsPath()
+	return (&url.URL{Path: htmlUrl + d.AbsPath()}).EscapedPath()
 }
 
 func (v *htmlView) ToFloat32(f float64) float32 {
-- 
2.43.0


From 749d5f0fb9864d1e411377098bc62dceb6d7f78d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:34:48 +0000
Subject: [PATCH 06/15] fix: report generation and kind of empty distributions

The report of a distribution that holds no values had generation 0 and was
always marked cumulative, so that a non-cumulative distribution changed kind,
and its generation went back, whenever its last value was removed.
---
 go/tricorder/metric.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/go/tricorder/metric.go b/go/tricorder/metric.go
index 1ed368a..ad04e2f 100644
--- a/go/tricorder/metric.go
+++ b/go/tricorder/metric.go
@@ -579,9 +579,11 @@ func (d *distribution) Snapshot() *snapshot {
 	}
 	if d.count == 0 {
 		return &snapshot{
-			Count:     d.count,
-			Breakdown: bdn,
-			TimeStamp: d.timeStamp,
+			Count:           d.count,
+			Generation:      d.generation,
+			IsNotCumulative: d.isNotCumulative,
+			Breakdown:       bdn,
+			TimeStamp:       d.timeStamp,
 		}
 	}
 	return &snapshot{
-- 
2.43.0


From 3b55b4a2831357a3e77dc190f00cc2efa0f5d03f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:23 +0000
Subject: [PATCH 07/15] fix: round negative seconds to the nearest nanosecond

FromFloat added half a nanosecond before truncating towards zero, so negative
durations came back one nanosecond off.
---
 go/tricorder/duration/api.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/go/tricorder/duration/api.go b/go/tricorder/duration/api.go
index 4b65b73..2671d13 100644
--- a/go/tricorder/duration/api.go
+++ b/go/tricorder/duration/api.go
@@ -3,6 +3,7 @@ package duration
 
 import (
 	"github.com/Symantec/tricorder/go/tricorder/units"
+	"math"
 	"time"
 )
 
@@ -95,5 +96,5 @@ func ToFloat(d time.Duration) (seconds float64) {
 
 // FromFloat converts a value in seconds to a duration
 func FromFloat(seconds float64) time.Duration {
-	return time.Duration(seconds*float64(time.Second) + 0.5)
+	return time.Duration(math.Round(seconds * float64(time.Second)))
 }
-- 
2.43.0


From 1ddaae1714d08ec700334566d9302248f4c0d5f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:25 +0000
Subject: [PATCH 08/15] fix: refuse durations and times that are not decimal
 numbers

A second sign before a zero whole part ("--0.5") and anything at all after the
ninth fractional digit ("1.123456789xyz") were accepted.
---
 go/tricorder/duration/duration.go | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/go/tricorder/duration/duration.go b/go/tricorder/duration/duration.go
index 1369106..6586c2c 100644
--- a/go/tricorder/duration/duration.go
+++ b/go/tricorder/duration/duration.go
@@ -124,21 +124,34 @@ func (d Duration) convert(from, to units.Unit) Duration {
 	return d.mult(num).div(den)
 }
 
+func isAllDigits(str string) bool {
+	for i := range str {
+		if str[i] < '0' || str[i] > '9' {
+			return false
+		}
+	}
+	return true
+}
+
 func parse(str string) (result Duration, err error) {
 	var bNegative bool
 	if strings.HasPrefix(str, "-") {
 		bNegative = true
 		str = str[1:]
+	} else if strings.HasPrefix(str, "+") {
+		str = str[1:]
 	}
 	number := strings.SplitN(str, ".", 2)
+	for _, part := range number {
+		if !isAllDigits(part) {
+			err = errors.New("Digits expected while parsing")
+			return
+		}
+	}
 	whole, err := strconv.ParseInt(number[0], 10, 64)
 	if err != nil {
 		return
 	}
-	if whole < 0 {
-		err = errors.New("Double negative while parsing")
-		return
-	}
 	var frac uint64
 	if len(number) == 2 {
 		fracStr := number[1]
-- 
2.43.0


From 45b631a9a99d3aba59d79cd2666b3c182ee04c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:53 +0000
Subject: [PATCH 09/15] fix: round floats to the nearest integer exactly

Adding half and truncating gave the wrong integer for odd values from 2^52 on,
which a float64 holds exactly, and for the largest float64 below one half.
---
 go/tricorder/types/types.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/go/tricorder/types/types.go b/go/tricorder/types/types.go
index 1e465d5..2d0c6cb 100644
--- a/go/tricorder/types/types.go
+++ b/go/tricorder/types/types.go
@@ -1,12 +1,13 @@
 package types
 
+import (
+	"math"
+)
+
 type goValue interface {
 	Type() Type
 }
 
 func round(f float64) float64 {
-	if f < 0 {
-		return f - 0.5
-	}
-	return f + 0.5
+	return math.Round(f)
 }
-- 
2.43.0


From fea1a4263c6c8db7644b5b780ccd76be26ad52c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:54 +0000
Subject: [PATCH 10/15] fix: refuse JSON durations that a time.Duration cannot
 hold

They overflowed silently to an unrelated duration.
---
 go/tricorder/messages/metric.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/go/tricorder/messages/metric.go b/go/tricorder/messages/metric.go
index 321760b..0d41927 100644
--- a/go/tricorder/messages/metric.go
+++ b/go/tricorder/messages/metric.go
@@ -211,5 +211,8 @@ func stringAsDuration(durationStr string, unit units.Unit) (
 		return
 	}
 	result = dur.AsGoDuration()
+	if duration.New(result) != dur {
+		err = fmt.Errorf("Duration '%s' out of range", durationStr)
+	}
 	return
 }
-- 
2.43.0


From daa3e056b0edf4881881b5e190428bb5087d3eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:31 +0000
Subject: [PATCH 11/15] fix: keep a text request's group from updating while
 its metric is read

The text view of a single metric read the variable after it had stopped
counting as a reader of the group, so that an update for another request
could run at the same time.
---
 go/tricorder/html.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/go/tricorder/html.go b/go/tricorder/html.go
index 3e57b2e..5afb9f9 100644
--- a/go/tricorder/html.go
+++ b/go/tricorder/html.go
@@ -268,7 +268,9 @@ func textEmitDirectoryOrMetric(
 	if m == nil {
 		return d.GetAllMetrics(&textCollector{W: w}, nil)
 	}
-	return textEmitMetric(m, nil, w)
+	s := newSession()
+	defer s.Close()
+	return textEmitMetric(m, s, w)
 }
 
 func setSecurityHeaders(w http.ResponseWriter) {
-- 
2.43.0


From b8935c9af5a80a7eca2703b61a3e14bfc89e4e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:59 +0000
Subject: [PATCH 12/15] fix: report a flag whose getter yields nil as a string

RegisterFlags panicked on such a flag.
---
 go/tricorder/metric.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/go/tricorder/metric.go b/go/tricorder/metric.go
index ad04e2f..e1a3679 100644
--- a/go/tricorder/metric.go
+++ b/go/tricorder/metric.go
@@ -860,8 +860,12 @@ func newValue(spec interface{}, region *region, unit units.Unit) (
 	flagValue, ok := spec.(flag.Value)
 	if ok {
 		flagGetter := toFlagGetter(flagValue)
-		t := reflect.ValueOf(flagGetter.Get()).Type()
-		valType, isValAPointer, ok := getPrimitiveType(t)
+		var valType types.Type
+		var isValAPointer, ok bool
+		// t is nil if the flag has no value
+		if t := reflect.TypeOf(flagGetter.Get()); t != nil {
+			valType, isValAPointer, ok = getPrimitiveType(t)
+		}
 		var valFunc reflect.Value
 		if !ok {
 			valType = types.String
-- 
2.43.0


From eacf69f9411297c2a7273f000eb21e31b23c1e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:02:22 +0000
Subject: [PATCH 13/15] fix: convert the microseconds of CPU times as such

---
 go/tricorder/setup.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/go/tricorder/setup.go b/go/tricorder/setup.go
index b0a4b59..ea14d30 100644
--- a/go/tricorder/setup.go
+++ b/go/tricorder/setup.go
@@ -15,7 +15,7 @@ func getProgramArgs() string {
 }
 
 func timeValToDuration(val *wrapper.Timeval) time.Duration {
-	return time.Duration(val.Sec)*time.Second + time.Duration(val.Usec)*time.Nanosecond
+	return time.Duration(val.Sec)*time.Second + time.Duration(val.Usec)*time.Microsecond
 }
 
 func initDefaultMetrics() {
-- 
2.43.0


From b2f015591ac1b86e9efb7a58ed89849645f1d025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:46 +0000
Subject: [PATCH 14/15] fix: show a list or distribution once per request with
 one timestamp

---
 go/tricorder/metric.go | 47 +++++++++++++++++++++++++++++++++++++++---
 1 file changed, 44 insertions(+), 3 deletions(-)

diff --git a/go/tricorder/metric.go b/go/tricorder/metric.go
index e1a3679..b692f95 100644
--- a/go/tricorder/metric.go
+++ b/go/tricorder/metric.go
@@ -74,10 +74,51 @@ var (
 // it is up to the function to create its own session if necessary.
 type session struct {
 	visitedRegions map[*region]time.Time
+	// Distributions and lists as this session first saw them so that
+	// metrics with the same group Id have the same timestamp.
+	snapshots map[*distribution]*snapshot
+	lists     map[*listType]listSnapshot
+}
+
+type listSnapshot struct {
+	aSlice    interface{}
+	timeStamp time.Time
 }
 
 func newSession() *session {
-	return &session{visitedRegions: make(map[*region]time.Time)}
+	return &session{
+		visitedRegions: make(map[*region]time.Time),
+		snapshots:      make(map[*distribution]*snapshot),
+		lists:          make(map[*listType]listSnapshot),
+	}
+}
+
+// Snapshot returns what d held when this session first asked for it.
+// If s is nil, Snapshot returns what d holds now.
+func (s *session) Snapshot(d *distribution) *snapshot {
+	if s == nil {
+		return d.Snapshot()
+	}
+	result, ok := s.snapshots[d]
+	if !ok {
+		result = d.Snapshot()
+		s.snapshots[d] = result
+	}
+	return result
+}
+
+// AsSlice returns what l held when this session first asked for it.
+// If s is nil, AsSlice returns what l holds now.
+func (s *session) AsSlice(l *listType) (interface{}, time.Time) {
+	if s == nil {
+		return l.AsSlice()
+	}
+	result, ok := s.lists[l]
+	if !ok {
+		result.aSlice, result.timeStamp = l.AsSlice()
+		s.lists[l] = result
+	}
+	return result.aSlice, result.timeStamp
 }
 
 // Visit indicates that caller is about to fetch metrics from a
@@ -1170,7 +1211,7 @@ func (v *value) updateJsonOrRpcMetric(
 	switch t {
 	case types.Dist:
 		dist := v.AsDistribution()
-		snapshot := dist.Snapshot()
+		snapshot := s.Snapshot(dist)
 		metric.Value = &messages.Distribution{
 			Min:             snapshot.Min,
 			Max:             snapshot.Max,
@@ -1185,7 +1226,7 @@ func (v *value) updateJsonOrRpcMetric(
 		metric.TimeStamp = snapshot.TimeStamp
 	case types.List:
 		alist := v.AsList()
-		metric.Value, metric.TimeStamp = alist.AsSlice()
+		metric.Value, metric.TimeStamp = s.AsSlice(alist)
 		metric.GroupId = alist.GroupId()
 	default:
 		if s == nil {
-- 
2.43.0


From f63fee6d63ab51c76470f71f121a0afe56c97eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:43:50 +0000
Subject: [PATCH 15/15] fix: keep the median of an even number of huge values
 finite

---
 go/tricorder/metric.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/go/tricorder/metric.go b/go/tricorder/metric.go
index b692f95..aa7173b 100644
--- a/go/tricorder/metric.go
+++ b/go/tricorder/metric.go
@@ -602,7 +602,8 @@ func (d *distribution) calculateMedian() float64 {
 		return d.total / float64(d.count)
 	}
 	if d.count%2 == 0 {
-		return (d.indexToValue(d.count/2-1) + d.indexToValue(d.count/2)) / 2.0
+		// Halving first keeps the sum of two huge values finite.
+		return d.indexToValue(d.count/2-1)/2.0 + d.indexToValue(d.count/2)/2.0
 	}
 	return d.indexToValue(d.count / 2)
 }
-- 
2.43.0

