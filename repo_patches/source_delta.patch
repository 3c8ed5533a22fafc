From 6b9b3b835f80830b56950f1a579a2eb9cd3c2301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:36:59 +0000
Subject: [PATCH 01/21] fix: Query of a distribution that was reset returns 0,
 not a stale value

---
 distgen.go.m4 | 3 +++
 durdist.go    | 3 +++
 floatdist.go  | 3 +++
 intdist.go    | 3 +++
 4 files changed, 12 insertions(+)

diff --git a/distgen.go.m4 b/distgen.go.m4
index 28e2889..fd2ca51 100644
--- a/distgen.go.m4
+++ b/distgen.go.m4
@@ -129,6 +129,9 @@ func (d *_NAME_`Dist') Query(quantile float64) _TYPE_ {
 		rlen = int(d.Count)
 	}
 
+	if rlen <= 0 {
+		return 0
+	}
 	if rlen < 2 {
 		return _TYPE_`(d.reservoir[0])'
 	}
diff --git a/durdist.go b/durdist.go
index 4d2a281..8e5c859 100644
--- a/durdist.go
+++ b/durdist.go
@@ -129,6 +129,9 @@ func (d *DurationDist) Query(quantile float64) time.Duration {
 		rlen = int(d.Count)
 	}
 
+	if rlen <= 0 {
+		return 0
+	}
 	if rlen < 2 {
 		return time.Duration(d.reservoir[0])
 	}
diff --git a/floatdist.go b/floatdist.go
index 359eaa6..11b1911 100644
--- a/floatdist.go
+++ b/floatdist.go
@@ -128,6 +128,9 @@ func (d *FloatDist) Query(quantile float64) float64 {
 		rlen = int(d.Count)
 	}
 
+	if rlen <= 0 {
+		return 0
+	}
 	if rlen < 2 {
 		return float64(d.reservoir[0])
 	}
diff --git a/intdist.go b/intdist.go
index 07817ac..784d466 100644
--- a/intdist.go
+++ b/intdist.go
@@ -128,6 +128,9 @@ func (d *IntDist) Query(quantile float64) int64 {
 		rlen = int(d.Count)
 	}
 
+	if rlen <= 0 {
+		return 0
+	}
 	if rlen < 2 {
 		return int64(d.reservoir[0])
 	}
-- 
2.43.0


From ded4dd699753d02d7363f9ea1f31ff08bca41b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:09:04 +0000
Subject: [PATCH 02/21] fix: data race on the cached text of a TagSet

---
 tags.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/tags.go b/tags.go
index d52bcaf..c560355 100644
--- a/tags.go
+++ b/tags.go
@@ -17,6 +17,7 @@ package monkit
 import (
 	"sort"
 	"strings"
+	"sync"
 )
 
 // SeriesTag is a key/value pair. When used with a measurement name, each set
@@ -32,8 +33,9 @@ func NewSeriesTag(key, val string) SeriesTag {
 
 // TagSet is an immutible collection of tag, value pairs.
 type TagSet struct {
-	all map[string]string
-	str string // cached string form
+	all     map[string]string
+	strOnce sync.Once
+	str     string // cached string form, computed by strOnce
 }
 
 // Get returns the value associated with the key.
@@ -99,11 +101,11 @@ func (t *TagSet) String() string {
 	if t == nil {
 		return ""
 	}
-	if t.str == "" {
+	t.strOnce.Do(func() {
 		var builder strings.Builder
 		t.writeTags(&builder)
 		t.str = builder.String()
-	}
+	})
 	return t.str
 }
 
-- 
2.43.0


From f14b5f69f6ed76665ce3c55d3be5a595f73708f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:05 +0000
Subject: [PATCH 03/21] fix: metrics whose names or tags contain delimiters are
 told apart

---
 scope.go | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/scope.go b/scope.go
index fba109d..ae70e88 100644
--- a/scope.go
+++ b/scope.go
@@ -76,16 +76,28 @@ func sourceName(namespace, name string, tags []SeriesTag) string {
 	var sourceName strings.Builder
 	sourceName.Grow(sourceNameSize)
 	sourceName.WriteString(namespace)
-	sourceName.WriteString(name)
+	writeSourceNamePart(&sourceName, name)
 	for _, tag := range tags {
 		sourceName.WriteByte(',')
-		sourceName.WriteString(tag.Key)
+		writeSourceNamePart(&sourceName, tag.Key)
 		sourceName.WriteByte('=')
-		sourceName.WriteString(tag.Val)
+		writeSourceNamePart(&sourceName, tag.Val)
 	}
 	return sourceName.String()
 }
 
+// writeSourceNamePart writes a name, tag key or tag value with the delimiters
+// of a source name escaped, so that different sources have different names.
+func writeSourceNamePart(builder *strings.Builder, part string) {
+	for i := 0; i < len(part); i++ {
+		switch part[i] {
+		case ':', ',', '=', '\\':
+			builder.WriteByte('\\')
+		}
+		builder.WriteByte(part[i])
+	}
+}
+
 // FuncNamed retrieves or creates a Func named using the given name and
 // SeriesTags. See Func() for automatic name determination.
 //
@@ -264,18 +276,20 @@ func (s *Scope) Counter(name string, tags ...SeriesTag) *Counter {
 func (s *Scope) Gauge(name string, cb func() float64) {
 	type gauge struct{ StatSource }
 
+	key := sourceName("", name, nil)
+
 	// gauges allow overwriting
 	s.mtx.Lock()
 	defer s.mtx.Unlock()
 
-	if source, exists := s.sources[name]; exists {
+	if source, exists := s.sources[key]; exists {
 		if _, ok := source.(gauge); !ok {
 			panic(fmt.Sprintf("%s already used for another stats source: %#v",
 				name, source))
 		}
 	}
 
-	s.sources[name] = gauge{StatSource: StatSourceFunc(
+	s.sources[key] = gauge{StatSource: StatSourceFunc(
 		func(scb func(key SeriesKey, field string, value float64)) {
 			scb(NewSeriesKey(name), "value", cb())
 		}),
-- 
2.43.0


From f84c682f4ac9001558e6b2a56c2fe8c7a9b14863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:13:20 +0000
Subject: [PATCH 04/21] fix: struct stats skip nil pointers instead of
 panicking

---
 struct.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/struct.go b/struct.go
index 241b715..e4bf093 100644
--- a/struct.go
+++ b/struct.go
@@ -32,6 +32,9 @@ func (emptyStatSource) Stats(cb func(key SeriesKey, field string, val float64))
 // across all float64-castable and bool-castable fields of the struct.
 func StatSourceFromStruct(key SeriesKey, structData interface{}) StatSource {
 	val := deref(reflect.ValueOf(structData))
+	if !val.IsValid() {
+		return emptyStatSource{}
+	}
 
 	typ := val.Type()
 	if typ.Kind() != reflect.Struct {
@@ -42,6 +45,9 @@ func StatSourceFromStruct(key SeriesKey, structData interface{}) StatSource {
 	nextField:
 		for i := 0; i < typ.NumField(); i++ {
 			field := deref(val.Field(i))
+			if !field.IsValid() {
+				continue
+			}
 			field_type := field.Type()
 
 			parts := strings.Split(typ.Field(i).Tag.Get("monkit"), ",")
@@ -70,9 +76,10 @@ func StatSourceFromStruct(key SeriesKey, structData interface{}) StatSource {
 	})
 }
 
-// if val is a pointer, deref until it isn't
+// if val is a pointer, deref until it isn't. the result is the zero Value if
+// there was a nil pointer on the way.
 func deref(val reflect.Value) reflect.Value {
-	for val.Type().Kind() == reflect.Ptr {
+	for val.Kind() == reflect.Ptr {
 		val = val.Elem()
 	}
 	return val
-- 
2.43.0


From e8ab7c33924b96ac482e6f2982033f4a2e242c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:14:03 +0000
Subject: [PATCH 05/21] fix: ids do not repeat for any seed

---
 id.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/id.go b/id.go
index bd12d3d..c716b20 100644
--- a/id.go
+++ b/id.go
@@ -44,5 +44,6 @@ func init() {
 // traces. See NewTrace.
 func NewId() int64 {
 	id := atomic.AddUint64(&idCounter, inc)
-	return int64(id >> 1)
+	// inc is odd, so the low 63 bits only repeat after all of them were used
+	return int64(id &^ (1 << 63))
 }
-- 
2.43.0


From 3c2c4f1e5304c251ae307c63e740be0a92dfc2a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:18:54 +0000
Subject: [PATCH 06/21] fix: trace headers carry negative ids in a form that
 can be read back

---
 http/info.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/http/info.go b/http/info.go
index 58c4e95..ec192db 100644
--- a/http/info.go
+++ b/http/info.go
@@ -153,7 +153,7 @@ func (r TraceInfo) SetHeader(header HeaderSetter) {
 		sampled = traceSampled
 	}
 	if r.TraceId != nil && r.ParentId != nil {
-		header.Set(traceParentHeader, fmt.Sprintf("00-%016x-%08x-%x", *r.TraceId, *r.ParentId, int(sampled)))
+		header.Set(traceParentHeader, fmt.Sprintf("00-%016x-%08x-%x", uint64(*r.TraceId), uint64(*r.ParentId), int(sampled)))
 	} else if r.Sampled {
 		header.Set(traceStateHeader, orphanSampling)
 	}
-- 
2.43.0


From 36c5f6d70eed4acd9219b5012c99b4236744ae22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:57 +0000
Subject: [PATCH 07/21] fix: CollectSpans stops observing the trace when it
 returns

---
 collect/ctx.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/collect/ctx.go b/collect/ctx.go
index ae58acc..1fbe60b 100644
--- a/collect/ctx.go
+++ b/collect/ctx.go
@@ -58,7 +58,7 @@ func CollectSpans(ctx context.Context, work func(ctx context.Context)) (
 	}
 	collector := NewSpanCollector(nil)
 	defer collector.Stop()
-	s.Trace().ObserveSpans(collector)
+	defer s.Trace().ObserveSpans(collector)()
 	f := s.Func()
 	newF := f.Scope().FuncNamed(fmt.Sprintf("%s-TRACED", f.ShortName()))
 	func() {
-- 
2.43.0


From 681115ce13713c23857bc855795e2b35a66102e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:02:20 +0000
Subject: [PATCH 08/21] fix: drawing a trace does not divide by zero or
 overflow

---
 present/trace.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/present/trace.go b/present/trace.go
index dcbc720..34d4a7b 100644
--- a/present/trace.go
+++ b/present/trace.go
@@ -19,6 +19,7 @@ import (
 	"context"
 	"encoding/xml"
 	"io"
+	"math"
 	"strings"
 	"text/template"
 	"time"
@@ -269,9 +270,17 @@ func SpansToSVG(w io.Writer, spans []*collect.FinishedSpan) error {
 	lis, maxRow := computeLayoutInformation(spans)
 	graphHeight := (barHeight+barSep)*maxRow + 20
 
+	total := maxEnd.UnixNano() - minStart.UnixNano()
 	timeToX := func(t time.Time) int {
-		return int(((t.UnixNano() - minStart.UnixNano()) * graphWidth) /
-			(maxEnd.UnixNano() - minStart.UnixNano()))
+		offset, total := t.UnixNano()-minStart.UnixNano(), total
+		if total <= 0 {
+			return 0
+		}
+		if total > math.MaxInt64/graphWidth {
+			// drop precision that does not show rather than overflow
+			offset, total = offset/graphWidth, total/graphWidth
+		}
+		return int((offset * graphWidth) / total)
 	}
 
 	max := func(x, y int) int {
-- 
2.43.0


From e8e25790a992967e1cd30cd0536aaae53734de71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:41 +0000
Subject: [PATCH 09/21] fix: a drawn trace keeps overlapping spans in separate
 rows

---
 present/trace.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/present/trace.go b/present/trace.go
index 34d4a7b..d0e05d9 100644
--- a/present/trace.go
+++ b/present/trace.go
@@ -175,6 +175,18 @@ func computeSpanTree(spans []*collect.FinishedSpan) map[int64]*spanInformation {
 			}
 		}
 	}
+
+	// a span's rows are in use until the last of its descendants finishes
+	for _, span := range spans {
+		si := out[span.Span.Id()]
+		for depth := 0; si.Parent != 0 && depth < len(spans); depth++ {
+			parent := out[si.Parent]
+			if si.LargestTime.After(parent.LargestTime) {
+				parent.LargestTime = si.LargestTime
+			}
+			si = parent
+		}
+	}
 	return out
 }
 
-- 
2.43.0


From 1377f7ca59d5266488b14480d369ef9fca173d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:01 +0000
Subject: [PATCH 10/21] fix: StatsJSON writes values JSON cannot represent as
 null

---
 present/stats.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/present/stats.go b/present/stats.go
index e9e315a..3c12da3 100644
--- a/present/stats.go
+++ b/present/stats.go
@@ -17,6 +17,7 @@ package present
 import (
 	"fmt"
 	"io"
+	"math"
 
 	"github.com/spacemonkeygo/monkit/v3"
 )
@@ -41,7 +42,11 @@ func StatsText(r *monkit.Registry, w io.Writer) (err error) {
 func StatsJSON(r *monkit.Registry, w io.Writer) (err error) {
 	lw := newListWriter(w)
 	r.Stats(func(key monkit.SeriesKey, field string, val float64) {
-		lw.elem([]interface{}{key.Measurement, key.Tags.All(), field, val})
+		var jsonVal interface{} = val
+		if math.IsNaN(val) || math.IsInf(val, 0) {
+			jsonVal = nil // JSON has no such numbers
+		}
+		lw.elem([]interface{}{key.Measurement, key.Tags.All(), field, jsonVal})
 	})
 	return lw.done()
 }
-- 
2.43.0


From 59560d1c2a6116f4915a7b8dc05b9bec63eff19a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:01 +0000
Subject: [PATCH 11/21] fix: FuncsText stops after a failed write of a
 function's parents

---
 present/funcs.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/present/funcs.go b/present/funcs.go
index 131fb2f..9ccae75 100644
--- a/present/funcs.go
+++ b/present/funcs.go
@@ -153,6 +153,9 @@ func FuncsText(r *monkit.Registry, w io.Writer) (err error) {
 				}
 			}
 		})
+		if err != nil {
+			return
+		}
 		var err_out bytes.Buffer
 		total_errors := int64(0)
 		for errname, count := range f.Errors() {
-- 
2.43.0


From c8b286834834b5d30a03361e1880b8c03d7c29ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:33:21 +0000
Subject: [PATCH 12/21] fix: name errors without holding the function's lock

---
 funcstats.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/funcstats.go b/funcstats.go
index 0d24efc..db45841 100644
--- a/funcstats.go
+++ b/funcstats.go
@@ -87,6 +87,11 @@ func (f *FuncStats) start(parent *Func) {
 
 func (f *FuncStats) end(err error, panicked bool, duration time.Duration) {
 	atomic.AddInt64(&f.current, -1)
+	// error name handlers are user code, so they run before taking the lock
+	var errName string
+	if err != nil && !panicked {
+		errName = getErrorName(err)
+	}
 	f.parentsAndMutex.Lock()
 	if panicked {
 		f.panics += 1
@@ -100,7 +105,7 @@ func (f *FuncStats) end(err error, panicked bool, duration time.Duration) {
 		return
 	}
 	f.failureTimes.Insert(duration)
-	f.errors[getErrorName(err)] += 1
+	f.errors[errName] += 1
 	f.parentsAndMutex.Unlock()
 }
 
-- 
2.43.0


From f3a21d361082f4030b07ef1710620e20cddc0e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:41 +0000
Subject: [PATCH 13/21] fix: Task.Func read the function of a Task
 unsynchronised with its first use

---
 ctx.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ctx.go b/ctx.go
index d0fad0b..946ace6 100644
--- a/ctx.go
+++ b/ctx.go
@@ -209,11 +209,11 @@ func (s *Scope) Task(tags ...SeriesTag) Task {
 	return Task(func(ctx *context.Context,
 		args ...interface{}) func(*error) {
 		ctx = cleanCtx(ctx)
-		if ctx == &taskSecret && taskArgs(f, args) {
+		if ctx == &taskSecret && taskArgs(loadFunc(&f), args) {
 			return nil
 		}
 		initOnce.Do(func() {
-			f = s.FuncNamed(callerFunc(3), tags...)
+			compareAndSwapFunc(&f, nil, s.FuncNamed(callerFunc(3), tags...))
 		})
 		s, exit := newSpan(*ctx, f, args, nil, nil)
 		if ctx != &unparented {
-- 
2.43.0


From e886d4030eb72ba457e0fec07c1d314e0bf84f39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:42 +0000
Subject: [PATCH 14/21] fix: Runtime counts each garbage collection pause once
 and from any goroutine

---
 environment/runtime.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/environment/runtime.go b/environment/runtime.go
index 4b6dfe4..ced5b8e 100644
--- a/environment/runtime.go
+++ b/environment/runtime.go
@@ -20,6 +20,7 @@ package environment
 import (
 	"runtime"
 	"runtime/debug"
+	"sync"
 
 	"github.com/spacemonkeygo/monkit/v3"
 )
@@ -31,6 +32,7 @@ import (
 func Runtime() monkit.StatSource {
 	durDist := monkit.NewDurationDist(monkit.NewSeriesKey("runtime_gcstats"))
 	lastNumGC := int64(0)
+	var mtx sync.Mutex // protects durDist and lastNumGC
 
 	return monkit.StatSourceFunc(func(cb func(key monkit.SeriesKey, field string, val float64)) {
 		cb(monkit.NewSeriesKey("goroutines"), "count", float64(runtime.NumGoroutine()))
@@ -44,10 +46,14 @@ func Runtime() monkit.StatSource {
 		{
 			var stats debug.GCStats
 			debug.ReadGCStats(&stats)
-			if lastNumGC != stats.NumGC && len(stats.Pause) > 0 {
+			mtx.Lock()
+			if stats.NumGC > lastNumGC && len(stats.Pause) > 0 {
 				durDist.Insert(stats.Pause[0])
+				lastNumGC = stats.NumGC
 			}
-			durDist.Stats(cb)
+			dist := durDist.Copy()
+			mtx.Unlock()
+			dist.Stats(cb)
 		}
 	})
 }
-- 
2.43.0


From 810b0b243754c0994659d026c006cb02f5d55686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:42 +0000
Subject: [PATCH 15/21] fix: read /proc/self/stat when the command contains
 spaces

---
 environment/proc_linux.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/environment/proc_linux.go b/environment/proc_linux.go
index 25cdcaf..dc5405f 100644
--- a/environment/proc_linux.go
+++ b/environment/proc_linux.go
@@ -15,6 +15,8 @@
 package environment
 
 import (
+	"bytes"
+	"errors"
 	"fmt"
 	"os"
 
@@ -87,9 +89,19 @@ func readProcSelfStat(s *procSelfStat) error {
 	if err != nil {
 		return err
 	}
-	_, err = fmt.Sscanf(string(data), "%d %s %c %d %d %d %d %d %d %d %d "+
+	// the command is in parentheses and can contain anything, including spaces
+	// and parentheses, so it ends at the last one.
+	open, end := bytes.IndexByte(data, '('), bytes.LastIndexByte(data, ')')
+	if open < 0 || end < open {
+		return errors.New("malformed /proc/self/stat")
+	}
+	if _, err = fmt.Sscanf(string(data[:open]), "%d ", &s.Pid); err != nil {
+		return err
+	}
+	s.Comm = string(data[open : end+1])
+	_, err = fmt.Sscanf(string(data[end+1:]), " %c %d %d %d %d %d %d %d %d "+
 		"%d %d %d %d %d %d %d %d %d %d %d %d %d %d %d %d %d %d %d %d %d %d %d "+
-		"%d %d %d %d %d %d %d %d %d %d", &s.Pid, &s.Comm, &s.State, &s.Ppid,
+		"%d %d %d %d %d %d %d %d %d %d", &s.State, &s.Ppid,
 		&s.Pgrp, &s.Session, &s.TtyNr, &s.Tpgid, &s.Flags, &s.Minflt, &s.Cminflt,
 		&s.Majflt, &s.Cmajflt, &s.Utime, &s.Stime, &s.Cutime, &s.Cstime,
 		&s.Priority, &s.Nice, &s.NumThreads, &s.Itrealvalue, &s.Starttime,
-- 
2.43.0


From 1c32fb64e6b0a2523eae8745924c03d4e83a54b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:11 +0000
Subject: [PATCH 16/21] fix: keep-alives of trace queries leave at once instead
 of being buffered

FromRequest wraps every report in a bufio.Writer, so the newline a waiting
trace query writes every 30 s stayed in that buffer (and in net/http's): the
connection was not kept alive, and a client that was gone was not noticed.
---
 present/path.go  |  7 ++-----
 present/trace.go |  5 +----
 present/utils.go | 36 ++++++++++++++++++++++++++++++++++++
 3 files changed, 39 insertions(+), 9 deletions(-)

diff --git a/present/path.go b/present/path.go
index 29f7198..231a76b 100644
--- a/present/path.go
+++ b/present/path.go
@@ -92,7 +92,7 @@ func FromRequest(reg *monkit.Registry, path string, query url.Values) (
 		unbuffered := f
 		f = func(w io.Writer) (err error) {
 			buf := bufio.NewWriter(w)
-			err = unbuffered(buf)
+			err = unbuffered(responseBuffer{Writer: buf, w: w})
 			if err != nil {
 				return err
 			}
@@ -224,10 +224,7 @@ func FromRequest(reg *monkit.Registry, path string, query url.Values) (
 					}
 				}
 
-				ctx, stop := keepAlive(context.TODO(), func(context.Context) error {
-					_, err := w.Write([]byte("\n"))
-					return err
-				})
+				ctx, stop := keepAlive(context.TODO(), pingWriter(w, []byte("\n")))
 				defer stop()
 
 				var traceMtx sync.Mutex
diff --git a/present/trace.go b/present/trace.go
index d0e05d9..2391b98 100644
--- a/present/trace.go
+++ b/present/trace.go
@@ -450,10 +450,7 @@ func watchForSpansWithKeepalive(ctx context.Context, reg *monkit.Registry, w io.
 	matcher func(s *monkit.Span) bool, keepalive []byte) (
 	spans []*collect.FinishedSpan, writeErr error) {
 
-	ctx, stop := keepAlive(ctx, func(context.Context) error {
-		_, err := w.Write(keepalive)
-		return err
-	})
+	ctx, stop := keepAlive(ctx, pingWriter(w, keepalive))
 	defer stop()
 
 	spans, err := collect.WatchForSpans(ctx, reg, matcher)
diff --git a/present/utils.go b/present/utils.go
index a2d3d7d..517bebc 100644
--- a/present/utils.go
+++ b/present/utils.go
@@ -15,8 +15,11 @@
 package present
 
 import (
+	"bufio"
 	"context"
 	"fmt"
+	"io"
+	"net/http"
 	"sync"
 	"time"
 )
@@ -86,6 +89,39 @@ func keepAlive(ctx context.Context, ping func(context.Context) error) (
 	}
 }
 
+// pingWriter returns a ping for keepAlive that writes data to w and sends it
+// off in case w buffers.
+func pingWriter(w io.Writer, data []byte) func(context.Context) error {
+	return func(context.Context) error {
+		if _, err := w.Write(data); err != nil {
+			return err
+		}
+		switch w := w.(type) {
+		case interface{ Flush() error }:
+			return w.Flush()
+		case http.Flusher:
+			w.Flush()
+		}
+		return nil
+	}
+}
+
+// responseBuffer buffers a response. Its Flush goes all the way to the client.
+type responseBuffer struct {
+	*bufio.Writer
+	w io.Writer
+}
+
+func (b responseBuffer) Flush() error {
+	if err := b.Writer.Flush(); err != nil {
+		return err
+	}
+	if w, ok := b.w.(http.Flusher); ok {
+		w.Flush()
+	}
+	return nil
+}
+
 func catchPanics(cb func(context.Context) error) func(context.Context) error {
 	return func(ctx context.Context) (err error) {
 		defer func() {
-- 
2.43.0


From af4c0536a2307bdbceb4437889e5c88c7abd3cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:19 +0000
Subject: [PATCH 17/21] fix: a drawn trace is well-formed XML after keep-alives

TraceQuerySVG writes newlines while it waits, and nothing can precede an XML
declaration. The declaration is optional, so leave it out.
---
 present/trace.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/present/trace.go b/present/trace.go
index 2391b98..8a46009 100644
--- a/present/trace.go
+++ b/present/trace.go
@@ -38,8 +38,7 @@ const (
 
 var (
 	svgHeader = template.Must(template.New("header").Parse(
-		`<?xml version="1.0" standalone="no"?>
-<!DOCTYPE svg PUBLIC "-//W3C//DTD SVG 1.1//EN"
+		`<!DOCTYPE svg PUBLIC "-//W3C//DTD SVG 1.1//EN"
   "http://www.w3.org/Graphics/SVG/1.1/DTD/svg11.dtd">
 <svg version="1.1" xmlns="http://www.w3.org/2000/svg"
   xmlns:xlink="http://www.w3.org/1999/xlink"
-- 
2.43.0


From e1a6fce0b0200a2a9a01a015c1a6203f73a6b18c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:05:48 +0000
Subject: [PATCH 18/21] fix: names and arguments cannot leave the tooltip
 script of a drawn trace

---
 present/trace.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/present/trace.go b/present/trace.go
index 8a46009..c063b70 100644
--- a/present/trace.go
+++ b/present/trace.go
@@ -130,7 +130,7 @@ var (
 `))
 
 	svgFunc = template.Must(template.New("func").Parse(`
-  <g id="id-{{.SpanId}}" class="func parent-{{.ParentId}}" onmouseover="mouseover('{{.SpanId}}', '{{.ParentId}}', '{{.FuncName}}({{.FuncArgs}}) Duration:{{.FuncDuration}} Started:{{.FuncStartDuration}}');" onmouseout="mouseout('{{.SpanId}}', '{{.ParentId}}');" onclick="mouseclick('{{.SpanId}}', '{{.ParentId}}');">
+  <g id="id-{{.SpanId}}" class="func parent-{{.ParentId}}" onmouseover="mouseover('{{.SpanId}}', '{{.ParentId}}', '{{.Tooltip}}');" onmouseout="mouseout('{{.SpanId}}', '{{.ParentId}}');" onclick="mouseclick('{{.SpanId}}', '{{.ParentId}}');">
     <clipPath id="clip-{{.SpanId}}"><rect x="{{.SpanLeft}}" y="{{.SpanTop}}" width="{{.SpanWidth}}" height="{{.SpanHeight}}"/></clipPath>
     <rect id="rect-{{.SpanId}}" x="{{.SpanLeft}}" y="{{.SpanTop}}" width="{{.SpanWidth}}" height="{{.SpanHeight}}" fill="{{.SpanColor}}"/>
     <text id="text-{{.SpanId}}" x="{{.SpanLeft}}" y="{{.TextTop}}" fill="rgb(0,0,0)" font-size="{{.FontSize}}" clip-path="url(#clip-{{.SpanId}})">{{.FuncName}}({{.FuncArgs}}) ({{.FuncDuration}})</text>
@@ -335,6 +335,7 @@ func SpansToSVG(w io.Writer, spans []*collect.FinishedSpan) error {
 			FuncArgs          string
 			FuncDuration      string
 			FuncStartDuration string
+			Tooltip           string
 			SpanMid           int
 
 			ParentId   int64
@@ -356,7 +357,19 @@ func SpansToSVG(w io.Writer, spans []*collect.FinishedSpan) error {
 			SpanMid:           id*(barHeight+barSep) + barHeight/2,
 		}
 
+		// the tooltip stands in a string of a script in an attribute
+		templateVals.Tooltip = template.JSEscapeString(templateVals.FuncName + "(" +
+			templateVals.FuncArgs + ") Duration:" + templateVals.FuncDuration +
+			" Started:" + templateVals.FuncStartDuration)
+
 		var buf bytes.Buffer
+		err = xml.EscapeText(&buf, []byte(templateVals.Tooltip))
+		if err != nil {
+			return err
+		}
+		templateVals.Tooltip = buf.String()
+
+		buf.Reset()
 		err = xml.EscapeText(&buf, []byte(templateVals.FuncName))
 		if err != nil {
 			return err
-- 
2.43.0


From 0038f6a8542bd9410721c539c2c6520a2d07ea1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:02 +0000
Subject: [PATCH 19/21] fix: a traced request without headers does not panic

---
 http/client.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/http/client.go b/http/client.go
index aa2db08..45d96d7 100644
--- a/http/client.go
+++ b/http/client.go
@@ -20,6 +20,9 @@ func TraceRequest(ctx context.Context, scope *monkit.Scope, cl Client, req *http
 
 	s := monkit.SpanFromCtx(ctx)
 	s.Annotate("http.uri", req.URL.String())
+	if req.Header == nil {
+		req.Header = make(http.Header)
+	}
 	TraceInfoFromSpan(s).SetHeader(req.Header)
 	resp, err = cl.Do(req)
 	if err != nil {
-- 
2.43.0


From b4a07cb1ec6402a340166dac6addfaeace15711a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:02 +0000
Subject: [PATCH 20/21] fix: the index does not link to a report that does not
 exist

---
 present/path.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/present/path.go b/present/path.go
index 231a76b..9c9e904 100644
--- a/present/path.go
+++ b/present/path.go
@@ -308,7 +308,6 @@ func writeIndex(w io.Writer) error {
 
 			<dt><a href="stats">/stats</a></dt>
 			<dt><a href="stats/json">/stats/json</a></dt>
-			<dt><a href="stats/svg">/stats/svg</a></dt>
 			<dd>Statistics about all observed functions, scopes and values.</dd>
 
 			<dt><a href="trace/json">/trace/json</a></dt>
-- 
2.43.0


From b30c8c462e9d08ac2def2cb52c8b86bbdf3bec88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:54 +0000
Subject: [PATCH 21/21] fix: the scope of an inlined caller is named after its
 package, not unknown

---
 callers.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/callers.go b/callers.go
index e9cec27..2646af0 100644
--- a/callers.go
+++ b/callers.go
@@ -25,10 +25,10 @@ func callerPackage(frames int) string {
 		return "unknown"
 	}
 	frame, _ := runtime.CallersFrames(pc[:]).Next()
-	if frame.Func == nil {
+	if frame.Function == "" {
 		return "unknown"
 	}
-	slash_pieces := strings.Split(frame.Func.Name(), "/")
+	slash_pieces := strings.Split(frame.Function, "/")
 	dot_pieces := strings.SplitN(slash_pieces[len(slash_pieces)-1], ".", 2)
 	return strings.Join(slash_pieces[:len(slash_pieces)-1], "/") + "/" + dot_pieces[0]
 }
-- 
2.43.0

