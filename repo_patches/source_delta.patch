From d19cb4bdd6c24efe20a4d97c7bdf9302f1e712fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:15 +0000
Subject: [PATCH 01/21] fix: name the right function in stack frames of inlined
 calls

---
 stack/frame.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/stack/frame.go b/stack/frame.go
index a8b042c..47688d8 100644
--- a/stack/frame.go
+++ b/stack/frame.go
@@ -39,7 +39,8 @@ func (frame *Frame) Func() *runtime.Func {
 	if frame.ProgramCounter == 0 {
 		return nil
 	}
-	return runtime.FuncForPC(frame.ProgramCounter)
+	// pc -1 for the same reason as in NewFrame: the return address can already belong to another (inlined) function.
+	return runtime.FuncForPC(frame.ProgramCounter - 1)
 }
 
 func (frame *Frame) String() string {
-- 
2.43.0


From 665f17298a6a37edbcb0b20755f272e020f94504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:15 +0000
Subject: [PATCH 02/21] fix: don't flag code beside GOROOT (eg,
 /usr/local/gopath) as a system package

---
 stack/frame.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stack/frame.go b/stack/frame.go
index 47688d8..84f40fe 100644
--- a/stack/frame.go
+++ b/stack/frame.go
@@ -68,5 +68,5 @@ var goroot = runtime.GOROOT()
 
 // isSystemPackage returns true iff the package is a system package like 'runtime' or 'net/http'
 func isSystemPackage(file, pkg string) bool {
-	return strings.HasPrefix(file, goroot)
+	return strings.HasPrefix(file, goroot+"/")
 }
-- 
2.43.0


From 307b528aad56556b6451429509c8c1548dd9a2fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:15 +0000
Subject: [PATCH 03/21] fix: data race between concurrent readers of a stack
 trace

---
 stack/stack.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/stack/stack.go b/stack/stack.go
index 5c7dc61..f04f89f 100644
--- a/stack/stack.go
+++ b/stack/stack.go
@@ -3,14 +3,16 @@ package stack
 import (
 	"bytes"
 	"runtime"
+	"sync"
 )
 
 // MaxStackDepth is the maximum number of stackframes on any error.
 var MaxStackDepth = 50
 
 type Trace struct {
-	stack  []uintptr
-	frames []Frame
+	stack      []uintptr
+	framesOnce sync.Once
+	frames     []Frame
 }
 
 func NewTrace(skip int) *Trace {
@@ -23,13 +25,14 @@ func NewTrace(skip int) *Trace {
 
 // StackFrames returns an array of frames containing information about the stack.
 func (t *Trace) Frames() []Frame {
-	if t.frames == nil {
+	// The same trace may be read from several goroutines (eg, by the bugsnag sink and by the code that logged the error)
+	t.framesOnce.Do(func() {
 		t.frames = make([]Frame, len(t.stack))
 
 		for i, pc := range t.stack {
 			t.frames[i] = NewFrame(pc)
 		}
-	}
+	})
 
 	return t.frames
 }
-- 
2.43.0


From b2015fae2c19520d9ea76e66370a73031f05ed5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:58 +0000
Subject: [PATCH 04/21] fix: bugsnag reports carried key/values changed after
 the error was logged

---
 sinks/bugsnag/sink.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/sinks/bugsnag/sink.go b/sinks/bugsnag/sink.go
index 16a2c9f..84546e3 100644
--- a/sinks/bugsnag/sink.go
+++ b/sinks/bugsnag/sink.go
@@ -46,7 +46,8 @@ func (s *Sink) EmitEventErr(job string, event string, inputErr error, kvs map[st
 	switch inputErr := inputErr.(type) {
 	case *health.UnmutedError:
 		if !inputErr.Emitted {
-			s.cmdChan <- &cmdEventErr{Job: job, Event: event, Err: inputErr, Kvs: kvs}
+			// kvs can be the caller's, the job's or the stream's own map. They may change it while the command is queued, so copy it.
+			s.cmdChan <- &cmdEventErr{Job: job, Event: event, Err: inputErr, Kvs: copyKvs(kvs)}
 		}
 	case *health.MutedError:
 	// Do nothing!
@@ -55,6 +56,17 @@ func (s *Sink) EmitEventErr(job string, event string, inputErr error, kvs map[st
 	}
 }
 
+func copyKvs(kvs map[string]string) map[string]string {
+	if kvs == nil {
+		return nil
+	}
+	dup := make(map[string]string, len(kvs))
+	for k, v := range kvs {
+		dup[k] = v
+	}
+	return dup
+}
+
 func (s *Sink) EmitTiming(job string, event string, nanos int64, kvs map[string]string) {
 	// no-op
 }
-- 
2.43.0


From 54657c18bc465598b3b1ab5ef150e265d4246e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:52 +0000
Subject: [PATCH 05/21] fix: /health served corrupt JSON when a name contained
 a percent sign

---
 json_polling_sink_http.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/json_polling_sink_http.go b/json_polling_sink_http.go
index 7bd4a0c..40dac13 100644
--- a/json_polling_sink_http.go
+++ b/json_polling_sink_http.go
@@ -31,7 +31,7 @@ func (s *JsonPollingSink) ServeHTTP(rw http.ResponseWriter, r *http.Request) {
 			renderError(rw, err)
 			return
 		}
-		fmt.Fprintf(rw, string(jsonData))
+		rw.Write(jsonData)
 	} else {
 		renderNotFound(rw)
 	}
-- 
2.43.0


From 2e1edd4206a6345decc0854cad19467b4365cce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:52 +0000
Subject: [PATCH 06/21] fix: healthd served corrupt JSON when a name contained
 a percent sign

---
 healthd/api.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/healthd/api.go b/healthd/api.go
index 0334f22..9bcf928 100644
--- a/healthd/api.go
+++ b/healthd/api.go
@@ -185,7 +185,7 @@ func renderJson(rw http.ResponseWriter, data interface{}) {
 		renderError(rw, err)
 		return
 	}
-	fmt.Fprintf(rw, string(jsonData))
+	rw.Write(jsonData)
 }
 
 func renderNotFound(rw http.ResponseWriter) {
-- 
2.43.0


From c16ddc5dc3de7b795f40635523e3ba1719faa435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:52 +0000
Subject: [PATCH 07/21] fix: merging a job or timer without timings gave a min
 or max of 0

---
 interval_aggregation_merge.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/interval_aggregation_merge.go b/interval_aggregation_merge.go
index eaa776e..58f8733 100644
--- a/interval_aggregation_merge.go
+++ b/interval_aggregation_merge.go
@@ -27,6 +27,15 @@ func (intoJob *JobAggregation) merge(fromJob *JobAggregation) {
 }
 
 func (intoTa *TimerAggregation) merge(fromTa *TimerAggregation) {
+	// If there's nothing in one of them, then its min and max don't mean anything.
+	if fromTa.Count == 0 {
+		return
+	}
+	if intoTa.Count == 0 {
+		intoTa.NanosMin = fromTa.NanosMin
+		intoTa.NanosMax = fromTa.NanosMax
+	}
+
 	intoTa.Count += fromTa.Count
 	intoTa.NanosSum += fromTa.NanosSum
 	intoTa.NanosSumSquares += fromTa.NanosSumSquares
-- 
2.43.0


From 8b397195f4c4bb495b63f79c11937e6c61ff2d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:56 +0000
Subject: [PATCH 08/21] fix: concurrent StatsD Drains, or a Drain and a later
 Stop, could hang or return early

While draining, the loop swallowed further drain and stop commands, and all drains
shared one done channel, so a drain could take another's signal.
---
 statsd_sink.go | 37 ++++++++++++++++++++++++++++---------
 1 file changed, 28 insertions(+), 9 deletions(-)

diff --git a/statsd_sink.go b/statsd_sink.go
index a0b8868..247c3ab 100644
--- a/statsd_sink.go
+++ b/statsd_sink.go
@@ -44,9 +44,8 @@ var defaultStatsDOptions = StatsDSinkOptions{SanitizationFunc: sanitizeKey}
 type StatsDSink struct {
 	options StatsDSinkOptions
 
-	cmdChan       chan statsdEmitCmd
-	drainDoneChan chan struct{}
-	stopDoneChan  chan struct{}
+	cmdChan      chan statsdEmitCmd
+	stopDoneChan chan struct{}
 
 	flushPeriod time.Duration
 
@@ -82,6 +81,9 @@ type statsdEmitCmd struct {
 	Nanos  int64
 	Value  float64
 	Status CompletionStatus
+
+	// drainDone is closed when a drain command is done. Each drain has its own, so that concurrent drains can't take each other's signal.
+	drainDone chan struct{}
 }
 
 const cmdChanBuffSize = 8192 // random-ass-guess
@@ -102,7 +104,6 @@ func NewStatsDSink(addr string, options *StatsDSinkOptions) (*StatsDSink, error)
 		udpConn:       c.(*net.UDPConn),
 		udpAddr:       ra,
 		cmdChan:       make(chan statsdEmitCmd, cmdChanBuffSize),
-		drainDoneChan: make(chan struct{}),
 		stopDoneChan:  make(chan struct{}),
 		flushPeriod:   100 * time.Millisecond,
 		prefixBuffers: make(map[eventKey]prefixBuffer),
@@ -128,8 +129,9 @@ func (s *StatsDSink) Stop() {
 }
 
 func (s *StatsDSink) Drain() {
-	s.cmdChan <- statsdEmitCmd{Kind: statsdCmdKindDrain}
-	<-s.drainDoneChan
+	drainDone := make(chan struct{})
+	s.cmdChan <- statsdEmitCmd{Kind: statsdCmdKindDrain, drainDone: drainDone}
+	<-drainDone
 }
 
 func (s *StatsDSink) EmitEvent(job string, event string, kvs map[string]string) {
@@ -166,17 +168,34 @@ LOOP:
 	for cmd := range cmdChan {
 		switch cmd.Kind {
 		case statsdCmdKindDrain:
+			// While we're draining we can run into other drains, or a stop.
+			drains := []chan struct{}{cmd.drainDone}
+			stop := false
 		DRAIN_LOOP:
 			for {
 				select {
 				case cmd := <-cmdChan:
-					s.processCmd(&cmd)
+					switch cmd.Kind {
+					case statsdCmdKindDrain:
+						drains = append(drains, cmd.drainDone)
+					case statsdCmdKindStop:
+						stop = true
+						break DRAIN_LOOP
+					default:
+						s.processCmd(&cmd)
+					}
 				default:
-					s.flush()
-					s.drainDoneChan <- struct{}{}
 					break DRAIN_LOOP
 				}
 			}
+			s.flush()
+			for _, drainDone := range drains {
+				close(drainDone)
+			}
+			if stop {
+				s.stopDoneChan <- struct{}{}
+				break LOOP
+			}
 		case statsdCmdKindStop:
 			s.stopDoneChan <- struct{}{}
 			break LOOP
-- 
2.43.0


From 5bc81f2e71f1589f64f985a7d4ca833a234761e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:32 +0000
Subject: [PATCH 09/21] fix: librato sink leaked a connection per post

The response body was never closed.
---
 sinks/librato/sink.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/sinks/librato/sink.go b/sinks/librato/sink.go
index a015cd2..63cb60f 100644
--- a/sinks/librato/sink.go
+++ b/sinks/librato/sink.go
@@ -303,11 +303,14 @@ func (s *Sink) send() error {
 	}
 	req.Header.Add("Content-Type", "application/json")
 	req.SetBasicAuth(s.libratoUser, s.libratoApiKey)
-	_, err = s.httpClient.Do(req)
+	resp, err := s.httpClient.Do(req)
+	if err != nil {
+		return err
+	}
 
 	//fmt.Println(resp.Status)
 
-	return err
+	return resp.Body.Close()
 }
 
 // valid librato charactors: A-Za-z0-9.:-_
-- 
2.43.0


From 36ec4c0ecb44316372526caa007d062f07b86981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:28 +0000
Subject: [PATCH 10/21] fix: data race between the polling sink and whoever
 logged an error

The aggregator deep-compared logged errors with its samples, while the job that
logged them set Emitted and others computed their traces. Compare messages instead.
---
 interval_aggregation.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/interval_aggregation.go b/interval_aggregation.go
index 6c2b37c..088dc1d 100644
--- a/interval_aggregation.go
+++ b/interval_aggregation.go
@@ -1,7 +1,7 @@
 package health
 
 import (
-	"reflect"
+	"fmt"
 	"time"
 )
 
@@ -100,7 +100,9 @@ func (ec *ErrorCounter) addError(inputErr error) {
 	lastErr := ec.errorSamples[ec.errorSampleIndex]
 	if lastErr == nil {
 		ec.errorSamples[ec.errorSampleIndex] = inputErr
-	} else if !reflect.DeepEqual(lastErr, inputErr) {
+	} else if fmt.Sprint(lastErr) != fmt.Sprint(inputErr) {
+		// NOTE: we compare messages, not the errors' contents. Whoever logged the errors still has them, and marks them as emitted,
+		// reads their traces, etc, concurrently with us.
 		n := len(ec.errorSamples)
 		ec.errorSampleIndex = (ec.errorSampleIndex + 1) % n
 		ec.errorSamples[ec.errorSampleIndex] = inputErr
-- 
2.43.0


From e542dd0ec06181f126d9f7fba51ee5aa31be34cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:03 +0000
Subject: [PATCH 11/21] fix: healthd counted a host's data once per poll if the
 host's time zone wasn't healthd's

---
 healthd/healthd.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/healthd/healthd.go b/healthd/healthd.go
index b2013cb..5cf037d 100644
--- a/healthd/healthd.go
+++ b/healthd/healthd.go
@@ -245,6 +245,9 @@ func (hd *HealthD) consumePollResponse(resp *pollResponse) {
 		}
 
 		for _, intAgg := range resp.IntervalAggregations {
+			// Hosts report times in their own time zone, but we use them as map keys and compare them with ==. Make equal instants equal values.
+			intAgg.IntervalStart = intAgg.IntervalStart.UTC()
+
 			key := hostAggregationKey{
 				Time:       intAgg.IntervalStart,
 				InstanceId: resp.InstanceId,
-- 
2.43.0


From 5e4cb7b5b89ab7ebcd33041580d1dfa6a5e9f9ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:56 +0000
Subject: [PATCH 12/21] fix: healthd's jobs answer failed if a job's timings
 were all equal or more than 3 billion

---
 healthd/api.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/healthd/api.go b/healthd/api.go
index 9bcf928..1cca399 100644
--- a/healthd/api.go
+++ b/healthd/api.go
@@ -322,8 +322,10 @@ func filterJobs(overall *health.IntervalAggregation, sort string, limit int) []*
 				stddev = 0
 			} else {
 				num := (float64(j.Count) * j.NanosSumSquares) - math.Pow(float64(j.NanosSum), 2)
-				div := float64(j.Count * (j.Count - 1))
-				stddev = math.Sqrt(num / div)
+				div := float64(j.Count) * float64(j.Count-1) // as ints, this can overflow
+				if num > 0 {                                 // rounding can make it negative if all timings are about the same
+					stddev = math.Sqrt(num / div)
+				}
 			}
 		}
 		job := &Job{
-- 
2.43.0


From 729f971e26aadddab4c09c3186d0c40f380cabdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:49 +0000
Subject: [PATCH 13/21] fix: healthd crashed on a host's response with nulls,
 or without an interval duration

---
 healthd/poll.go | 47 +++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 47 insertions(+)

diff --git a/healthd/poll.go b/healthd/poll.go
index 548a43f..dde017d 100644
--- a/healthd/poll.go
+++ b/healthd/poll.go
@@ -2,6 +2,7 @@ package healthd
 
 import (
 	"encoding/json"
+	"errors"
 	"github.com/gocraft/health"
 	"io/ioutil"
 	"net/http"
@@ -58,6 +59,13 @@ func poll(stream *health.Stream, hostPort string, responses chan<- *pollResponse
 		goto POLL_FINISH
 	}
 
+	if response.Code == 200 {
+		if err := validateResponse(&response.HealthAggregationsResponse); err != nil {
+			response.Err = job.EventErr("poll.validate_response", err)
+			goto POLL_FINISH
+		}
+	}
+
 POLL_FINISH:
 
 	if response.Err != nil {
@@ -69,6 +77,45 @@ POLL_FINISH:
 	responses <- response
 }
 
+// validateResponse makes sure that a host's response, which is valid JSON, has what we need to calculate with it.
+// In particular, null is fine for JSON's sake where we need a job, a timer, etc.
+func validateResponse(resp *health.HealthAggregationsResponse) error {
+	if resp.IntervalDuration <= 0 {
+		return errors.New("response has no valid interval_duration")
+	}
+	for _, intAgg := range resp.IntervalAggregations {
+		if intAgg == nil {
+			return errors.New("response has a null aggregation")
+		}
+		if err := validateMaps(intAgg.Timers, intAgg.EventErrs); err != nil {
+			return err
+		}
+		for _, job := range intAgg.Jobs {
+			if job == nil {
+				return errors.New("response has a null job")
+			}
+			if err := validateMaps(job.Timers, job.EventErrs); err != nil {
+				return err
+			}
+		}
+	}
+	return nil
+}
+
+func validateMaps(timers map[string]*health.TimerAggregation, eventErrs map[string]*health.ErrorCounter) error {
+	for _, timer := range timers {
+		if timer == nil {
+			return errors.New("response has a null timer")
+		}
+	}
+	for _, eventErr := range eventErrs {
+		if eventErr == nil {
+			return errors.New("response has a null event error")
+		}
+	}
+	return nil
+}
+
 func metricsUrl(hostPort string) string {
 	return "http://" + hostPort + "/health"
 }
-- 
2.43.0


From 80f9dbcdc10469d37cf6027a9d1bc3b7314b7717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:22 +0000
Subject: [PATCH 14/21] fix: healthd could deadlock when more than 64 hosts
 answered while a recalculation was due

---
 healthd/healthd.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/healthd/healthd.go b/healthd/healthd.go
index 5cf037d..847b415 100644
--- a/healthd/healthd.go
+++ b/healthd/healthd.go
@@ -140,7 +140,12 @@ AGGREGATE_LOOP:
 				hd.recalculateIntervals()
 			} else {
 				hd.consumePollResponse(resp)
-				recalcIntervalsRequest <- struct{}{}
+				// Don't block: the debouncer might itself be waiting for us to recalculate.
+				// If there's no room, then there are requests pending, and one is enough.
+				select {
+				case recalcIntervalsRequest <- struct{}{}:
+				default:
+				}
 			}
 		case <-recalcIntervals:
 			hd.recalculateIntervals()
-- 
2.43.0


From 2e168ec6d39199228002c0db2a783605a4ebf55d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:22 +0000
Subject: [PATCH 15/21] fix: healthd requests that raced Stop were never
 answered

---
 healthd/healthd.go | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/healthd/healthd.go b/healthd/healthd.go
index 847b415..0f39be7 100644
--- a/healthd/healthd.go
+++ b/healthd/healthd.go
@@ -40,6 +40,7 @@ type HealthD struct {
 	stopFlag           int64
 	stopAggregator     chan bool
 	stopStopAggregator chan bool
+	aggregatorDone     chan struct{} // closed when nobody will answer on intervalsChanChan and hostsChanChan anymore
 	stopHTTP           func() bool
 }
 
@@ -76,6 +77,7 @@ func StartNewHealthD(monitoredHostPorts []string, serverHostPort string, stream
 	hd.maxIntervals = 0       // We don't know this yet. See above.
 	hd.stopAggregator = make(chan bool)
 	hd.stopStopAggregator = make(chan bool)
+	hd.aggregatorDone = make(chan struct{})
 
 	for _, hp := range monitoredHostPorts {
 		hd.hostStatus[hp] = &HostStatus{
@@ -154,6 +156,7 @@ AGGREGATE_LOOP:
 		case hostsChan := <-hostsChanChan:
 			hostsChan <- hd.memorySafeHosts()
 		case <-hd.stopAggregator:
+			close(hd.aggregatorDone)
 			hd.stopStopAggregator <- true
 			break AGGREGATE_LOOP
 		}
@@ -181,8 +184,17 @@ func (hd *HealthD) getAggregationSequence() []*health.IntervalAggregation {
 		return nil
 	}
 	intervalsChan := make(chan []*health.IntervalAggregation)
-	hd.intervalsChanChan <- intervalsChan
-	return <-intervalsChan
+	select {
+	case hd.intervalsChanChan <- intervalsChan:
+	case <-hd.aggregatorDone:
+		return nil
+	}
+	select {
+	case intervals := <-intervalsChan:
+		return intervals
+	case <-hd.aggregatorDone:
+		return nil
+	}
 }
 
 func (hd *HealthD) getHosts() []*HostStatus {
@@ -190,8 +202,17 @@ func (hd *HealthD) getHosts() []*HostStatus {
 		return nil
 	}
 	hostsChan := make(chan []*HostStatus)
-	hd.hostsChanChan <- hostsChan
-	return <-hostsChan
+	select {
+	case hd.hostsChanChan <- hostsChan:
+	case <-hd.aggregatorDone:
+		return nil
+	}
+	select {
+	case hosts := <-hostsChan:
+		return hosts
+	case <-hd.aggregatorDone:
+		return nil
+	}
 }
 
 func (agg *HealthD) memorySafeIntervals() []*health.IntervalAggregation {
-- 
2.43.0


From 50c6ae83e1b6e57d7b520fd5cb601798ed6dfc08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:22 +0000
Subject: [PATCH 16/21] fix: data race between healthd's requests and the first
 poll response

---
 healthd/api.go     |  8 ++++----
 healthd/healthd.go | 12 +++++++++++-
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/healthd/api.go b/healthd/api.go
index 1cca399..471402f 100644
--- a/healthd/api.go
+++ b/healthd/api.go
@@ -133,7 +133,7 @@ func (c *apiContext) HealthMiddleware(rw web.ResponseWriter, r *web.Request, nex
 func (c *apiContext) Aggregations(rw web.ResponseWriter, r *web.Request) {
 	aggregations := c.hd.getAggregationSequence()
 	resp := &ApiResponseAggregations{
-		apiResponse:  getApiResponse(c.hd.intervalDuration),
+		apiResponse:  getApiResponse(c.hd.getIntervalDuration()),
 		Aggregations: aggregations,
 	}
 	renderJson(rw, resp)
@@ -143,7 +143,7 @@ func (c *apiContext) Overall(rw web.ResponseWriter, r *web.Request) {
 	aggregations := c.hd.getAggregationSequence()
 	overall := combineAggregations(aggregations)
 	resp := &ApiResponseAggregationsOverall{
-		apiResponse: getApiResponse(c.hd.intervalDuration),
+		apiResponse: getApiResponse(c.hd.getIntervalDuration()),
 		Overall:     overall,
 	}
 	renderJson(rw, resp)
@@ -156,7 +156,7 @@ func (c *apiContext) Jobs(rw web.ResponseWriter, r *web.Request) {
 	overall := combineAggregations(aggregations)
 	jobs := filterJobs(overall, sort, limit)
 	resp := &ApiResponseJobs{
-		apiResponse: getApiResponse(c.hd.intervalDuration),
+		apiResponse: getApiResponse(c.hd.getIntervalDuration()),
 		Jobs:        jobs,
 	}
 	renderJson(rw, resp)
@@ -166,7 +166,7 @@ func (c *apiContext) Hosts(rw web.ResponseWriter, r *web.Request) {
 	hosts := c.hd.getHosts()
 	sort.Sort(HostStatusByHostPort(hosts))
 	resp := &ApiResponseHosts{
-		apiResponse: getApiResponse(c.hd.intervalDuration),
+		apiResponse: getApiResponse(c.hd.getIntervalDuration()),
 		Hosts:       hosts,
 	}
 	renderJson(rw, resp)
diff --git a/healthd/healthd.go b/healthd/healthd.go
index 0f39be7..37b9ded 100644
--- a/healthd/healthd.go
+++ b/healthd/healthd.go
@@ -13,7 +13,9 @@ type HealthD struct {
 	stream *health.Stream
 
 	// How long is each aggregation interval. Eg, 1 minute
-	intervalDuration time.Duration
+	// It's set by the aggregator, which alone may read it without intervalDurationMut. Everybody else uses getIntervalDuration.
+	intervalDuration    time.Duration
+	intervalDurationMut sync.RWMutex
 
 	// Retain controls how many metrics interval we keep. Eg, 5 minutes
 	retain time.Duration
@@ -215,6 +217,12 @@ func (hd *HealthD) getHosts() []*HostStatus {
 	}
 }
 
+func (hd *HealthD) getIntervalDuration() time.Duration {
+	hd.intervalDurationMut.RLock()
+	defer hd.intervalDurationMut.RUnlock()
+	return hd.intervalDuration
+}
+
 func (agg *HealthD) memorySafeIntervals() []*health.IntervalAggregation {
 	ret := make([]*health.IntervalAggregation, 0, len(agg.intervalAggregations))
 
@@ -263,7 +271,9 @@ func (hd *HealthD) consumePollResponse(resp *pollResponse) {
 	// Add resp to hostAggregations
 	if resp.Code == 200 && resp.Err == nil {
 		if hd.intervalDuration == 0 {
+			hd.intervalDurationMut.Lock()
 			hd.intervalDuration = resp.IntervalDuration // TODO: validate this
+			hd.intervalDurationMut.Unlock()
 			hd.maxIntervals = int(hd.retain / hd.intervalDuration)
 		} else if hd.intervalDuration != resp.IntervalDuration {
 			fmt.Println("interval duration mismatch: agg.intervalDuration=", hd.intervalDuration, " but resp.IntervalDuration=", resp.IntervalDuration)
-- 
2.43.0


From 0a608805c777c1feec498d7c04bd287047739af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:55 +0000
Subject: [PATCH 17/21] fix: healthtop froze on its first screen when there
 were more jobs or hosts than fit the terminal

---
 cmd/healthtop/hosts.go |  8 ++++++--
 cmd/healthtop/jobs.go  | 13 +++++++++----
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/cmd/healthtop/hosts.go b/cmd/healthtop/hosts.go
index 2fbcd43..8bbc7bc 100644
--- a/cmd/healthtop/hosts.go
+++ b/cmd/healthtop/hosts.go
@@ -89,11 +89,15 @@ func printHosts(lastApiResponse *healthd.ApiResponseHosts, status *healthdStatus
 	table := goterm.NewTable(0, goterm.Width()-1, 5, ' ', 0)
 	fmt.Fprintf(table, "%s\n", strings.Join(columns, "\t"))
 
-	for _, host := range lastApiResponse.Hosts {
+	rows := maxRows()
+	for i, host := range lastApiResponse.Hosts {
+		if uint(i) == rows {
+			break
+		}
 		printHost(table, host)
 	}
 
-	goterm.Println(table)
+	goterm.Print(table)
 }
 
 func printHost(table *goterm.Table, host *healthd.HostStatus) {
diff --git a/cmd/healthtop/jobs.go b/cmd/healthtop/jobs.go
index 77bf16a..1999ce8 100644
--- a/cmd/healthtop/jobs.go
+++ b/cmd/healthtop/jobs.go
@@ -139,11 +139,15 @@ func printJobs(lastApiResponse *healthd.ApiResponseJobs, status *healthdStatus)
 	table := goterm.NewTable(0, goterm.Width()-1, 5, ' ', 0)
 	fmt.Fprintf(table, "%s\n", strings.Join(columns, "\t"))
 
-	for _, job := range lastApiResponse.Jobs {
+	rows := maxRows()
+	for i, job := range lastApiResponse.Jobs {
+		if uint(i) == rows {
+			break
+		}
 		printJob(table, job)
 	}
 
-	goterm.Println(table)
+	goterm.Print(table)
 }
 
 func printJob(table *goterm.Table, job *healthd.Job) {
@@ -208,10 +212,11 @@ func normal(text string) string {
 }
 
 // Returns the max amount of metrics/rows we can display
-// This is the # of rows in the terminal minus 2 (for time / stats + grid header)
+// This is the # of rows in the terminal minus 3 (for time / stats + grid header + where the cursor ends up)
+// If we print more than that, goterm doesn't flush, and shows what we printed first forever.
 // To elimate any weird cases where the terminal is super short, we'll return a min rows of 3
 func maxRows() uint {
-	n := goterm.Height() - 2
+	n := goterm.Height() - 3
 	if n < 3 {
 		n = 3
 	}
-- 
2.43.0


From 936084ec918b226d4b4336bd6a4cfdc19caecccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:46 +0000
Subject: [PATCH 18/21] fix: a stopped StatsD sink left its flush goroutine
 behind

---
 statsd_sink.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/statsd_sink.go b/statsd_sink.go
index 247c3ab..1deb825 100644
--- a/statsd_sink.go
+++ b/statsd_sink.go
@@ -97,6 +97,7 @@ func NewStatsDSink(addr string, options *StatsDSinkOptions) (*StatsDSink, error)
 
 	ra, err := net.ResolveUDPAddr("udp", addr)
 	if err != nil {
+		c.Close()
 		return nil, err
 	}
 
@@ -158,9 +159,19 @@ func (s *StatsDSink) loop() {
 	cmdChan := s.cmdChan
 
 	ticker := time.NewTicker(s.flushPeriod)
+	stopped := make(chan struct{})
 	go func() {
-		for _ = range ticker.C {
-			cmdChan <- statsdEmitCmd{Kind: statsdCmdKindFlush}
+		for {
+			select {
+			case <-ticker.C:
+			case <-stopped:
+				return
+			}
+			select {
+			case cmdChan <- statsdEmitCmd{Kind: statsdCmdKindFlush}:
+			case <-stopped:
+				return
+			}
 		}
 	}()
 
@@ -207,6 +218,7 @@ LOOP:
 	}
 
 	ticker.Stop()
+	close(stopped)
 }
 
 func (s *StatsDSink) processCmd(cmd *statsdEmitCmd) {
-- 
2.43.0


From 7e05ceceeadc2de6c4a530178c264106970c59ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:17 +0000
Subject: [PATCH 19/21] fix: a stopped healthd left its debouncer running and
 could leave polls blocked

---
 healthd/debouncer.go | 18 ++++++++++++++++--
 healthd/healthd.go   | 22 ++++++++++++++++++++--
 2 files changed, 36 insertions(+), 4 deletions(-)

diff --git a/healthd/debouncer.go b/healthd/debouncer.go
index fc752a3..98ae420 100644
--- a/healthd/debouncer.go
+++ b/healthd/debouncer.go
@@ -4,13 +4,17 @@ import (
 	"time"
 )
 
+// debouncer runs until needitdone is closed.
 // A) don't fire more than every 2 seconds B) the time between an input and output should be at most 2 seconds
 func debouncer(doit chan<- struct{}, needitdone <-chan struct{}, threshold time.Duration, sleepTime time.Duration) {
 	var oldestNeedItDone time.Time
 
 	for {
 		select {
-		case <-needitdone:
+		case _, ok := <-needitdone:
+			if !ok {
+				return
+			}
 			if oldestNeedItDone.IsZero() {
 				oldestNeedItDone = now()
 			}
@@ -20,7 +24,17 @@ func debouncer(doit chan<- struct{}, needitdone <-chan struct{}, threshold time.
 		}
 
 		if !oldestNeedItDone.IsZero() && (now().Sub(oldestNeedItDone) > threshold) {
-			doit <- struct{}{}
+			for fired := false; !fired; {
+				select {
+				case doit <- struct{}{}:
+					fired = true
+				case _, ok := <-needitdone:
+					// What is asked for now will be covered when we fire.
+					if !ok {
+						return
+					}
+				}
+			}
 			oldestNeedItDone = time.Time{} // Zero the object
 		}
 	}
diff --git a/healthd/healthd.go b/healthd/healthd.go
index 37b9ded..eb9f72b 100644
--- a/healthd/healthd.go
+++ b/healthd/healthd.go
@@ -120,8 +120,17 @@ func (hd *HealthD) pollAndAggregate() {
 
 	go debouncer(recalcIntervals, recalcIntervalsRequest, time.Second*2, time.Millisecond*300)
 
+	var polls sync.WaitGroup
+	startPoll := func() {
+		polls.Add(1)
+		go func() {
+			defer polls.Done()
+			hd.poll(responses)
+		}()
+	}
+
 	// Immediately poll for servers on healthd startup
-	go hd.poll(responses)
+	startPoll()
 
 AGGREGATE_LOOP:
 	for {
@@ -136,7 +145,7 @@ AGGREGATE_LOOP:
 		//  - A requset to shut down.
 		select {
 		case <-ticker:
-			go hd.poll(responses)
+			startPoll()
 			hd.purge()
 		case resp := <-responses:
 			if resp == nil {
@@ -163,6 +172,15 @@ AGGREGATE_LOOP:
 			break AGGREGATE_LOOP
 		}
 	}
+
+	// Stopped: let the debouncer end, and the polls that are still under way.
+	close(recalcIntervalsRequest)
+	go func() {
+		polls.Wait()
+		close(responses)
+	}()
+	for range responses {
+	}
 }
 
 // poll is meant to be alled in a new goroutine.
-- 
2.43.0


From 533300df14fb70b38b79dc2dc4a1ccb9ef2913df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:27 +0000
Subject: [PATCH 20/21] fix: a shut down polling sink left its HTTP server
 listening and requests to it hanging

---
 json_polling_sink.go      | 25 +++++++++++++++++++++++--
 json_polling_sink_http.go |  6 +++++-
 2 files changed, 28 insertions(+), 3 deletions(-)

diff --git a/json_polling_sink.go b/json_polling_sink.go
index f0cc401..bf4d7f3 100644
--- a/json_polling_sink.go
+++ b/json_polling_sink.go
@@ -1,6 +1,8 @@
 package health
 
 import (
+	"net/http"
+	"sync"
 	"time"
 )
 
@@ -10,6 +12,11 @@ type JsonPollingSink struct {
 	doneChan          chan int
 	doneDoneChan      chan int
 	intervalsChanChan chan chan []*IntervalAggregation
+
+	stopped chan struct{} // closed by ShutdownServer
+
+	serversMut sync.Mutex
+	servers    []*http.Server
 }
 
 type cmdKind int
@@ -41,6 +48,7 @@ func NewJsonPollingSink(intervalDuration time.Duration, retain time.Duration) *J
 		doneChan:          make(chan int),
 		doneDoneChan:      make(chan int),
 		intervalsChanChan: make(chan chan []*IntervalAggregation),
+		stopped:           make(chan struct{}),
 	}
 
 	go startAggregator(intervalDuration, retain, s)
@@ -51,6 +59,14 @@ func NewJsonPollingSink(intervalDuration time.Duration, retain time.Duration) *J
 func (s *JsonPollingSink) ShutdownServer() {
 	s.doneChan <- 1
 	<-s.doneDoneChan
+	close(s.stopped)
+
+	s.serversMut.Lock()
+	defer s.serversMut.Unlock()
+	for _, server := range s.servers {
+		server.Close()
+	}
+	s.servers = nil
 }
 
 func (s *JsonPollingSink) EmitEvent(job string, event string, kvs map[string]string) {
@@ -73,8 +89,13 @@ func (s *JsonPollingSink) EmitComplete(job string, status CompletionStatus, nano
 	s.cmdChan <- &emitCmd{Kind: cmdKindComplete, Job: job, Status: status, Nanos: nanos}
 }
 
+// GetMetrics returns the retained intervals; nil once the sink has been shut down.
 func (s *JsonPollingSink) GetMetrics() []*IntervalAggregation {
 	intervalsChan := make(chan []*IntervalAggregation)
-	s.intervalsChanChan <- intervalsChan
-	return <-intervalsChan
+	select {
+	case s.intervalsChanChan <- intervalsChan:
+		return <-intervalsChan
+	case <-s.stopped:
+		return nil
+	}
 }
diff --git a/json_polling_sink_http.go b/json_polling_sink_http.go
index 40dac13..6036aa4 100644
--- a/json_polling_sink_http.go
+++ b/json_polling_sink_http.go
@@ -14,7 +14,11 @@ type HealthAggregationsResponse struct {
 }
 
 func (s *JsonPollingSink) StartServer(addr string) {
-	go http.ListenAndServe(addr, s)
+	server := &http.Server{Addr: addr, Handler: s}
+	s.serversMut.Lock()
+	s.servers = append(s.servers, server)
+	s.serversMut.Unlock()
+	go server.ListenAndServe()
 }
 
 func (s *JsonPollingSink) ServeHTTP(rw http.ResponseWriter, r *http.Request) {
-- 
2.43.0


From 24b48692cb7593350d5a809024de238d573369ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:10 +0000
Subject: [PATCH 21/21] fix: a Bugsnag or Librato server that never answered
 blocked the sink, and finally whoever used it, for good

---
 sinks/bugsnag/api.go  | 5 ++++-
 sinks/librato/sink.go | 2 +-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/sinks/bugsnag/api.go b/sinks/bugsnag/api.go
index f5d6539..e76a584 100644
--- a/sinks/bugsnag/api.go
+++ b/sinks/bugsnag/api.go
@@ -7,6 +7,7 @@ import (
 	"github.com/gocraft/health/stack"
 	"io/ioutil"
 	"net/http"
+	"time"
 )
 
 type Config struct {
@@ -107,11 +108,13 @@ func Notify(config *Config, jobName string, eventName string, err error, trace *
 	}
 
 	// Post it to the server:
-	client := http.Client{}
+	// Don't wait forever for a server that doesn't answer: errors pile up meanwhile, and finally block whoever logs them.
+	client := http.Client{Timeout: 30 * time.Second}
 	resp, err := client.Post(config.Endpoint, "application/json", bytes.NewBuffer(data))
 	if err != nil {
 		return err
 	}
+	defer resp.Body.Close()
 	body, err := ioutil.ReadAll(resp.Body)
 	if err != nil {
 		return err
diff --git a/sinks/librato/sink.go b/sinks/librato/sink.go
index 63cb60f..c00f029 100644
--- a/sinks/librato/sink.go
+++ b/sinks/librato/sink.go
@@ -95,7 +95,7 @@ func New(user, apiKey, prefix string) *Sink {
 		cmdChan:          make(chan *emitCmd, buffSize),
 		doneChan:         make(chan int),
 		doneDoneChan:     make(chan int),
-		httpClient:       &http.Client{},
+		httpClient:       &http.Client{Timeout: 30 * time.Second}, // else a server that doesn't answer finally blocks whoever emits
 		libratoUser:      user,
 		libratoApiKey:    apiKey,
 		prefix:           prefix,
-- 
2.43.0

