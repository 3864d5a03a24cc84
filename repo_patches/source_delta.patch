From ddf33328824df27ea8201fa6a5ee4115b4fea52d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:26 +0000
Subject: [PATCH 01/25] fix: count the background writer of an asynchronous
 output before it starts

Close could pass WaitGroup.Wait before the writer goroutine had called Add and
return while records were still queued.
---
 internal/output_base.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/output_base.go b/internal/output_base.go
index 787a12b..daba512 100644
--- a/internal/output_base.go
+++ b/internal/output_base.go
@@ -113,6 +113,7 @@ func NewAsyncOutput(w io.Writer, threshold api.Level, queueSize int, batchNum in
 		batchNum: batchNum,
 	}
 	o.baseOutput = &baseOutput{w: w, t: threshold}
+	o.wait.Add(1)
 	go o.loop()
 	return o
 }
@@ -153,7 +154,6 @@ func (o *asyncOutput) flush() {
 }
 
 func (o *asyncOutput) loop() {
-	o.wait.Add(1)
 	defer o.wait.Done()
 
 	tick := time.NewTicker(5 * time.Second)
-- 
2.43.0


From 715e9378c2259171c6ed599d74f60d6fb964c17a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:05 +0000
Subject: [PATCH 02/25] fix: make Send and Close of an asynchronous output safe
 against each other

A logging call that had passed the closed check could send on the closed queue
(panic) or queue its record behind the end mark (lost, or blocked for good),
and two concurrent Close calls could block or close the queue twice. Senders
now hold a read lock, Close closes the queue under the write lock and every
Close waits until the queue is drained.
---
 internal/output_base.go | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/internal/output_base.go b/internal/output_base.go
index daba512..59b1b8f 100644
--- a/internal/output_base.go
+++ b/internal/output_base.go
@@ -6,7 +6,6 @@ import (
 	"io"
 	"strconv"
 	"sync"
-	"sync/atomic"
 	"time"
 
 	"github.com/xtfly/log4g/api"
@@ -15,11 +14,10 @@ import (
 const (
 	defaultLayout = "%-5s [%s] %s: %s\n"
 
-	queueMinSize       = 1000
-	queueMaxSize       = 100000
-	batchMinNum        = 20
-	batchMaxNum        = 500
-	flagClosed   int32 = 1
+	queueMinSize = 1000
+	queueMaxSize = 100000
+	batchMinNum  = 20
+	batchMaxNum  = 500
 )
 
 // ------------------------------------
@@ -125,25 +123,28 @@ type asyncOutput struct {
 	currNum  int
 	buf      bytes.Buffer
 	wait     sync.WaitGroup
-	closed   int32
+	lock     sync.RWMutex // guards closed and the closing of evtChan
+	closed   bool
 }
 
 func (o *asyncOutput) Send(e *api.Event) {
-	if atomic.LoadInt32(&o.closed) == flagClosed {
+	o.lock.RLock()
+	defer o.lock.RUnlock()
+	if o.closed {
 		return
 	}
 	o.evtChan <- e
 }
 
 func (o *asyncOutput) Close() {
+	o.lock.Lock()
 	// support duplicate call Close method
-	if atomic.LoadInt32(&o.closed) == flagClosed {
-		return
+	if !o.closed {
+		o.closed = true
+		close(o.evtChan)
 	}
-	o.evtChan <- nil
+	o.lock.Unlock()
 	o.wait.Wait()
-	atomic.StoreInt32(&o.closed, flagClosed)
-	close(o.evtChan)
 }
 
 func (o *asyncOutput) flush() {
-- 
2.43.0


From 936eda7568afd1196ae071061d536a524e24ff66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:13 +0000
Subject: [PATCH 03/25] fix: format asynchronous records in the logging call

Formatting in the background printed whatever the arguments and fields had
become by then, and a panicking formatter took the writer goroutine with it.
Without a formatter the default layout is used, as in a synchronous output.
---
 internal/output_base.go | 43 +++++++++++++++++++++++++----------------
 1 file changed, 26 insertions(+), 17 deletions(-)

diff --git a/internal/output_base.go b/internal/output_base.go
index 59b1b8f..9d4cf67 100644
--- a/internal/output_base.go
+++ b/internal/output_base.go
@@ -40,16 +40,20 @@ func (o *baseOutput) Send(e *api.Event) {
 		return
 	}
 
+	o.w.Write(o.format(e))
+}
+
+// format a event to the bytes to write
+func (o *baseOutput) format(e *api.Event) []byte {
 	if o.f != nil {
-		o.w.Write([]byte(o.f.Format(e)))
-		return
+		return o.f.Format(e)
 	}
 
-	fmt.Fprintf(o.w, defaultLayout,
+	return []byte(fmt.Sprintf(defaultLayout,
 		e.Level.String(),
 		e.Time.Format(defaultTimeLayout),
 		e.Name,
-		e.Message())
+		e.Message()))
 }
 
 // SetFormatter set a formatter for output
@@ -107,7 +111,7 @@ func GetThresholdLvl(str string) api.Level {
 // NewAsyncOutput ...
 func NewAsyncOutput(w io.Writer, threshold api.Level, queueSize int, batchNum int) api.Output {
 	o := &asyncOutput{
-		evtChan:  make(chan *api.Event, queueSize),
+		msgChan:  make(chan []byte, queueSize),
 		batchNum: batchNum,
 	}
 	o.baseOutput = &baseOutput{w: w, t: threshold}
@@ -118,22 +122,29 @@ func NewAsyncOutput(w io.Writer, threshold api.Level, queueSize int, batchNum in
 
 type asyncOutput struct {
 	*baseOutput
-	evtChan  chan *api.Event
+	msgChan  chan []byte
 	batchNum int
 	currNum  int
 	buf      bytes.Buffer
 	wait     sync.WaitGroup
-	lock     sync.RWMutex // guards closed and the closing of evtChan
+	lock     sync.RWMutex // guards closed and the closing of msgChan
 	closed   bool
 }
 
 func (o *asyncOutput) Send(e *api.Event) {
+	if e.Level < o.t {
+		return
+	}
+
+	// format now, the caller may change the arguments after the call
+	bs := o.format(e)
+
 	o.lock.RLock()
 	defer o.lock.RUnlock()
 	if o.closed {
 		return
 	}
-	o.evtChan <- e
+	o.msgChan <- bs
 }
 
 func (o *asyncOutput) Close() {
@@ -141,7 +152,7 @@ func (o *asyncOutput) Close() {
 	// support duplicate call Close method
 	if !o.closed {
 		o.closed = true
-		close(o.evtChan)
+		close(o.msgChan)
 	}
 	o.lock.Unlock()
 	o.wait.Wait()
@@ -164,18 +175,16 @@ func (o *asyncOutput) loop() {
 		select {
 		case <-tick.C:
 			o.flush()
-		case evt := <-o.evtChan:
-			if evt == nil {
+		case bs, ok := <-o.msgChan:
+			if !ok {
 				o.flush()
 				return
 			}
 
-			if evt.Level >= o.t {
-				o.buf.Write(o.f.Format(evt))
-				o.currNum++
-				if o.currNum >= o.batchNum {
-					o.flush()
-				}
+			o.buf.Write(bs)
+			o.currNum++
+			if o.currNum >= o.batchNum {
+				o.flush()
 			}
 		}
 	}
-- 
2.43.0


From 9a63dab437978040e9553bc007520b5065ba0d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:45 +0000
Subject: [PATCH 04/25] fix: serialise writes of the memory output

Concurrent logging calls wrote to the bare bytes.Buffer and lost or mixed
records.
---
 internal/output_memory.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/internal/output_memory.go b/internal/output_memory.go
index 7bcd09e..9f2dd98 100644
--- a/internal/output_memory.go
+++ b/internal/output_memory.go
@@ -2,6 +2,7 @@ package internal
 
 import (
 	"bytes"
+	"sync"
 
 	"github.com/xtfly/log4g/api"
 )
@@ -12,16 +13,25 @@ const (
 
 type memoryOutput struct {
 	api.Output
-	buf bytes.Buffer
+	lock sync.Mutex // guards buf
+	buf  bytes.Buffer
+}
+
+func (o *memoryOutput) Write(bs []byte) (int, error) {
+	o.lock.Lock()
+	defer o.lock.Unlock()
+	return o.buf.Write(bs)
 }
 
 func (o *memoryOutput) String() string {
+	o.lock.Lock()
+	defer o.lock.Unlock()
 	return o.buf.String()
 }
 
 // NewMemoryOutput return a output instance that it print message to buffer
 func NewMemoryOutput(_ api.CfgOutput) (api.Output, error) {
 	r := &memoryOutput{}
-	r.Output = NewBaseOutput(&r.buf, api.All)
+	r.Output = NewBaseOutput(r, api.All)
 	return r, nil
 }
-- 
2.43.0


From f9b575f50b56d38ace0d0031bb5e7eaaf0ba4ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:52 +0000
Subject: [PATCH 05/25] fix: parse the number of a size given with K, M or G

The suffix was passed to Atoi, so every such size became the default.
---
 internal/output_rolling.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/output_rolling.go b/internal/output_rolling.go
index 2616a44..bc486e1 100644
--- a/internal/output_rolling.go
+++ b/internal/output_rolling.go
@@ -74,19 +74,19 @@ func NewRollingOutput(cfg api.CfgOutput) (o api.Output, err error) {
 
 func getMaxSize(str string) int64 {
 	if strings.HasSuffix(str, "K") {
-		size, _ := strconv.Atoi(str)
+		size, _ := strconv.Atoi(strings.TrimSuffix(str, "K"))
 		if size <= 0 {
 			size = 10 * 1024
 		}
 		return int64(size * 1024)
 	} else if strings.HasSuffix(str, "M") {
-		size, _ := strconv.Atoi(str)
+		size, _ := strconv.Atoi(strings.TrimSuffix(str, "M"))
 		if size <= 0 {
 			size = 10
 		}
 		return int64(size * 1024 * 1024)
 	} else if strings.HasSuffix(str, "G") {
-		size, _ := strconv.Atoi(str)
+		size, _ := strconv.Atoi(strings.TrimSuffix(str, "G"))
 		if size <= 0 {
 			size = 1
 		}
-- 
2.43.0


From 59a80c2a0b5bb5dc35b7179ceded0cc21acb939c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:42 +0000
Subject: [PATCH 06/25] fix: configure loggers that are created as the parent
 of another one

GetLogger("a/b") created "a" without its configured level and outputs, so
"a/b" and later "a" itself used those of the root logger.
---
 internal/logger_factory.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/internal/logger_factory.go b/internal/logger_factory.go
index 0568d7f..c18e89b 100644
--- a/internal/logger_factory.go
+++ b/internal/logger_factory.go
@@ -31,12 +31,6 @@ func (f *factory) GetLogger(name string) api.Logger {
 	l, ok := f.loggers[name]
 	if !ok {
 		l = f.createLogger(name, f.getParent(name))
-		if ops, lvl, err := f.manager.GetLoggerOutputs(name); err != nil {
-			//log.Println("WARN: ", err)
-		} else {
-			l.SetLevel(lvl)
-			l.SetOutputs(ops)
-		}
 	}
 
 	return l
@@ -63,6 +57,12 @@ func (f *factory) createLogger(name string, parent *defLogger) *defLogger {
 	if !ok {
 		l = newLogger(name)
 		l.parent = parent
+		if ops, lvl, err := f.manager.GetLoggerOutputs(name); err != nil {
+			//log.Println("WARN: ", err)
+		} else {
+			l.SetLevel(lvl)
+			l.SetOutputs(ops)
+		}
 		f.loggers[name] = l
 	}
 	return l
-- 
2.43.0


From 91ec2bdbd56a859bddf6e761075ff3ea3e775dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:50 +0000
Subject: [PATCH 07/25] fix: reject configurations that cannot be parsed

LoadConfig dropped the error of the parser and of an unsupported type and
applied whatever had been read (usually an empty configuration), a file name
without extension panicked, and duplicate logger names were never found.
---
 internal/logger_manager.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/logger_manager.go b/internal/logger_manager.go
index ac1dfa4..7e16762 100644
--- a/internal/logger_manager.go
+++ b/internal/logger_manager.go
@@ -108,7 +108,7 @@ func (m *defManager) LoadConfigFile(file string) error {
 		return err
 	}
 	ext := path.Ext(file)
-	return m.LoadConfig(bs, ext[1:])
+	return m.LoadConfig(bs, strings.TrimPrefix(ext, "."))
 }
 
 func (m *defManager) LoadConfig(bs []byte, ext string) (err error) {
@@ -121,6 +121,9 @@ func (m *defManager) LoadConfig(bs []byte, ext string) (err error) {
 	} else if ext == "json" {
 		err = json.Unmarshal(bs, cfg)
 	}
+	if err != nil {
+		return err
+	}
 
 	return m.setConfig(cfg)
 }
@@ -170,6 +173,7 @@ func (m *defManager) validateConfig(cfg *api.Config) (err error) {
 			err = fmt.Errorf("duplication logger[%s] config", l.Name)
 			return
 		}
+		loggers[l.Name] = l
 
 		for _, outputName := range l.OutputNames {
 			if _, ok := outputs[outputName]; !ok {
-- 
2.43.0


From ad10721d0c478f534c54560315013cee8c84503a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:45 +0000
Subject: [PATCH 08/25] fix: keep fields and level of a record that goes to
 inherited outputs

The record was handed to the parent's own writer, which printed the parent's
context instead of the fields of the record and applied the parent's level
once more to records the logger itself admits.
---
 internal/logger.go | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/internal/logger.go b/internal/logger.go
index bea1c2a..4117973 100644
--- a/internal/logger.go
+++ b/internal/logger.go
@@ -159,26 +159,27 @@ func (l *defWriter) Critical(msg ...interface{}) {
 }
 
 func (l *defWriter) Printf(lvl api.Level, fmt string, args ...interface{}) {
-	l.write(l.logger.name, l.logger.callerSkip, lvl, fmt, args...)
+	l.write(l.logger.callerSkip, lvl, fmt, args...)
 }
 
-func (l *defWriter) write(name string, skip int, lvl api.Level, fmt string, args ...interface{}) {
+func (l *defWriter) write(skip int, lvl api.Level, fmt string, args ...interface{}) {
 	if !l.logger.LevelEnabled(lvl) {
 		return
 	}
 
-	if len(l.logger.outputs) == 0 {
-		if l.logger.parent != nil {
-			l.logger.parent.write(name, skip+1, lvl, fmt, args...)
-			return
-		}
-		log.Println("Warnning: not find outputs and parent for logger " + name)
+	// the outputs of the logger, or of its nearest parent which has some
+	ol := l.logger
+	for len(ol.outputs) == 0 && ol.parent != nil {
+		ol = ol.parent
+	}
+	if len(ol.outputs) == 0 {
+		log.Println("Warnning: not find outputs and parent for logger " + l.logger.name)
 	}
 
 	// create a new logging event
 	evt := &api.Event{
 		Time:      time.Now(),
-		Name:      name,
+		Name:      l.logger.name,
 		Level:     lvl,
 		Format:    fmt,
 		Arguments: args,
@@ -186,14 +187,14 @@ func (l *defWriter) write(name string, skip int, lvl api.Level, fmt string, args
 		Ctx:       l.ctx,
 	}
 
-	if l.logger.callerInfoFlag == ciFuncFlag {
+	if ol.callerInfoFlag == ciFuncFlag {
 		getCallerInfo(evt, true)
-	} else if l.logger.callerInfoFlag == ciFileFlag {
+	} else if ol.callerInfoFlag == ciFileFlag {
 		getCallerInfo(evt, false)
 	}
 
 	// dispatch event to all outputs
-	for _, v := range l.logger.outputs {
+	for _, v := range ol.outputs {
 		v.Send(evt)
 	}
 }
-- 
2.43.0


From 7da7747f66bf8e7ec0f1f65f445a96ce030a174d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:52 +0000
Subject: [PATCH 09/25] fix: report the call site of a direct Printf

Printf is called by the user and by the other logging methods with the same
number of frames to skip, so a direct call was attributed to the caller's
caller.
---
 internal/logger.go | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/internal/logger.go b/internal/logger.go
index 4117973..ac18afe 100644
--- a/internal/logger.go
+++ b/internal/logger.go
@@ -111,54 +111,59 @@ type defWriter struct {
 }
 
 func (l *defWriter) Tracef(fmt string, args ...interface{}) {
-	l.Printf(api.Trace, fmt, args...)
+	l.printf(api.Trace, fmt, args...)
 }
 
 func (l *defWriter) Trace(msg ...interface{}) {
-	l.Printf(api.Trace, "", msg...)
+	l.printf(api.Trace, "", msg...)
 }
 
 func (l *defWriter) Debugf(fmt string, args ...interface{}) {
-	l.Printf(api.Debug, fmt, args...)
+	l.printf(api.Debug, fmt, args...)
 }
 
 func (l *defWriter) Debug(msg ...interface{}) {
-	l.Printf(api.Debug, "", msg...)
+	l.printf(api.Debug, "", msg...)
 }
 
 func (l *defWriter) Infof(fmt string, args ...interface{}) {
-	l.Printf(api.Info, fmt, args...)
+	l.printf(api.Info, fmt, args...)
 }
 
 func (l *defWriter) Info(msg ...interface{}) {
-	l.Printf(api.Info, "", msg...)
+	l.printf(api.Info, "", msg...)
 }
 
 func (l *defWriter) Warnf(fmt string, args ...interface{}) {
-	l.Printf(api.Warn, fmt, args...)
+	l.printf(api.Warn, fmt, args...)
 }
 
 func (l *defWriter) Warn(msg ...interface{}) {
-	l.Printf(api.Warn, "", msg...)
+	l.printf(api.Warn, "", msg...)
 }
 
 func (l *defWriter) Errorf(fmt string, args ...interface{}) {
-	l.Printf(api.Error, fmt, args...)
+	l.printf(api.Error, fmt, args...)
 }
 
 func (l *defWriter) Error(msg ...interface{}) {
-	l.Printf(api.Error, "", msg...)
+	l.printf(api.Error, "", msg...)
 }
 
 func (l *defWriter) Criticalf(fmt string, args ...interface{}) {
-	l.Printf(api.Critical, fmt, args...)
+	l.printf(api.Critical, fmt, args...)
 }
 
 func (l *defWriter) Critical(msg ...interface{}) {
-	l.Printf(api.Critical, "", msg...)
+	l.printf(api.Critical, "", msg...)
 }
 
 func (l *defWriter) Printf(lvl api.Level, fmt string, args ...interface{}) {
+	// called directly, there is one frame less than below the other methods
+	l.write(l.logger.callerSkip-1, lvl, fmt, args...)
+}
+
+func (l *defWriter) printf(lvl api.Level, fmt string, args ...interface{}) {
 	l.write(l.logger.callerSkip, lvl, fmt, args...)
 }
 
-- 
2.43.0


From e197d27901b8f42f7275de02867adbb9f594275f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:38 +0000
Subject: [PATCH 10/25] fix: change level, outputs and caller info of loggers
 atomically

Logging calls read the level, the outputs and the caller info flag of the
loggers without synchronisation and one by one, so a record logged during a
reload could be handled with the level of one configuration and the outputs of
another one, or be lost. The state of all loggers of a factory is now guarded
by one lock, a record takes a consistent copy of it, and a reload switches all
loggers at once and excludes other reloads and the creation of loggers. The
caller info flag follows the current outputs.
---
 internal/logger.go         | 58 +++++++++++++++++++++++++++++---------
 internal/logger_factory.go | 29 +++++++++++++------
 internal/logger_manager.go |  9 ++++++
 3 files changed, 73 insertions(+), 23 deletions(-)

diff --git a/internal/logger.go b/internal/logger.go
index ac18afe..2cacc6f 100644
--- a/internal/logger.go
+++ b/internal/logger.go
@@ -3,6 +3,7 @@ package internal
 import (
 	"context"
 	"log"
+	"sync"
 	"time"
 
 	"github.com/xtfly/log4g/api"
@@ -21,14 +22,18 @@ type defLogger struct {
 	callerSkip     int          // caller skip depth
 	callerInfoFlag int          //
 
+	// shared by all loggers of a factory, guards level, outputs and callerInfoFlag
+	lock *sync.RWMutex
+
 	*defWriter
 }
 
-func newLogger(name string) *defLogger {
+func newLogger(name string, lock *sync.RWMutex) *defLogger {
 	l := &defLogger{
 		name:       name,
 		level:      api.Uninitialized,
 		callerSkip: callerSkip,
+		lock:       lock,
 	}
 	w := &defWriter{logger: l, ctx: context.Background()}
 	l.defWriter = w
@@ -78,10 +83,18 @@ func (l *defLogger) LevelEnabled(lvl api.Level) bool {
 }
 
 func (l *defLogger) SetLevel(lvl api.Level) {
+	l.lock.Lock()
+	defer l.lock.Unlock()
 	l.level = lvl
 }
 
 func (l *defLogger) Level() api.Level {
+	l.lock.RLock()
+	defer l.lock.RUnlock()
+	return l.effectiveLevel()
+}
+
+func (l *defLogger) effectiveLevel() api.Level {
 	cl := l
 	for cl != nil {
 		if cl.level != api.Uninitialized {
@@ -92,17 +105,38 @@ func (l *defLogger) Level() api.Level {
 	return api.Off
 }
 
+// effective returns the level, the outputs and the caller info flag which
+// apply to the logger now, as one consistent state
+func (l *defLogger) effective() (lvl api.Level, outputs []api.Output, flag int) {
+	l.lock.RLock()
+	defer l.lock.RUnlock()
+	// the outputs of the logger, or of its nearest parent which has some
+	ol := l
+	for len(ol.outputs) == 0 && ol.parent != nil {
+		ol = ol.parent
+	}
+	return l.effectiveLevel(), ol.outputs, ol.callerInfoFlag
+}
+
 func (l *defLogger) SetCallerSkip(skip int) {
 	l.callerSkip = callerSkip + skip
 }
 
 func (l *defLogger) SetOutputs(outputs []api.Output) {
-	l.outputs = outputs
+	flag := maxCallerInfoFlag(outputs)
+	l.lock.Lock()
+	defer l.lock.Unlock()
+	l.outputs, l.callerInfoFlag = outputs, flag
+}
+
+func maxCallerInfoFlag(outputs []api.Output) int {
+	flag := ciNoneFlog
 	for _, op := range outputs {
-		if l.callerInfoFlag < op.CallerInfoFlag() {
-			l.callerInfoFlag = op.CallerInfoFlag()
+		if flag < op.CallerInfoFlag() {
+			flag = op.CallerInfoFlag()
 		}
 	}
+	return flag
 }
 
 type defWriter struct {
@@ -168,16 +202,12 @@ func (l *defWriter) printf(lvl api.Level, fmt string, args ...interface{}) {
 }
 
 func (l *defWriter) write(skip int, lvl api.Level, fmt string, args ...interface{}) {
-	if !l.logger.LevelEnabled(lvl) {
+	enabled, outputs, flag := l.logger.effective()
+	if lvl < enabled {
 		return
 	}
 
-	// the outputs of the logger, or of its nearest parent which has some
-	ol := l.logger
-	for len(ol.outputs) == 0 && ol.parent != nil {
-		ol = ol.parent
-	}
-	if len(ol.outputs) == 0 {
+	if len(outputs) == 0 {
 		log.Println("Warnning: not find outputs and parent for logger " + l.logger.name)
 	}
 
@@ -192,14 +222,14 @@ func (l *defWriter) write(skip int, lvl api.Level, fmt string, args ...interface
 		Ctx:       l.ctx,
 	}
 
-	if ol.callerInfoFlag == ciFuncFlag {
+	if flag == ciFuncFlag {
 		getCallerInfo(evt, true)
-	} else if ol.callerInfoFlag == ciFileFlag {
+	} else if flag == ciFileFlag {
 		getCallerInfo(evt, false)
 	}
 
 	// dispatch event to all outputs
-	for _, v := range ol.outputs {
+	for _, v := range outputs {
 		v.Send(evt)
 	}
 }
diff --git a/internal/logger_factory.go b/internal/logger_factory.go
index c18e89b..1c65d54 100644
--- a/internal/logger_factory.go
+++ b/internal/logger_factory.go
@@ -15,9 +15,10 @@ const (
 // factory implements Factory interface.
 type factory struct {
 	sync.Mutex
-	manager api.Manager
-	root    *defLogger
-	loggers map[string]*defLogger
+	manager   api.Manager
+	root      *defLogger
+	loggers   map[string]*defLogger
+	stateLock sync.RWMutex // guards the state of all loggers
 }
 
 func (f *factory) GetLogger(name string) api.Logger {
@@ -55,7 +56,7 @@ func (f *factory) getParent(name string) *defLogger {
 func (f *factory) createLogger(name string, parent *defLogger) *defLogger {
 	l, ok := f.loggers[name]
 	if !ok {
-		l = newLogger(name)
+		l = newLogger(name, &f.stateLock)
 		l.parent = parent
 		if ops, lvl, err := f.manager.GetLoggerOutputs(name); err != nil {
 			//log.Println("WARN: ", err)
@@ -73,7 +74,7 @@ func (f *factory) getRootLogger() *defLogger {
 		return f.root
 	}
 
-	f.root = newLogger(rootLoggerName)
+	f.root = newLogger(rootLoggerName, &f.stateLock)
 	if ops, lvl, err := f.manager.GetLoggerOutputs(rootLoggerName); err != nil {
 		f.root.SetLevel(api.Debug)
 		console, _ := NewConsoleOutput(nil)
@@ -88,16 +89,26 @@ func (f *factory) getRootLogger() *defLogger {
 }
 
 func (f *factory) notify() {
-	f.Lock()
-	defer f.Unlock()
+	type state struct {
+		level   api.Level
+		outputs []api.Output
+		flag    int
+	}
+	states := make(map[*defLogger]state, len(f.loggers))
 	for _, k := range f.loggers {
 		if ops, lvl, err := f.manager.GetLoggerOutputs(k.name); err != nil {
 			//log.Println("WARN: ", err)
 		} else {
-			k.SetLevel(lvl)
-			k.SetOutputs(ops)
+			states[k] = state{lvl, ops, maxCallerInfoFlag(ops)}
 		}
 	}
+
+	// switch all loggers at once, a record sees either none or all of it
+	f.stateLock.Lock()
+	defer f.stateLock.Unlock()
+	for k, s := range states {
+		k.level, k.outputs, k.callerInfoFlag = s.level, s.outputs, s.flag
+	}
 }
 
 // newFactory return a instance of Factory
diff --git a/internal/logger_manager.go b/internal/logger_manager.go
index 7e16762..f9925ad 100644
--- a/internal/logger_manager.go
+++ b/internal/logger_manager.go
@@ -15,6 +15,7 @@ import (
 )
 
 type configNotification interface {
+	sync.Locker // locked while the config is replaced
 	notify()
 }
 
@@ -25,6 +26,7 @@ type defManager struct {
 	formats           map[string]api.Formatter            // key: name
 	outputs           map[string]api.Output               // key: name
 	config            *api.Config
+	cfgLock           sync.Mutex // serialises the replacement of config
 	cfgNotifications  []configNotification
 }
 
@@ -133,6 +135,13 @@ func (m *defManager) setConfig(cfg *api.Config) error {
 		return err
 	}
 
+	m.cfgLock.Lock()
+	defer m.cfgLock.Unlock()
+	for _, cn := range m.cfgNotifications {
+		cn.Lock()
+		defer cn.Unlock()
+	}
+
 	m.Lock()
 	m.config = cfg
 	m.Unlock()
-- 
2.43.0


From 2d44cf58e1b61b90ca0c18a5dff0a0439c70d3c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:16 +0000
Subject: [PATCH 11/25] fix: let a logger inherit again when the config no
 longer mentions it

After a reload such a logger kept the level and outputs of the previous
configuration.
---
 internal/logger.go         |  1 +
 internal/logger_factory.go | 35 ++++++++++++++++++++++++++---------
 internal/logger_manager.go |  7 ++++++-
 3 files changed, 33 insertions(+), 10 deletions(-)

diff --git a/internal/logger.go b/internal/logger.go
index 2cacc6f..97b3d40 100644
--- a/internal/logger.go
+++ b/internal/logger.go
@@ -21,6 +21,7 @@ type defLogger struct {
 	outputs        []api.Output // 日志的Output列表
 	callerSkip     int          // caller skip depth
 	callerInfoFlag int          //
+	configured     bool         // level and outputs come from the config
 
 	// shared by all loggers of a factory, guards level, outputs and callerInfoFlag
 	lock *sync.RWMutex
diff --git a/internal/logger_factory.go b/internal/logger_factory.go
index 1c65d54..9f5f299 100644
--- a/internal/logger_factory.go
+++ b/internal/logger_factory.go
@@ -63,6 +63,7 @@ func (f *factory) createLogger(name string, parent *defLogger) *defLogger {
 		} else {
 			l.SetLevel(lvl)
 			l.SetOutputs(ops)
+			l.configured = true
 		}
 		f.loggers[name] = l
 	}
@@ -76,30 +77,46 @@ func (f *factory) getRootLogger() *defLogger {
 
 	f.root = newLogger(rootLoggerName, &f.stateLock)
 	if ops, lvl, err := f.manager.GetLoggerOutputs(rootLoggerName); err != nil {
-		f.root.SetLevel(api.Debug)
-		console, _ := NewConsoleOutput(nil)
-		f.root.SetOutputs([]api.Output{console})
+		lvl, ops := rootDefaults()
+		f.root.SetLevel(lvl)
+		f.root.SetOutputs(ops)
 	} else {
 		f.root.SetLevel(lvl)
 		f.root.SetOutputs(ops)
+		f.root.configured = true
 	}
 
 	f.loggers[rootLoggerName] = f.root
 	return f.root
 }
 
+// rootDefaults returns level and outputs of a root logger without config.
+func rootDefaults() (api.Level, []api.Output) {
+	console, _ := NewConsoleOutput(nil)
+	return api.Debug, []api.Output{console}
+}
+
 func (f *factory) notify() {
 	type state struct {
-		level   api.Level
-		outputs []api.Output
-		flag    int
+		level      api.Level
+		outputs    []api.Output
+		flag       int
+		configured bool
 	}
 	states := make(map[*defLogger]state, len(f.loggers))
 	for _, k := range f.loggers {
 		if ops, lvl, err := f.manager.GetLoggerOutputs(k.name); err != nil {
-			//log.Println("WARN: ", err)
+			if _, ok := err.(*loggerNotFoundError); !ok || !k.configured {
+				//log.Println("WARN: ", err)
+				continue
+			}
+			// not mentioned any more, inherit again
+			if k == f.root {
+				lvl, ops = rootDefaults()
+			}
+			states[k] = state{lvl, ops, maxCallerInfoFlag(ops), false}
 		} else {
-			states[k] = state{lvl, ops, maxCallerInfoFlag(ops)}
+			states[k] = state{lvl, ops, maxCallerInfoFlag(ops), true}
 		}
 	}
 
@@ -107,7 +124,7 @@ func (f *factory) notify() {
 	f.stateLock.Lock()
 	defer f.stateLock.Unlock()
 	for k, s := range states {
-		k.level, k.outputs, k.callerInfoFlag = s.level, s.outputs, s.flag
+		k.level, k.outputs, k.callerInfoFlag, k.configured = s.level, s.outputs, s.flag, s.configured
 	}
 }
 
diff --git a/internal/logger_manager.go b/internal/logger_manager.go
index f9925ad..8e5ea05 100644
--- a/internal/logger_manager.go
+++ b/internal/logger_manager.go
@@ -19,6 +19,11 @@ type configNotification interface {
 	notify()
 }
 
+// loggerNotFoundError is returned for a logger which the config does not mention
+type loggerNotFoundError struct {
+	baseError
+}
+
 type defManager struct {
 	sync.RWMutex
 	formatterCreators map[string]api.FormatterFuncCreator // key: type
@@ -58,7 +63,7 @@ func (m *defManager) GetLoggerOutputs(name string) (ops []api.Output, lvl api.Le
 	defer m.Unlock()
 	lc := m.config.GetCfgLogger(name)
 	if lc == nil {
-		return nil, lvl, fmt.Errorf("not find logger.name[%s] config", name)
+		return nil, lvl, &loggerNotFoundError{baseError{fmt.Sprintf("not find logger.name[%s] config", name)}}
 	}
 	lvl = api.LevelFrom(lc.Level)
 
-- 
2.43.0


From 6f5cf60168d17f8550af83fd56656b7ab199a909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:53 +0000
Subject: [PATCH 12/25] fix: apply changed definitions of outputs and formats
 on reload

Outputs and formats were cached by name for ever, so a reload that changed the
threshold, file or layout of an existing name had no effect.
---
 internal/logger_manager.go | 45 ++++++++++++++++++++++++++++++++++++--
 1 file changed, 43 insertions(+), 2 deletions(-)

diff --git a/internal/logger_manager.go b/internal/logger_manager.go
index 8e5ea05..bbd0017 100644
--- a/internal/logger_manager.go
+++ b/internal/logger_manager.go
@@ -30,17 +30,27 @@ type defManager struct {
 	outputCreators    map[string]api.OutputFuncCreator    // key: type
 	formats           map[string]api.Formatter            // key: name
 	outputs           map[string]api.Output               // key: name
+	formatCfgs        map[string]api.CfgFormat            // what formats were created from
+	outputCfgs        map[string]outputDefinition         // what outputs were created from
+	retired           []api.Output                        // outputs whose definition was replaced
 	config            *api.Config
 	cfgLock           sync.Mutex // serialises the replacement of config
 	cfgNotifications  []configNotification
 }
 
+type outputDefinition struct {
+	output api.CfgOutput
+	format api.CfgFormat
+}
+
 func newManager() api.Manager {
 	return &defManager{
 		formatterCreators: make(map[string]api.FormatterFuncCreator),
 		outputCreators:    make(map[string]api.OutputFuncCreator),
 		formats:           make(map[string]api.Formatter),
 		outputs:           make(map[string]api.Output),
+		formatCfgs:        make(map[string]api.CfgFormat),
+		outputCfgs:        make(map[string]outputDefinition),
 		config:            &api.Config{},
 	}
 }
@@ -84,11 +94,12 @@ func (m *defManager) GetLoggerOutputs(name string) (ops []api.Output, lvl api.Le
 		}
 
 		fmtt, ok := m.formats[fmtcfg.Name()]
-		if !ok {
+		if !ok || !sameCfg(m.formatCfgs[fmtcfg.Name()], fmtcfg) {
 			if fmtt, err = fmtcreator(fmtcfg); err != nil {
 				return
 			}
 			m.formats[fmtcfg.Name()] = fmtt
+			m.formatCfgs[fmtcfg.Name()] = copyCfg(fmtcfg)
 		}
 
 		opcreator, ok := m.outputCreators[opcfg.Type()]
@@ -97,18 +108,45 @@ func (m *defManager) GetLoggerOutputs(name string) (ops []api.Output, lvl api.Le
 		}
 
 		op, ok := m.outputs[opcfg.Name()]
-		if !ok {
+		def := m.outputCfgs[opcfg.Name()]
+		if !ok || !sameCfg(def.output, opcfg) || !sameCfg(def.format, fmtcfg) {
+			if ok {
+				// records may still be on their way to it, it is closed with the others
+				m.retired = append(m.retired, op)
+				delete(m.outputs, opcfg.Name())
+			}
 			if op, err = opcreator(opcfg); err != nil {
 				return
 			}
 			op.SetFormatter(fmtt)
 			m.outputs[opcfg.Name()] = op
+			m.outputCfgs[opcfg.Name()] = outputDefinition{copyCfg(opcfg), copyCfg(fmtcfg)}
 		}
 		ops = append(ops, op)
 	}
 	return
 }
 
+func sameCfg(a, b map[string]string) bool {
+	if len(a) != len(b) {
+		return false
+	}
+	for k, v := range a {
+		if w, ok := b[k]; !ok || w != v {
+			return false
+		}
+	}
+	return true
+}
+
+func copyCfg(cfg map[string]string) map[string]string {
+	c := make(map[string]string, len(cfg))
+	for k, v := range cfg {
+		c[k] = v
+	}
+	return c
+}
+
 func (m *defManager) LoadConfigFile(file string) error {
 	bs, err := ioutil.ReadFile(file)
 	if err != nil {
@@ -209,6 +247,9 @@ func (m *defManager) Close() {
 	for _, v := range m.outputs {
 		v.Close()
 	}
+	for _, v := range m.retired {
+		v.Close()
+	}
 	m.Unlock()
 }
 
-- 
2.43.0


From e270f411b03b52d298bcde5c934b0eb89776f877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:53 +0000
Subject: [PATCH 13/25] fix: respect the size limit for the first record of a
 process

The size of an existing log file was not known before its first write, so a
file that had reached the limit got one more record with every restart.
---
 internal/output_rollingwriter.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/internal/output_rollingwriter.go b/internal/output_rollingwriter.go
index a6e8284..947b8a7 100644
--- a/internal/output_rollingwriter.go
+++ b/internal/output_rollingwriter.go
@@ -513,6 +513,14 @@ func (rw *rollingFileWriter) Write(bytes []byte) (n int, err error) {
 	rw.rollLock.Lock()
 	defer rw.rollLock.Unlock()
 
+	// open first, the size of an existing file counts
+	if rw.currentFile == nil {
+		err := rw.createFileAndFolderIfNeeded(true)
+		if err != nil {
+			return 0, err
+		}
+	}
+
 	if rw.self.needsToRoll() {
 		if err := rw.roll(); err != nil {
 			return 0, err
-- 
2.43.0


From 4c1257ac75990f06116b18d80e6944cf4583ab53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:01 +0000
Subject: [PATCH 14/25] fix: keep logging when a rotation fails

A failed close, listing or rename left the writer with a closed file or none at
all: every later write failed the same way and all records were lost for ever,
and the time writer forgot the period of the file it had not rotated. The
writer now reports the error, reopens the current file, appends to it and tries
to rotate again with the next write.
---
 internal/output_rollingwriter.go | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/internal/output_rollingwriter.go b/internal/output_rollingwriter.go
index 947b8a7..a2c06d7 100644
--- a/internal/output_rollingwriter.go
+++ b/internal/output_rollingwriter.go
@@ -169,6 +169,9 @@ type rollerVirtual interface {
 	// rolled to.
 	getNewHistoryRollFileName(otherHistoryFiles []string) string
 
+	// rolled is called when the current log file has been renamed.
+	rolled()
+
 	getCurrentFileName() string
 }
 
@@ -456,10 +459,10 @@ func (rw *rollingFileWriter) getFileRollName(fileName string) string {
 func (rw *rollingFileWriter) roll() error {
 	// First, close current file.
 	err := rw.currentFile.Close()
+	rw.currentFile = nil
 	if err != nil {
 		return err
 	}
-	rw.currentFile = nil
 
 	// Current history of all previous log files.
 	// For file roller it may be like this:
@@ -494,6 +497,7 @@ func (rw *rollingFileWriter) roll() error {
 		return err
 	}
 	os.Chmod(dest, rw.backPerm)
+	rw.self.rolled()
 
 	// Finally, add the newly added history file to the history archive
 	// and, if after that the archive exceeds the allowed max limit, older rolls
@@ -523,7 +527,8 @@ func (rw *rollingFileWriter) Write(bytes []byte) (n int, err error) {
 
 	if rw.self.needsToRoll() {
 		if err := rw.roll(); err != nil {
-			return 0, err
+			// go on with the current file, the next write tries again
+			reportInternalError(err)
 		}
 	}
 
@@ -615,6 +620,9 @@ func (rws *rollingFileWriterSize) getNewHistoryRollFileName(otherLogFiles []stri
 	return fmt.Sprintf("%d", v+1)
 }
 
+func (rws *rollingFileWriterSize) rolled() {
+}
+
 func (rws *rollingFileWriterSize) getCurrentFileName() string {
 	return rws.fileName
 }
@@ -685,9 +693,11 @@ func (rwt *rollingFileWriterTime) sortFileRollNamesAsc(fs []string) ([]string, e
 }
 
 func (rwt *rollingFileWriterTime) getNewHistoryRollFileName(_ []string) string {
-	newFileName := rwt.currentTimeFileName
+	return rwt.currentTimeFileName
+}
+
+func (rwt *rollingFileWriterTime) rolled() {
 	rwt.currentTimeFileName = time.Now().Format(rwt.timePattern)
-	return newFileName
 }
 
 func (rwt *rollingFileWriterTime) getCurrentFileName() string {
-- 
2.43.0


From 9201403ce2663ceda4c52c56fb951c8743fd3c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:54 +0000
Subject: [PATCH 15/25] fix: archive backups before they are deleted

The archive path of a configured output is a directory, but the writer used it
as the path of one cumulative archive, so archiving always failed; the error
was ignored and the backups deleted all the same. Configured outputs now write
one archive per backup, and a backup is deleted only when its archive is
complete.
---
 internal/output_rolling.go       |  3 +++
 internal/output_rollingwriter.go | 21 ++++++++++++++++-----
 2 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/internal/output_rolling.go b/internal/output_rolling.go
index bc486e1..776048b 100644
--- a/internal/output_rolling.go
+++ b/internal/output_rolling.go
@@ -34,6 +34,9 @@ func NewRollingOutput(cfg api.CfgOutput) (o api.Output, err error) {
 		rw.archiveType = rollingArchiveGzip
 	}
 
+	// the archive path is the directory of the log file, one archive per backup
+	rw.archiveExploded = true
+
 	rw.maxRolls = getMaxRolls(cfg["backups"])
 	rw.dirPerm = getFileMode(cfg["dir_perm"], defaultDirectoryPermissions)
 	rw.filePerm = getFileMode(cfg["file_perm"], defaultFilePermissions)
diff --git a/internal/output_rollingwriter.go b/internal/output_rollingwriter.go
index a2c06d7..21d9765 100644
--- a/internal/output_rollingwriter.go
+++ b/internal/output_rollingwriter.go
@@ -420,25 +420,36 @@ func (rw *rollingFileWriter) deleteOldRolls(history []string) error {
 		return nil
 	}
 
+	var archived []string
 	if rw.archiveType != rollingArchiveNone {
 		if rw.archiveExploded {
 			os.MkdirAll(rw.archivePath, rw.dirPerm)
 
 			// Archive logs
 			for i := 0; i < rollsToDelete; i++ {
-				rw.archiveExplodedLogs(history[i], compressionTypes[rw.archiveType])
+				if err := rw.archiveExplodedLogs(history[i], compressionTypes[rw.archiveType]); err != nil {
+					// keep the file, the next rotation tries again
+					reportInternalError(err)
+					continue
+				}
+				archived = append(archived, history[i])
 			}
 		} else {
 			os.MkdirAll(filepath.Dir(rw.archivePath), rw.dirPerm)
-			rw.archiveUnexplodedLogs(compressionTypes[rw.archiveType], rollsToDelete, history)
+			if err := rw.archiveUnexplodedLogs(compressionTypes[rw.archiveType], rollsToDelete, history); err != nil {
+				return err
+			}
+			archived = history[:rollsToDelete]
 		}
+	} else {
+		archived = history[:rollsToDelete]
 	}
 
 	var err error
-	// In all cases (archive files or not) the files should be deleted.
-	for i := 0; i < rollsToDelete; i++ {
+	// Files which are in an archive, or need not be in one, should be deleted.
+	for i := range archived {
 		// Try best to delete files without breaking the loop.
-		if err = tryRemoveFile(filepath.Join(rw.currentDirPath, history[i])); err != nil {
+		if err = tryRemoveFile(filepath.Join(rw.currentDirPath, archived[i])); err != nil {
 			reportInternalError(err)
 		}
 	}
-- 
2.43.0


From 93a3088672c41848249034798b5dd0fbb146ce45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:02 +0000
Subject: [PATCH 16/25] fix: remove the temporary archive when it cannot be
 moved into place

---
 internal/output_rollingwriter.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/internal/output_rollingwriter.go b/internal/output_rollingwriter.go
index 21d9765..a11c7cb 100644
--- a/internal/output_rollingwriter.go
+++ b/internal/output_rollingwriter.go
@@ -322,8 +322,10 @@ func (rw *rollingFileWriter) archiveExplodedLogs(logFilename string, compression
 		}
 
 		// Finalize archive by swapping the buffered archive into place
-		err = os.Rename(dst.Name(), filepath.Join(rw.archivePath,
-			compressionType.rollingArchiveTypeName(logFilename, true)))
+		if err = os.Rename(dst.Name(), filepath.Join(rw.archivePath,
+			compressionType.rollingArchiveTypeName(logFilename, true))); err != nil {
+			os.Remove(dst.Name())
+		}
 	}()
 
 	// archive entry
@@ -361,7 +363,9 @@ func (rw *rollingFileWriter) archiveUnexplodedLogs(compressionType compressionTy
 		}
 
 		// Finalize archive by moving the buffered archive into place
-		err = os.Rename(dst.Name(), rw.archivePath)
+		if err = os.Rename(dst.Name(), rw.archivePath); err != nil {
+			os.Remove(dst.Name())
+		}
 	}()
 
 	w := compressionType.archiver(dst, false)
-- 
2.43.0


From 3c0e760f6d7614091f594c0c670fbcc68a1f41e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:57 +0000
Subject: [PATCH 17/25] fix: never roll over an existing backup or archive

When the wall clock was set back the time writer renamed the log file over the
backup of the repeated period, and with all backups removed the size writer
started again at 1 and replaced the archives of earlier files.
---
 internal/output_rollingwriter.go | 49 +++++++++++++++++++++++++++++---
 1 file changed, 45 insertions(+), 4 deletions(-)

diff --git a/internal/output_rollingwriter.go b/internal/output_rollingwriter.go
index a11c7cb..f344fbd 100644
--- a/internal/output_rollingwriter.go
+++ b/internal/output_rollingwriter.go
@@ -267,6 +267,24 @@ func (rw *rollingFileWriter) getSortedLogHistory() ([]string, error) {
 	return validSortedFiles, nil
 }
 
+// isTaken returns true if there is a file or an archive for a roll name.
+func (rw *rollingFileWriter) isTaken(rollname string) (bool, error) {
+	name := rw.createFullFileName(rw.fileName, rollname)
+	paths := []string{filepath.Join(rw.currentDirPath, name)}
+	if rw.archiveType != rollingArchiveNone && rw.archiveExploded {
+		ct := compressionTypes[rw.archiveType]
+		paths = append(paths, filepath.Join(rw.archivePath, ct.rollingArchiveTypeName(name, true)))
+	}
+	for _, p := range paths {
+		if _, err := os.Lstat(p); err == nil {
+			return true, nil
+		} else if !os.IsNotExist(err) {
+			return false, err
+		}
+	}
+	return false, nil
+}
+
 func (rw *rollingFileWriter) createFileAndFolderIfNeeded(first bool) (err error) {
 	if len(rw.currentDirPath) != 0 {
 		if err = os.MkdirAll(rw.currentDirPath, rw.dirPerm); err != nil {
@@ -503,8 +521,14 @@ func (rw *rollingFileWriter) roll() error {
 	//     * file.log.5
 	//     * file.log.6
 	//     n file.log.7  <---- RENAMED (from file.log)
-	newHistoryName := rw.createFullFileName(rw.fileName,
-		rw.self.getNewHistoryRollFileName(history))
+	rollName := rw.self.getNewHistoryRollFileName(history)
+	newHistoryName := rw.createFullFileName(rw.fileName, rollName)
+	// Never replace records which are stored already.
+	if taken, err := rw.isTaken(rollName); err != nil {
+		return err
+	} else if taken {
+		return newCannotOpenFileError(newHistoryName + " exists or is archived")
+	}
 
 	dest := filepath.Join(rw.currentDirPath, newHistoryName)
 	err = os.Rename(filepath.Join(rw.currentDirPath, rw.currentName), dest)
@@ -632,7 +656,14 @@ func (rws *rollingFileWriterSize) getNewHistoryRollFileName(otherLogFiles []stri
 		latest := otherLogFiles[len(otherLogFiles)-1]
 		v, _ = strconv.Atoi(rws.getFileRollName(latest))
 	}
-	return fmt.Sprintf("%d", v+1)
+	v++
+	for {
+		name := strconv.Itoa(v)
+		if taken, _ := rws.isTaken(name); !taken {
+			return name
+		}
+		v++
+	}
 }
 
 func (rws *rollingFileWriterSize) rolled() {
@@ -671,7 +702,17 @@ func (rwt *rollingFileWriterTime) needsToRoll() bool {
 		return false
 	}
 
-	return newName != rwt.currentTimeFileName
+	if newName == rwt.currentTimeFileName {
+		return false
+	}
+
+	if taken, _ := rwt.isTaken(rwt.currentTimeFileName); taken {
+		// The clock was set back and the period has been rolled before,
+		// keep the file as the one of the new period.
+		rwt.currentTimeFileName = newName
+		return false
+	}
+	return true
 }
 
 func (rwt *rollingFileWriterTime) isFileRollNameValid(rname string) bool {
-- 
2.43.0


From a8ac2e047346db9af874004c1430c16a127009b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:04 +0000
Subject: [PATCH 18/25] fix: label the file of an earlier process with its own
 period

After a restart the time writer took the period of its first write for the one
of the existing file, so the records of earlier periods ended up in a backup
with the wrong label.
---
 internal/output_rollingwriter.go | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/internal/output_rollingwriter.go b/internal/output_rollingwriter.go
index f344fbd..4e323ae 100644
--- a/internal/output_rollingwriter.go
+++ b/internal/output_rollingwriter.go
@@ -172,6 +172,9 @@ type rollerVirtual interface {
 	// rolled is called when the current log file has been renamed.
 	rolled()
 
+	// opened is called when the current log file has been opened.
+	opened(fi os.FileInfo)
+
 	getCurrentFileName() string
 }
 
@@ -309,6 +312,7 @@ func (rw *rollingFileWriter) createFileAndFolderIfNeeded(first bool) (err error)
 	}
 
 	rw.currentFileSize = stat.Size()
+	rw.self.opened(stat)
 	return nil
 }
 
@@ -669,6 +673,9 @@ func (rws *rollingFileWriterSize) getNewHistoryRollFileName(otherLogFiles []stri
 func (rws *rollingFileWriterSize) rolled() {
 }
 
+func (rws *rollingFileWriterSize) opened(_ os.FileInfo) {
+}
+
 func (rws *rollingFileWriterSize) getCurrentFileName() string {
 	return rws.fileName
 }
@@ -695,13 +702,6 @@ type rollingFileWriterTime struct {
 
 func (rwt *rollingFileWriterTime) needsToRoll() bool {
 	newName := time.Now().Format(rwt.timePattern)
-
-	if rwt.currentTimeFileName == "" {
-		// first run; capture the current name
-		rwt.currentTimeFileName = newName
-		return false
-	}
-
 	if newName == rwt.currentTimeFileName {
 		return false
 	}
@@ -753,7 +753,16 @@ func (rwt *rollingFileWriterTime) getNewHistoryRollFileName(_ []string) string {
 }
 
 func (rwt *rollingFileWriterTime) rolled() {
-	rwt.currentTimeFileName = time.Now().Format(rwt.timePattern)
+	rwt.currentTimeFileName = ""
+}
+
+func (rwt *rollingFileWriterTime) opened(fi os.FileInfo) {
+	if fi.Size() == 0 {
+		rwt.currentTimeFileName = time.Now().Format(rwt.timePattern)
+	} else if rwt.currentTimeFileName == "" {
+		// the file of an earlier process, it belongs to the period of its last record
+		rwt.currentTimeFileName = fi.ModTime().Format(rwt.timePattern)
+	}
 }
 
 func (rwt *rollingFileWriterTime) getCurrentFileName() string {
-- 
2.43.0


From 989d20c1cdbbdf47bb5af1ad10a35af1b41fce3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:35 +0000
Subject: [PATCH 19/25] fix: do not take files like log.007 or log.-1 for
 backups

Atoi accepts them, but the file name made from the number is another one, or
one the writer never gives, and retention removed files it had not created.
---
 internal/output_rollingwriter.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/internal/output_rollingwriter.go b/internal/output_rollingwriter.go
index 4e323ae..3b90b81 100644
--- a/internal/output_rollingwriter.go
+++ b/internal/output_rollingwriter.go
@@ -628,8 +628,9 @@ func (rws *rollingFileWriterSize) isFileRollNameValid(rname string) bool {
 	if len(rname) == 0 {
 		return false
 	}
-	_, err := strconv.Atoi(rname)
-	return err == nil
+	// only the names this writer gives: no sign, no leading zeros
+	v, err := strconv.Atoi(rname)
+	return err == nil && v > 0 && strconv.Itoa(v) == rname
 }
 
 type rollSizeFileTailsSlice []string
-- 
2.43.0


From 34146eaa4289b667df86ef33eda4d473dbfe90af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:51 +0000
Subject: [PATCH 20/25] fix: keep loggers working when the syslog daemon is
 down at start

---
 internal/output_syslog.go | 51 +++++++++++++++++++++++++++++----------
 1 file changed, 38 insertions(+), 13 deletions(-)

diff --git a/internal/output_syslog.go b/internal/output_syslog.go
index 47689a5..6121ee3 100644
--- a/internal/output_syslog.go
+++ b/internal/output_syslog.go
@@ -2,6 +2,7 @@ package internal
 
 import (
 	"log/syslog"
+	"sync"
 
 	"github.com/xtfly/log4g/api"
 )
@@ -11,9 +12,26 @@ const (
 )
 
 type syslogOutput struct {
-	w *syslog.Writer
-	f api.Formatter
-	t api.Level //threshold
+	w    *syslog.Writer // nil until the daemon was reached
+	lock sync.Mutex     // guards w
+	f    api.Formatter
+	t    api.Level //threshold
+	p    string    // prefix
+}
+
+// writer returns the syslog writer, it connects when the daemon was not
+// reachable before
+func (o *syslogOutput) writer() (*syslog.Writer, error) {
+	o.lock.Lock()
+	defer o.lock.Unlock()
+	if o.w == nil {
+		w, err := syslog.New(syslog.LOG_CRIT, o.p)
+		if err != nil {
+			return nil, err
+		}
+		o.w = w
+	}
+	return o.w, nil
 }
 
 func (o *syslogOutput) Send(e *api.Event) {
@@ -28,17 +46,22 @@ func (o *syslogOutput) Send(e *api.Event) {
 		m = e.Message()
 	}
 
+	w, err := o.writer()
+	if err != nil {
+		return
+	}
+
 	switch e.Level {
 	case api.Trace, api.Debug:
-		o.w.Debug(m)
+		w.Debug(m)
 	case api.Info:
-		o.w.Info(m)
+		w.Info(m)
 	case api.Warn:
-		o.w.Warning(m)
+		w.Warning(m)
 	case api.Error:
-		o.w.Err(m)
+		w.Err(m)
 	case api.Critical:
-		o.w.Crit(m)
+		w.Crit(m)
 	}
 }
 
@@ -57,6 +80,8 @@ func (o *syslogOutput) CallerInfoFlag() int {
 
 // Close the syslog writer related to this output
 func (o *syslogOutput) Close() {
+	o.lock.Lock()
+	defer o.lock.Unlock()
 	if o.w != nil {
 		o.w.Close()
 	}
@@ -64,13 +89,13 @@ func (o *syslogOutput) Close() {
 
 // NewSyslogOutput return a output instance that output message to syslog
 func NewSyslogOutput(cfg api.CfgOutput) (api.Output, error) {
-	w, err := syslog.New(syslog.LOG_CRIT, cfg["prefix"])
-	if err != nil {
-		return nil, err
-	}
 	r := &syslogOutput{
-		w: w,
 		t: GetThresholdLvl(cfg["threshold"]),
+		p: cfg["prefix"],
+	}
+	if _, err := r.writer(); err != nil {
+		// the loggers keep their other outputs, the next record tries again
+		reportInternalError(err)
 	}
 	return r, nil
 }
-- 
2.43.0


From 50adcaf08a739f0fb821bc9fa0b9161f614a1e1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:19 +0000
Subject: [PATCH 21/25] fix: do not nest a cumulative tar archive when reading
 it fails once

---
 internal/output_rollingwriter.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/internal/output_rollingwriter.go b/internal/output_rollingwriter.go
index 3b90b81..98da1fc 100644
--- a/internal/output_rollingwriter.go
+++ b/internal/output_rollingwriter.go
@@ -27,6 +27,7 @@
 package internal
 
 import (
+	stdtar "archive/tar"
 	"fmt"
 	"io"
 	"io/ioutil"
@@ -130,12 +131,20 @@ var compressionTypes = map[rollingArchiveType]compressionType{
 			tr := tar.NewReader(gr)
 			_, err = tr.Next()
 			isTar := err == nil
+			switch err {
+			case nil, stdtar.ErrHeader, io.EOF, io.ErrUnexpectedEOF:
+			default:
+				// the file cannot be read, whatever it is
+				return nil, err
+			}
 
 			// Reset to beginning of file
 			if _, err := f.Seek(0, io.SeekStart); err != nil {
 				return nil, err
 			}
-			gr.Reset(f)
+			if err := gr.Reset(f); err != nil {
+				return nil, err
+			}
 
 			if isTar {
 				return archive.NopCloser(tar.NewReader(gr)), nil
-- 
2.43.0


From 58e967026293cfd64df3aa317fc58961547e81da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:38 +0000
Subject: [PATCH 22/25] fix: do not take files with labels the log never writes
 for backups

---
 internal/output_rollingwriter.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/internal/output_rollingwriter.go b/internal/output_rollingwriter.go
index 98da1fc..c2124e6 100644
--- a/internal/output_rollingwriter.go
+++ b/internal/output_rollingwriter.go
@@ -729,8 +729,18 @@ func (rwt *rollingFileWriterTime) isFileRollNameValid(rname string) bool {
 	if len(rname) == 0 {
 		return false
 	}
-	_, err := time.ParseInLocation(rwt.timePattern, rname, time.Local)
-	return err == nil
+	t, err := time.Parse(rwt.timePattern, rname)
+	if err != nil {
+		return false
+	}
+	// Parse accepts more than Format writes (fractions of a second, months in
+	// other letters). A pattern may have a weekday and no year to tell it.
+	for y := 0; y < 28; y++ {
+		if t.AddDate(y, 0, 0).Format(rwt.timePattern) == rname {
+			return true
+		}
+	}
+	return false
 }
 
 type rollTimeFileTailsSlice struct {
-- 
2.43.0


From aa76196606dd658097f8594b705fe1e9bcc1a24f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:56:32 +0000
Subject: [PATCH 23/25] fix: writers of one log file take turns

A rolling output which is redefined by a configuration loaded at run time, or
which has its file in common with another output, rolled the file while the
other writer still had it open: records went to backups already closed (or
removed), the size limit was exceeded and each reload leaked a descriptor.
---
 internal/output_rollingwriter.go | 41 +++++++++++++++++++++++++++++++-
 1 file changed, 40 insertions(+), 1 deletion(-)

diff --git a/internal/output_rollingwriter.go b/internal/output_rollingwriter.go
index c2124e6..4fc1f28 100644
--- a/internal/output_rollingwriter.go
+++ b/internal/output_rollingwriter.go
@@ -209,7 +209,44 @@ type rollingFileWriter struct {
 	dirPerm         os.FileMode
 	filePerm        os.FileMode
 	backPerm        os.FileMode
-	rollLock        sync.Mutex
+	rollLock        *rollingFileLock
+}
+
+// rollingFileLock is shared by the writers of one log file: an output which is
+// redefined and the ones it was before, they may still have records to write.
+type rollingFileLock struct {
+	sync.Mutex
+	owner *rollingFileWriter // wrote last, only it may have the file open
+}
+
+var (
+	rollingFileLocksLock sync.Mutex
+	rollingFileLocks     = make(map[string]*rollingFileLock)
+)
+
+func getRollingFileLock(fpath string) *rollingFileLock {
+	rollingFileLocksLock.Lock()
+	defer rollingFileLocksLock.Unlock()
+	fpath = filepath.Clean(fpath)
+	l, ok := rollingFileLocks[fpath]
+	if !ok {
+		l = &rollingFileLock{}
+		rollingFileLocks[fpath] = l
+	}
+	return l
+}
+
+// takeOver makes the writer the owner of the log file.
+func (rw *rollingFileWriter) takeOver() {
+	if other := rw.rollLock.owner; other != nil && other != rw {
+		// both may roll the file, so none keeps it open while the other writes
+		if err := other.Close(); err != nil {
+			reportInternalError(err)
+		}
+		other.currentFile = nil
+		other.self.rolled()
+	}
+	rw.rollLock.owner = rw
 }
 
 func newRollingFileWriter(fpath string, apath string) *rollingFileWriter {
@@ -223,6 +260,7 @@ func newRollingFileWriter(fpath string, apath string) *rollingFileWriter {
 		apath = rw.currentDirPath
 	}
 	rw.archivePath = apath
+	rw.rollLock = getRollingFileLock(fpath)
 	println(rw.archivePath)
 
 	rw.dirPerm = defaultDirectoryPermissions
@@ -568,6 +606,7 @@ func (rw *rollingFileWriter) roll() error {
 func (rw *rollingFileWriter) Write(bytes []byte) (n int, err error) {
 	rw.rollLock.Lock()
 	defer rw.rollLock.Unlock()
+	rw.takeOver()
 
 	// open first, the size of an existing file counts
 	if rw.currentFile == nil {
-- 
2.43.0


From efc30faa282c73b8d72a00bfde7cdb89a2836916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:56:33 +0000
Subject: [PATCH 24/25] fix: an idle asynchronous output does not roll

The periodic flush of nothing rotated a file without records at each period
and the retention limit removed backups with records for it.
---
 internal/output_rollingwriter.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/output_rollingwriter.go b/internal/output_rollingwriter.go
index 4fc1f28..61068ab 100644
--- a/internal/output_rollingwriter.go
+++ b/internal/output_rollingwriter.go
@@ -604,6 +604,11 @@ func (rw *rollingFileWriter) roll() error {
 }
 
 func (rw *rollingFileWriter) Write(bytes []byte) (n int, err error) {
+	// an idle asynchronous output flushes nothing, do not roll for that
+	if len(bytes) == 0 {
+		return 0, nil
+	}
+
 	rw.rollLock.Lock()
 	defer rw.rollLock.Unlock()
 	rw.takeOver()
-- 
2.43.0


From c36e88ad703e3c2fb3ba5da4d0de5a14850c868e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:37:55 +0000
Subject: [PATCH 25/25] fix: do not roll a file without records at the end of
 its period

---
 internal/output_rollingwriter.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/output_rollingwriter.go b/internal/output_rollingwriter.go
index 61068ab..28a1cfe 100644
--- a/internal/output_rollingwriter.go
+++ b/internal/output_rollingwriter.go
@@ -760,6 +760,12 @@ func (rwt *rollingFileWriterTime) needsToRoll() bool {
 		return false
 	}
 
+	if rwt.currentFileSize == 0 {
+		// nothing to roll, the file is for the records to come
+		rwt.currentTimeFileName = newName
+		return false
+	}
+
 	if taken, _ := rwt.isTaken(rwt.currentTimeFileName); taken {
 		// The clock was set back and the period has been rolled before,
 		// keep the file as the one of the new period.
-- 
2.43.0

