#!/usr/bin/env python3
# Source of /verif/properties.jsonl (kept as a script so that the text stays readable).
import json, sys, os
P=[]
def p(id,title,statement,over,q,why,files,mech,state=None,observe=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=q),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
        state=[dict(name=n,meaning=m,where=w) for n,m,w in (state or [])],observe_at=observe or [],hook_needed=hook)))
OB="internal/output_base.go"; RW="internal/output_rollingwriter.go"; LG="internal/logger.go"; FA="internal/logger_factory.go"; MG="internal/logger_manager.go"; RO="internal/output_rolling.go"; CI="internal/logger_callerinfo.go"; FP="internal/format_parser.go"; AR="internal/archive/archive.go"

p("C01","Concurrent synchronous logging is exactly-once, whole and ordered",
 "When any number of goroutines log through loggers that share synchronous outputs (console, memory, rolling file), every admitted record is in the target exactly once by the time its logging call returns. Its bytes are contiguous and unmodified, and the records of one goroutine appear in the order it logged them.",
 ["schedules","programs"],"every number of goroutines and loggers, every interleaving of their logging calls, every mix of outputs",
 "Tests log from one goroutine only; the interleavings of several writers inside one output are never exercised.",
 [OB,RW,"internal/output_console.go","internal/output_memory.go",LG],
 [("one write call per record","%s baseOutput.Send"%OB),("roll lock around roll+write","%s rollingFileWriter.Write"%RW)],
 [("currentFile/currentFileSize","open log file and its size","%s rollingFileWriter"%RW)],["bytes of the simulated console and log files"])
p("C02","Closing delivers every record an asynchronous output accepted",
 "For every asynchronous output, a record whose logging call returned before closing began has been written to its target, exactly once and in the order each goroutine logged it, by the time the close call returns. This holds however soon after creation the close happens, and whatever the queue size and batch size are.",
 ["schedules","programs","configurations"],"all schedules of producers, background writer and closer, all queue/batch sizes, close at any instant including immediately after creation",
 "The one async test sends two events and sleeps six seconds; it never closes while records are queued and never runs the background writer late.",
 [OB,MG],[("background loop drains queue before quitting","%s asyncOutput.loop"%OB),("Close waits for the loop","%s asyncOutput.Close"%OB),("manager closes all outputs","%s defManager.Close"%MG)],
 [("evtChan, buf","queued and batched records","%s asyncOutput"%OB)],["target bytes at the moment the close call returns"])
p("C03","Shutdown is safe under concurrency",
 "Closing the manager, repeatedly and from several goroutines, while other goroutines are logging, never panics, never deadlocks and never leaves a logging call blocked. A record logged concurrently with or after the close is either delivered once and whole or dropped, never duplicated or torn.",
 ["schedules","programs"],"every interleaving of logging calls with one or more close calls",
 "No test closes an output while another goroutine logs; the window between the closed check and the queue operation is a schedule, not an input.",
 [OB,MG],[("closed flag","%s asyncOutput.Send/Close"%OB)],[("closed","output no longer accepts records","%s asyncOutput"%OB)],["task outcome (panic, blocked), target bytes"])
p("C04","Asynchronous records reach the target in bounded time",
 "A record accepted by an asynchronous output whose target is accepting writes is in the target within ten seconds, even if nothing else is ever logged and nobody closes the output. A full batch is delivered without waiting for that interval.",
 ["schedules","histories","configurations"],"every arrival pattern of records relative to the flush timer, all batch sizes, stalls of the target",
 "The test samples a single arrival pattern with batch size one; the timer flush with a partly filled batch is never reached.",
 [OB],[("periodic flush","%s asyncOutput.loop"%OB),("batch counter","%s asyncOutput.loop"%OB)],[("currNum, buf","records batched but not yet written","%s asyncOutput"%OB)],["simulated time of arrival at the target"])
p("C05","Asynchronous queues are bounded and lossless",
 "While the target of an asynchronous output is stalled, at most queue size plus batch size records are accepted and further logging calls wait; while fewer than queue size records are outstanding a logging call never waits for the target. When the target resumes, waiting calls complete and no record is lost, duplicated or reordered within its goroutine.",
 ["schedules","fault_sequences","configurations"],"all stall instants and lengths, producer counts, queue and batch sizes",
 "No test stalls a target or fills a queue.",
 [OB],[("bounded queue","%s NewAsyncOutput"%OB)],[("evtChan","bounded queue","%s asyncOutput"%OB)],["number of completed logging calls while the simulated target is stalled"])
p("C06","Asynchronous outputs print what a synchronous output prints",
 "A record sent to a synchronous and an asynchronous output with the same format produces identical bytes in both, including time, fields and call site. The content is fixed when the logging call returns: later changes by the caller to the objects it passed do not show.",
 ["schedules","programs"],"every delay between the logging call and background formatting, every mutation of arguments in between",
 "Tests never compare the two kinds of output and never mutate an argument after the call.",
 [OB,LG,CI],[("event captured at the call","%s defWriter.write"%LG),("caller info captured at the call","%s getCallerInfo"%CI)],[("Event","record in flight","api/logger_api.go Event")],["bytes of paired outputs"])
p("C07","Every record reaches each admitting output once, independently",
 "A record enabled for its logger is delivered exactly once to each of the logger's outputs whose threshold admits its level, and to no other. An output whose target is failing or slow never causes loss, duplication or corruption in the other outputs.",
 ["schedules","fault_sequences","configurations"],"all output sets, thresholds, levels and interleavings, with any subset of the targets failing or stalling",
 "Tests attach one healthy output to a logger and log one record at a time.",
 [LG,OB,"internal/output_console.go",RO],[("dispatch loop","%s defWriter.write"%LG),("threshold check","%s Send/loop"%OB)],None,["bytes of each output"])
p("C08","Logger inheritance does not depend on creation order",
 "The level and outputs that take effect for a logger are those of its nearest ancestor (or itself) for which they are configured, whatever order loggers are obtained in, from whichever goroutines, before or after configuration is loaded. Asking for the same name always yields the same logger.",
 ["histories","schedules","configurations"],"every order and interleaving of obtaining loggers and loading configuration, every name hierarchy",
 "The parent test obtains the parent before the child; the reverse order and concurrent creation are not tried.",
 [FA,LG],[("parent creation","%s getParent/createLogger"%FA),("level inheritance","%s defLogger.Level"%LG),("output inheritance","%s defWriter.write"%LG)],[("loggers","name to logger map","%s factory"%FA)],["which outputs receive a record; level queries"])
p("C09","Reconfiguration takes effect on every logger",
 "Once a configuration has been accepted, every logger, whether obtained before or afterwards, uses the levels and the named outputs that configuration gives it, exactly as if the process had started with it; a logger it no longer mentions inherits again. Concurrent reconfigurations end in the state of the last one accepted.",
 ["histories","schedules","configurations"],"every sequence and interleaving of configurations, logger creation and logging",
 "Tests load one configuration per manager before obtaining loggers.",
 [MG,FA],[("notification of the factory","%s setConfig"%MG),("re-resolution of loggers","%s notify"%FA)],[("config, outputs, formats","current configuration and instances","%s defManager"%MG)],["which outputs receive probe records after the call returns"])
p("C10","Reconfiguration is atomic and lossless for concurrent records",
 "A record logged while the configuration is being replaced is handled by its logger entirely under the old or entirely under the new configuration (level, outputs, call-site capture). It is never lost or duplicated when both admit it, and logging during reconfiguration never panics or blocks forever.",
 ["schedules","histories"],"all interleavings of logging calls with configuration replacement",
 "No test logs while reconfiguring.",
 [LG,FA,MG],[("logger state update","%s SetLevel/SetOutputs, %s notify"%(LG,FA))],[("level, outputs, callerInfoFlag","state read by logging calls","%s defLogger"%LG)],["per-record delivery sets compared with the admissible configurations"])
p("C11","A rejected configuration changes nothing and is reported",
 "Loading a configuration that cannot be read, is truncated or malformed, has an unsupported file type, or has dangling or duplicate names returns an error and does not panic. Levels, outputs and logger behaviour stay exactly as they were.",
 ["inputs","fault_sequences","histories"],"every read fault, truncation point and corruption of the configuration source, at every point of a history of valid loads and logging",
 "Tests load one valid file; no failing load is followed by an observation of the running state.",
 [MG,"api/logger_mange.go"],[("validation before swap","%s validateConfig/setConfig"%MG),("parsing","%s LoadConfig/LoadConfigFile"%MG)],[("config","current configuration","%s defManager"%MG)],["returned error; probe records before and after"])
p("C12","Runtime level and output changes are linearizable",
 "A level or output list set on a logger at run time applies to every logging call and level query that starts after the call returned, on that logger and on every descendant inheriting it. Calls concurrent with the change see the old or the new value, never anything else, and a level query agrees with what logging does.",
 ["schedules","histories"],"all interleavings of setters, level queries and logging calls in a logger tree",
 "Tests set outputs before logging, in a single goroutine.",
 [LG],[("level walk","%s Level/LevelEnabled"%LG)],[("level, outputs","per-logger settings","%s defLogger"%LG)],["history of set/query/log operations checked against a register model"])
p("C13","Rotation never loses, duplicates or reorders records",
 "With no faults, at every instant the rolled files, archives and the current file together contain every record accepted so far exactly once, except records in backups retired by the retention limit without archiving. Read from the oldest backup to the current file they preserve the order in which records were written.",
 ["schedules","histories","configurations"],"all record sizes, limits, naming modes, sync and async writers, concurrent writers, process restarts and pre-existing directory contents",
 "The rolling test checks only which file names exist after two writes, never their contents.",
 [RW,"internal/output_fsutil.go",RO],[("roll and rename","%s roll"%RW),("history ordering","%s getSortedLogHistory"%RW)],[("history","sorted backups","%s"%RW)],["contents of the simulated log directory"])
p("C14","Retention is bounded, oldest-first and touches only its own backups",
 "After every rotation at most the configured number of backups is kept, those removed are the oldest ones, and no backup is removed earlier than that limit requires, and a file without records is not rotated. Files and directories in the log directory that are not backups of this log are never modified, renamed or removed.",
 ["histories","configurations"],"all pre-existing directory contents and enumeration orders, limits, naming modes and rotation histories",
 "Tests cover a few single-rotation directory listings in one enumeration order.",
 [RW,"internal/output_fsutil.go",RO],[("deleteOldRolls","%s"%RW),("name filter and sort","%s hasRollName/isFileRollNameValid/sort"%RW)],None,["directory listing after each rotation"])
p("C15","Size rotation happens exactly at the configured limit",
 "A log file that has reached the configured size, given in plain bytes or with K, M or G, never receives another record (or batch of an asynchronous output), and a file below it is never rotated. This holds across process restarts, however few records each process writes.",
 ["histories","configurations"],"all sequences of record sizes and process lifetimes, all limits",
 "Tests use one size and a fresh process per case; size suffixes and reopening a full file are not tried.",
 [RW,RO],[("needsToRoll by size","%s rollingFileWriterSize"%RW),("size parsing","%s getMaxSize"%RO),("size refreshed on open","%s createFileAndFolderIfNeeded"%RW)],[("currentFileSize","bytes in the current file","%s"%RW)],["file size before each write in the simulated file system"])
p("C16","Time-rotated backups contain only their own period",
 "With a clock that does not step backwards, a backup labelled with a period contains only records written during that period, and the current file only records of the period of the last write; a record in progress at a boundary may count for either side. This holds at period boundaries, across daylight-saving changes (for labels they do not repeat), idle gaps and process restarts.",
 ["histories","schedules","configurations"],"all instants of logging calls relative to period boundaries, patterns, time zones, restarts",
 "Time rotation has no test at all.",
 [RW],[("needsToRoll by time","%s rollingFileWriterTime"%RW),("backup label","%s getNewHistoryRollFileName"%RW)],[("currentTimeFileName","label of the period of the current file","%s"%RW)],["label and contents of backups against the simulated clock"])
p("C17","Clock steps never destroy stored records",
 "Whatever forward or backward steps the wall clock takes, including repeated periods and restarts, time rotation never overwrites or drops a stored record: every accepted record stays in a backup, an archive or the current file until the retention limit retires its backup as the oldest by label or by rotation.",
 ["fault_sequences","histories"],"all sequences of clock steps, logging calls and restarts",
 "Tests never move the clock.",
 [RW],[("rename of the current file","%s roll"%RW)],None,["contents of the simulated log directory"])
p("C18","Stored records survive a process crash at any instant",
 "If the process dies at any point, including inside a rotation, an archive step or a backup removal, every record whose synchronous logging call had returned is still stored, once (a backup and its own archive count as one), except those retired by retention. A new process on the same directory starts, continues appending, rotating and applying retention, and never mistakes leftovers for backups.",
 ["crash_points","histories"],"every crash point between or inside storage operations, followed by any further history including more crashes",
 "No test stops a writer in the middle of a rotation or opens a directory left by one.",
 [RW,RO],[("append-only current file","%s createFileAndFolderIfNeeded"%RW),("rename then delete order","%s roll/deleteOldRolls"%RW),("temp file + rename for archives","%s archiveExplodedLogs"%RW)],None,["durable contents after the crash and after the next lifetime"])
p("C19","Storage faults are contained and logging recovers",
 "A storage error (failed open, write, short write, full disk, rename, remove, listing, close, chmod or mkdir, or backups removed from outside) never panics, hangs, or damages records already stored; it can only lose or truncate records being written while it lasts. Once faults stop, every later record is stored and rotation and retention work again.",
 ["fault_sequences","schedules"],"every sequence, position and duration of storage faults during logging and rotation",
 "Tests run on a healthy file system.",
 [RW,OB],[("error returns of roll/open/write","%s Write"%RW)],[("currentFile","nil while no file is open","%s"%RW)],["stored records before, during and after the fault window"])
p("C20","A backup is removed only after its archive is complete",
 "With archiving configured, every backup retired by the retention limit is preserved in a complete, readable archive holding exactly its bytes before the backup itself disappears. If archiving fails or the process dies part-way, the backup or a complete archive is still there, and archiving is completed by a later rotation.",
 ["fault_sequences","crash_points","configurations"],"every fault and crash point while archiving, both archive types and naming modes",
 "Tests check that an archive file name appears; its contents, failures and crashes are not tested, nor the configured path at all.",
 [RW,RO,"internal/archive/gzip/gzip.go","internal/archive/zip/zip.go"],[("archive then delete","%s deleteOldRolls"%RW),("temp file + rename","%s archiveExplodedLogs"%RW)],None,["decompressed archives and remaining backups at every storage operation"])
p("C21","A cumulative archive keeps every earlier entry intact",
 "Adding rolled files to an existing multi-entry archive keeps all earlier entries with their names and bytes and adds the new ones; copying between archives preserves every entry. If it fails or crashes at any point, the previous archive is still complete and nothing it did not capture is removed.",
 ["fault_sequences","crash_points","histories"],"every sequence of additions, every fault and crash point during an addition, tar-gzip and zip",
 "Tests copy archives in memory with no faults and never append to one.",
 [RW,AR,"internal/archive/tar/tar.go","internal/archive/zip/zip.go","internal/archive/gzip/gzip.go"],[("copy old archive, append, swap","%s archiveUnexplodedLogs"%RW),("archive.Copy","%s"%AR)],None,["entries of the archive after every addition"])
p("C22","Syslog records arrive once with the right severity, across outages",
 "Each record admitted by a syslog output arrives at the syslog daemon once, whole, with the severity matching its level. An outage or restart of the daemon never panics or blocks the application for good, and records logged after it is back arrive.",
 ["schedules","fault_sequences"],"all interleavings of concurrent logging with connection breaks and daemon restarts",
 "No syslog daemon exists in the test environment; the syslog test fails.",
 ["internal/output_syslog.go"],[("severity mapping","internal/output_syslog.go Send"),("connection handling","log/syslog")],None,["datagrams received by the simulated daemon"])
p("C23","Termination signals flush asynchronous outputs",
 "When the process receives an interrupt or termination signal at any moment, every record accepted by an asynchronous output before the signal is written to its target within two seconds (if the target accepts writes), without the application closing anything, and logging calls running at the time neither panic nor hang.",
 ["schedules"],"every instant of signal delivery relative to logging, flushing and closing",
 "No test delivers a signal.",
 ["internal/log4g.go",MG],[("signal handler closes the manager","internal/log4g.go init")],None,["target bytes after simulated signal delivery"])
p("C24","Log, backup and directory permissions are never wider than configured",
 "Log files, backups and directories created by a rolling output carry the configured permissions (subject to the umask), and a backup has the backup permissions once its rotation has finished. At no instant of any history does a log file have wider permissions than those for log files, or a backup wider ones than those two combined.",
 ["histories","configurations","crash_points"],"all configured modes, rotations, restarts and instants in between",
 "Tests never look at a file mode.",
 [RW,RO],[("open with file_perm, chmod to back_perm, mkdir with dir_perm","%s"%RW),("mode parsing","%s getFileMode"%RO)],None,["modes in the simulated file system after every operation"])
p("C25","A record carries its own name, fields, time and call site",
 "Every printed record shows the name of the logger it was logged on, its own level, message and fields, a time between the start and the end of its call, and the call site of its own logging call. This holds for every logging method, with or without fields, when outputs are inherited over several levels, and under any concurrency; nothing leaks from another record.",
 ["schedules","programs"],"all interleavings of records with different contexts over shared loggers, formatters and outputs; all logging methods and inheritance depths",
 "Tests check single records logged one at a time on a logger that owns its output.",
 [LG,CI,FP,"internal/format_text.go"],[("context attached per writer","%s WithFields/WithCtx"%LG),("caller depth","%s write, %s"%(LG,CI))],None,["parsed records compared with what each task logged"])
p("C26","Logging does not leak descriptors or temporary files",
 "However often logs are rotated, archived, restarted or hit by storage errors, a rolling output holds at most one open log file between calls, and no temporary file of a finished or failed archive step is left behind unless the process died inside it; a syslog output holds at most one connection to the daemon.",
 ["histories","fault_sequences"],"all rotation and archive histories and storage fault sequences",
 "Tests do not count descriptors or look for temporary files after failures.",
 [RW,AR,"internal/output_syslog.go"],[("one connection per output","internal/output_syslog.go writer"),("deferred close/remove","%s archiveExplodedLogs/archiveUnexplodedLogs, %s copyBuffer"%(RW,AR))],None,["open descriptor table and directory tree of the simulated file system","connections of the simulated syslog daemon"])
p("C27","Layout verbs render as documented",
 "For every layout, a formatted record equals the layout with each documented verb replaced by the corresponding value of the record, formatted with the given format string.",
 ["inputs"],"every layout string and record","Tests sample a handful of layouts.",
 [FP,"internal/format_text.go"],[("layout parser","%s Parser"%FP)])
p("C28","Level names and order",
 "Level names parse case-insensitively to the level they denote, unknown names to no level, names print back as the same level, and levels are totally ordered All<Trace<Debug<Info<Warn<Error<Critical<Off.",
 ["inputs"],"every level and string","The test samples four names.",
 ["api/logger_level.go"],[("name tables","api/logger_level.go")])
p("C29","Any operation may run at the same time as any other",
 "Obtaining loggers, logging, querying and changing levels and outputs, asking the manager for a logger's outputs, registering creators, loading a configuration and closing may be called from any goroutines at the same time. However the calls overlap none of them panics, ends the process or blocks forever, an output whose definition never changes exists only once, records of loggers that are not reconfigured are delivered once, and everything works afterwards.",
 ["schedules"],"all interleavings of all operations of the public interface",
 "Tests call one operation at a time from one goroutine.",
 [MG,"internal/logger_factory.go",LG,"log4g.go"],[("locks of manager, factory and logger state","%s, internal/logger_factory.go, %s"%(MG,LG))],None,["returned loggers and outputs, creator calls, target bytes, calls that do not return"])
p("C30","User code called while logging may itself use the library",
 "A logged value whose String, Error or Format method, or a registered output, formatter or output creator which, while the library calls it, logs, obtains loggers, changes levels or (values only) loads the configuration works like any other: the calls return, and the record and those logged meanwhile are delivered once and whole, also while other goroutines log, reconfigure or close. A value whose method panics affects only the text of its own record.",
 ["schedules","programs"],"all such callbacks for every kind of output, under all interleavings with other goroutines",
 "No test logs such a value.",
 [LG,"internal/output_base.go","internal/format_text.go",MG,"internal/output_syslog.go"],[("no lock is held while user code runs on behalf of a record","%s write, internal/output_base.go Send, internal/output_syslog.go Send"%LG)],None,["target bytes, calls that do not return"])
p("C31","A log file keeps its guarantees when its output is redefined in use",
 "While a rolling output is redefined for the same file by a configuration loaded at run time, or several outputs have the same file, every record logged is stored once and whole in the file, its backups or archives, goes to the file that is the current one at that time, the size limit holds, and between calls at most one file is open for that log.",
 ["histories","schedules","configurations"],"all interleavings of logging, rotation and redefinition, synchronous and asynchronous, all limits and naming modes",
 "No test reloads the definition of a rolling output that has rotated.",
 [RW,MG,RO],[("only one writer has a log file open","%s rollingFileWriter.Write, newRollingFileWriter"%RW),("redefined outputs retire","%s"%MG)],[("currentFile","the open file, of at most one writer per log","%s"%RW)],["file, backups and archives of the simulated file system","descriptor a record is written to","open files between calls"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x,ensure_ascii=False)+"\n")
