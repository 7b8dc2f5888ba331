#!/usr/bin/env python3
"""Generates properties.jsonl and MANIFEST.json from the table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def p(id, title, st, over, q, why, files, mech, observe, level, tech, note, state=()):
    P.append(dict(id=id, title=title, st=st, over=over, q=q, why=why, files=files, mech=mech, observe=observe, level=level, tech=tech, note=note, state=state))

FD = "database/files/"
MC, FE = "model_checking", "fault_enumeration"

p("S01", "Range queries return exactly the retained older records, newest first",
  "For every metric, a query with an end time calls back with exactly the accepted and still retained records whose end is strictly before it, each with the start, end and data it was written with, in strictly decreasing end order, until the callback stops it or fails or the context of the query is cancelled, which ends it with an error; the latest-value query returns the newest retained record, or zeros when there is none. This holds for every history of writes, with values of any number of disk records, across file rollovers and across restarts.",
  ["histories", "inputs", "configurations"], "all write histories (ends, value sizes), all query ends, all file geometries, any number of restarts",
  "The tests write a handful of one-record values into one geometry and never cross several files with the boundary ends or restart in between.",
  [FD+"metric.go", FD+"db_read.go", FD+"file.go", FD+"record.go", FD+"file_ops.go"],
  [("per file metadata decides if a file may hold older records", FD+"metric.go Read"), ("values are split over fixed size records and reassembled", FD+"record.go iterateRecords"), ("head pointer recovery from a hint", FD+"file_ops.go getHeadPointer")],
  ["DB.Query callbacks", "DB.QueryLatest"], MC, "exhaustive enumeration of write/query/restart histories on the real database against a list model",
  "Every history over a small alphabet of ends, sizes and restarts up to a depth, several geometries; single writer per metric. Trusts the reference list model and tmpfs.",
  [("first,last", "range of existing data files", FD+"metric.go"), ("Metadata", "head, start, smallest end per file", FD+"internal/meta")])
p("S02", "Writes are accepted exactly when newer and fitting; rejects change nothing",
  "A queued write is acknowledged as written exactly when its end is strictly after the end of the newest stored record of that metric and its value fits into one file; in every other case it is reported as not written, and no later query can tell that it was attempted.",
  ["histories", "inputs", "configurations"], "all histories of writes with increasing, equal and decreasing ends (also zero and negative) and with values from empty to larger than a file",
  "Tests check a single stale write and a single oversized write on a fresh file; the outcome depends on how full the last of several files is.",
  [FD+"metric.go", FD+"db_write.go", FD+"record.go"],
  [("monotonicity check against the newest record", FD+"metric.go Write"), ("capacity checks before and after rolling to a new file", FD+"metric.go Write"), ("number of records of a value", FD+"record.go numRecords")],
  ["completion callback of DB.Queue", "DB.Query", "directory contents"], MC, "exhaustive enumeration of write histories on the real database against a reference model of acceptance",
  "As S01, with oversize values and stale ends at every fill level of the files.")
p("S03", "Retention drops only the oldest data and disk use stays bounded",
  "A metric never occupies more than the configured number of historical files plus the one being filled, each of the configured size; data disappears only by dropping the oldest file when a newer one is started for an accepted write, so the retained records are always a contiguous newest part of the accepted history of at least the configured number of files.",
  ["histories", "configurations"], "all write histories long enough to roll over repeatedly, all numbers of files including unlimited",
  "Tests roll over a few files with one-record values; how much is dropped depends on value sizes, fill levels and failed writes.",
  [FD+"metric.go", FD+"file_cache.go"],
  [("oldest file is removed when a new one is needed", FD+"metric.go Write"), ("the cache forgets a removed file", FD+"file_cache.go evictFile")],
  ["data files on disk", "DB.Query"], MC, "exhaustive enumeration of write histories on the real database with a model of file rollover, checking files on disk after every operation",
  "As S01; also small cache sizes so that removed files are or are not cached.")
p("S04", "Metric names are isolated, recoverable and confined to the database directory",
  "Any two different metric names never share data, a name is listed back exactly as it was written after a restart, and no name, whatever dots, slashes, percent signs or empty components it has, makes the database touch a path outside of its own directory.",
  ["inputs"], "all metric names",
  "The tests have a table of names and a few random ones; collisions and escapes are about specific combinations of dots, separators and escape sequences.",
  [FD+"convert.go", FD+"db_read.go", FD+"metric.go"],
  [("escape of names into paths", FD+"convert.go metricToDir"), ("its inverse", FD+"convert.go dirToMetric"), ("walk of the tree", FD+"db_read.go dbPopulator")],
  ["paths given to file operations", "DB.Metrics after a restart", "DB.Query per name"], MC, "exhaustive enumeration of all short names over the critical alphabet through the real database, pairwise, with a path monitor",
  "All names up to a length over {a . / % 2 e f 5 -}, and all pairs up to a smaller length in one database. File operations are monitored, escapes are refused and reported.")
p("S05", "Corrupted data is contained",
  "Whatever bytes the data files of a metric contain, reading it never crashes and never reports a record that was not written there; a damaged record is skipped without hiding the intact ones around it, damage beyond that is reported as an error or leaves records out but is never returned as data, and other metrics are not affected.",
  ["inputs", "fault_sequences"], "all single-byte and all single-record corruptions, truncations and extensions of the files of a history",
  "Tests flip one bit of one record in memory and never query a database with damaged files.",
  [FD+"file.go", FD+"record.go", FD+"file_helpers.go", FD+"file_ops.go", FD+"metric.go"],
  [("checksums per record", FD+"record.go parse"), ("size checks when opening", FD+"file.go openFile"), ("bad records are skipped", FD+"metric.go Read")],
  ["DB.Query and QueryLatest on damaged directories"], FE, "exhaustive enumeration of corruptions of the files a real history produced, each reopened and queried with the real database",
  "Every byte of every file with several replacement values, every truncation length, zeroed and swapped slots.")
p("S06", "A crash at any moment loses no acknowledged record and blocks nothing",
  "If the process is killed at any moment of any write history, then after reopening, every write acknowledged before is still returned intact and in order (except for the oldest file if the write in progress was dropping it to make room), at most the write in progress may additionally appear and only completely, listing works, and later writes with newer ends are accepted and readable.",
  ["crash_points", "histories"], "every crash point, including torn stores, of every short history",
  "No test ever stops in the middle of a write.",
  [FD+"metric.go", FD+"file.go", FD+"file_ops.go", FD+"file_helpers.go", FD+"record.go"],
  [("records are written before the metadata that points at them", FD+"metric.go Write"), ("head pointer is only a hint and is recovered", FD+"file_ops.go getHeadPointer"), ("checksums", FD+"record.go")],
  ["reopened database: Query, Metrics, Queue"], FE, "exhaustive enumeration of crash points (every statement, every torn store) of the real write path, with recovery by the real code checked against the acknowledged history",
  "Process crash model: stores into the shared mapping survive in program order; torn multi-byte stores are modelled as prefixes and suffixes of the bytes a statement changed. Power loss with reordered page writeback is outside, the code does not sync.")
p("S07", "I/O failures are reported and do no lasting damage",
  "When any file operation of a write, query or listing fails, the failure is reported as an error or a write that did not happen and never as success; nothing acknowledged before is lost (except for the oldest file if a write had to drop it to make room), nothing crashes, and once the fault is gone the same metric accepts newer writes and answers queries.",
  ["fault_sequences", "histories"], "every file operation of every short history failing with every realistic error, up to two faults",
  "No test injects an I/O failure.",
  [FD+"metric.go", FD+"file.go", FD+"file_cache.go", FD+"db_write.go", FD+"db_read.go", FD+"internal/system/file.go", FD+"internal/system/mmap.go", FD+"internal/system/alloc_linux.go"],
  [("errors are wrapped and returned", FD+"file.go createFile/openFile"), ("files are allocated before use", FD+"internal/system")],
  ["callbacks, Query results after recovery, open descriptors and mappings"], FE, "exhaustive fault injection: every file operation of each history fails in turn (bounded number of faults) in the real code",
  "Faults are injected at the os/syscall boundary by shims; error values per operation are listed in DESIGN.md.")
p("S08", "The handle cache is transparent and never uses or leaks a mapping",
  "For every number of cached handles, histories give the same results as without a cache, no more files than configured plus those in use are held open, no mapping is used after it was released or released twice, and everything is released when the database stops and no query is in progress.",
  ["histories", "configurations", "schedules"], "all histories and schedules over all small cache sizes",
  "The cache test only checks the container on its own with counters; use after release is invisible without tracking mappings.",
  [FD+"cache.go", FD+"file_cache.go", FD+"file.go", FD+"db.go"],
  [("random eviction with tokens", FD+"cache.go"), ("acquire and release around each use", FD+"file_cache.go")],
  ["live mappings and descriptors at the system call boundary", "query results"], MC, "exhaustive enumeration of histories and of thread schedules on the real database with tracked, quarantined mappings",
  "Released mappings are made inaccessible instead of reused, so that a late access is a detected fault.")
p("S09", "Concurrent use of one metric is linearizable",
  "Under every interleaving of writers, workers and readers, each query returns a state of the metric that existed between its start and its end, never a torn or partly written record, and no interleaving crashes, deadlocks or races.",
  ["schedules"], "every schedule of a few workers, writers and readers on colliding metrics",
  "The tests are single threaded apart from one run loop.",
  [FD+"db.go", FD+"db_read.go", FD+"db_write.go", FD+"lock_pool.go", FD+"file_cache.go"],
  [("per metric locks", FD+"lock_pool.go"), ("cache mutex", FD+"file_cache.go")],
  ["completion callbacks and query results with their order"], MC, "stateless exploration of all schedules up to a deviation bound of the real code under a controlled scheduler, with happens-before race detection on each schedule",
  "2-3 client threads, 1-2 workers, up to the reported number of scheduling deviations; sequentially consistent interleavings plus race detection.")
p("S10", "Every queued value is completed exactly once and truthfully",
  "Each queued value's callback is called exactly once, with true only if the value is stored and readable, whether it is written, rejected, dropped because the buffer is full, cancelled, or left over when the database stops; the caller may reuse its buffer as soon as queueing returns, and dropping mode never blocks.",
  ["schedules", "histories"], "every interleaving of queueing, cancelling, writing, stopping and restarting the database",
  "Tests queue a value and see it written; the shutdown window and full buffers depend on interleavings.",
  [FD+"db_write.go", FD+"db.go"],
  [("send or cancel, recover from a closed queue", FD+"db_write.go Queue"), ("leftovers are completed on shutdown", FD+"db.go Run")],
  ["completion callbacks", "DB.Query afterwards"], MC, "stateless exploration of all schedules up to a deviation bound of the real queue and workers under a controlled scheduler",
  "Bounded threads and values, see evidence for the bound completed.")
p("S11", "The metric listing is complete, sorted, without duplicates and read-only",
  "Once a write is acknowledged every later listing contains its metric, whatever concurrent writes, listings and refreshes are going on, and so does every listing after a restart once the names have been loaded; each listing is sorted and free of duplicates and of names never written, and listing or querying never adds a metric. A listing ends when its callback says so and returns the callback's error.",
  ["schedules", "histories", "inputs"], "every interleaving of writers, listings and refreshes, all directory shapes",
  "Tests list after everything is written; lost names need a refresh and a write in a particular order.",
  [FD+"db_read.go", FD+"db_write.go", FD+"internal/sset/set.go", FD+"internal/system/dirent.go"],
  [("per worker name sets merged into a copy", FD+"db_read.go Metrics"), ("directory walk", FD+"db_read.go PopulateMetrics")],
  ["DB.Metrics callbacks"], MC, "stateless exploration of all schedules up to a deviation bound plus exhaustive enumeration of histories and listing chunk sizes",
  "Bounded threads; directory listings are returned in all chunkings down to one entry.")
p("S12", "A database runs once at a time, stops when told and can run again",
  "Only one run of a database is active at a time and a second one fails at once without disturbing it; after its context ends a run returns with no goroutine, mapping or descriptor left behind, and the same database can be run again and then serves queued values.",
  ["schedules", "histories"], "every interleaving of run, stop, queue and run again",
  "The test runs it twice in sequence without load.",
  [FD+"db.go", "internal/junk/flag.go", "internal/junk/launcher.go"],
  [("running flag", "internal/junk/flag.go"), ("launcher waits for all tasks", "internal/junk/launcher.go")],
  ["return values of DB.Run, live threads"], MC, "stateless exploration of all schedules up to a deviation bound under a controlled scheduler",
  "Bounded threads and deviations.")
p("F01", "Stored data keeps its format across versions",
  "A database directory written by an earlier version, in part or completely, is read completely and written on, and an earlier version reads everything that is written now: the directories of metrics, the numbers and the layout of data files, the records with their headers and checksums, the metadata, and the encoding of aggregated records and their distributions stay as they are.",
  ["histories", "inputs"], "all short histories of values written by two implementations of the format in turns, all short names, field values and distributions",
  "Each test reads what the same code has just written, so that a change on both sides is invisible to it.",
  [FD+"record.go", FD+"convert.go", FD+"file.go", FD+"file_helpers.go", FD+"metric.go", FD+"internal/meta/meta.pb.go", "data/record.pb.go", "data/load/load.go", "dist/tdigest/wrapper.go"],
  [("header, kinds and checksum", FD+"record.go"), ("directories of metrics", FD+"convert.go"), ("layout of data files", FD+"file.go"), ("encoding of records", "data/record.pb.go")],
  ["files under the directory of the database", "DB.Query, Record.Marshal and Unmarshal, load.Load"], MC, "exhaustive enumeration of histories in which the real code and an independent implementation of the format write and read the same files in turns, and of encoded names, records and distributions",
  "The independent implementation follows the format of the pinned commit; it shares no code with the repository.")
p("A01", "Concurrent observations are all counted, with true extremes",
  "When observations of a metric are added by any number of goroutines and a capture follows, the record has exactly as many observations, its minimum and maximum and their identifiers are those of actual extreme observations, and its distribution contains every observation.",
  ["schedules", "inputs"], "every interleaving of adders, all orders and signs of values",
  "The tests add from one goroutine; the extremes are updated outside of the lock that counts.",
  ["data/agg.go", "data/writer.go", "dist/tdigest/wrapper.go"],
  [("double checked update of the extremes", "data/agg.go Observe"), ("copy of the identifier", "data/agg.go Observe")],
  ["records given to Capture and Iterate callbacks"], MC, "stateless exploration of all schedules up to a deviation bound of the real aggregation, with race detection, plus exhaustive value orders",
  "Up to three adders, values over a small set with signs and duplicates.")
p("A02", "Captures hand out each observation at most once, with contiguous times",
  "Concurrent adds, captures and iterations never crash or race; every observation is handed out by at most one capture and all of them when adds and captures do not overlap, iteration consumes nothing, a captured record spans from the previous capture to this one, and infinite or NaN values are ignored.",
  ["schedules", "histories"], "every interleaving of adders, capturers and iterators",
  "Tests capture with no concurrency at all.",
  ["data/writer.go", "data/agg.go"],
  [("swap of the page", "data/writer.go Capture"), ("marshalling a record", "data/agg.go Finish")],
  ["Capture and Iterate callbacks"], MC, "stateless exploration of all schedules up to a deviation bound of the real writer, with race detection",
  "The documented loss of updates by adds that overlap a capture is allowed.")
p("D01", "A dump hands every captured record to the database intact and waits for it",
  "A dump queues one value per captured metric whose bytes decode to the captured record and stay unchanged until the database completes it, returns only after all of them completed, survives a database that fails or refuses, and stops early when its context is cancelled.",
  ["schedules", "fault_sequences"], "every interleaving and every completion order and outcome of the database",
  "The only dump test uses a database that completes immediately.",
  ["dump/dump.go", "data/writer.go"],
  [("pooled buffers are returned on completion", "dump/dump.go Dump"), ("wait group", "dump/dump.go Dump")],
  ["calls to the database", "return of Dump and Run"], MC, "stateless exploration of all schedules and database answers (sync, async, late, error) of the real dumper",
  "Database is a model that chooses when and how to complete; buffers are checked at completion.")
p("D02", "An interrupted server stores everything it has accepted before it exits",
  "When a running server gets an interrupt, it stops accepting, processes the lines it has already received completely, writes a final dump into the database, and exits with success, under every timing of connections, periodic dumps and the interrupt.",
  ["schedules", "crash_points"], "every interleaving of interrupt, periodic dump, connection data and shutdown",
  "No test runs the server.",
  ["run.go", "main.go", "internal/junk/launcher.go", "internal/junk/signal.go", "dump/dump.go", "listener/graphite/listener.go", "database/files/db.go"],
  [("nested launchers stop services before the database", "run.go run"), ("final dump", "run.go run")],
  ["exit code", "database contents after exit"], MC, "stateless exploration of schedules up to a deviation bound of the real main program with modelled signals, network and clock",
  "The server is started as the run command does; network, HTTP serving loop, clock and signals are modelled.")
p("E01", "What a server receives is what its web interface shows, as configured",
  "For every history of received lines, dumps and restarts of a server, the web interface lists exactly the metrics that were stored, and the render of a metric shows, at every moment that the records of the metric cover, exactly the values that were received in that time with their rate, and nothing elsewhere, before and after restarts, also while values arrive and dumps are made; every configured listener receives values, and the origin, the credentials, the encryption and the static files are those of the configuration, which is never served with less protection than it states.",
  ["histories", "configurations", "schedules"], "all scripts of received lines, dumps and restarts, all combinations of settings, schedules of requests during a dump",
  "No test runs a server; the parts are tested alone.",
  ["run.go", "listener/graphite/listener.go", "data/writer.go", "dump/dump.go", "api/server.go", FD+"db.go"],
  [("wiring of the parts", "run.go run"), ("captures", "data/writer.go Capture"), ("periodic and last dumps", "dump/dump.go")],
  ["lines on connections of the modelled network", "answers of the served handler"], MC, "exhaustive enumeration of scripts, configurations and bounded schedules of the whole server on modelled network, clock and HTTP loop, against a list of received values",
  "Scripts to depth 5 (thorough 6), all combinations of settings, one or two deviations of the schedule.")
p("E02", "A slow or refusing database holds up nothing else",
  "While the database keeps values waiting, blocks its callers or refuses values, the server goes on receiving lines on old and new connections and answering requests at once, every received value comes to the database exactly once, in a record whose period contains the moment it was received, values that come after the trouble are stored, and a server that is interrupted does not exit while its values wait, and ends with success once they are written.",
  ["histories", "fault_sequences", "schedules"], "all scripts of lines, periods, troubles of the database and the interrupt",
  "No test runs the server or a database that is slow.",
  ["run.go", "dump/dump.go", "data/writer.go", "listener/graphite/listener.go", "api/server.go"],
  [("capture without stopping adds", "data/writer.go Capture"), ("a goroutine for each connection", "listener/graphite/listener.go"), ("waits for the completions", "dump/dump.go Dump"), ("last dump after the listeners", "run.go run")],
  ["lines read on connections of the modelled network", "answers of the served handler", "calls to the database", "exit of the server"], MC, "exhaustive enumeration of scripts and bounded schedules of the whole server with a model of the database that waits, blocks and refuses as chosen, against a list of received values",
  "Database, network, clock and HTTP loop are models; scripts to depth 5 (thorough 6), up to two deviations of the schedule for short ones.")
p("E03", "A killed server or a failing disk loses only what was not yet stored",
  "When a server is killed at any moment of its start, a dump or its end, it starts again on what it left behind, shows every value of the dumps that were complete and each record of the one in progress completely or not at all, and goes on receiving, storing and showing values; when operations on its files fail, it goes on receiving and answering, only records of the dump that met the failure can be missing, what it shows is what it received, and later dumps, an orderly end and the next start work again.",
  ["crash_points", "fault_sequences", "histories"], "all scripts, every statement of a step as the moment of the kill, every file operation failing",
  "No test runs the server, kills it or lets the disk fail.",
  ["run.go", "dump/dump.go", FD+"db.go", FD+"db_write.go", FD+"db_read.go", FD+"metric.go", FD+"file.go", "api/server.go"],
  [("failed writes are reported and left behind", "dump/dump.go Dump"), ("workers go on after a failure", FD+"db_write.go worker"), ("start on existing files", FD+"db_read.go PopulateMetrics")],
  ["files of the database", "lines on connections of the modelled network", "answers of the served handler"], MC, "exhaustive enumeration of scripts with every crash image of the last step and every set of one or two failing file operations, through the whole server, against a list of received values",
  "Scripts of 4 steps (thorough 5); crashes of the process, not of the machine; after a failure to read the directory at the start the listing may be incomplete until the next start.")
p("D03", "The demo command adds all of its data and ends",
  "Whatever the database does with any of its values (write them at once or later, refuse or fail them, or end), the demo command ends, returns exactly the failures the database reported, queues one value at a time, and without failures leaves one day of history without gaps for every demo metric.",
  ["fault_sequences", "schedules"], "every answer of the database at every one of the 600 values",
  "No test runs the demo.",
  ["demo.go", "database/files/db.go", "internal/junk/launcher.go"],
  [("waits for each value", "demo.go addDemoData"), ("database and worker under one launcher", "demo.go demo")],
  ["return of the command", "values given to the database"], MC, "exhaustive enumeration of fault points and answers, stateless exploration of schedules, of the real demo command",
  "Database is a model that answers as chosen; also with the real database.")

p("X01", "What is discarded or fails is reported, and reports are true",
  "Every line, connection, accept, stored record, directory and value that is discarded, unreadable or fails is reported as an error that has the line, the metric and error, or the cause; nothing that went well is reported as an error; each dump reports once exactly how many values were written, not written and failed; every request except for the nonce is reported once with its method, path and the status that was sent, and never with credentials; and without a logger or a monitor everything works the same.",
  ["inputs", "fault_sequences", "schedules"], "all sequences of lines and failing accepts, all answers of the database, damaged records, failing file operations and requests",
  "Tests run without a logger or monitor and never look at what is reported.",
  ["external/common.go", "external/resources.go", "dump/dump.go", "listener/graphite/listener.go", "api/server.go", "api/common.go", FD+"metric.go", FD+"db.go"],
  [("optional logger and monitor", "external/resources.go"), ("counts of a dump", "dump/dump.go Dump"), ("status that was sent", "api/common.go respTracker"), ("dropped lines and connections", "listener/graphite/listener.go handleConn")],
  ["calls to the logger and the monitor"], MC, "exhaustive enumeration of lines, accepts, answers of the database (with bounded schedules of completions), damaged records, single failing file operations and requests through the real parts, with what is reported compared with what happened",
  "Texts of messages are free. Modelled network; model of the database for dumps and requests.")
p("L01", "Line framing is independent of how bytes arrive; bad lines harm only themselves",
  "However the bytes of a connection are split into reads, the listener adds exactly the values of its well-formed lines, in order and with exact metric names and values, and a malformed line is skipped without affecting any other line.",
  ["inputs", "schedules"], "all splittings of all short line sequences, including malformed ones",
  "The test sends one well formed batch over a real socket.",
  ["listener/graphite/listener.go"],
  [("scanner per connection", "listener/graphite/listener.go handleConn"), ("parser", "listener/graphite/listener.go handleLine")],
  ["records captured from the writer"], MC, "exhaustive enumeration of line sequences and of all read splittings through the real connection handler",
  "Lines over a grammar-derived alphabet; connection is modelled in memory.")
p("L02", "The listener serves connections concurrently and stops cleanly",
  "All connections are served independently of each other, and no failing, idle or ended connection or temporary failure to accept ever stops the others; when its context ends or accepting fails for good the listener closes its socket and every connection, adds every complete line it has read and no other, waits for all handlers and returns (with the error of accepting, if there was one, and nil otherwise) without leaking anything, and it can be run again.",
  ["schedules"], "every interleaving of accepts, reads, disconnects and the stop",
  "The test uses one connection and one order of events.",
  ["listener/graphite/listener.go"],
  [("handlers are waited for", "listener/graphite/listener.go handleListener"), ("connection is closed with the context", "listener/graphite/listener.go handleConn")],
  ["records captured, live threads after return, return value"], MC, "stateless exploration of all schedules up to a deviation bound with a modelled network",
  "Up to two connections; accept and read errors are modelled.")
p("J01", "Launched tasks are all stopped and awaited, with the right error",
  "Launched tasks are each run once; when any of them returns or the parent context ends all of the others are told to stop, never before, and the launch returns only when all have returned: nil exactly when all tasks returned nil, otherwise the error of one of them, and not one that is only the consequence of another error. A signal ends its context exactly like its parent context or its cancel function does, and once the context ended signals are not caught any more. A flag is held by one at a time.",
  ["schedules"], "every order in which tasks finish, fail or are cancelled",
  "Not tested at all.",
  ["internal/junk/launcher.go", "internal/junk/signal.go", "internal/junk/flag.go"],
  [("first result cancels the rest", "internal/junk/launcher.go Launch")],
  ["return value of Launch, live threads"], MC, "stateless exploration of all schedules up to a deviation bound over all task behaviours",
  "Up to three tasks with every combination of behaviours.")
p("M01", "Merging records keeps counts, extremes, times and all observations",
  "Merging any records gives one with the summed observations and merge counts, the earliest start, the latest end, the true minimum and maximum with the identifiers they came with, and a distribution that stands for the observations of all of them, whatever their order.",
  ["inputs"], "all lists of records over small field domains in every order",
  "One test merges a single fixed list.",
  ["merge/merge.go", "merge/resample.go"],
  [("fields are combined record by record", "merge/merge.go Merge"), ("distributions are resampled and merged", "merge/resample.go")],
  ["merged record"], MC, "exhaustive enumeration of record lists through the real merge against a reference",
  "Two and three records over small domains of values, times, identifiers and counts.")
p("M02", "Heat map columns hold exactly the records that overlap their pixels",
  "For every sequence of records pushed newest first and every width, duration and end, the produced columns lie inside of the picture, are ordered newest first without overlap, and each pixel that any record overlaps has a column made of exactly the records whose time range overlaps the pixel, and no other pixel has one, with finite, correctly averaged numbers (a record without merge count counts as one, one without duration has no rate); sizes without sense are refused with an error.",
  ["inputs", "configurations", "histories"], "all short record sequences with gaps, overlaps, equal and empty ranges, all widths",
  "One test pushes a fixed list.",
  ["merge/merger.go"],
  [("records are accumulated per pixel span", "merge/merger.go")],
  ["columns returned by Finish"], MC, "exhaustive enumeration of record sequences and geometries through the real merger against a per-pixel reference",
  "Small times and widths; distributions are points so that expected column data is computable.")
p("M03", "Distributions answer consistently and survive storage",
  "For every sequence of finite observations (those beyond the range of the stored 32-bit differences count as the ends of that range), the count is exact and survives storage, the quantile function is monotone and never NaN or infinite, and the cumulative function is monotone from 0 to 1 and reflects every observation made so far. As long as the digest keeps the observations apart, quantiles are within the observed range, the cumulative function is right up to its resolution, and storing and loading a distribution changes none of these answers beyond the 32-bit precision of the stored form.",
  ["inputs", "histories"], "all observation sequences over a small set, with queries and storage in between",
  "Tests observe a fixed random sequence.",
  ["dist/tdigest/wrapper.go", "data/load/load.go"],
  [("lazily cached derived data", "dist/tdigest/wrapper.go"), ("loading by kind", "data/load/load.go")],
  ["Query, CDF, Len, Marshal"], MC, "exhaustive enumeration of operation sequences on the real distribution against invariants and a recomputed reference",
  "Sequences up to a depth over a small value set and interleaved reads.")
p("M04", "Damaged stored values are refused or usable, never crash or hang",
  "Whatever bytes a stored value consists of, reading it either fails with an error, also as the answer of a request that needs it, or gives a record that can be loaded, merged, queried and drawn without a crash, a hang or memory out of proportion to it; an undamaged one gives exactly what was stored.",
  ["inputs", "fault_sequences"], "all single-byte corruptions, truncations, hostile length and count fields of stored records and of the digests in them",
  "Tests unmarshal what they marshalled, and the checksum of the files database does not cover what a client sent or what other databases return.",
  ["data/record.pb.go", "dist/tdigest/wrapper.go", "data/load/load.go", "merge/resample.go", "api/server.go"],
  [("decoding of records", "data/record.pb.go Unmarshal"), ("decoding of digests", "dist/tdigest/wrapper.go Unmarshal"), ("loading by kind", "data/load/load.go"), ("errors of columns end the render", "api/server.go")],
  ["Record.Unmarshal, load.Load, merge.Merge, the response of /api/render"], FE, "exhaustive enumeration of corruptions of stored values, each read, merged and rendered by the real code",
  "Every byte with several (thorough: all) values, every truncation, every header and count field with hostile values, all short inputs, of a set of records and digests. Digests of compression below 1 whose counts exceed 32 bits are exempt.")
p("Q01", "Metric search returns exactly the first matching names",
  "For every query string, sequence of metric names and limit, a name matches exactly when for each whitespace separated part of the query some consecutive dot separated components of the name contain the components of the part in order, ignoring the case of ASCII letters, where a star stands for any run of bytes including none and a question mark for any single one; the search returns the first matching names up to the limit in the order they are listed, asks to stop only when nothing more can be returned, and any limit, also a negative or huge one, is harmless.",
  ["inputs"], "all query strings and all name sets over a small alphabet, all limits",
  "The tests have a table of queries over a fixed name list.",
  ["api/query/search.go", "api/query/glob.go", "api/query/spec.go"],
  [("globbing", "api/query/glob.go"), ("runs of components", "api/query/spec.go Match"), ("limit", "api/query/search.go Add")],
  ["Search.Matched"], MC, "exhaustive enumeration of queries, name sequences and limits through the real search against a reference",
  "Small alphabets with all special bytes, bounded lengths; the reference is the recursive definition of wildcards.")
p("H01", "With credentials configured nothing is served without them",
  "When a user name is configured, every request to every path with every method and without exactly the right user name and password gets a 401 and learns nothing about data or static files, and with them every request is served as without authentication; the configured origin is always sent.",
  ["inputs", "configurations"], "all request shapes: methods, paths, and malformed, partial and wrong credentials",
  "Not tested.",
  ["api/server.go", "api/common.go"],
  [("check before routing", "api/server.go serveHTTP"), ("constant time comparison of hashes", "api/server.go validAuth")],
  ["response status, headers and body, calls to the database and static handler"], MC, "exhaustive enumeration of the request space against the real handler",
  "Product of methods, paths, credential forms and configurations.")
p("H02", "Every request gets a correct response and none can crash the server",
  "Every request, whatever its parameters, gets a response without a panic, a hang or unbounded work; a query answers with the matching metrics as a JSON list and a render answers with a PNG of the requested size or the JSON columns of the requested period; parameters without sense are refused as the client's mistake (unreasonably large ones may be), failures of the database are reported as errors of the server, and a client whose connection breaks has received a beginning of the right answer.",
  ["inputs", "fault_sequences"], "all combinations of boundary parameter values over several database contents",
  "Not tested.",
  ["api/server.go", "api/common.go", "draw/graph/graph.go", "merge/merger.go", "api/query/search.go"],
  [("parameters have defaults", "api/common.go"), ("too small pictures are refused", "draw/graph/graph.go Measure")],
  ["HTTP responses"], MC, "exhaustive enumeration of boundary parameter combinations against the real handler with a model database",
  "Product of boundary values per parameter and of database contents and faults.")
p("C01", "Every command does what it is for or fails, says why and changes nothing",
  "The init command writes the complete initial configuration if and only if there is none, never touches one that exists or that someone else creates meanwhile, and leaves none when it fails; run and demo start only with exactly one argument that names a readable and sensible configuration; every command exits with 0 exactly if it has done its task, and one that fails states the reason, starts nothing and leaves all files as they were.",
  ["inputs", "fault_sequences", "schedules"], "every command, argument count and state of the configuration, every failing file operation, every other creator",
  "No test runs a command.",
  ["main.go", "init.go", "run.go", "demo.go", "utils.go", "config/initial.go"],
  [("creates the configuration", "init.go"), ("checks of the arguments", "utils.go checkArgs"), ("exit code", "main.go Main")],
  ["exit code", "output", "files"], MC, "exhaustive enumeration of arguments, file states and file faults, stateless exploration of schedules, of the real main function",
  "The process is modelled as a thread; network, signals and clock are modelled, files are real with injected faults.")

p("K01", "A configuration is loaded completely or refused, and never leaks secrets",
  "A configuration document either loads with every known setting having exactly the value it states and every other one its default, or, when a known setting has the wrong type or form or is missing though it is required, is refused with an error and never a crash; a written configuration loads as the same; a server is only started with settings that make sense; and printing or logging a configuration never shows the password.",
  ["inputs", "configurations"], "all combinations of present, absent and ill-typed settings",
  "Tests load one initial configuration.",
  ["config/load.go", "config/config.go", "config/initial.go", "config/common.go"],
  [("table to struct conversion", "config/load.go"), ("redaction", "config/config.go Redact")],
  ["loaded configuration", "errors"], MC, "exhaustive enumeration of configuration documents (setting present, absent, each type) through the real loader against a reference",
  "All single settings with all types and all pairs.")
p("K02", "Components are built from configuration exactly as stated",
  "For every component kind and configuration value, construction either fails with an error or builds a component that behaves with exactly the stated options; the registry gives for a name what was registered for it, unknown names are errors, and concurrent or nested use of the registry neither races nor deadlocks.",
  ["inputs", "configurations", "schedules"], "all configuration values by key and type, all interleavings of registration and construction",
  "Tests assert a few types.",
  ["registry/registry.go", "internal/typeassert/asserter.go", "database/files/register.go", "dist/tdigest/register.go", "listener/graphite/register.go"],
  [("typed access to generic configuration", "internal/typeassert/asserter.go"), ("registry maps under a lock", "registry/registry.go")],
  ["constructed components' behaviour", "errors"], MC, "exhaustive enumeration of configuration values and of schedules of the real registry",
  "Types of every key; registry operations of up to three threads.")
p("W01", "Static files are served faithfully",
  "Every file and directory of a packed user interface is served with exactly its content, size, name and kind, listings of any page size are complete and without duplicates, a path to nothing is answered with the root index.html if there is one and else with not found, html files are served as the originals with the values substituted, and damaged archives, failing files and failing templates give errors and neither crashes nor files left open.",
  ["inputs"], "all small archives and all read, seek and listing sequences",
  "One test opens a few fixed files.",
  ["internal/tgzfs/fs.go", "internal/tgzfs/file.go", "internal/tmplfs/fs.go"],
  [("archive is unpacked into memory", "internal/tgzfs/fs.go"), ("file interface over bytes", "internal/tgzfs/file.go")],
  ["http.FileSystem results"], MC, "exhaustive enumeration of archive shapes and of file operation sequences against a reference file system",
  "Archives over small trees with and without directory entries, operation sequences up to a depth.")
p("G01", "Drawing stays inside of its area and shows the data",
  "Every drawing operation with any input changes only pixels of the canvas or view given to it and never crashes; a heat map column shows at each height the colour of its data there, the same on every kind of canvas; keys show all colours in order; axes have a tick at the position of every label and texts that do not overlap; and the observations show every column's share of the highest rate and that rate.",
  ["inputs", "configurations"], "all small geometries and columns",
  "Tests draw one fixed picture and do not look at it.",
  ["draw/heatmap/heatmap.go", "draw/common.go", "draw/key/key.go", "draw/observations/obs.go", "draw/axis/axis.go"],
  [("views into a canvas", "draw/common.go"), ("column to pixels", "draw/heatmap/heatmap.go")],
  ["pixels of the canvas"], MC, "exhaustive enumeration of small geometries, columns and canvases against a per-pixel reference",
  "Widths and heights up to a bound, columns at all offsets.")
p("G02", "Any graph that is accepted can be drawn",
  "For every size, padding, duration and data, measuring a graph either refuses it as too small (or without sense) or yields a layout inside of the requested size whose drawing never crashes or hangs, has exactly the requested size, and shows the axes, the period, the values, the key, the heat map and the observations of the data, each at its place.",
  ["inputs", "configurations"], "all sizes and paddings up to a bound, with and without data, all column sets",
  "Not tested.",
  ["draw/graph/graph.go", "draw/graph/common.go", "draw/axis/axis.go"],
  [("layout of the parts", "draw/graph/graph.go Measure"), ("drawing of the parts", "draw/graph/graph.go Draw")],
  ["Measured layout, picture"], MC, "exhaustive enumeration of geometries and data through the real layout and drawing",
  "Every width, height up to a bound, boundary values beyond.")

claimed = []
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for d in P:
        f.write(json.dumps(dict(
            id=d["id"], title=d["title"], statement=d["st"],
            quantifier=dict(over=d["over"], text=d["q"]),
            why_tests_cant=d["why"],
            anchors=dict(files=d["files"],
                         state=[dict(name=a, meaning=b, where=c) for a, b, c in d["state"]],
                         mechanism=[dict(name=a, where=b) for a, b in d["mech"]],
                         observe_at=d["observe"], hook_needed=None))) + "\n")
checks, na = [], []
import re
for d in P:
    assert len(d["title"]) <= 80, d["title"]
    if os.path.exists(os.path.join(V, "harness", d["id"], "main.go")):
        checks.append(dict(property=d["id"], quick_cmd="./check %s quick" % d["id"],
                           thorough_cmd="./check %s thorough" % d["id"],
                           technique=d["tech"], level=d["level"], level_note=d["note"]))
    else:
        na.append(dict(property=d["id"], reason="no check built yet"))
m = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
         hooks=dict(guard="none", enable="No hooks in /repo: the checks rewrite /repo's current sources into a build overlay (instr/) and leave the tree alone.", source_commits=[]),
         notes="Each check rewrites /repo's current sources into a scratch overlay, builds the real code against a controlled scheduler and environment, and enumerates its executions. See DESIGN.md.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(P), "properties,", len(checks), "claimed")
