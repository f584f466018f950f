#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the entries stay in one format)."""
import json, os
I = "src/include/"
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=[I+f for f in files],
            state=[dict(name=n, meaning=m, where=I+w) for n,m,w in state],
            mechanism=[dict(name=n, where=I+w) for n,w in mech],
            observe_at=list(observe), hook_needed=None)))

p("C01","Exactly-once intact delivery on asynchronous channels",
 "Every log statement that an asynchronous channel of a running logger accepts appears exactly once, as one contiguous unaltered line, on every enabled output of that channel whose filter admits it, and on no other output or channel; nothing appears that was not logged. This holds for any number of concurrently logging threads, any line lengths and any interleaving with the writing thread.",
 ["schedules","programs"],"all multi-threaded programs over asynchronous channels, all schedules of producers and consumer, including a thread stalled while the queue wraps around",
 "The tests run a few real-thread programs and only count lines; they sample a handful of schedules and never compare what was logged with what was written.",
 ["fn_channel.h","fn_stream.h","fn_data.h"],
 [("lock-free hold/push/publish","fn_channel.h HoldChannel, PushChannel"),("consumer loop","fn_channel.h EnterProcChannel"),("stream destructor pushes","fn_stream.h LogStream::~LogStream")],
 [("RingBuffer indexes","reserve / publish / process / release positions","fn_data.h RingBuffer"),("data_mark_","slot invalid / held / ready","fn_data.h LogData")],
 ["log statement begin/end and whether it was accepted","lines of the output files after stop"])
p("C02","One order per channel, consistent with real time and across devices",
 "All outputs of an asynchronous channel show its logs in one common order (each output shows a subsequence of it). If one log statement completed before another statement on the same channel began, it comes first in that order; in particular each thread's logs appear in program order.",
 ["schedules","programs"],"all programs of concurrent log statements and all schedules",
 "No test looks at the order of lines written by concurrent threads.",
 ["fn_channel.h"],[("reservation order = publication order = processing order","fn_channel.h HoldChannel, PushChannel, EnterProcChannel")],
 [("hold_idx_/write_idx_/proc_idx_","positions in the common order","fn_data.h RingBuffer")],["order of lines in every file of the channel","begin/end of the statements"])
p("C03","Bounded queue: back-pressure without loss or deadlock",
 "When the queue of a channel is full, further log statements wait; no queued log is overwritten or dropped and an admitted statement is never refused because the queue is full. Every waiting statement completes once the writer frees room, and returns unlogged if the logger is stopped instead; no schedule blocks a log statement forever while the writer runs.",
 ["schedules","programs"],"all programs that fill the queue (more outstanding statements than slots, unfinished statements that hold slots) and all schedules including stop while producers wait",
 "stress_block_in only checks that a program ends; the queue-full path with several producers and a wrapped queue is not compared with the output.",
 ["fn_channel.h"],[("full test and waiting loop","fn_channel.h HoldChannel"),("slot release","fn_channel.h EnterProcChannel")],
 [("hold_idx_ vs read_idx_","fullness","fn_data.h RingBuffer")],["accepted/refused result of each statement","completion of each statement","file contents"])
p("C04","Stop writes everything that was completed and silences the rest",
 "When a stop call returns success, every log statement that completed before the stop began is in the files of its channel, also when another thread is in the middle of an unfinished statement; statements overlapping the stop appear at most once and intact. A statement begun after stop returned is refused and writes nothing until the next start.",
 ["schedules","histories"],"all schedules of stop (or destruction of the logger) against producers at any point of a log statement",
 "Tests stop an idle logger or count nothing after a concurrent stop.",
 ["fn_core.h","fn_channel.h"],[("drain until queue empty, join","fn_core.h StopLogger, StopChannels; fn_channel.h EnterProcChannel"),("refusal when not running","fn_channel.h BlockInput, HoldChannel, PushChannel")],
 [("channel_state_ / logger_state_","lifecycle of channel and logger","fn_data.h Channel, Logger")],["return of stop","file contents right after stop and at the end"])
p("C05","Lifecycle calls are atomic, restartable and never hang or crash",
 "Start, stop, load and parse-and-start calls may be made by any thread at any time, concurrently with each other, with logging, with configuration access and with a pending configuration update: every call returns, a start succeeds only on a stopped and a stop only on a running logger (the others return an error and change nothing), and never two starts succeed without a stop between them. A stopped logger, also after a failed start, can be started again with the same or another configuration and then works like a new one.",
 ["schedules","histories"],"all histories of lifecycle calls by several threads, with logging and configuration updates in between, all schedules",
 "The reboot stress tests only check that the process survives some seconds on the schedules the machine happens to produce.",
 ["fn_core.h","fn_load.h"],[("state lock and state machine","fn_core.h StartLogger, StopLogger, ParseAndStartLogger, LoadAndStartLogger"),("reset between sessions","fn_core.h CleanChannels, ResetFreeSlots"),("hot update lock","fn_load.h HotUpdateLogger")],
 [("logger_state_","UNINIT/INITING/RUNNING/CLOSING","fn_data.h Logger")],["return codes of lifecycle calls","completion of the calls","file contents per session"])
p("C06","A synchronous channel has written the line when the statement returns",
 "When a log statement on a synchronous channel used by one thread returns, its line is already readable in the file of every enabled output of that channel that admits it. When several threads share a synchronous channel, every accepted line is written exactly once, intact and not interleaved with others, at the latest when all their statements have returned.",
 ["schedules","programs"],"all programs on synchronous channels, single- and multi-threaded, all schedules",
 "The sync benchmarks measure speed; no test reads the file back after a statement or checks concurrent writers.",
 ["fn_channel.h"],[("inline processing in push","fn_channel.h PushChannel, EnterProcChannel"),("per channel lock","fn_channel.h EnterProcDevice ReadGuard")],
 [("read_locks_","serialises device writes of sync channels","fn_data.h Logger")],["file contents right after each statement","file contents when all threads are done"])
p("C07","Logs become visible on disk without stopping the logger",
 "Whenever the threads stop logging on an asynchronous channel, then within bounded time and without any further call every completed statement is readable in its files by another process. This holds after any preceding burst length and any schedule.",
 ["schedules","programs"],"all bursts and pauses, all schedules of producers and writer",
 "Tests read counters or files only after the logger was stopped.",
 ["fn_channel.h","fn_file.h"],[("flush when the queue ran empty, forced flush","fn_channel.h EnterProcChannel"),("publication by the last pusher","fn_channel.h PushChannel")],
 [("write_idx_","published position","fn_data.h RingBuffer")],["file contents while the logger is idle but running"])
p("C08","A log reaches exactly the outputs whose filters admit it",
 "A log is accepted iff its channel is running, the channel filter (priority, category and identify range, category and identify mask) admits it and at least one enabled non-input device of the channel admits it, and then it is written to exactly the enabled devices whose own filter admits it. Changes of filter settings and of the enabled flag through the API (single and batch setters) take effect for every later log.",
 ["inputs","configurations","histories"],"all combinations of priority, category, identify with all channel and device filter settings (boundary values of ranges and bits 0..63) and all sequences of setting changes",
 "The filter tests check a few dozen fixed combinations on one device.",
 ["fn_channel.h","fn_core.h","fn_log.h"],[("channel filter and device pre-check","fn_channel.h BlockInput"),("device filter","fn_channel.h DispatchLog"),("runtime setters","fn_core.h SetChannelConfig, SetDeviceConfig, Batch*; fn_log.h")],
 [("config_fields_","filter settings of channel and device","fn_data.h Channel, Device")],["accepted result, lines per device"])
p("C09","Virtual device hook and transmit deliver exactly the admitted logs",
 "With a hook installed, it is called exactly once per accepted log of a channel that has an enabled virtual device admitting the log, on the logging thread, with the finished content, and never otherwise. A log transmitted to another channel appears there exactly once, with unchanged content, iff the target channel admits it under the given category and identify; transmitting to the own channel does nothing.",
 ["configurations","schedules","programs"],"all filter settings of virtual devices, all channel topologies of transmits, all schedules of concurrent loggers",
 "test_trans_log and test_filter_advance use one fixed topology and one thread.",
 ["fn_out_virtual_device.h","fn_channel.h","fn_stream.h"],[("hook call before push","fn_stream.h ~LogStream; fn_out_virtual_device.h EnterProcOutVirtualDevice"),("transmit","fn_channel.h TransmitChannel")],
 [("virtual_device_id_","virtual device of a channel","fn_data.h Channel")],["hook invocations","lines of the target channel"])
p("C10","Size rolling keeps the newest lines in the documented files",
 "With a size limit and a rollback count, the current file and the files .1 to .N always hold, read from the oldest backup to the current file, a gapless suffix of the lines written to the device; only the oldest backup beyond N is discarded, a file exceeds the limit only by a single longer line or by the first line written after it was opened for appending, and no more than N backups exist. Without a limit or without a rollback count a running device never splits or discards lines, and a restart keeps (appends to or rolls) earlier files as configured.",
 ["inputs","histories","configurations"],"all sequences of line lengths, limits, rollback counts, stuff_up settings, restarts and pre-existing files",
 "test_rolling drives one configuration and looks at counters only.",
 ["fn_out_file_device.h","fn_file.h"],[("limit test and reopen","fn_out_file_device.h OpenFileDevice"),("shift of backups","fn_file.h FileHandler::rollback")],
 [("DEVICE_LOG_CUR_FILE_SIZE","size of the current file","fn_data.h")],["names and contents of all files of the device"])
p("C11","Logs go to the file of their own time; day and hour rolling",
 "File name and directory are the configured patterns with every documented variable replaced by the (local) time of the log that opened the file, the process name and the process id; missing directories are created. With daily (hourly) rolling every line is in a file opened by a log of the same local day (hour), so with a dated pattern each line is in the file of its own day (hour); without it a running device keeps using its file.",
 ["inputs","configurations","histories"],"all patterns, all sequences of log times (also backwards), all time zones with a fixed offset",
 "test_rolling uses one pattern, one time zone and a few timestamps.",
 ["fn_out_file_device.h","fn_file.h"],[("pattern expansion","fn_out_file_device.h PreFmtName, FmtName, MakeFileName, MakePathName"),("day/hour windows","fn_out_file_device.h OpenFileDevice"),("directory creation","fn_file.h create_dir")],
 [("DEVICE_LOG_CUR_FILE_CREATE_DAY/HOUR","window of the current file","fn_data.h")],["paths and contents of the files"])
p("C12","Queued logs survive a crash through shared memory",
 "With a shared memory key, if the process dies at any point, a new process that starts the same configuration delivers every log that had completed but was not yet written, intact, in order and before its own logs; logs already written are not repeated except those being written at the moment of the crash, and unfinished statements appear at most as lines marked as recovered. This also holds for repeated crashes, also during recovery, and afterwards the logger works normally.",
 ["crash_points","schedules","histories"],"all crash points of producers, writer, start and stop, all schedules, repeated crashes",
 "test_shm exits at one point after logging was finished.",
 ["fn_load.h","fn_channel.h","fn_data.h"],[("attach and repair of the queue","fn_load.h LoadSharedMemory"),("write, then release the slot","fn_channel.h EnterProcChannel")],
 [("SHMLogger","queue, indexes and configuration in shared memory","fn_data.h SHMLogger")],["lines handed to the device before the crash and after recovery"])
p("C13","Configuration hot update is timely, complete and fail-safe",
 "While hot update is enabled, a changed and valid configuration file takes effect on every channel within the check interval (on a synchronous channel with the first log written after it) while logging continues, and one that switches hot update off is the last to take effect: exactly the filter and device settings of the new file apply to later logs, added devices start working, and no log is lost or duplicated by the update. A file that is missing, unreadable, malformed or without channels leaves the running configuration untouched and a later valid file is still picked up.",
 ["histories","inputs","fault_sequences"],"all sequences of file replacements (valid, invalid, truncated, removed), their times, and logs in between",
 "test_hotupdate performs one valid change.",
 ["fn_load.h"],[("mtime poll, parse, copy","fn_load.h HotUpdateLogger")],
 [("yaml_mtime_, last_hot_check_","change detection per channel","fn_data.h Channel"),("hot_update_","switch","fn_data.h Logger")],["effect on filters and files of later logs","update counters"])
p("C14","The configuration parser means what the file says, or reports an error",
 "Parsing terminates on every byte sequence. A well-formed file, in any permitted layout (indentation, list dashes, comments, blank lines, line ends, byte order mark, quotes, key order), yields exactly the channels, devices and settings it states and defaults for the rest; unknown keys, broken syntax, out-of-sequence or too many channels or devices and bad addresses are reported as an error and the logger is not started.",
 ["inputs","configurations"],"all configurations and all their renderings; all malformed byte sequences",
 "The lexer tests are a fixed list of texts.",
 ["fn_parse.h","fn_load.h"],[("line lexer","fn_parse.h Lex"),("block structure by indentation","fn_parse.h ParseLogger, ParseChannel, ParseDevice"),("typed values","fn_parse.h Parse*")],
 [("LexState","parser state","fn_parse.h LexState")],["return code","resulting channel and device settings"])
p("C15","define and var substitute exactly their occurrences below",
 "After a define line every later occurrence of the symbol as a whole word reads as its content, and after a var line every later ${name} and every $name not continued by a name character reads as its value; earlier text, partial words and everything else stay unchanged and line structure is kept. A content longer than its symbol or a malformed definition is an error, and substitution terminates.",
 ["inputs"],"all texts with definitions: overlapping names, repeated and adjacent occurrences, symbols equal to their content, definitions using definitions",
 "test_var_define checks a fixed list.",
 ["fn_parse.h"],[("in-place replacement","fn_parse.h PredefinedInplace, PredefinedMacro, PredefinedVar")],
 [],["parsed values of later keys","return code"])
p("C16","Line content: concatenation, bounded, terminated, isolated",
 "The line of a log statement is the concatenation of what was streamed, cut at the maximum log size (strings are cut, numbers that might not fit are left out entirely), followed by exactly one newline; whatever is streamed, in whatever pieces and through whatever front end (stream, pack, macro, printf style), no memory outside the log is written, other logs are unaffected, and later short items are treated the same way.",
 ["inputs","programs"],"all sequences of streamed items and lengths around the size limit, all front ends",
 "test_buffer(_correct) and test_coverage stream fixed items far below or just above the limit.",
 ["fn_stream.h","fn_channel.h","fn_macro.h"],[("bounded appends","fn_stream.h write_buffer, write_longlong, operator<<"),("final clamp and newline","fn_channel.h PushChannel"),("printf front end","fn_macro.h LOG_FORMAT")],
 [("content_, content_len_","line under construction","fn_data.h LogData")],["bytes of the line in the file"])
p("C17","Counters report exactly what was delivered",
 "At any time when no statement is in progress and the queue is drained, a channel's counters equal the number of statements accepted, pushed and processed and the bytes processed (in total and per priority), and each device's counters equal the lines and bytes it delivered (in total and per priority), cumulatively over all sessions of the logger. They never count a refused or filtered log.",
 ["schedules","histories","programs"],"all programs of concurrent logging, filtering and restarts, all schedules",
 "Tests read single counters after single-threaded use.",
 ["fn_channel.h","fn_data.h","fn_core.h"],[("increments at hold, push, process, write","fn_channel.h; fn_out_*_device.h"),("kept over restarts","fn_load.h InitFromYMAL")],
 [("channel_log_fields_, device_log_fields_","counters","fn_data.h Channel")],["GetChannelLog, GetDeviceLog compared with file contents"])
p("C18","UDP output sends one datagram per log; UDP input writes each datagram once",
 "A UDP output sends each admitted log as one datagram with exactly the line's bytes to the configured address, in order, and an unreachable or unopened socket never affects other devices. A UDP input device writes each datagram received on its address exactly once and unaltered (cut at the maximum log size) to its own output, only while enabled, and to no other device.",
 ["inputs","histories","fault_sequences"],"all sequences of logs and datagrams (sizes, binary content), enable/disable and restarts, socket failures",
 "test_udp is not run here; benchmark_udp only sends.",
 ["fn_out_udp_device.h","fn_file.h","fn_channel.h"],[("send","fn_out_udp_device.h; fn_file.h UDPHandler"),("polling input devices","fn_channel.h EnterProcChannel")],
 [("udp_handles_","sockets per device","fn_data.h Logger")],["datagrams at a loopback receiver","lines of the input device's output"])
p("C19","A failing output affects nobody else and recovers",
 "If a device cannot open or write its file, all other devices and channels still deliver every log, nothing blocks or crashes, and the failing device drops only its own lines; it retries no more often than every five seconds of log time and, once opening succeeds again, delivers every further log. Lines that were written before and after the failure stay intact.",
 ["fault_sequences","histories"],"all sequences of open and write failures per device, with log times in between",
 "No test injects an output failure.",
 ["fn_out_file_device.h","fn_file.h"],[("retry throttle","fn_out_file_device.h EnterProcOutFileDevice, OpenFileDevice"),("close on short write","fn_file.h FileHandler::write")],
 [("DEVICE_LOG_LAST_TRY_CREATE_TIMESTAMP/ERROR","last failed open","fn_data.h")],["lines on every device, open attempts"])
p("C20","The line prefix has exactly the requested parts",
 "Every line starts with exactly the requested prefix parts in the fixed order time, priority, thread, logger name, logger description, source file with line, function, each rendered in its documented form with the values of that statement (local time of the statement in milliseconds, the last directory levels of the source path), then one blank and the content; with no prefix requested the line is only the content.",
 ["inputs","configurations"],"all prefix combinations, priorities, times and fixed-offset time zones, source paths, names and descriptions",
 "No test compares a prefix with expected text.",
 ["fn_stream.h","fn_fmt.h","fn_file.h"],[("prefix composition","fn_stream.h LogStream constructor"),("date rendering with cached day","fn_fmt.h write_date_unsafe"),("short path","fn_file.h short_path")],
 [],["first bytes of each line"])
p("C21","Loggers and channels are isolated from each other",
 "Several loggers in one process, and several channels in one logger, never influence each other: starting, stopping, blocking, failing, reconfiguring or destroying one neither loses, delays indefinitely, duplicates nor redirects logs of another.",
 ["schedules","histories","configurations"],"all histories over two or more loggers with several channels each, all schedules",
 "All tests use the one default logger.",
 ["fn_core.h","fn_channel.h","fn_data.h"],[("per logger state, per channel queue and handles","fn_data.h Logger; file handle index channel*MAX_DEVICE_SIZE+device")],
 [("file_handles_, udp_handles_","handles indexed by channel and device","fn_data.h Logger")],["files of every logger and channel"])
p("C22","Screen output shows each admitted log once",
 "A screen device prints each admitted log exactly once with exactly its line, coloured from info priority upwards with the colour closed after the line, and concurrent channels never interleave inside a line.",
 ["schedules","inputs"],"all priorities and contents, all schedules of channels that share the screen",
 "Tests print to the screen but nothing reads it.",
 ["fn_out_screen_device.h"],[("screen lock, render table","fn_out_screen_device.h; fn_fmt.h PRIORITY_RENDER")],
 [("screen_lock_","serialises screen writes","fn_data.h Logger")],["bytes on standard output"])
p("C23","Numbers are rendered exactly",
 "Integers of every type and value are streamed as their exact decimal text, or in decimal, hexadecimal or binary padded with zeros to a requested least width, hexadecimal dumps as their exact bytes, and floating point values with the documented precision.",
 ["inputs"],"all values of all streamable numeric types",
 "test_serialize_integer and test_coverage check samples.",
 ["fn_fmt.h","fn_stream.h"],[("lookup-table rendering","fn_fmt.h write_dec_unsafe, write_hex_unsafe, write_double_unsafe")],
 [],["text of the line"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
