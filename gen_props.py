#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the texts stay readable)."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=state
    if observe: a["observe_at"]=observe
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("F01","A fielded buffer behaves as an ordered multimap of typed occurrences",
  "After any sequence of add, change, delete and delete-all calls on an FML32 buffer, every read call (find, find-last, get, get-alloc, length, presence, occurrence count, find-occurrence, next) returns exactly what a reference map from field to the list of its occurrence values would return, for every field type including nested buffers. Fields are enumerated once each in ascending field order with occurrences in order, deleting an occurrence shifts later ones down, and changing an occurrence beyond the last fills the gap with default values.",
  ["inputs","histories"],"all sequences of modifying and reading calls over all eight field types, any field numbers, value lengths and occurrence numbers",
  "The storage is one packed byte array with per-type offsets that every insertion, growth and deletion has to shift; tests look at a handful of short sequences on one or two fields, while a wrong shift only shows for particular mixes of types, sizes and orders.",
  ["src/fbfr32.h","src/fml32.cpp","include/fml32.h"],
  [("in-place packed storage with per-type offsets","src/fbfr32.h chg/del/delall/erase/shift"),("field lookup","src/fbfr32.h where/wheren"),("iteration","src/fbfr32.h next/iterate")],
  observe=["Ffind32","Fnext32","Foccur32","Fget32"])

p("F02","Failed buffer operations change nothing; space is accounted and respected",
  "An operation on a single field, a copy or a concatenation that reports failure (no space, field not present, bad arguments) leaves every field of the buffer exactly as it was and reports the documented error. At all times the total size equals used plus unused space, an operation never writes outside the buffer, and space freed by deletion is fully reusable so that the used size depends only on the current contents.",
  ["inputs","histories"],"all operation sequences on buffers of any size, including completely full ones, gap filling and resizing",
  "Running out of space part-way through a compound operation needs particular buffer sizes and histories; memory overruns by a few bytes are invisible to a passing unit test.",
  ["src/fbfr32.h","src/fml32.cpp","src/mem.cpp"],
  [("space check before shifting","src/fbfr32.h chg"),("size bookkeeping","src/fbfr32.h init/reinit/used/unused"),("gap filling","src/fbfr32.h chg")],
  observe=["Fsizeof32","Fused32","Funused32","Ferror32"])

p("F03","Whole-buffer operations follow their set definitions",
  "For any two FML32 buffers, copy, concatenate, update, join, outer join, projection, projection-copy and delete-by-list produce exactly the contents their definitions prescribe, leave the source buffer unchanged and always terminate. Occurrences are matched by field and occurrence number, and field lists may be given in any order and with repeats.",
  ["inputs"],"all pairs of buffers and all field lists",
  "The operations iterate over a buffer while editing it; wrong results or endless loops depend on relative occurrence counts in the two buffers that fixed examples do not reach.",
  ["src/fbfr32.h","src/fml32.cpp"],
  [("iterate-and-modify loop","src/fbfr32.h iterate"),("join/ojoin/update/concat/proj/projcpy/xdelete","src/fbfr32.h")],
  observe=["Fjoin32","Fojoin32","Fupdate32","Fconcat32","Fproj32","Fprojcpy32","Fdelete32","Fcpy32"])

p("F04","Binary write then read restores the buffer; truncated input is refused safely",
  "Writing any FML32 buffer to a stream and reading it back into a buffer that is large enough restores identical contents, several buffers can follow each other in one stream, and the size of the receiving buffer is preserved. A stream that ends early or a receiver that is too small is reported as an error and leaves the receiver a valid buffer that can go on being used.",
  ["inputs","fault_sequences"],"all buffer contents, receiver sizes and truncation points",
  "Round-trip loss depends on the mix of fields and on sizes at the exact capacity boundary; truncation can hit any byte.",
  ["src/fbfr32.h","src/fml32.cpp"],
  [("stream image","src/fbfr32.h write/read")],
  observe=["Fwrite32","Fread32"])

p("F05","Printed buffers read back to the same contents",
  "Printing any FML32 buffer whose fields have names and reading the text back yields a buffer with the same fields, occurrences and values: integers, characters, strings and byte arrays exactly, including non-printable bytes, and floating-point values to the printed precision, at any nesting depth. Text that is not in this format is refused with an error, without crashing or changing the receiving buffer.",
  ["inputs"],"all buffer contents (any byte values) and arbitrary input text",
  "Escaping mistakes affect only particular byte values (control bytes, bytes above 127, the escape character itself) and nesting shapes that tests do not enumerate.",
  ["src/fbfr32.h","src/extreader.h","src/basic_parser.h","src/fml32.cpp"],
  [("printer with hex escapes","src/fbfr32.h fprint/print_bytes"),("text reader","src/extreader.h parse_line/value"),("hex escape parser","src/basic_parser.h hex")],
  observe=["Ffprint32","Fextread32"])

p("F06","Conversions between field types follow C conversion rules everywhere",
  "Converting a value between any two non-nested field types gives the C conversion for numbers, decimal text for number-to-string, and parsed text for string-to-number, with the correct result length. Adding, changing, finding and getting with conversion is equivalent to converting first and then performing the plain operation, and unsupported types are refused with an error.",
  ["inputs"],"all values of all pairs of types",
  "The conversion table has 49 entries, each with its own boundary values; tests try seven of them with one value each.",
  ["src/fml32.cpp"],
  [("conversion table","src/fml32.cpp Ftypcvt32"),("converting accessors","src/fml32.cpp CFadd32/CFchg32/CFfind32/CFget32/CFfindocc32")],
  observe=["Ftypcvt32","CFfind32","CFget32","CFadd32","CFchg32"])

p("F07","Equal buffer contents have equal checksums",
  "Two FML32 buffers holding the same fields, occurrences and values have the same checksum no matter by which history of operations each was built or what memory it occupies, and changing, adding or removing any value changes the checksum (up to the collision rate of a 32-bit CRC). A transferred or copied buffer therefore always compares equal to its original.",
  ["inputs","histories"],"all contents and all pairs of construction histories",
  "Padding bytes left over from earlier contents only show up for histories in which longer values were replaced by shorter ones or memory was not zeroed.",
  ["src/fbfr32.h"],
  [("checksum over the packed bytes","src/fbfr32.h chksum"),("padding","src/fbfr32.h chg")],
  observe=["Fchksum32"])

p("F09","Field identifiers and field tables translate both ways",
  "A field identifier is composed of its type and number and decomposes into exactly these, for every legal number; illegal types and numbers are refused. For any field table files the name-to-identifier and identifier-to-name translations agree with the file (base offsets, comments and pass-through lines included), survive unloading either mapping and first use by several threads at once (a name returned stays valid until names are unloaded), and equal the definitions in the header file generated from the same table.",
  ["inputs","configurations"],"all types and numbers, all field table files and search paths",
  "Tests use one small table; number ranges, base lines, several files and directories and unload orders are not varied.",
  ["src/fbfr32fld.h","src/fieldtbl32.h","src/mkfldhdr32.cpp","src/fml32.cpp"],
  [("table parser","src/fieldtbl32.h"),("lazy load and unload","src/fbfr32fld.h"),("header generator","src/mkfldhdr32.cpp")],
  observe=["Fldid32","Fname32","Fmkfldid32","mkfldhdr32"])

p("E01","Boolean and arithmetic expressions evaluate to their defined value",
  "For every well-formed expression and every FML32 buffer, evaluation yields the value given by the documented operators, precedence and associativity: arithmetic, comparison of numbers and strings, pattern match, logical operators, field references with any, given or any-matching occurrence, and absent fields. Evaluation never modifies the buffer.",
  ["inputs","programs"],"all expression trees and all buffer contents",
  "Operator precedence, mixed types and occurrence handling combine to far more cases than the few dozen expressions of the test suite.",
  ["src/expr.cpp","src/fml32.cpp"],
  [("recursive descent parser","src/expr.cpp"),("tree evaluator","src/expr.cpp boolev/floatev")],
  observe=["Fboolco32","Fboolev32","Ffloatev32"])

p("E02","A compiled expression prints back to an equivalent expression",
  "Printing a compiled expression gives text that compiles again, evaluates to the same result as the original on every buffer, and prints to the same text once more. White space and redundant parentheses in the source do not change the outcome.",
  ["programs"],"all expression trees and layouts",
  "Only a few fixed expressions are printed by tests and none is compiled again.",
  ["src/expr.cpp"],[("printer","src/expr.cpp Fboolpr32"),("parser","src/expr.cpp Fboolco32")],
  observe=["Fboolpr32"])

p("E03","Any expression text is compiled or refused cleanly",
  "For arbitrary text the compiler either returns a usable tree or fails with a syntax error; it never crashes, hangs, corrupts memory or accepts text that continues after a complete expression. Evaluating any tree it returned on any buffer, including division by zero and overlong literals, returns a value or an error and never terminates the process.",
  ["inputs"],"arbitrary text and arbitrary buffers",
  "Crashes need unusual input (very long literals, huge numbers, bad patterns, zero divisors), which example-based tests do not contain.",
  ["src/expr.cpp","src/basic_parser.h","src/fml32.cpp"],
  [("tree memory management","src/expr.cpp ast_tree::insert"),("evaluator","src/expr.cpp")],
  observe=["Fboolco32","Fboolev32","Ffloatev32"])

p("M01","Typed buffers keep contents and type across resizing",
  "An allocated typed buffer has at least the requested size, and never less than the default of its type, reports its size and the type and subtype it was created with, and keeps its contents and identity across any sequence of resizes that do not cut into the data, and all buffers are independent of each other. Unknown types, null arguments and more memory than there is are refused with the documented error.",
  ["inputs","histories"],"all types, sizes and sequences of allocate, resize, use and free",
  "Memory overlap or a lost size update only appears with particular size sequences and under a memory checker.",
  ["src/mem.cpp","src/fbfr32.h"],
  [("buffer header","src/mem.cpp tpmem"),("type table","src/mem.cpp _tptypes")],
  observe=["tpalloc","tprealloc","tptypes","tpfree"])

p("M02","Exported buffers import unchanged, in binary and in text form",
  "Exporting a typed buffer of any type and importing it into any other typed buffer, however small, yields the same type and the same contents, both in binary and in text form; the text form uses only the base64 alphabet and is exactly as long as reported. Too small an output area is refused and the required size reported, and text that is not a valid encoding is refused.",
  ["inputs"],"all types, contents, sizes modulo three and receiver sizes",
  "Encoding errors depend on exact lengths and byte values; tests use two lengths.",
  ["src/mem.cpp","src/base64.cpp","src/misc.h"],
  [("export/import","src/mem.cpp tpexport/tpimport"),("base64 codec","src/base64.cpp")],
  observe=["tpexport","tpimport"])

p("I01","Messages of every size arrive intact, once and in order",
  "Every message put on a queue is received exactly once with identical header and payload regardless of its size, whether it fits in the kernel queue or has to travel through a file, and messages of one type arrive in sending order. A receiver asking for a particular type or for the most urgent message gets exactly that, and after receipt no temporary file remains.",
  ["inputs","histories"],"all payload sizes and contents, all interleavings of sends and receives on a queue",
  "The switch between the two transports depends on an exact byte count and header fields are copied separately for each; tests send one size for each.",
  ["src/ipc.cpp","src/ipc.h"],
  [("queue or file transport","src/ipc.cpp qsend/qrecv")],
  observe=["qsend","qrecv"])

p("B01","The shared registry stays consistent with every registration history",
  "After any history of registering machines, groups, servers, queues, services, clients and advertisements, looking any of them up gives what was registered, entries do not disturb each other, registering the same thing twice does not duplicate it, and withdrawing an advertisement removes only that advertisement. When the configured capacity is reached the registration is refused and the registry keeps its previous contents.",
  ["histories","configurations"],"all registration histories and all capacity limits",
  "Capacity limits and reuse of freed slots are reached only by long histories with small limits; tests make one registration each.",
  ["src/mib.cpp","src/mib.h","src/mibtypes.h"],
  [("fixed-size tables in shared memory","src/mib.cpp make_*/find_*"),("advertise and unadvertise","src/mib.cpp")],
  observe=["mib"])

p("C01","A configuration file is loaded faithfully",
  "For every valid configuration the stored configuration reproduces the source text, and the running system derives from it exactly the machine, groups, servers (with the right identifiers, instance counts, request queues, command line options and resource manager strings), limits and timing defaults that the text specifies, independent of layout, comments and parameter order. Parameters left out take their documented defaults.",
  ["configurations"],"all valid configurations",
  "The parameters combine freely; the tests' configurations are few and all alike.",
  ["src/ubbreader.h","src/ubb2mib.cpp","src/tmloadcf.cpp","src/tmunloadcf.cpp","src/ubb.h","src/mib.cpp"],
  [("configuration parser","src/ubbreader.h"),("translation to the registry","src/ubb2mib.cpp")],
  observe=["tmloadcf","tmunloadcf","tmboot -n","mib"])

p("C02","Invalid configurations are refused and the previous one is kept",
  "Loading a configuration that is syntactically wrong, lacks a mandatory section or parameter, or refers to undefined groups fails with a message and a non-zero status, and a check-only load never writes anything. In both cases the previously loaded configuration stays byte for byte as it was.",
  ["configurations","inputs"],"all texts derived from valid configurations by damage, and the check-only mode",
  "There is no test of rejection; each kind of damage at each place is a different path.",
  ["src/ubbreader.h","src/ubb2mib.cpp","src/tmloadcf.cpp"],
  [("parse errors","src/ubbreader.h"),("validation before writing","src/tmloadcf.cpp")],
  observe=["tmloadcf"])

p("X01","A service call delivers request and reply data unchanged",
  "For every buffer type, size and content, the service receives exactly the request data and length, and the caller receives exactly the data the service returned, with the type and length of the reply, whether the reply buffer passed in is smaller, larger or of another type; calls without data work too. This holds for synchronous calls, for forwarded requests and for nested calls made inside services.",
  ["inputs"],"all buffer types, contents and sizes up to megabytes, any receiving buffer, direct, forwarded and nested calls",
  "Transport, resizing and type change depend on size and type pairs; the tests send a few short strings.",
  ["src/client.cpp","src/server.cpp","src/ipc.cpp","src/mem.cpp"],
  [("request/reply marshalling","src/ipc.cpp msg::set_data/get_data"),("client call path","src/client.cpp"),("dispatcher","src/server.cpp")],
  observe=["tpcall","tpreturn","tpforward"])

p("X02","Every asynchronous reply reaches the request that asked for it",
  "Whatever the order in which requests are sent, answered, collected by descriptor, collected as any, or cancelled, each outstanding descriptor yields exactly the reply to its own request once, cancelled and no-reply requests never yield a reply, and unknown or used descriptors are refused. Every request is executed by exactly one server even with many clients, threads and servers at work.",
  ["schedules","histories"],"all interleavings of sending, answering, collecting and cancelling over several clients and servers",
  "Correlation errors need replies arriving out of order, stale replies of cancelled calls or descriptor reuse; sequential tests never produce these.",
  ["src/client.cpp","src/resp.h","src/server.cpp"],
  [("descriptor allocation and reply buffering","src/client.cpp, src/resp.h")],
  observe=["tpacall","tpgetrply","tpcancel"])

p("X03","The outcome chosen by a service is what the caller sees",
  "Whatever return value, user code and data a service returns with, directly or after any chain of forwards, the caller sees success or the matching failure code, the user return code and the reply data exactly as given by the service that finally returned. A service that never returns properly is reported to the caller as a service error, and calls to services nobody offers fail at once as no entry.",
  ["inputs","programs"],"all outcomes, user codes and forwarding chains",
  "Combinations of outcome, code, data and forwarding are not enumerated by the tests, and several rarely used outcomes have no test at all.",
  ["src/server.cpp","src/client.cpp"],
  [("tpreturn mapping","src/server.cpp tpreturn"),("reply decoding","src/client.cpp tpgetrply")],
  observe=["tpcall","tpurcode","tperrno"])

p("X04","A request runs the function currently advertised for its service",
  "At any point of any history of advertising and withdrawing services in several servers, a call succeeds if and only if some server currently offers the service, and it runs the function that server advertised for that name. Advertising the same function again is harmless, advertising a different function under an active name is refused, and an offered service survives withdrawal by other servers.",
  ["histories"],"all histories of advertise, withdraw and call over several servers and service names",
  "Wrong routing after a slot is freed and reused, or after one of several providers withdraws, needs specific histories.",
  ["src/server.cpp","src/svcrepo.h","src/mib.cpp"],
  [("advertisement tables","src/mib.cpp advertise/unadvertise"),("service lookup","src/svcrepo.h"),("dispatch table","src/server.cpp")],
  observe=["tpadvertise","tpunadvertise","tpcall"])

p("X05","Errors are reported precisely and per thread",
  "Every call of the request, buffer and advertisement interfaces made with invalid arguments, or in the wrong state or context (client or server), fails with the documented code without any other effect, a successful call clears the previous code, and each code has a message. Error state in one thread is never disturbed by calls made in other threads.",
  ["inputs","schedules"],"all call sequences with valid and invalid arguments over several threads",
  "Argument combinations are many and cross-thread disturbance only shows with concurrency.",
  ["src/xatmi.cpp","src/client.cpp","src/mem.cpp","src/fml32.cpp"],
  [("thread-local error state","src/xatmi.cpp, src/fml32.cpp"),("argument checks","src/client.cpp, src/mem.cpp")],
  observe=["tperrno","Ferror32"])

p("X06","Starting and stopping a domain is complete and leaves nothing behind",
  "Booting any valid configuration starts every configured server instance, exactly once, with its configured group, identifier and name, and shutting down terminates all of them and removes every queue, semaphore and shared memory segment, also after repeated boots, boots of a part of the domain and killed servers. After a crash the clean-up tool finds and removes the same resources.",
  ["configurations","histories","crash_points"],"all configurations, sequences of partial and full boots, shutdowns and kills",
  "Leaks and duplicate starts depend on order and partial states; tests always boot and stop the same way.",
  ["src/tmboot.cpp","src/tmshutdown.cpp","src/tmipcrm.cpp","src/mib.cpp","src/BBL.cpp","src/server.cpp"],
  [("boot order and process start","src/tmboot.cpp"),("shutdown","src/tmshutdown.cpp"),("clean-up","src/tmipcrm.cpp")],
  observe=["tmboot","tmshutdown","tmipcrm","ipcs"])

p("X07","Call time limits follow the configured and overridden block time",
  "The block time in force is the next-call setting if present, else the thread-wide setting, else the configured default, and reading it back returns what was set in the unit it was set in; the next-call setting is used up by exactly one call. A call never fails as timed out before its limit and does fail when the service takes substantially longer, and a late reply never disturbs later calls.",
  ["histories","inputs"],"all sequences of setting, reading and calling, with replies earlier and later than the limit",
  "The precedence rules form histories; stale replies after a timeout need a follow-up call to show.",
  ["src/client.cpp","src/mib.h"],
  [("block time settings","src/client.cpp tpsblktime/tpgblktime"),("timed receive","src/client.cpp")],
  observe=["tpsblktime","tpgblktime","tpcall"])

p("X08","Server hooks run in order, and a server that fails to start offers nothing",
  "In every started server tpsvrinit runs exactly once and completes before any of its services executes, and on an orderly shutdown tpsvrdone runs exactly once after all of its services have completed, whose callers get their replies. With a pool of dispatch threads tpsvrthrinit runs once in each thread before the thread's first request and tpsvrthrdone once after its last; a thread whose tpsvrthrinit failed never serves. A server whose tpsvrinit or initial advertisement fails, or which dies in it, is reported as failed by tmboot, executes nothing, and none of its services is callable because of it (offers of the same name by other servers are not affected); it can be booted again later.",
  ["histories","fault_sequences"],"all domains of servers with and without threads, hook outcomes, boots, shutdowns and calls in progress",
  "Tests start servers whose hooks succeed; failing hooks, partial advertisement, several threads and calls during shutdown are combinations.",
  ["src/server.cpp","src/tmboot.cpp","src/tmshutdown.cpp","src/mib.cpp"],
  [("start, hooks and end of a server","src/server.cpp _tmstartserver, thread_dispatch"),("a server that failed","src/tmboot.cpp start")],
  observe=["tpsvrinit","tpsvrdone","tpsvrthrinit","tpsvrthrdone","tmboot","tpcall"])

p("T01","Transaction demarcation follows the TX state machine",
  "For every sequence of transaction calls, in unchained and chained mode, each call succeeds or is refused as the TX specification prescribes for the current state, the reported transaction information matches, and the resource manager is driven through open, start, end, prepare or one-phase commit, commit or rollback, and close in legal order with one and the same transaction identifier per transaction. Any number of transactions can be run one after another.",
  ["histories","fault_sequences"],"all sequences of TX calls with all resource manager outcomes",
  "State errors need particular call orders, repeated transactions or resource manager failures, none of which the tests produce.",
  ["src/tx.cpp","src/trx.cpp","src/trx.h"],
  [("TX state machine","src/tx.cpp"),("resource manager calls","src/tx.cpp")],
  observe=["tx_begin","tx_commit","tx_rollback","tx_info"])

p("T02","Transaction identifiers are unique, portable and tracked faithfully",
  "Every generated transaction identifier differs from all others, and converts to text and back without loss, while text that is not the form of an identifier is refused. The transaction table returns for each transaction the groups that joined it and their recorded states, transactions do not disturb each other, and when the table is full the next transaction is refused.",
  ["inputs","histories"],"all identifiers (any length and bytes) and all histories of begin, join, update and finish",
  "Tests use one identifier and one entry; lengths, byte values and table exhaustion are open-ended.",
  ["src/trx.cpp","src/trx.h"],
  [("text form of identifiers","src/trx.cpp to_string/to_xid"),("transaction table","src/trx.h transaction_table")],
  observe=["to_string","to_xid","transaction_table"])

p("T03","A global transaction ends the same way in every group that took part",
  "When a transaction spans services in several resource manager groups, a successful commit commits the work in every group that took part and a rollback, a failed service or a refusal to prepare in any group rolls it back in every group; no participant is left undecided. Work of calls made outside the transaction is unaffected and each group is decided exactly once.",
  ["histories","fault_sequences"],"all assignments of calls to groups, service outcomes, prepare votes and commit or rollback decisions",
  "Atomicity across groups can only be judged over many combinations of votes and outcomes with a recording resource manager.",
  ["src/tx.cpp","src/trx.cpp","src/TMS.cpp","src/server.cpp","src/client.cpp"],
  [("coordinator","src/tx.cpp"),("transaction manager server","src/TMS.cpp"),("participation in services","src/server.cpp")],
  observe=["tx_commit","tx_rollback","xa switch"])

p("A01","Administrative queries show the true state of the system",
  "At any time the administrative service returns for the domain, the machine, servers, services, advertised services and queues exactly the entities that exist, with attribute values equal to the configuration and the current advertisements, and requests for unknown classes or operations are refused. The interactive administration tool prints the same queues.",
  ["configurations","histories"],"all configurations and advertisement histories",
  "Tests query one class in one state.",
  ["src/tpadmcall.cpp","src/tmadmin.cpp","src/mib.cpp"],
  [("administrative requests","src/tpadmcall.cpp"),("administration tool","src/tmadmin.cpp")],
  observe=["tpadmcall","tmadmin"])

p("U01","Every log call appends exactly one complete line with its message",
  "Each log call, from any process or thread and with any message text or length, appends its message once, unbroken and attributed to the program and process, to the log file selected by the environment, without disturbing what is already there. The call never crashes, whatever the length of message.",
  ["inputs","schedules"],"all messages, lengths and concurrent writers",
  "Interleaving of concurrent writers and overlong messages are not tested.",
  ["src/userlog.cpp"],[("single write per line","src/userlog.cpp")],
  observe=["userlog"])

p("V01","View headers describe structures that match the view file",
  "For every valid view file the generated header compiles and declares, for its view, a structure whose members have the declared names, types, lengths and array counts in order, plus the requested count and length members. Invalid view files are refused without leaving a partial header.",
  ["inputs"],"all view files",
  "Tests compile one view; combinations of types, counts, flags and sizes are open-ended.",
  ["src/view32.h","src/viewc32.cpp"],
  [("view parser","src/view32.h"),("header generator","src/viewc32.cpp")],
  observe=["viewc32"])

p("D01","The driver tool sends exactly the request described in its input",
  "The command line driver sends exactly one request to the service named in its input, with exactly the fields that the input describes, inside a transaction if asked to (or not at all if it cannot start one), and prints the request and the reply in a form that describes exactly their fields. Malformed input sends nothing and ends with an error and a non-zero status.",
  ["inputs"],"all described buffers, replies and options",
  "Only one or two fixed requests are driven by tests.",
  ["src/ud32.cpp","src/extreader.h"],[("request loop","src/ud32.cpp")],
  observe=["ud32"])

p("G01","Built programs offer and use exactly what the build options say",
  "A server built with buildserver lists and, when booted, offers exactly the given services, each run by the given function, opens the resource manager chosen by name in the list of resource managers and no other, and serves requests concurrently only if built with threads. Transaction managers and clients built with buildtms and buildclient work likewise. Compiler, flags and files are used as given; builds that cannot succeed end with a message and a non-zero status, and nothing else is left in the directory.",
  ["inputs","configurations"],"all service mappings, sources, options, compilers and lists of resource managers",
  "Tests build two servers and do not run them.",
  ["src/buildserver.cpp","src/buildclient.cpp","src/buildtms.cpp","src/build.h","src/server.cpp"],
  [("code generator","src/buildserver.cpp gencode"),("list of resource managers","src/build.h parse_rm"),("dispatch table","src/server.cpp _tmstartserver")],
  observe=["buildserver","buildclient","buildtms","SERVER -v"])

if __name__=="__main__":
    with open("/verif/properties.jsonl","w") as f:
        for x in P:
            assert len(x["title"])<=80,(x["id"],len(x["title"]))
            f.write(json.dumps(x)+"\n")
    print(len(P))
