"""Which harnesses decide which property, with their bounds."""
from vf import Harness as H
COMMON = []
ASSUMPTIONS = {}
NA = {}
NOTE = {}
IDX = ["src/mws/index/TmpIndex.cpp", "src/mws/index/memsector.c", "src/common/utils/mmap.c"]
SEARCH = IDX + ["src/mws/query/SearchContext.cpp", "src/mws/index/ExpressionEncoder.cpp", "src/mws/dbc/DbQueryManager.cpp", "src/mws/types/CmmlToken.cpp"]

FS = {k: "vf_" + k for k in "fopen fclose fread fwrite fseek ftell ferror feof fflush open close read write lseek fstat mmap munmap unlink fileno fdopen stat lstat access ftruncate msync madvise fsync remove pread".split()}


def harnesses(prop):
    return T[prop]()


T = {}
T["P01"] = lambda: [
    H("search", "search.cpp", SEARCH, reach=["repeated variable matched", "constant matched", "nothing matches", "two match", "empty index"],
      bounds="0..2 index terms and 1 query term of up to 4 tokens, arity <= 2, 2 named variables plus anonymous ones, token ids arbitrary 24-bit",
      defs={"NF": 2, "NT": 4, "NQ": 4}, thorough={"defs": {"NT": 5, "NQ": 5}, "time": 800}),
    H("searchmany", "searchmany.cpp", SEARCH, rename=FS, defs={"MODE": 1}, steps=40000000, time=300, reach=["nothing matches", "one matches", "many match"],
      bounds="indexes of 10..514 terms of one or two symbols, of 10..128 with two arguments, of terms 3..66 levels deep, of terms with 9..255 arguments; queries with up to 32 variables, all different, repeated or mixed with symbols, one of them arbitrary of 4"),
]

T["P02"] = lambda: [
    H("window", "window.cpp", SEARCH + ["src/mws/dbc/MemFormulaDb.cpp"], reach=["slice starts inside an entry", "slice cut by the total limit", "full page", "empty page"],
      bounds="3 index terms with 1..3 hits each; offset, size and total limit arbitrary 32-bit", thorough={"defs": {"NF": 4, "MAXH": 4}, "time": 700}),
    H("windowmany", "window.cpp", SEARCH + ["src/mws/dbc/MemFormulaDb.cpp"], defs={"NF": 40, "MANY": ""}, steps=40000000, reach=["slice starts inside an entry", "slice cut by the total limit", "full page", "empty page"],
      bounds="40 index terms with 1..3 hits, one with 120; 12 offsets, 14 sizes, 8 total limits"),
]

T["P03"] = lambda: [
    H("range", "range.cpp", SEARCH, reach=["two ranges", "range after variable", "range alone", "range then constant"],
      bounds="interval bounds arbitrary doubles (not NaN); 4 index terms over 6 constants (numbers and non-numbers); 5 query forms with up to 2 ranges",
      thorough={"defs": {"NP": 9}, "time": 700}),
    H("rangebounds", "rangebounds.cpp", SEARCH, reach=["no lower bound, negative number", "lower end point", "upper end point", "outside"],
      bounds="bounds present or absent, bounds and number each from 16 literals (negative, large, close to each other, with exponent, with leading zeros)"),
    H("rangemany", "rangemany.cpp", SEARCH, steps=40000000, time=300, reach=["none", "one", "many", "compound"],
      bounds="40 constants (30 numbers), 40..60 terms of 1..3 constants; queries of 1..3 ranges and variables; intervals of 4 by 4 bounds, or one bound an arbitrary double"),
]

T["P05"] = lambda: [
    H("export", "export.cpp", SEARCH, rename=FS, reach=["two answers", "compound term"],
      bounds="indexes of 1..2 terms of up to 3 tokens, arity <= 3, arbitrary ids and hit counts; one lookup of an arbitrary token; one query per index",
      thorough={"defs": {"NF": 3}, "time": 700}),
    H("longexport", "longexport.cpp", SEARCH, time=300, rename=dict(FS, fwrite="vf_fwrite_jump"), reach=["both node forms", "short nodes only"],
      bounds="one index of 4 terms, 4 inner nodes; the image grows by an arbitrary amount (< 4 TB) after each of two chosen leaves"),
    H("longoffset", "longoffset.cpp", ["src/mws/index/memsector.c", "src/common/utils/mmap.c"], rename=FS, reach=["long node", "short node"],
      bounds="one leaf and its parent at arbitrary file positions below 4 TB"),
    H("searchmany", "searchmany.cpp", SEARCH, rename=FS, defs={"MODE": 5}, steps=40000000, time=300, reach=["nothing matches", "one matches", "many match"],
      bounds="indexes of 10..514 terms of one or two symbols, of 10..128 with two arguments, of terms 3..66 levels deep, of terms with 9..255 arguments; queries with up to 32 variables, all different, repeated or mixed with symbols, one of them arbitrary of 4"),
]

T["P06"] = lambda: [
    H("loadarb", "loadarb.cpp", ["src/mws/index/memsector.c", "src/common/utils/mmap.c"], rename=FS, reach=["accepted", "root outside", "checksum mismatch", "cut short", "bad magic"],
      bounds="file of 0..48 arbitrary bytes; checksum value arbitrary"),
    H("crc", "crc.cpp", ["third_party/common/crc32/crc32.c"], reach=["incremental", "bytes", "state", "empty", "standard"],
      bounds="one step from every checksum state; data of any length by composition of the steps"),
    H("savefail", "savefail.cpp", SEARCH + ["third_party/common/crc32/crc32.c"], rename=FS, reach=["write failed", "altered", "truncated", "load failed", "loaded"],
      bounds="two small indexes; one failing write or system call at every position; two bit flips of every byte, every truncation length"),
    H("bigimage", "bigimage.cpp", ["src/mws/index/memsector.c", "src/common/utils/mmap.c", "third_party/common/crc32/crc32.c"], rename=FS, steps=60000000, time=300, reach=["altered", "truncated", "loaded", "outside"],
      bounds="images of 7 sizes from 8 to 300000 bytes written in 1..3 pieces; two alterations of each of up to 20 bytes, ten truncation lengths"),
]

T["P07"] = lambda: [
    H("engine", "engine.cpp", SEARCH + ["src/mws/query/engine.c"], rename=FS, reach=["two match", "nothing matches", "stopped", "repeated variable"],
      bounds="1..2 index terms and one query of up to 3 tokens, arity <= 2, arbitrary constant ids, variables at the edges of the id ranges; stop at any result",
      thorough={"defs": {"NT": 4, "NQ": 4}, "time": 700}),
    H("enginelimits", "enginelimits.cpp", SEARCH + ["src/mws/query/engine.c"], rename=FS, reach=["found", "limit"], steps=20000000,
      bounds="terms and queries of up to 1800 tokens around the limits of 256 and 512; arbitrary symbols"),
    H("searchmany", "searchmany.cpp", SEARCH + ["src/mws/query/engine.c"], rename=FS, defs={"MODE": 7}, steps=40000000, time=300, reach=["nothing matches", "one matches", "many match"],
      bounds="indexes of 10..514 terms of one or two symbols, of 10..128 with two arguments, of terms 3..66 levels deep, of terms with 9..255 arguments; queries with up to 32 variables, all different, repeated or mixed with symbols, one of them arbitrary of 4"),
]

ENC = ["src/mws/index/ExpressionEncoder.cpp", "src/mws/types/CmmlToken.cpp"]
T["P08"] = lambda: [
    H("encode", "encode.cpp", ENC, reach=["same term", "unknown symbol"], defs={"NA_": 3, "NB_": 2},
      bounds="every pair of ground terms with up to 3 and 2 nodes (thorough: 3 and 3), arity <= 2, one arbitrary byte in the tag and one in the text of every node",
      thorough={"defs": {"NB_": 3}, "time": 700}),
    H("encvars", "encvars.cpp", ENC, reach=["two named variables", "described", "query", "harvest"],
      bounds="every tree of up to 4 nodes, arity <= 3, of constants, named variables (named by attribute or text), anonymous variables and ranges; arbitrary one-byte names"),
    H("enclimits", "enclimits.cpp", ENC, reach=["arity kept", "arity refused", "many kept apart", "too many refused"],
      bounds="arity 253..258; 29..34 variables or ranges of each kind; every number of known symbols up to 2^25"),
    H("enclong", "enclong.cpp", ENC, steps=40000000, reach=["many", "same long symbol", "different long symbols"],
      bounds="symbols of 7..4097 bytes (element name or text) which differ in one arbitrary byte or one byte of length; terms of 10..254 arguments which differ in one arbitrary byte"),
]

T["P09"] = lambda: [
    H("rename", "rename.cpp", ENC, reach=["equal up to renaming", "really renamed"], defs={"NA_": 3, "NB_": 3},
      bounds="every pair of terms with up to 3 nodes each, arity <= 3, of apply, cn and ci with one arbitrary byte of text",
      thorough={"defs": {"NA_": 4, "NB_": 3}, "time": 800}),
    H("renamelen", "rename.cpp", ENC, reach=["equal up to renaming", "really renamed"], defs={"NA_": 2, "NB_": 2, "LENGTHS": ""},
      bounds="every pair of terms with up to 2 nodes each, texts of 0..2 arbitrary bytes"),
    H("renamestar", "rename.cpp", ENC, reach=["equal up to renaming", "really renamed"], defs={"STAR": 4},
      bounds="every pair of applications of a function to 3 identifiers (thorough: 4) with arbitrary one-byte names",
      thorough={"defs": {"STAR": 5}, "time": 800}),
    H("renamemany", "enclong.cpp", ENC, steps=40000000, defs={"RENAME": ""}, reach=["equal up to renaming", "different"],
      bounds="applications of a function to 9..120 different identifiers, one of them repeated, and the same with other identifiers"),
]

TREE = ["src/mws/types/CmmlToken.cpp"]
T["P13"] = lambda: [
    H("tree", "tree.cpp", TREE, reach=["wide", "deep"],
      bounds="every tree shape of up to 5 nodes (thorough: 6) and one with 12 children; arbitrary tag bytes, with and without name space prefix",
      thorough={"defs": {"NT": 6}, "time": 700}),
    H("treeeq", "treeeq.cpp", TREE, reach=["equal", "different"], defs={"NA_": 3, "NB_": 2},
      bounds="every pair of trees with up to 3 and 2 nodes (thorough: 3 and 3), constants, mtext, variables and ranges with one arbitrary byte each",
      thorough={"defs": {"NB_": 3}, "time": 700}),
    H("treetext", "treetext.cpp", TREE, reach=["no white space", "some white space", "same attribute twice"],
      bounds="3 pieces of text of 0..2 arbitrary bytes, two attributes, a tag of 0..4 arbitrary bytes"),
    H("treelong", "tree.cpp", TREE, reach=["wide", "deep", "both"], defs={"LONG": ""}, steps=60000000, time=300,
      bounds="trees with 30, 120 or 260 children, of 20 or 70 levels, and of 15 levels with 12 children each"),
]

T["P23"] = lambda: [
    H("vmap", "vmap.cpp", [], time=600, reach=["all different", "one repeated"], bounds="every sequence of up to 4 insertions (thorough: 5) and one lookup of arbitrary 32-bit keys",
      thorough={"defs": {"NK": 5}, "time": 800}),
    H("vmapmany", "vmapmany.cpp", [], reach=["found", "not found"], bounds="maps and stored nodes of 5..257 keys inserted in four orders; one lookup of an arbitrary key"),
    H("vmaporder", "vmap.cpp", [], reach=["all different", "one repeated"], bounds="every sequence of up to 3 insertions (thorough: 4) and its reverse, arbitrary 32-bit keys",
      defs={"NK": 3, "REV": ""}, thorough={"defs": {"NK": 4}, "time": 700}),
]

T["P25"] = lambda: [
    H("iter", "iter.cpp", SEARCH, rename=FS, reach=["two candidates", "three candidates", "started again", "inner position", "empty index", "long nodes"],
      bounds="indexes of 0..3 terms of up to 3 tokens (thorough: 4), arity <= 2, arbitrary constant ids; every start position on the first term; both index forms, the image also with 64-bit offsets in all nodes, the root or the nodes below it",
      thorough={"defs": {"NT": 4}, "time": 800}),
    H("searchmany", "searchmany.cpp", SEARCH, rename=FS, defs={"MODE": 5}, steps=40000000, time=300, reach=["nothing matches", "one matches", "many match"],
      bounds="indexes of 10..514 terms of one or two symbols, of 10..128 with two arguments, of terms 3..66 levels deep, of terms with 9..255 arguments; queries with up to 32 variables, all different, repeated or mixed with symbols, one of them arbitrary of 4"),
]

T["P04"] = lambda: [
    H("indexing", "indexing.cpp", SEARCH + ["src/mws/index/IndexBuilder.cpp", "src/mws/dbc/MemFormulaDb.cpp"],
      reach=["repeated subterm", "in two formulas", "not contained"],
      bounds="2 formulas of up to 3 and 2 nodes (thorough: 3 and 3), arity <= 2, one arbitrary byte per symbol: every subterm; 1 formula of up to 3 nodes: every other term of up to 3 nodes",
      thorough={"defs": {"NT2": 3}, "time": 850}),
    H("indexmany", "indexing.cpp", SEARCH + ["src/mws/index/IndexBuilder.cpp", "src/mws/dbc/MemFormulaDb.cpp"], reach=["repeated subterm", "in many formulas"],
      defs={"MANY": "", "NF": 40}, steps=60000000, time=300,
      bounds="40 formulas which share most of their 7..47 subterms, one 30 levels deep, one with 43 arguments, one arbitrary symbol; every subterm of 6 of them"),
    H("statistics", "statistics.cpp", SEARCH + ["src/mws/index/IndexBuilder.cpp", "src/mws/dbc/MemFormulaDb.cpp"], rename=dict(FS, fprintf="vf_fprintf", vfprintf="vf_vfprintf"), defs={"NT": 2}, reach=["shared between files", "log cannot be opened"],
      bounds="1..2 files, harvests of 1..2 formulas of up to 2 nodes (thorough: 3) or other files, an arbitrary letter in each; no log, a log or one that cannot be opened", thorough={"defs": {"NT": 3}, "time": 500}),
]

DB = ["src/mws/dbc/MemFormulaDb.cpp", "src/mws/dbc/LevFormulaDb.cpp", "src/mws/dbc/MemCrawlDb.cpp", "src/mws/dbc/LevCrawlDb.cpp", "src/common/types/Parcelable.cpp"]
T["P11"] = lambda: [
    H("formuladb", "formuladb.cpp", DB, reach=["disk", "memory", "several on disk", "stopped"],
      bounds="0..2 insertions (thorough: 3), ids 1, 2, 10, 11, 2^32-1, arbitrary position bytes, arbitrary 32-bit window, failure of the callback at the first or second entry; both backends",
      thorough={"defs": {"NI": 3}, "time": 700}),
    H("formulaorder", "formuladb.cpp", DB, reach=["disk", "memory", "several on disk", "stopped"], defs={"ORDER": ""},
      bounds="11 and 101 insertions, 5 of them with an arbitrary choice of two ids, counters with one to three digits; windows at both ends"),
    H("formulamany", "formuladb.cpp", DB, reach=["disk", "memory", "several on disk", "stopped"], defs={"ORDER": "", "MANY": ""}, steps=60000000, time=300,
      bounds="302 insertions, positions of up to 70000 bytes; windows at both ends and around 100, 128, 200 and 256"),
]
T["P12"] = lambda: [
    H("crawldb", "crawldb.cpp", DB, reach=["reopened", "unknown id", "store failed"],
      bounds="0..3 records of 0..2 arbitrary bytes, ids of one and two digits, failing stores, unknown ids, both backends", thorough={"defs": {"LEN": 4}, "time": 700}),
    H("parcel", "parcel.cpp", DB, reach=["round trip", "rejected", "accepted", "document read", "document rejected"],
      bounds="three strings of 0..2 arbitrary bytes; 0..28 arbitrary bytes to decode"),
    H("crawldbmany", "crawldb.cpp", DB, reach=["reopened", "unknown id", "store failed"], defs={"MANY": ""}, steps=60000000, time=300,
      bounds="5..261 records, of 0..70000 bytes, two arbitrary"),
    H("parcellong", "parcel.cpp", DB, reach=["round trip", "long"], defs={"LONG": ""}, steps=60000000, time=300,
      bounds="three strings of 0..70000 bytes, two arbitrary"),
]
T["P10"] = lambda: [
    H("dict", "dict.cpp", [], reach=["put again", "unknown", "save failed", "all different, reloaded"],
      bounds="every history of 3 put/get operations (thorough: 4) with keys of 1..2 arbitrary non-zero bytes, then save and load or a failing save or load",
      thorough={"defs": {"NOPS": 4}, "time": 800}),
    H("dictmany", "dictmany.cpp", [], steps=40000000, reach=["many", "long"], bounds="10..300 symbols; symbols of 7..4097 bytes which differ only in an arbitrary byte at the end, or where the other ends"),
]
FMT = ["src/mws/xmlparser/%sResponseFormatter.cpp" % x for x in ("MwsXml", "MwsJson", "MwsIds", "SchemaJson", "SchemaXml")] + ["src/mws/types/CmmlToken.cpp"]
T["P16"] = lambda: [
    H("formats", "formats.cpp", FMT, rename=FS, reach=["two hits in XML", "two hits in JSON", "two schemata in XML", "two schemata in JSON", "several formula ids"],
      bounds="answer sets of 0..2 hits, 0..2 variables, 0..3 formula ids, 0..2 schemata; texts with an arbitrary byte among markup characters; arbitrary totals and ids in JSON"),
    H("manyhits", "formats.cpp", FMT, rename=FS, steps=80000000, defs={"MANY": ""}, reach=["two hits in XML", "two hits in JSON", "two schemata in XML", "two schemata in JSON", "several formula ids", "many"],
      bounds="9..130 hits, variables or formula ids, 9..100 schemata or members of one; texts of up to 5000 bytes"),
    H("formatfail", "formats.cpp", FMT, rename=FS, defs={"FAULTS": 48}, reach=["failed"],
      bounds="the same answer sets, one failing call of the XML writer at every position"),
    H("escape", "escape.cpp", ["src/common/utils/util.cpp"], reach=["control", "plain", "long"],
      bounds="strings of 0..3 arbitrary bytes"),
]
SCH = ["src/mws/daemon/SchemaQueryHandler.cpp", "src/mws/query/SchemaEngine.cpp"] + ENC
T["P17"] = lambda: [
    H("schema", "schema.cpp", SCH, time=100, reach=["abstracted", "complete", "shared", "apart"],
      bounds="two formulas of up to 4 and 3 nodes, arity <= 2, apply or ci, two symbols with an arbitrary byte; cut-off depth 0..3; limit 0..2", thorough={"defs": {"N1": 4, "N2": 4}, "time": 800}),
    H("schema3", "schema.cpp", SCH, time=100, reach=["abstracted", "complete", "shared", "apart"], defs={"NF": 3, "N1": 3, "N2": 2, "NSYM": 1},
      bounds="three formulas of up to 3, 2 and 2 nodes, one arbitrary symbol each", thorough={"defs": {"NSYM": 2}, "time": 800}),
    H("schemabig", "schema.cpp", SCH, time=100, reach=["abstracted", "complete"], defs={"NF": 1, "N1": 6, "ARY": 3},
      bounds="one formula of up to 6 nodes (thorough: 7), arity <= 3, apply or ci, concrete symbols; cut-off depth 0..3", thorough={"defs": {"N1": 7}, "time": 800}),
    H("schemarel", "schema.cpp", SCH, time=100, reach=["abstracted", "complete", "shared", "apart"], defs={"RELATIVE_": "", "N1": 4, "N2": 3},
      bounds="two formulas, cut-off relative to their depth: 0, 34, 50, 100, 255 per cent"),
    H("schemarefused", "schema.cpp", SCH, time=100, reach=["abstracted", "complete", "shared", "apart"], defs={"REFUSED": "", "N1": 2, "N2": 2},
      bounds="two formulas of up to 2 nodes and one that cannot be encoded, in every position"),
    H("schemamany", "schema.cpp", SCH, time=300, steps=60000000, reach=["abstracted", "complete", "shared", "apart"], defs={"MANY": "", "NF": 24},
      bounds="24 formulas with few different shapes, one arbitrary symbol; formulas of up to 60 levels or 42 arguments; cut-off depth 0..255, limit 0..100"),
    H("schemahuge", "schema.cpp", SCH, time=300, steps=60000000, reach=["abstracted", "shared", "apart"], defs={"HUGE_": ""},
      bounds="586 formulas in groups of 2, 70, 256 and 257 in four orders and one with a symbol among six; limit 0..3"),
]
MEMF = {k: "vf_" + k for k in "open_memstream fmemopen fclose fwrite fflush ferror fputc fputs".split()}
DAE = ["src/mws/daemon/Daemon.cpp"] + SCH
T["P18"] = lambda: [
    H("daemon", "daemon.cpp", DAE, rename=MEMF, reach=["options", "root", "method", "bad query", "handler failed", "write failed", "answered", "empty body", "aborted", "start failed"],
      bounds="one request: 8 methods, path / or / and one arbitrary byte, body of 0..3 arbitrary bytes in every division into chunks, every partial or failing write, every outcome of reader, handler and formatter, failing start and failing queueing, the connection ended after any call"),
    H("daemonlong", "daemon.cpp", DAE, rename=MEMF, steps=80000000, defs={"LONGBODY": ""}, reach=["answered"],
      bounds="one request with a body and an answer of 255..65537 bytes, two of them arbitrary, in chunks of up to 1448 or 32768 bytes or at once, of which the stream takes at most 1000 or 4096 bytes at a time, or all"),
    H("daemontwo", "daemon.cpp", DAE, rename=MEMF, reach=["root", "bad query", "answered"], defs={"NREQ": 2},
      bounds="two connections whose callbacks interleave in every order; GET and POST, bodies of 0..2 bytes"),
]

NET = {k: "vf_" + k for k in "read write close socket connect accept bind listen setsockopt gethostbyname getnameinfo".split()}
SOCK = ["src/common/types/ControlSequence.cpp", "src/common/socket/OutSocket.cpp", "src/common/socket/InSocket.cpp"]
T["P19"] = lambda: [
    H("message", "socket.cpp", SOCK, rename=NET, reach=["message", "incomplete message"],
      bounds="one message with an arbitrary format; every division into partial writes and partial reads, ending or failing at any point", defs={"BOTH": ""}),
    H("sockets", "socket.cpp", SOCK, rename=NET, defs={"SOCKETS": "", "NB": 6}, reach=["connected", "not connected", "written", "read", "accepted", "listening", "started later"],
      bounds="transfers of 0..6 arbitrary bytes (thorough: 9) with every division, end and failure; every failing call while connecting, listening and accepting",
      thorough={"defs": {"NB": 9}, "time": 700}),
    H("longtransfer", "socket.cpp", SOCK, rename=NET, steps=40000000, defs={"LONGER": ""}, reach=["much written", "much read"],
      bounds="transfers of 127..65537 bytes, two of them arbitrary, at most 1000, 1448 or 4096 bytes in a call, or all"),
]

FLG = ["src/common/utils/FlagParser.cpp"]
T["P24"] = lambda: [
    H("flags", "flags.cpp", FLG, rename={"exit": "vf_exit"}, reach=["help", "version", "refused", "parameters", "several values", "value"],
      bounds="three flags without, with and with an optional argument, each of the first two mandatory or not; every command line of 0..3 words from 24 (thorough: 4); 4 settings for the parameters",
      thorough={"defs": {"NARGS": 4}, "time": 800}),
    H("flagbytes", "flags.cpp", FLG, rename={"exit": "vf_exit"}, defs={"BYTES": 3, "NARGS": 2}, reach=["refused", "parameters", "value"],
      bounds="every command line of 0..2 words of 0..3 arbitrary bytes (thorough: 4)", thorough={"defs": {"BYTES": 4}, "time": 800}),
    H("flagsmany", "flags.cpp", FLG, rename={"exit": "vf_exit"}, defs={"MANY": ""}, steps=60000000, time=300, reach=["refused", "parameters", "several values", "value"],
      bounds="29 flags; 9..130 parameters or values of a flag, values of 3..70000 bytes, one of them arbitrary"),
]

SYS = {k: "vf_" + k for k in "main exit freopen dup2 daemon sigaction sigprocmask sigsuspend sigemptyset sigaddset raise".split()}
MAIN = ["src/common/utils/FlagParser.cpp", "src/mws/daemon/Daemon.cpp", "src/mws/index/IndexBuilder.cpp", "src/mws/dbc/MemFormulaDb.cpp", "src/mws/dbc/MemCrawlDb.cpp"] + SEARCH
T["P26"] = lambda: [
    H("mwsd", "mains.cpp", ["src/mws/mwsd.cpp"] + MAIN, rename=SYS, reach=["running", "crash", "rebuilt", "harvested", "loaded", "stopped", "failed"],
      bounds="mwsd with every pair of its options, 0..2 harvest paths, with and without data path, port 8080, or (as the only option) 1..5 arbitrary digits or negative; at most one failing step; SIGINT, SIGTERM, SIGSEGV, SIGABRT or none, arriving at any call"),
    H("schemad", "mains.cpp", ["src/mws/schemad.cpp"] + MAIN, rename=SYS, defs={"PROG": 2, "LONGOPTS": ""}, reach=["running", "crash", "stopped", "failed"],
      bounds="schemad with every pair of its options in short and long form, and the same failures and signals"),
    H("pidfile", "pidfile.cpp", ["src/common/utils/save_pid_file.c"], rename=dict(FS, getpid="vf_getpid", getppid="vf_getppid"), reach=["written", "not written"],
      bounds="every process number up to 32768 (the most Linux gives out unless told otherwise), an old pid file or none, each call failing"),
    H("mwsindex", "mains.cpp", ["src/mws/mws-index.cpp"] + MAIN, rename=SYS, defs={"PROG": 3, "LONGOPTS": ""}, reach=["refused", "indexed"],
      bounds="mws-index with every pair of its options in short and long form, every result of indexing"),
]

GU = ["third_party/crawler/googleurl/src/%s.cc" % x for x in "gurl string16 url_canon_etc url_canon_filesystemurl url_canon_fileurl url_canon_host url_canon_internal url_canon_ip url_canon_mailtourl url_canon_path url_canon_pathurl url_canon_query url_canon_relative url_canon_stdurl url_parse url_parse_file url_util".split()]
ROB = ["src/crawler/types/Robotstxt.cpp"] + GU
T["P20"] = lambda: [
    H("robots", "robots.cpp", ROB, defs={"NL": 3, "NU": 2}, reach=["allowed", "refused", "several rules", "allowed in spite of a rule"],
      bounds="robots.txt of 0..3 lines (thorough: 4) from 12 kinds; URLs with a path and query of up to 2 arbitrary characters after the slash, on the same or another host", thorough={"defs": {"NL": 4}, "time": 800}),
    H("robotsrule", "robots.cpp", ROB, defs={"ONERULE": "", "NU": 3}, reach=["allowed", "refused", "allowed in spite of a rule"],
      bounds="one rule and one URL of up to 3 arbitrary characters after the slash (thorough: 4)", thorough={"defs": {"NU": 4}, "time": 800}),
    H("robotsraw", "robots.cpp", ROB, defs={"RAW": 2}, reach=["allowed", "refused"], bounds="up to 2 arbitrary bytes (thorough: 3) after four beginnings", thorough={"defs": {"RAW": 3}, "time": 800}),
    H("robotsmany", "robots.cpp", ROB, defs={"MANY": ""}, steps=60000000, time=300, reach=["allowed", "refused"],
      bounds="9, 40 or 130 rules of up to 5000 bytes in groups for everybody and for others; URLs which are rules, go on after a rule, or differ from one in an arbitrary character"),
]
FSYS = {k: "vf_" + k for k in "opendir readdir_r readdir closedir lstat stat fstat open close read access mkdir open_memstream fclose vfprintf".split()}
FIL = ["src/common/utils/util.cpp", "src/mws/index/IndexBuilder.cpp"] + SEARCH
T["P22"] = lambda: [
    H("walk", "files.cpp", FIL, rename=FSYS, defs={"WALK": "", "NE": 3}, reach=["walked", "walk failed", "several loaded", "loaded"],
      bounds="directories of 0..3 entries of 8 kinds (harvests, other files, hidden, links, directories up to two levels deep) in every order, file types told or not; the walk stopped at the first, second or third file"),
    H("walkfail", "files.cpp", FIL, rename=FSYS, defs={"WALK": "", "NE": 2, "FAULT": 24}, reach=["walked", "walk failed", "loaded"],
      bounds="directories of 0..2 entries and one failing call at every position (thorough: 0..3)", thorough={"defs": {"NE": 3}, "time": 700}),
    H("contents", "files.cpp", FIL, rename=FSYS, defs={"READ": 5}, reach=["read", "cut short", "failed"],
      bounds="files of 0..5 arbitrary bytes (thorough: 8), every division into reads, failure at every call; the file grows or shrinks meanwhile", thorough={"defs": {"READ": 8}, "time": 700}),
    H("longcontents", "files.cpp", FIL, rename=FSYS, steps=40000000, defs={"LONGREAD": ""}, reach=["read", "failed"],
      bounds="files of 255..65537 bytes, two of them arbitrary, in reads of up to 1000, 4095 or 4096 bytes or at once; a later read failing"),
    H("mkdir", "files.cpp", FIL, rename=FSYS, defs={"MKDIR_": ""}, reach=["created", "existing", "refused"], bounds="every kind of existing file, access right and failure"),
    H("text", "files.cpp", FIL, rename=FSYS, defs={"NB": 3}, reach=["longer", "suffix", "shortened"], bounds="texts and suffixes of 0..3 (4) arbitrary bytes (thorough: 4)", thorough={"defs": {"NB": 4}, "time": 700}),
]
RQ = ["src/mws/xmlparser/readMwsQuery.cpp", "src/mws/types/CmmlToken.cpp", "src/common/utils/getBoolType.cpp"]
T["P15"] = lambda: [
    H("options", "query.cpp", RQ, rename={"fread": "vf_fread"}, defs={"OPTIONS": "", "NN": 0, "NP": 0, "NB": 2}, reach=["number", "large number", "malformed number", "no tree"],
      bounds="every option alone: numbers of 0..2 arbitrary bytes (thorough: 3), also followed by 11 or 20 nines; all values of the other options; all options at once", thorough={"defs": {"NB": 3}, "time": 500}),
    H("queries", "query.cpp", RQ, rename={"fread": "vf_fread"}, defs={"NN": 3, "NP": 2}, reach=["no query element", "several trees", "one tree", "no tree", "refused"],
      bounds="0..2 parts of 3 kinds, up to 3 tree nodes (thorough: 4), text in one or two pieces, arbitrary letters", thorough={"defs": {"NN": 4}, "time": 600}),
    H("longquery", "query.cpp", RQ, rename={"fread": "vf_fread"}, steps=60000000, defs={"NN": 1, "NP": 1, "LONGTEXT": ""}, reach=["one tree", "no tree", "refused"],
      bounds="element names, attributes and texts of 14 to 140000 bytes, in one or two pieces; trees of up to 96 levels or 260 children; markup that is no part of a query, up to 40 deep"),
    H("events", "query.cpp", RQ, rename={"fread": "vf_fread"}, defs={"NN": 2, "NP": 1, "EVENTS": 2}, reach=["broken", "refused", "one tree", "no tree"],
      bounds="0..1 part, up to 2 tree nodes; a warning, an error or a fatal error at any two positions between the events"),
]
PH = ["src/mws/xmlparser/processMwsHarvest.cpp", "src/mws/types/CmmlToken.cpp"]
T["P14"] = lambda: [
    H("harvests", "harvest.cpp", PH, rename={"read": "vf_read"}, defs={"NN": 2, "NP": 2}, reach=["no harvest", "several", "one", "nothing", "refers to a record", "no context"],
      bounds="0..2 parts of 4 kinds, up to 2 tree nodes (thorough: 3), text in one or two pieces, arbitrary letters", thorough={"defs": {"NN": 3}, "time": 700}),
    H("records", "harvest.cpp", PH, rename={"read": "vf_read"}, defs={"NN": 2, "NP": 3, "WFAIL": 4, "RECORDS": ""}, reach=["no harvest", "several", "one", "nothing", "refers to a record"],
      bounds="0..3 expressions and records in every order (thorough: 4) with every reference between them; one failing call while the copy of a record is prepared", thorough={"defs": {"NP": 4}, "time": 700}),
    H("events", "harvest.cpp", PH, rename={"read": "vf_read"}, defs={"NN": 2, "NP": 1, "EVENTS": 1}, reach=["broken", "one", "nothing", "several"],
      bounds="0..1 part, up to 2 tree nodes; a warning, an error or a fatal error at any position (thorough: two) between the events", thorough={"defs": {"EVENTS": 2}, "time": 700}),
    H("longharvest", "harvest.cpp", PH, rename={"read": "vf_read"}, steps=60000000, defs={"NN": 1, "NP": 1, "LONGTEXT": ""}, reach=["one", "nothing", "several", "refers to a record"],
      bounds="element names, attributes, texts, addresses and records of 14 to 140000 bytes, in one or two pieces; trees of up to 96 levels or 260 children; records and other markup up to 40 deep; 9, 54 or 99 records and expressions which refer to them"),
    H("eventsthen", "harvest.cpp", PH, rename={"read": "vf_read"}, defs={"NN": 1, "NP": 2, "EVENTS": 1}, reach=["broken", "one", "nothing"],
      bounds="0..2 parts, up to 1 tree node; a warning, an error or a fatal error at any position between the events", thorough={"defs": {"NN": 2}, "time": 700}),
]
GM = ["src/crawler/utils/MwsGetMath.cpp"] + GU
GMR = {k: "vf_" + k for k in "open_memstream fprintf fputs fwrite fclose".split()}
T["P21"] = lambda: [
    H("pieces", "getmath.cpp", GM, rename=GMR, defs={"NF": 4}, reach=["several", "one", "none", "with id", "dropped", "a math element that does not end"],
      bounds="pages of 0..4 pieces (thorough: 5) of 13 kinds: start tags of math with quoted, unquoted and missing ids, self-closing, closing, other and similar tags, text; arbitrary letters; formulas well formed or not", thorough={"defs": {"NF": 5}, "time": 800}),
    H("raw", "getmath.cpp", GM, rename=GMR, defs={"RAW": 4}, reach=["one", "none"], bounds="0..4 arbitrary bytes (thorough: 5) after seven beginnings and before two ends", thorough={"defs": {"RAW": 5}, "time": 800}),
    H("xhtml", "getmath.cpp", GM, rename=GMR, defs={"NF": 1, "NN": 2, "XHTML": ""}, reach=["several of XHTML", "one of XHTML", "none of XHTML", "other", "with id", "dropped"],
      bounds="0..2 formulas (thorough: 3) with and without id, every kind of page, every failing library call", thorough={"defs": {"NN": 3}, "time": 300}),
    H("mathmany", "getmath.cpp", GM, rename=GMR, defs={"MANY": ""}, steps=90000000, time=300, reach=["several", "with id", "dropped"],
      bounds="9, 40 or 130 formulas with up to 20 levels of inner math elements, formulas and texts of up to 70000 bytes, ids of up to 5000"),
]
E2E = sorted(set(SEARCH + DB + ["src/mws/query/engine.c", "src/mws/index/IndexBuilder.cpp", "src/mws/index/IndexWriter.cpp", "src/mws/index/IndexLoader.cpp", "src/mws/daemon/HarvestQueryHandler.cpp", "src/mws/daemon/IndexQueryHandler.cpp"]))
T["P27"] = lambda: [
    H("twoformulas", "endtoend.cpp", E2E, rename=FS, defs={"NT1": 2, "NT2": 2, "NQ": 2, "HIST": 1}, reach=["nothing", "one hit", "several hits"],
      bounds="two formulas of up to 2 nodes (thorough: 3 and 2), one with a record; every query of up to 2 nodes with query variables; three windows; arbitrary symbols", thorough={"defs": {"NT1": 3}, "time": 500}),
    H("oneformula", "endtoend.cpp", E2E, rename=FS, defs={"NT1": 3, "NT2": 0, "NQ": 2, "HIST": 1}, reach=["nothing", "one hit", "several hits"],
      bounds="one formula of up to 3 nodes and one query of up to 2, arity <= 2 (thorough: both of up to 3); three windows; arbitrary symbols", thorough={"defs": {"NQ": 3}, "time": 350}),
    H("rewrite", "endtoend.cpp", E2E, rename=FS, defs={"NT1": 2, "NT2": 1, "NQ": 1, "HIST": 3}, reach=["nothing", "one hit", "several hits", "refused", "older index replaced"],
      bounds="an older index in the same place, replaced or not; formulas of up to 2 nodes and 1 node, queries of 1 node"),
    H("manyformulas", "endtoend.cpp", E2E, rename=FS, defs={"MANY": "", "HIST": 1}, reach=["one hit", "several hits"], steps=60000000, time=300,
      bounds="24 formulas of 7..47 nodes with shared parts and 8 records, one arbitrary symbol; 6 queries with up to 30 variables; five windows"),
]
T["P28"] = lambda: [
    H("http", "daemon.cpp", DAE, rename=MEMF, reach=["options", "root", "method", "bad query", "handler failed", "write failed", "answered", "empty body", "aborted"], defs={"SHARE": ""},
      bounds="the HTTP callbacks of one connection: 8 methods, bodies of 0..3 bytes in every division into chunks, every outcome of reader, handler and formatter, failing library calls, the connection ended after any call"),
    H("search", "endtoend.cpp", E2E, rename=FS, defs={"NT1": 2, "NT2": 1, "NQ": 2, "HIST": 1, "SHARE": ""}, reach=["nothing", "one hit", "several hits"],
      bounds="one request to each of the three search handlers: two formulas of up to 2 nodes and 1 node, every query of up to 2 nodes; arbitrary symbols; any number of concurrent requests under any schedule"),
    H("schema", "schema.cpp", SCH, time=100, reach=["abstracted", "complete", "shared", "apart"], defs={"N1": 3, "N2": 2, "SHARE": ""},
      bounds="one schema request: two formulas of up to 3 and 2 nodes"),
    H("read", "query.cpp", RQ, rename={"fread": "vf_fread"}, defs={"NN": 2, "NP": 2, "SHARE": ""}, reach=["no query element", "several trees", "one tree", "no tree", "refused"],
      bounds="reading one request: 0..2 parts of 3 kinds, up to 2 tree nodes"),
    H("readoptions", "query.cpp", RQ, rename={"fread": "vf_fread"}, defs={"OPTIONS": "", "NN": 0, "NP": 0, "NB": 1, "SHARE": ""}, reach=["number", "malformed number", "no tree"],
      bounds="reading one request: every option"),
    H("write", "formats.cpp", FMT, rename=FS, defs={"SHARE": ""}, reach=["two hits in XML", "two hits in JSON", "two schemata in XML", "two schemata in JSON", "several formula ids"],
      bounds="writing one answer: 0..2 hits, 0..2 variables, 0..3 formula ids, 0..2 schemata, in every format"),
]
DOC = ["src/crawler/parser/MathParser.cpp", "src/crawler/parser/XmlParser.cpp", "src/common/utils/util.cpp"]
DOCR = dict({k: "vf_" + k for k in "open fstat read close open_memstream".split()}, fclose="vf_mfclose", fflush="vf_mfflush")
T["P29"] = lambda: [
    H("document", "docs.cpp", DOC, rename=DOCR, defs={"NP": 1}, reach=["one", "refused", "without id", "without content", "another text"],
      bounds="documents with 0..1 pieces (text, formula, paragraph with a formula, paragraph) and a title, XML, HTML or neither; formulas with and without id and content (2 forms); one arbitrary byte in any text, name, id, attribute or in the file name; with and without data, 7 XPaths for each kind of text"),
    H("several", "docs.cpp", DOC, rename=DOCR, defs={"NP": 2, "SEVERAL": ""}, reach=["several", "one", "without id", "without content", "another text"],
      bounds="documents of 2 pieces (thorough: 3) with arbitrary ids, text of the whole document or of the first paragraph", thorough={"defs": {"NP": 3}, "time": 800}),
    H("manyformulas", "docs.cpp", DOC, rename=DOCR, steps=90000000, time=300, defs={"NP": 1, "MANY": ""}, reach=["several", "many formulas", "without id", "without content"],
      bounds="documents of 9 or 24 paragraphs with a formula each: nested up to 70 deep, up to 40 arguments, names and texts of up to 5000 bytes, shared ids; one arbitrary byte in an id or name"),
    H("program", "d2hmain.cpp", ["src/crawler/docs2harvest.cpp", "src/common/utils/FlagParser.cpp"], rename={k: "vf_" + k for k in "main mkstemps fdopen fputs fwrite fputc ferror fflush fclose atexit perror".split()},
      reach=["refused", "not written", "written", "bad document", "configured"],
      bounds="every combination of the four options; 0..2 documents with 0..2 formulas each, each readable or not (thorough: 3); configuration files with every field present, missing or of another type; at most one failing call at every position", thorough={"defs": {"ND": 3}, "time": 500}),
]
CRL = ["src/crawler/crawler/MwsCrawler.cpp"] + ROB
CRLR = {k: "vf_" + k for k in "time sleep pthread_mutex_lock pthread_mutex_unlock fopen fread fseek ftell feof fwrite fputs fputc fclose ferror fflush unlink rename".split()}
T["P30"] = lambda: [
    H("graph", "crawl.cpp", CRL, rename=CRLR, defs={"NPG": 3, "NLINK": 2, "SORTED": ""}, reach=["crawled", "limit", "three pages"],
      bounds="sites of 3 pages with 0..2 links each (thorough: 3) from 5 ways to name a page; limit 0, 1, 2 or none; a harvest of the same second stored before or not; formulas with an arbitrary byte", thorough={"defs": {"NLINK": 3}, "time": 600}),
    H("rules", "crawl.cpp", CRL, rename=CRLR, defs={"NPG": 4, "NLINK": 1, "RULES": ""}, reach=["crawled", "limit", "three pages", "refused link", "unusable"],
      bounds="sites of 4 pages with 0..1 links each (thorough: 2), robots.txt with a rule or not, 4 sets of links to avoid, 2 start pages and an unusable one, limit 0, 1, 2 or none", thorough={"defs": {"NLINK": 2, "SORTED": ""}, "time": 800}),
    H("queue", "crawl.cpp", CRL, rename=CRLR, defs={"NPG": 2, "NLINK": 1, "QUEUE": ""}, reach=["crawled", "two requests", "unusable"],
      bounds="two requests of 5 kinds (plain, limited, other start, link to avoid, unusable) arriving at any point; sites of 2 pages with 0..1 links each"),
    H("pack", "crawl.cpp", CRL, rename=CRLR, steps=30000000, defs={"NPG": 2, "NLINK": 1, "PACK": ""}, reach=["crawled"],
      bounds="pages with 3, 4997..5002 formulas (harvests hold 5000), links between 2 pages, limit 0, 1, 2 or none"),
    H("manypages", "crawlmany.cpp", CRL, rename=CRLR, steps=90000000, time=300, reach=["limit", "many pages", "avoided"],
      bounds="sites of 9, 40 or 130 pages in a chain, a star or a graph; addresses of up to 5000 bytes; no limit, or an arbitrary one between 7 and 9 or near the number of pages; up to 113 links to avoid or none"),
]
PAG = ["src/crawler/utils/Page.cpp"] + GU
T["P31"] = lambda: [
    H("download", "page.cpp", PAG, defs={"NOPS": 3, "NB": 1}, reach=["content", "header", "once", "failed", "no page", "done"],
      bounds="2 URLs; every sequence of 3 uses of a page (thorough: 4); contents and headers of 0..1 arbitrary bytes, every download failing or not", thorough={"defs": {"NOPS": 4}, "time": 800}),
    H("pieces", "page.cpp", PAG, defs={"NOPS": 1, "NB": 3}, reach=["content", "header", "failed", "no page", "done"],
      bounds="4 URLs, as text or parsed; one use; contents and headers of 0..3 arbitrary bytes arriving in any division into two"),
    H("longpage", "page.cpp", PAG, steps=40000000, defs={"LONGPAGE": "", "NOPS": 1}, reach=["long page", "done"],
      bounds="contents and headers of 255..65537 bytes, two of them arbitrary, arriving in pieces of up to 1000 or 16384 bytes or at once"),
    H("address", "page.cpp", PAG, defs={"ADDRESS": ""}, reach=["port and query", "fragment", "done"],
      bounds="every address of one of 3 schemes, 4 hosts, 5 ports or none, 6 paths, 4 queries or none, 3 fragments or none"),
    H("links", "page.cpp", PAG, defs={"LINKS": ""}, reach=["link", "other site", "no page", "done"],
      bounds="pages of 0..2 nodes (thorough: 3): anchors in either case, other tags, texts, with 10 kinds of links, without link or with another attribute", thorough={"defs": {"NN": 3}, "time": 800}),
    H("manylinks", "page.cpp", PAG, steps=60000000, time=300, defs={"MANYLINKS": ""}, reach=["link", "other site", "no page", "many links", "done"],
      bounds="pages of 9, 33 or 130 anchors (nested up to 40 deep or side by side) of 5 forms, addresses of up to 5000 bytes, one arbitrary letter, with other tags and texts between"),
    H("date", "page.cpp", PAG, defs={"DATE": ""}, reach=["date", "done"],
      bounds="headers without the field, with the field in the middle or at the end; dates of 0..3 arbitrary bytes"),
]
CRD = ["src/crawler/daemon/CrawlerDaemon.cpp"]
T["P32"] = lambda: [
    H("posted", "crawld.cpp", CRD, rename=CRLR, reach=["page", "accepted", "not accepted", "aborted", "dropped", "not started", "avoids", "count"],
      bounds="one connection: GET, PUT or POST with 0..2 fields of 6 keys with values of 0..2 arbitrary bytes (thorough: 3) in every division into pieces, pieces arriving one by one or together; aborted at any point; no post processor or no response", thorough={"defs": {"MAXLEN": 3}, "time": 500}),
    H("long", "crawld.cpp", CRD, rename=CRLR, defs={"LONG": ""}, reach=["accepted", "not accepted", "avoids"],
      bounds="0..2 fields of 3 keys with values of 1, 100, 101 or 200 bytes, the last arbitrary, in up to 3 pieces"),
    H("two", "crawld.cpp", CRD, rename=CRLR, defs={"NREQ": 2, "NV": 1}, reach=["accepted", "two", "aborted"],
      bounds="two connections whose callbacks interleave in every order, 0..1 fields each with a value of one arbitrary byte (thorough: 0..2 fields), either aborted at any point", thorough={"defs": {"NV": 2}, "time": 500}),
    H("many", "crawld.cpp", CRD, rename=CRLR, defs={"MANY": ""}, reach=["accepted", "full", "aborted"],
      bounds="126..130 links to avoid (128 are kept) of 1..3 bytes, each in one or two pieces, and a count"),
    H("askpage", "crawld.cpp", CRD, rename=CRLR, defs={"ASKPAGE": "", "NV": 0}, reach=["page"],
      bounds="page to ask for a crawl missing or of 0, 3, 4095, 4096, 5000 bytes"),
]
H2J = E2E + ["src/crawler/harvests2json.cpp", "src/common/utils/FlagParser.cpp"]
H2JR = dict(FS, **{k: "vf_" + k for k in "main fprintf printf fputs fputc".split()})
T["P33"] = lambda: [
    H("ids", "h2json.cpp", H2J, rename=H2JR, defs={"KINDS": 1, "NT": 2, "NU": 2, "NF": 2}, reach=["no id", "one id", "several ids", "not in the index", "no document"],
      bounds="an index of one formula of up to 2 nodes; a harvest of 1..2 expressions of up to 2 nodes, at the same or different addresses, with or without document"),
    H("renamed", "h2json.cpp", H2J, rename=H2JR, defs={"KINDS": 1, "NT": 3, "NU": 3, "NF": 1, "CI": ""}, reach=["no id", "one id", "several ids", "not in the index", "renamed"],
      bounds="with renaming of identifiers and without: an index of one formula with one or two arguments, identifiers or not, and a harvest of one such expression"),
    H("rest", "h2json.cpp", H2J, rename=H2JR, defs={"KINDS": 4, "NT": 1, "NU": 1, "NF": 1}, reach=["no id", "one id", "two documents", "other file", "converted before", "recursive", "extension", "failed", "one of two"],
      bounds="two documents with 0..2 formulas and metadata; options, other files, files converted before; two harvests with a failing call, write, document, harvest or directory"),
    H("manydocuments", "h2json.cpp", H2J, rename=H2JR, defs={"MANY": "", "KINDS": 1, "NT": 1, "NU": 1, "NF": 1}, steps=90000000, time=300, reach=["several ids", "not in the index", "two documents"],
      bounds="an index of 14 formulas of 7..37 nodes with shared parts; a harvest of 18 such expressions in 12 documents with 10 metadata and 7 formulas each, one arbitrary symbol"),
]
ANA = E2E + ["src/mws/analytics/analytics.cpp", "src/common/utils/FlagParser.cpp"]
ANAR = dict(FS, **{k: "vf_" + k for k in "main fprintf printf".split()})
T["P34"] = lambda: [
    H("one", "analytics.cpp", ANA, rename=ANAR, defs={"NT1": 4}, reach=["missing", "stopped"],
      bounds="one formula of up to 4 nodes (thorough: 5) with arbitrary one-byte symbols; a job which goes on, or stops anywhere", thorough={"defs": {"NT1": 5}, "time": 500}),
    H("two", "analytics.cpp", ANA, rename=ANAR, defs={"NT1": 3, "NT2": 2}, reach=["missing", "stopped", "common expression"],
      bounds="two formulas of up to 3 and 2 nodes"),
    H("renamed", "analytics.cpp", ANA, rename=ANAR, defs={"NT1": 3, "VARS": ""}, reach=["missing", "stopped", "renamed", "variable", "no name"],
      bounds="one formula of up to 3 nodes whose leaves are symbols, identifiers (renamed or not), or variables with or without name"),
    H("example", "analytics.cpp", ANA + ["analytics/example.cpp"], rename=ANAR, defs={"NT1": 3, "NT2": 2, "EXAMPLE": ""}, reach=["analysed", "common expression"],
      bounds="two formulas of up to 3 and 2 nodes, and the job of analytics/example.cpp"),
    H("manyformulas", "analytics.cpp", ANA, rename=ANAR, defs={"MANY": ""}, steps=60000000, time=300, reach=["missing", "stopped", "common expression"],
      bounds="24 formulas of 7..47 nodes with shared parts, one symbol of 300 bytes, one arbitrary"),
    H("examplemany", "analytics.cpp", ANA + ["analytics/example.cpp"], rename=ANAR, defs={"MANY": "", "EXAMPLE": ""}, steps=60000000, time=300, reach=["analysed", "common expression"],
      bounds="the same formulas, and the job of analytics/example.cpp"),
]

THR = {k: "vf_" + k for k in "pthread_mutex_init pthread_mutex_destroy pthread_mutex_lock pthread_mutex_trylock pthread_mutex_unlock pthread_cond_init pthread_cond_destroy pthread_cond_signal pthread_cond_broadcast pthread_cond_wait pthread_attr_init pthread_attr_destroy pthread_attr_setdetachstate pthread_attr_setstacksize pthread_mutexattr_init pthread_mutexattr_destroy pthread_mutexattr_settype pthread_detach pthread_join pthread_self pthread_create".split()}
CRDR = dict(THR, **{k: "vf_" + k for k in "main exit sigaction signal sigprocmask pthread_sigmask sigsuspend sigemptyset sigaddset".split()})
T["P35"] = lambda: [
    H("threads", "threads.cpp", ["src/common/thread/ThreadWrapper.cpp"], rename=THR, defs={"NRUN": 3, "SHARE": ""}, reach=["several", "none", "failed", "no lock", "spurious"],
      bounds="0..3 routines (thorough: 4), then clean(), then one more after a second init(); at most one failing call; started threads run, whole or nested, at every moment at which no lock is held; at most one spurious wake-up", thorough={"defs": {"NRUN": 4}, "time": 800}),
    H("manythreads", "threads.cpp", ["src/common/thread/ThreadWrapper.cpp"], rename=THR, defs={"NRUN": 300, "SHARE": "", "MANY": ""}, steps=60000000, time=300, reach=["several", "failed"],
      bounds="1, 40 or 300 routines; at most one failing call; at any moment at most 0, 1, 7 or all of the started threads have not run, the oldest or the newest running first; at most one spurious wake-up"),
    H("program", "crawlerd.cpp", ["src/crawler/crawlerd.cpp", "src/common/thread/ThreadWrapper.cpp", "src/common/utils/FlagParser.cpp"], rename=CRDR, reach=["running", "stopped", "failed", "no port"],
      bounds="command lines with and without port (1..5 arbitrary digits, or negative) and directory (1..2 arbitrary bytes), in either order, short or long; at most one failing step; SIGINT, SIGTERM or none at any call after its handler is installed; the thread starts at any moment"),
]
if __import__('os').environ.get('VF_SELFTEST'):  # the engine against a list of library and language features
    T["PSINK"] = lambda: [H("k%d" % k, "sink.cpp", [], defs={"K": k}, reach=["done"], bounds="x", time=30) for k in range(48)]
