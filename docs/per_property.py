# oracle and stand-ins of each property, in the words of DESIGN.md
D = {}
D["P01"] = "Real `TmpIndex`/exported index, `SearchContext`. Oracle: a recursive unifier in the harness over the term trees; answers compared as sets in both directions. Token ids are 24-bit variables, so all equalities among symbols are covered at once."
D["P02"] = "Offset, size and limit arbitrary 32-bit; oracle: slice of the concatenated hit list computed with 64-bit arithmetic."
D["P03"] = "Bounds are arbitrary doubles (FP theory) or literals; oracle: mathematical interval membership on the constants' values, combined with the unifier."
D["P04"] = "Real `IndexBuilder` with symbolic expression trees; a recording formula database. Oracle: for each subterm, one entry per formula, hit count = recorded occurrences, position paths lead to the subterm. `statistics`: `loadHarvests` with a log, which is read back and compared with the counts of the model."
D["P05"] = "`TmpIndex::exportToMemsector`; every node of the image is compared with the in-memory node through both accessors, children looked up by arbitrary token; far offsets (long form) with a sparse memory stand-in."
D["P06"] = "Stored image loaded back through in-memory files (`memfs.hpp`); single arbitrary byte changed, truncated, or arbitrary bytes; any failing system call while saving."
D["P07"] = "`engine.c` against the unifier of P01; limits of its work areas with queries at the edge. (The handler around it: P27.)"
D["P08"] = "`ExpressionEncoder` for harvests and queries: encode arbitrary trees over symbolic names; oracle: structural equality of terms iff token sequences equal, arity and id ranges; reverse direction via the dictionary."
D["P09"] = "Two formulas, identifiers symbolic; equality of encodings iff alpha-equivalent by an independent matcher."
D["P10"] = "Histories of put/get/save/load of symbolic strings against a list."
D["P11"] = "Histories of insert and query with windows, early-ending callbacks; LevelDB stand-in (`fakelevel.hpp`) orders keys bytewise and may fail anywhere."
D["P12"] = "As P11 for documents: arbitrary bytes incl. NUL; malformed stored records."
D["P13"] = "Trees built by the parser calls; oracle recomputes size, paths, equality, text."
D["P14"] = "`processMwsHarvest` driven by a stand-in SAX reader (`saxstub.hpp`): every event sequence of a bounded document, with libxml2's error contract; oracle: list of expressions with uri and data id."
D["P15"] = "As P14 for queries; attributes symbolic strings for each option; refused iff malformed."
D["P16"] = "Formatters with recording XML writer, JSON and file stand-ins; oracle parses the recorded output back. Every write may fail."
D["P17"] = "`SchemaEngine`/`SchemaQueryHandler`: two formulas; equality of schemata iff equal when cut at the depth; substitutions reproduce the members; arithmetic of relative cut-offs over all sizes."
D["P18"] = "`Daemon.cpp`'s callbacks driven by a stand-in MHD: divisions of the body into chunks, failing calls, early end of the connection, two connections interleaved in every order; memory balance included."
D["P19"] = "Sockets with symbolic partial transfers, EINTR, end of stream."
D["P20"] = "robots.txt as pieces with symbolic letters; oracle: rules by the 1994 standard as the code documents them; real googleurl is compiled along."
D["P21"] = "`MwsGetMath`: page of symbolic pieces; oracle: tokenizer in the harness."
D["P22"] = "Directory trees (readdir/lstat stand-ins incl. unknown entry types and failures), file contents with partial reads."
D["P23"] = "Histories of operations with arbitrary keys against an association list, comparing iteration order, iterators and size."
D["P24"] = "Declarations of flags and argument vectors; oracle: option list of the harness."
D["P25"] = "`IndexIterator` on temporary and exported indexes; oracle: enumeration of subterms by the harness."
D["P26"] = "The three `main` functions with stand-ins for handlers and daemon; command lines over all options; each step may fail; signals at every point between two calls. The pid file is written by the real code to a stand-in file, for every process number."
D["P27"] = "Harvest -> `HarvestQueryHandler`; harvest -> `createCompressedIndex` -> files -> `IndexQueryHandler` (both engines): answers compared with each other and with the unifier's answer."
D["P28"] = "The harnesses of P27, P17, P15, P16, P18 with `sx_share` around the handling of a request."
D["P29"] = "A symbolic document tree behind a stand-in libxml2 that evaluates the XPaths the code passes (steps, axes, name and attribute predicates); oracle: the harvest text computed from the tree. The program is run with stand-ins for files, JSON and conversion."
D["P30"] = "The real crawl loop over a symbolic site: link graph, robots.txt, avoided links, page limit, formulas per page and the moment requests arrive are symbolic; time and files are stand-ins. Oracle: reachability computed over the same graph, and the harvests' content."
D["P31"] = "The real Page class over a stand-in libcurl that delivers symbolic bytes in symbolic pieces or fails, and a stand-in HTML tree; the real gurl library resolves links."
D["P32"] = "The real daemon callbacks behind a stand-in libmicrohttpd that delivers symbolic fields in symbolic pieces, interleaves two connections, aborts any of them, and fails any call; the queue is hidden while its lock is not held."

D["P33"] = "The real main of harvests2json with the real index writer, loader, encoder and search over stand-in files and database; the harvest parser, XPath and JSON are stand-ins that deliver symbolic expressions and documents and keep what is written. The oracle asks the same index, through the real query handler, for each subexpression and compares the written records with those ids; options, documents, harvests and every failing call are symbolic."
D["P34"] = "The real main of the analytics job with the real index writer, loader, iterator and decoder over stand-in files; formulas have symbolic symbols, identifiers and variables. The harness is the job: it compares each tree it is handed with the subexpressions of the formulas (an independent numbering of variables and identifiers), counts them, and stops at a symbolic point. The example job is run as it is, its printed numbers compared with those of the model."
D["P35"] = "The real ThreadWrapper and the real main of crawlerd over stand-ins for POSIX threads and signals. A started thread becomes a nested call at a symbolic moment at which no lock is held (also while another thread runs, and while clean() waits, which may wake up for no reason); a wait that nobody can end is a violation, and so is a write to the class's shared variables while no lock is held (the engine compares each store with what existed after init()). The command line is symbolic in its port and directory, and a signal arrives at a symbolic call after its handler is installed."
