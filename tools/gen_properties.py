#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

I = "src/mws/index/"; Q = "src/mws/query/"; X = "src/mws/xmlparser/"; T = "src/mws/types/"; D = "src/mws/dbc/"
C = "src/common/"; CR = "src/crawler/"; DM = "src/mws/daemon/"

prop("P01", "Unification search is sound and complete",
 "A formula query over an index returns exactly the indexed formulas that the query matches: a constant matches only itself with the same number of arguments, every anonymous query variable matches any subterm, and all occurrences of one named query variable match one and the same subterm. Nothing that matches is missing, nothing that does not match is returned, and no matching index entry is visited twice.",
 ["inputs"], "every index (set of terms) and every query term within the bound",
 "The search tests run a handful of fixed formulas; backtracking over several variables with arbitrary sharing, arities and overlapping subterms is combinatorial and never sampled.",
 [Q+"SearchContext.cpp", Q+"SearchContext.hpp", I+"TmpIndex.hpp", I+"IndexAccessor.hpp"],
 [("backtracking matcher", Q+"SearchContext.cpp getResult"), ("per-variable subterm iterator", Q+"SearchContext.cpp QvarCtxt"), ("child lookup", I+"TmpIndexAccessor.hpp / "+I+"IndexAccessor.hpp")],
 observe=["answer set of SearchContext::getResult"])

prop("P02", "Result windows are exact slices of the full answer",
 "For every offset, size and total limit, a search returns exactly the hits number offset .. offset+size-1 of the complete, deterministic list of hits, and nothing outside that window. The reported total equals the number of hits whenever it is below the total limit, and is at least the number of hits returned otherwise.",
 ["inputs"], "every index, query, result offset, result size and total limit within the bound, including zero and very large values",
 "Tests request the first page of a small result; window edges that fall inside one index entry with several hits, or past the end, or that overflow, are not exercised.",
 [Q+"SearchContext.cpp", D+"DbQueryManager.cpp", D+"MemFormulaDb.cpp"],
 [("window arithmetic per leaf", Q+"SearchContext.cpp getResult"), ("limit/offset inside one formula", D+"MemFormulaDb.cpp queryFormula")])

prop("P03", "Range queries match exactly the numbers in the interval",
 "A range variable in a query matches an indexed constant exactly when that constant is a number and lies in the closed interval the query asks for, where a missing lower or upper bound means no limit on that side. It never matches a non-number and never matches a compound subterm.",
 ["inputs"], "every pair of interval bounds (present or missing) and every indexed numeric or non-numeric constant within the bound",
 "The single range test uses one interval and a few positive integers; bounds at, below and above zero, missing bounds, and the end points themselves are not sampled.",
 [Q+"SearchContext.cpp", T+"CmmlToken.cpp", I+"ExpressionEncoder.cpp"],
 [("interval extraction", T+"CmmlToken.cpp getRangeBounds"), ("interval test during search", Q+"SearchContext.cpp RangeCtxt")])

prop("P04", "Indexing makes every subterm findable, once per formula",
 "After formulas without variables have been indexed (identifier renaming off), each formula and each of its subterms can be found, and is attributed to exactly the formulas (and the positions inside them) that contain it; a term no formula contains cannot be found. A subterm that occurs several times in one formula is counted once for that formula, and the hit count of each entry equals the number of formulas attributed to it. The statistics that can be logged while harvests are loaded give, after each file, exactly the number of these attributions, of entries, and the size of the index.",
 ["inputs", "histories"], "every sequence of indexed formulas within the bound",
 "Tests index one or two hand-written formulas; interactions between shared prefixes, repeated subterms and several formulas are not enumerable by hand.",
 [I+"IndexBuilder.cpp", I+"TmpIndex.cpp", T+"CmmlToken.cpp", T+"VectorMap.hpp", D+"MemFormulaDb.cpp"],
 [("subterm enumeration", T+"CmmlToken.cpp foreachSubexpression"), ("trie insertion", I+"TmpIndex.cpp insertData"), ("per-formula de-duplication", I+"IndexBuilder.cpp indexContentMath"), ("ordered children map", T+"VectorMap.hpp")])

prop("P05", "The exported index equals the in-memory index",
 "Exporting an in-memory index produces a memory-mapped image that contains exactly the same terms with exactly the same formula ids and hit counts, and looking a term up in the image gives the same answer as in the original. The size announced before exporting is the size of the nodes written (the file header is not counted).",
 ["inputs"], "every non-empty index within the bound, including nodes with one child and nodes with many children, and images of any size below 4 TB",
 "One test exports one tiny tree and compares selected fields; ordering, child search and offset encoding over arbitrary shapes and ids are not covered.",
 [I+"TmpIndex.cpp", I+"index.h", I+"memsector.c", I+"memsector.h", I+"IndexAccessor.hpp"],
 [("recursive export", I+"TmpIndex.cpp exportToMemsector"), ("binary child search", I+"index.h inode_get_child"), ("short/long node choice", I+"memsector.h")],
 state=[("memsector", "file image of the index: header, nodes, leaves", I+"memsector.h")])

prop("P06", "A stored index loads back unchanged and damage is rejected",
 "An index image that was saved loads back with the same contents. A file whose magic number, version or checksum does not match, in which any byte of the index data was altered after saving, whose header size or root position does not fit the file, or that was cut short is rejected with an error. Loading never reads outside the file, and a failure to write an image is reported.",
 ["inputs", "crash_points", "fault_sequences"], "every image content within the bound, every single corrupted byte or truncation length",
 "The tests only load files that were just written correctly; no test corrupts or truncates one.",
 [I+"memsector.c", I+"memsector.h", "third_party/common/crc32/crc32.c", C+"utils/mmap.c"],
 [("header validation", I+"memsector.c memsector_load"), ("checksum", "third_party/common/crc32/crc32.c")])

prop("P07", "The memory-mapped query engine agrees with unification",
 "The engine that answers queries directly on the memory-mapped index reports, for every index of variable-free terms and every well-formed query, exactly the indexed terms that the query unifies with, once each, in index order, and stops when the caller asks it to. It reads only inside the index image and its own bounded work areas: a query or a term that exceeds them is reported as an error. The query handler built on it returns exactly the requested window of the hits and the exact total.",
 ["inputs"], "every index image and encoded query within the bound",
 "Nine tests run fixed tiny indexes, mostly with a single candidate per variable, so that trying a second candidate, and limits on term size, are never exercised.",
 [Q+"engine.c", Q+"engine.h", I+"index.h", I+"encoded_token.h"],
 [("recursive matching with back-tracking stack", Q+"engine.c query_engine_run"), ("variable scan", I+"index.h inode_get_max_var")])

prop("P08", "Term encoding is faithful and never confuses symbols",
 "Two ground terms get the same encoding exactly when they have the same structure, element names and symbol texts (white space around a text aside; the text of mtext is ignored), and decoding an encoded token gives back the symbol it came from. A constant symbol is never encoded as a variable or a range, nor the other way round; a term that uses an unknown symbol or more arguments than the encoding can represent is refused instead of being encoded as something else.",
 ["inputs"], "every pair of terms within the bound, including arities around the representable maximum and many distinct variables",
 "Tests encode three short formulas; they do not compare pairs of different terms nor reach the limits of the id and arity fields.",
 [I+"ExpressionEncoder.cpp", I+"ExpressionEncoder.hpp", I+"encoded_token.h", I+"MeaningDictionary.hpp"],
 [("depth-first token encoding", I+"ExpressionEncoder.cpp encode"), ("id range partition", I+"encoded_token.h")])

prop("P09", "Renaming of identifiers is exactly alpha-equivalence",
 "With identifier renaming on, two terms get the same encoding exactly when one is obtained from the other by a consistent one-to-one renaming of identifiers (ci elements with a one-character name that are not the head of an application); all other symbols are kept apart. With renaming off, different identifiers stay different.",
 ["inputs"], "every pair of terms within the bound, with arbitrary identifier names",
 "One test checks one renamed formula; consistency of the renaming over arbitrary repetition patterns is a relation between two inputs, which an example test does not quantify over.",
 [I+"ExpressionEncoder.cpp", I+"ExpressionEncoder.hpp"],
 [("identifier renaming table", I+"ExpressionEncoder.cpp")])

prop("P10", "Symbol dictionary: stable unique ids that survive a restart",
 "Every non-empty symbol put into the dictionary gets one id that never changes, different symbols get different ids, and looking up an unknown symbol reports it as unknown without adding it. Saving the dictionary and loading it again gives exactly the same mapping, and a save or load that fails is reported.",
 ["inputs", "histories"], "every sequence of put/get operations and a save/load cycle within the bound",
 "Tests add a few words once; no test interleaves repeated puts, lookups and a save/load cycle.",
 [C+"types/IdDictionary.hpp", I+"MeaningDictionary.hpp"],
 [("id assignment", C+"types/IdDictionary.hpp put"), ("serialisation", C+"types/IdDictionary.hpp save/load")])

prop("P11", "Formula database returns exactly the stored occurrences, in order",
 "For every formula id, querying the formula database yields exactly the (document, position) pairs that were inserted for that id, in insertion order, restricted to the requested first-index and count, and nothing inserted for another id. The in-memory and the on-disk database behave the same, and a callback that reports an error stops the query. (Databases are filled once after their creation, then read.)",
 ["inputs", "histories"], "every sequence of insertions and every window within the bound, ids and per-id counters of any number of digits",
 "The in-memory backend has one small test, the on-disk backend has none that passes here; key ordering across ids and counters of different lengths is not sampled.",
 [D+"MemFormulaDb.cpp", D+"LevFormulaDb.cpp", D+"FormulaDb.hpp"],
 [("windowed scan", D+"MemFormulaDb.cpp queryFormula"), ("composite key scan", D+"LevFormulaDb.cpp queryFormula")])

prop("P12", "Document store returns exactly what was stored",
 "Every stored document record gets its own id, and reading that id gives back exactly the stored URL and data, whatever bytes they contain; reading an id that was never issued reports an error. This holds for the in-memory and the on-disk store, and malformed stored bytes are never read out of bounds.",
 ["inputs", "histories"], "every record content and every sequence of stores and reads within the bound",
 "The round-trip tests use one printable record; embedded zero bytes, empty fields and unknown ids are not sampled.",
 [D+"MemCrawlDb.cpp", D+"LevCrawlDb.cpp", D+"CrawlDb.hpp", C+"types/Parcelable.cpp", C+"types/Parcelable.hpp"],
 [("id issue", D+"MemCrawlDb.cpp / "+D+"LevCrawlDb.cpp putData"), ("record serialisation", C+"types/Parcelable.cpp")])

prop("P13", "Expression trees report their structure faithfully",
 "For every expression tree, enumerating subexpressions visits every node exactly once (parents before children) and skips nothing; the position path of each node leads from the root to that very node and to no other. Structural equality, size and depth agree with the tree (a numeric range equals nothing).",
 ["inputs"], "every tree shape and labelling within the bound",
 "Existing tests build a few trees through the parsers and do not compare positions, equality, size or depth for arbitrary shapes.",
 [T+"CmmlToken.cpp", T+"CmmlToken.hpp"],
 [("child creation and position path", T+"CmmlToken.cpp newChildNode"), ("traversal", T+"CmmlToken.cpp foreachSubexpression"), ("structural equality", T+"CmmlToken.cpp equals")])

prop("P14", "Harvest reading: every expression handed over once, intact",
 "For every sequence of XML events that makes up a harvest, each complete expression is handed to the index exactly once, with the document record it refers to, its own formula id, and its full content tree; unknown markup is skipped without affecting neighbours, and an expression's data is stored before the expression that refers to it. No event sequence makes the reader crash, hang or leak state from one expression into the next.",
 ["inputs", "histories"], "every sequence of start/end/text events and attributes within the bound",
 "Tests read a few well-formed harvest files; missing attributes, nested unknown markup, text split into several pieces and interleaved data records are not enumerated.",
 [X+"processMwsHarvest.cpp", X+"processMwsHarvest.hpp", I+"IndexBuilder.cpp"],
 [("event-driven state machine", X+"processMwsHarvest.cpp")])

prop("P15", "Query reading: options obeyed, malformed queries refused",
 "For every sequence of XML events that makes up a query, the resulting query carries exactly the option values and expression trees of the document, every option that is absent or malformed takes its documented default, a number too large takes the largest value of the option, and a document that is not a query yields no query. No query document can crash the reader or leave an option with an unset value.",
 ["inputs"], "every sequence of start/end/text events and attribute values within the bound",
 "One test parses one query with one combination of attributes.",
 [X+"readMwsQuery.cpp", T+"Query.hpp"],
 [("event-driven state machine", X+"readMwsQuery.cpp"), ("limit clamping", T+"Query.hpp applyRestrictions")])

prop("P16", "Answers are serialised completely and escaped correctly",
 "Every answer sent to a client carries the total and, in result order, exactly the data its format provides: document, position and variable bindings of each hit in XML, with the formula id in JSON, only the formula ids in the ids format, and every schema with its formulas and substitutions in the schema formats. Text from documents cannot break out of the surrounding syntax: reading the escaped text back gives the original text. The content type names the format. A failure to write the answer is reported.",
 ["inputs"], "every answer set within the bound, with arbitrary bytes in its texts",
 "One test prints one fixed answer set in one format and compares the output.",
 [X+"MwsXmlResponseFormatter.cpp", X+"MwsJsonResponseFormatter.cpp", X+"MwsIdsResponseFormatter.cpp", X+"SchemaJsonResponseFormatter.cpp", X+"SchemaXmlResponseFormatter.cpp", C+"utils/util.cpp"],
 [("formatters", X+"Mws*ResponseFormatter.cpp, Schema*ResponseFormatter.cpp"), ("escaping", C+"utils/util.cpp escapeJsonString")])

prop("P17", "Schematisation groups formulas soundly and completely",
 "For variable-free formulas with identifier renaming off, every formula belongs to exactly one reported schema when no limit is set, it is an instance of that schema, and two formulas are in the same schema exactly when they are equal down to the cut-off depth. The reported coverage of a schema is the number of its formulas, schemata are reported by decreasing coverage, a limit keeps only the largest ones, and the reported total is the number of all schemata found.",
 ["inputs"], "every multiset of formulas, cut-off depth and limit within the bound",
 "Tests schematise fixed lists of three or four formulas at one depth.",
 [Q+"SchemaEngine.cpp", Q+"SchemaEngine.hpp", T+"ExprSchema.hpp"],
 [("reduction to cut-off depth", Q+"SchemaEngine.cpp reduceFormula"), ("grouping", Q+"SchemaEngine.cpp getSchemata")])

prop("P18", "Each HTTP request gets exactly one correct response",
 "For every request method, path and body, split into chunks in any way, the server queues exactly one response: the query answer for a valid POST, the documented status for everything else (400 for a query that cannot be read, 405 with the allowed methods for another method, 500 when the handler or the writing of the answer fails, the listening page for GET of the root, the allowed methods for OPTIONS). The body handed to the query parser is exactly the concatenation of the received chunks, requests that arrive at the same time do not affect each other, and all per-request resources are released exactly once, also when the connection ends early.",
 ["inputs", "fault_sequences"], "every method, path, chunking of the body, interleaving of the calls for two requests, handler result and failing library call within the bound",
 "No test that runs here drives the HTTP callback at all.",
 [DM+"Daemon.cpp", DM+"GenericHttpResponses.hpp", DM+"IndexQueryHandler.cpp", DM+"HarvestQueryHandler.cpp", DM+"SchemaQueryHandler.cpp"],
 [("request callback", DM+"Daemon.cpp accessHandlerCallback")])

prop("P19", "Control messages survive partial reads and writes",
 "A control message that one side sends is received by the other side with the same content, however the transport splits it into partial reads and writes. A connection that ends early or fails is reported, never as a complete message, and nothing of an incomplete message is used. A socket reads and writes everything unless the connection ends or fails, reports exactly how much it transferred, and every descriptor it opens is closed exactly once.",
 ["inputs", "fault_sequences"], "every message content and every schedule of partial transfers and errors within the bound",
 "No test exercises the socket layer; partial transfers depend on timing that tests do not control.",
 [C+"types/ControlSequence.cpp", C+"types/ControlSequence.hpp", C+"socket/OutSocket.cpp", C+"socket/InSocket.cpp"],
 [("receive loop", C+"types/ControlSequence.cpp recv"), ("read/write loops", C+"socket/OutSocket.cpp")])

prop("P20", "The crawler honours robots.txt",
 "For every robots.txt content and every URL, the test whether a link may be followed allows it exactly if no Disallow rule of a group for all user agents is a prefix of its path and query (rules are plain prefixes: wildcards and Allow lines have no meaning). Malformed robots.txt content never crashes the crawler.",
 ["inputs"], "every robots.txt content and URL path within the bound",
 "The crawler has no unit tests.",
 [CR+"types/Robotstxt.cpp", CR+"types/Robotstxt.hpp"],
 [("rule extraction and prefix test", CR+"types/Robotstxt.cpp")])

prop("P21", "Math extraction finds exactly the math elements of a page",
 "For every HTML page, the formulas extracted are exactly its outermost complete math elements in document order, each whole and unaltered apart from the m: prefix given to MathML names, each with the escaped URL of the page and the element's id (if it has one); formulas that are not well formed are dropped and nothing else. XHTML formulas likewise carry the page and the id of their math element. Truncated, unbalanced or malformed pages never crash the crawler, hide well-formed formulas, or make it read outside the page; pages of other types give none.",
 ["inputs"], "every page text within the bound",
 "The crawler has no unit tests that pass here; prefix handling and truncated elements are string edge cases.",
 [CR+"utils/MwsGetMath.cpp", CR+"utils/MwsGetMath.hpp"],
 [("block scanner", CR+"utils/MwsGetMath.cpp")])

prop("P22", "Harvest files are selected and files are read completely and safely",
 "Walking a directory visits every regular file that is not hidden exactly once and no other, in subdirectories exactly if asked to; loading harvests from it loads exactly those with the wanted suffix. Reading a file gives exactly its content however the system splits the reads, and an output directory is accepted exactly if it is or becomes a usable directory. Everything opened is closed; failures of system calls are reported, not ignored, and never turn into endless loops.",
 ["inputs", "fault_sequences"], "every directory content and schedule of partial reads and failures within the bound",
 "Tests use one existing directory and whole-file reads; other entry kinds, partial reads and failures are not provoked.",
 [C+"utils/util.cpp", I+"IndexBuilder.cpp"],
 [("directory walk", C+"utils/util.cpp foreachEntryInDirectory"), ("file reading", C+"utils/util.cpp getFileContents"), ("harvest loading", I+"IndexBuilder.cpp loadHarvests")])

prop("P23", "Ordered child map behaves as a map for every history",
 "For every sequence of insertions, the ordered map used for index nodes contains exactly the inserted keys with their first-inserted values, finds every inserted key and no other, and iterates in one strict total order without duplicates. The order used when building is the order the stored index is searched by.",
 ["histories", "inputs"], "every insertion sequence of keys within the bound",
 "No test drives the container directly; the tests that use it insert at most a few keys in one order.",
 [T+"VectorMap.hpp", I+"index.h", I+"TmpIndex.hpp"],
 [("binary search insert/find", T+"VectorMap.hpp"), ("stored child search", I+"index.h inode_get_child")])

prop("P24", "Command-line options are parsed as declared",
 "For every declaration of flags and every command line, each given option gets the given value, an option that was not given reports absence (or its default), a missing mandatory option, an unknown option or a missing value is reported as an error, and positional arguments are kept in order. Asking about an option changes nothing.",
 ["inputs", "configurations"], "every declared flag set and argument vector within the bound",
 "No unit test exercises the option parser.",
 [C+"utils/FlagParser.cpp", C+"utils/FlagParser.hpp"],
 [("flag table and parsing", C+"utils/FlagParser.cpp")])

prop("P25", "Index traversal enumerates exactly the subterms at a position",
 "Iterating over the candidates for a variable at any position of the index yields each complete subterm stored below that position exactly once, and ends on the index position that follows that subterm. It yields no partial terms, and once it has ended it starts over at the same position.",
 ["inputs"], "every index within the bound and every start position in it",
 "Traversal is only reached indirectly by tests whose indexes have one or two candidates of arity at most two.",
 [I+"IndexIterator.hpp", I+"CallbackIndexIterator.hpp", I+"IndexAccessor.hpp", I+"TmpIndexAccessor.hpp"],
 [("arity-counting backtracking iterator", I+"IndexIterator.hpp")])

prop("P26", "Servers start exactly as configured and always stop on a signal",
 "For every command line, mwsd, schemad and mws-index use exactly the options that were given (harvest paths, data path, extension, port, IPv6, renaming, log and pid files, deletion of old data) and the documented defaults for the others. A stored index is loaded if possible and rebuilt from the harvests only if it cannot be loaded. The pid file holds the number of the serving process and nothing else. Any step that fails (writing the pid file included), and any port outside 1..65535, ends the program with a failure status before it serves anything. SIGINT or SIGTERM, at whatever moment it arrives after the handlers are set up, stops the server and releases its handler; after a crash signal the server is stopped and the process dies.",
 ["inputs", "configurations", "schedules", "fault_sequences"], "every combination of options within the bound, every failing step, every arrival time of a signal between two calls",
 "No test runs the programs; a lost signal or an option stored in the wrong place shows only for particular combinations and moments.",
 ["src/mws/mwsd.cpp", "src/mws/schemad.cpp", "src/mws/mws-index.cpp", DM+"Daemon.cpp", I+"IndexWriter.hpp", "src/common/utils/save_pid_file.c"],
 [("option handling and start", "src/mws/mwsd.cpp main"), ("signal handling", "src/mws/mwsd.cpp setup_signals, wait_for_signal, catch_sig")])

prop("P27", "A stored index answers like the in-memory one, and rightly",
 "Whether formulas are served from the memory of mwsd after reading the harvests, from the index that was stored on disk and loaded again, or by the experimental memory-mapped engine, the answer to a query is the same: the same hits with the same documents, positions, substitutions and total, and these are the ones that follow from the formulas and the query alone. What was stored before in the same place plays no part.",
 ["inputs", "configurations", "histories"], "every pair of formulas, query and window within the bound; a fresh and a previously used place",
 "The tests check each stage on its own with sample files; nothing compares the paths a query can take through the whole system.",
 [DM+"HarvestQueryHandler.cpp", DM+"IndexQueryHandler.cpp", I+"IndexBuilder.cpp", I+"IndexWriter.cpp", I+"IndexLoader.cpp", "src/mws/query/engine.c", D+"MemCrawlDb.cpp", D+"LevFormulaDb.cpp"],
 [("in-memory path", DM+"HarvestQueryHandler.cpp"), ("stored path", I+"IndexWriter.cpp createCompressedIndex / "+I+"IndexLoader.cpp / "+DM+"IndexQueryHandler.cpp")])

prop("P28", "Concurrent queries cannot interfere",
 "The servers answer each connection in a thread of its own. Handling a request - the HTTP callbacks, reading the query, searching, abstracting schemata, looking up documents, writing the answer - changes no memory that another request can reach unless it holds a lock or uses atomic operations. So however requests overlap, each gets the answer it would get alone.",
 ["inputs", "schedules"], "every request within the bound; every number of concurrent requests under every schedule follows, because no unprotected write to shared memory exists on any path",
 "Tests send one request at a time, and a data race shows only under particular interleavings.",
 [DM+"Daemon.cpp", DM+"IndexQueryHandler.cpp", DM+"HarvestQueryHandler.cpp", DM+"SchemaQueryHandler.cpp", "src/mws/query/SearchContext.cpp", X+"readMwsQuery.cpp", X+"MwsXmlResponseFormatter.cpp", X+"MwsJsonResponseFormatter.cpp", "src/mws/query/SchemaEngine.cpp"],
 [("thread per connection", DM+"Daemon.cpp MHD_start_daemon"), ("request handling", DM+"Daemon.cpp accessHandlerCallback")])

prop("P29", "Converted documents yield a harvest of exactly their formulas",
 "docs2harvest turns every readable document into one expression for each formula that has an id and Content MathML, and into nothing else: the expression is that content without ids, cross references and namespace prefixes, under an address that is escaped and identifies the formula; with data, the record of the document has its id, text, metadata and formulas, escaped, and the numbers in its text, in its formulas and in the expressions agree and are different for different ids. Documents that cannot be read contribute nothing and do not disturb the others, whose data ids differ. The options and the configuration file are obeyed; failures are reported, and success only if the whole harvest was written.",
 ["inputs", "configurations", "fault_sequences"], "every document, configuration and failing call within the bound",
 "No test runs docs2harvest; which elements, ids and XPaths a document combines is not sampled anywhere.",
 [CR+"parser/MathParser.cpp", CR+"parser/XmlParser.cpp", CR+"docs2harvest.cpp"],
 [("conversion of a document", CR+"parser/MathParser.cpp createHarvestFromDocument"), ("text with numbered formulas", CR+"parser/XmlParser.cpp dumpNodeToText"), ("program", CR+"docs2harvest.cpp main")])

prop("P30", "A crawl fetches each reachable page once and stores each formula once",
 "For every site and every crawl request, the crawler fetches exactly the pages reachable from the starting URL over links that neither robots.txt nor the request forbids, each once (fragments make no difference, queries do), stops at the requested number, and stores every formula of the fetched pages exactly once in well-formed harvests whose names are free, so that no harvest overwrites another. Requests are carried out one at a time in the order they arrived; one with an unusable starting URL is dropped without disturbing the others. The queue is only touched under its lock.",
 ["inputs", "schedules", "histories"], "every site, request and arrival of requests within the bound",
 "No test runs the crawler; link graphs, limits and the time a request arrives combine in ways no test samples.",
 [CR+"crawler/MwsCrawler.cpp", CR+"crawler/MwsCrawler.hpp", CR+"types/SharedQueue.hpp"],
 [("crawl loop", CR+"crawler/MwsCrawler.cpp"), ("request queue", CR+"types/SharedQueue.hpp")])

prop("P31", "A downloaded page is complete, and its links are its anchors' targets",
 "A page's content and header are what one complete download of its URL delivered, however it arrived in pieces, fetched at most once each; a download that failed gives nothing rather than a part. The links of a page are exactly the targets of its anchors, in either case, unescaped and resolved against the page, that lie on the same site. The modification date is the value of its header field, if there is one, for every header. Every handle is released.",
 ["inputs", "fault_sequences"], "every content, division into pieces, failure and list of nodes within the bound",
 "Tests would need a network and a misbehaving server.",
 [CR+"utils/Page.cpp", CR+"utils/Page.hpp"],
 [("download", CR+"utils/Page.cpp getContent"), ("links", CR+"utils/Page.cpp getLinks")])

prop("P32", "A crawl request is carried out as posted, in whatever pieces it arrives",
 "For every sequence of fields a browser posts, in every division into pieces and every interleaving with other connections, the request queued for the crawler has exactly the starting URL, links to avoid and number of pages that were posted; nothing of one connection reaches another, nothing is written past a buffer, values that are too long or too many are dropped as a whole, and a connection that breaks off queues nothing. A request gets exactly one response, and everything allocated for it is released. The daemon starts with or without its page, and shows exactly that page.",
 ["inputs", "schedules", "fault_sequences"], "every form, division into pieces, interleaving and failing call within the bound",
 "No test drives the crawl daemon; pieces and interleavings depend on the network.",
 [CR+"daemon/CrawlerDaemon.cpp", CR+"daemon/CrawlerDaemon.hpp"],
 [("posted fields", CR+"daemon/CrawlerDaemon.cpp iterate_post"), ("requests", CR+"daemon/CrawlerDaemon.cpp accessHandlerCallback")])

prop("P33", "harvests2json gives each document exactly the ids its formulas have in the index",
 "For every index and every harvest, the record written for a document lists exactly the formula ids under which the index answers the subexpressions of the document's expressions (with identifier renaming: the ids under which the same subexpression, named as within its whole expression, was indexed), each with the addresses and positions where they occur, together with the document's own id, text, metadata and formulas. Nothing of one document appears in another, subexpressions that are not in the index and expressions without a document are left out, files already converted and files with another extension are left alone, and any failure is reported and leaves no file that a later run would take for a complete one.",
 ["inputs", "fault_sequences"], "every index, harvest, document, option and failing call within the bound",
 "No test runs harvests2json.",
 [CR+"harvests2json.cpp"],
 [("lookup of subexpressions", CR+"harvests2json.cpp HarvestParser::processExpression"), ("records", CR+"harvests2json.cpp writeParseResultToFile"), ("files", CR+"harvests2json.cpp main")])

prop("P34", "An analytics job is handed every expression of an index exactly once",
 "For every index, an analytics job is begun once with the index and its root, then handed every expression that the index contains exactly once, as a complete tree with the symbols, identifiers and variables it was indexed with (variables and renamed identifiers shown alike exactly if they are the same) and with the number of formulas that contain it, and is ended once after the last; nothing is handed over after the job has stopped. An index that cannot be loaded is reported, and everything is released. The example job prints the true totals and averages.",
 ["inputs"], "every index within the bound, every point at which the job stops",
 "No test runs an analytics job.",
 ["src/mws/analytics/analytics.cpp", "analytics/example.cpp", "src/mws/index/CallbackIndexIterator.hpp"],
 [("traversal", "src/mws/analytics/analytics.cpp analyze"), ("trees", "src/mws/analytics/analytics.cpp CmmlTokenBuilder::pushToken, popToken"), ("example", "analytics/example.cpp")])

prop("P35", "crawlerd serves and crawls until told to stop; every thread is accounted for",
 "For every command line, crawlerd starts nothing without a port from 1 to 65535; otherwise it serves on exactly that port and runs one crawl, in its own thread, on the very queue its server fills, storing harvests in the harvest directory or the one below it that was given, until SIGINT or SIGTERM, whenever that arrives, and then stops the server and reports success; a failing step is reported, and nothing is left running. Under every schedule, a routine handed to a thread runs exactly once with its argument if starting it was reported as successful and never otherwise; waiting for the threads ends, and ends only when every routine has ended; nothing starts afterwards, what the threads share changes only under their lock, and the lock is free after every call.",
 ["inputs", "schedules", "fault_sequences"], "every command line, moment of a signal, schedule and failing call within the bound",
 "No test runs crawlerd or starts a thread; the schedules and failures depend on the system.",
 [CR+"crawlerd.cpp", "src/common/thread/ThreadWrapper.cpp"],
 [("program", CR+"crawlerd.cpp main"), ("threads", "src/common/thread/ThreadWrapper.cpp ThreadWrapper::run, clean, startWrapper")])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
