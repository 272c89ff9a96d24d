#!/usr/bin/env python3
# Generates properties.jsonl (single source of the property texts).
import json
P=[]
def p(id,title,stmt,over,qtext,why,files,mech,obs=None,hook=False):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if obs: a["observe_at"]=obs
    a["hook_needed"]=None
    P.append(dict(id=id,title=title,statement=stmt,quantifier={"over":over,"text":qtext},why_tests_cant=why,anchors=a))
W="pkg/index/wildcard/"
p("C01","Wildcard search returns exactly the records containing the searched text",
 "For every set of string records (including empty, repeated, multi-byte and array-of-string values) and every non-empty searched text, a wildcard index returns exactly the positions of the records whose property contains that text as a substring, each exactly once and in ascending order. With several filters it returns exactly the records matching all of them, and with ignoreCase enabled it compares the lower-cased forms.",
 ["inputs","histories"],"all record contents, insertion sequences, searched texts and both ignoreCase settings",
 "Unit tests compare a few hand-picked trees; the radix-tree split and append cases depend on how arbitrary strings share prefixes, on inserting in every order and on the same position being added several times.",
 ["pkg/index/wildcard.go",W+"node.go",W+"position.go"],
 [("suffix insertion",W+"node.go AddAllSequences/AddSequence"),("lookup",W+"node.go GetSequence"),("position list",W+"position.go AddPosition/Iterate")],["pkg/index Wildcard.GetRecordPositions"])
p("C02","A saved wildcard index answers every search as it did when it was built",
 "After an index file has been completely written, starting again on the same input and configuration loads that file and every search on every indexed property returns exactly the same positions as the freshly built index did. This holds whatever the number of indexed properties, records and internal write-buffer flushes.",
 ["inputs","histories"],"all record contents, property counts, searched texts and buffer-flush points",
 "Tests load one small file; offsets, root order and buffered writes that straddle a flush only matter for particular sizes and histories.",
 ["pkg/index/wildcard.go",W+"metadata.go",W+"node.go",W+"stream.go"],
 [("create/load","pkg/index/wildcard.go createIndex/loadIndex"),("metadata",W+"metadata.go"),("node (de)serialization",W+"node.go")],["pkg/index NewWildcard + GetRecordPositions"])
p("C03","An interrupted index build is never accepted as a complete index",
 "If the process stops, or a write fails, at any point while a wildcard, sqlite or full-text index file is being built, then the next start either rejects that file with an error or serves an index that answers every search correctly; it never silently serves an incomplete index.",
 ["crash_points","fault_sequences","inputs"],"every crash point (including a torn final write) and failing write, over all record contents within the bound",
 "No test crashes a build; the order between the completion marker and the index data reaching the file is only visible at specific crash points.",
 ["pkg/index/wildcard.go","pkg/index/sqlite.go",W+"metadata.go",W+"stream.go","pkg/index/sqlite/metadata.go"],
 [("completion marker",W+"metadata.go SetCompleted/Save/AssertValid"),("buffered writes",W+"stream.go Flush"),("sqlite completion row","pkg/index/sqlite/metadata.go")],["index file content at each write","NewWildcard/NewSqlite on the next start"])
p("C04","An index built from different data or settings is rejected, not reused",
 "When a stored wildcard, sqlite or full-text index is opened, it is used only if everything recorded in it matches the present: the input's size and modification time (in seconds for the databases), the format version and the completion marker, and for a wildcard index also the case-folding setting and the number of indexed properties; any single difference makes start-up fail with an error. When all of them match, the index is accepted. Another index in the same database, whatever its name, does not count: it is neither used in place of a missing one nor in the way of a saved one.",
 ["inputs","configurations","histories"],"all recorded/current combinations of size, modification time, ignoreCase, root count, version, magic and completion",
 "Tests try one mismatch of each kind with fixed values; a comparison that loses bits, ignores a field, or compares the wrong pair is only visible for particular value pairs.",
 [W+"metadata.go","pkg/index/sqlite/metadata.go"],
 [("AssertValid",W+"metadata.go AssertValid"),("sqlite metadata","pkg/index/sqlite/metadata.go AssertValid")],["error returned by the loading functions"])
p("C05","A corrupted index file yields an error or an answer, never a crash or hang",
 "Loading any sequence of bytes as a wildcard index file and searching in it terminates, and either returns an error or a result; it never panics, never loops forever and never attempts an unbounded allocation.",
 ["inputs","fault_sequences"],"all file contents up to the bound (all header bytes symbolic, truncated at every length)",
 "Tests only load files written by the same code; the space of damaged headers, offsets and lengths cannot be sampled meaningfully.",
 [W+"metadata.go",W+"node.go",W+"position.go",W+"stream.go"],
 [("metadata decoding",W+"metadata.go Unserialize"),("node decoding",W+"node.go Unserialize"),("bounded reads",W+"stream.go Get")],["LoadMetadata/GetRootNode/GetSequence"])
p("C06","The index write buffer behaves exactly like a plain byte array",
 "For every sequence of appends, overwrites, reads and flushes, wherever they fall relative to what is still buffered and what is already on disk, each read returns the bytes most recently written there and, after a flush, the file holds exactly the logical content. Offsets returned by appends are the logical end of the content, and out-of-range accesses give errors without changing the content.",
 ["histories","inputs"],"all short operation sequences with symbolic offsets, lengths and contents, over symbolic buffer thresholds",
 "Tests exercise a fixed list of calls; overwrites that straddle the flushed/buffered boundary or hit it exactly need particular offset/length combinations.",
 [W+"stream.go"],[("append/replace/get/flush",W+"stream.go")],["Stream.Add/Replace/Get/Flush and the file"])
p("C07","Index tree nodes, position lists and metadata survive serialization unchanged",
 "Every node, position-list item and metadata block that is saved reads back with exactly the same field values (offsets, lengths, positions, flags, sizes), for all 64-bit field values, and saving again writes the same bytes in the same place.",
 ["inputs"],"all values of all fields",
 "Round-trip tests use a handful of small field values; a truncated width, swapped field or sign error shows only for particular values.",
 [W+"node.go",W+"position.go",W+"metadata.go"],[("Serialize/Unserialize",W+"node.go, position.go, metadata.go")],["saved file read back"])
p("C08","Exact-match lookups equal a full scan of the input",
 "For every input content and every set of filters on indexed properties, the in-memory map index and the scanning index return exactly the positions of the records whose properties equal all the filter values, in ascending order without duplicates. A value that does not occur, or filters that are met only by different records, give an empty result rather than an error.",
 ["inputs","histories"],"all record contents (strings, integers, booleans, nulls) and filter combinations within the bound",
 "Tests use one small fixed data set; agreement between the index and a scan has to hold for every combination of equal/unequal/missing values.",
 ["pkg/index/map.go","pkg/index/noop.go","pkg/input/record/join.go"],
 [("map build and lookup","pkg/index/map.go"),("scan","pkg/index/noop.go")],["Index.GetRecordPositions"])
p("C09","Values of any shape never crash an index",
 "Indexing or filtering with any value a record or parameter can hold — null, boolean, number, text, list or object, nested or not — either works or returns an error, for the map, scanning, wildcard and sqlite indexes; it never crashes the process. In the map and wildcard indexes, a list value is searchable by each of its elements.",
 ["inputs"],"all JSON-like values up to a small depth, as record content and as filter",
 "Tests index only scalar values; the crash needs a list or object value in one record or in a relationship's parent property.",
 ["pkg/index/map.go","pkg/index/noop.go","pkg/index/wildcard.go","pkg/index/sqlite.go"],
 [("value insertion","addValueToIndex in pkg/index"),("filter comparison","GetRecordPositions in pkg/index")],["Index constructors and GetRecordPositions"])
p("C10","SQL-backed lookups equal a full scan and treat values purely as data",
 "For every input content, property name and filter value, the sqlite index returns exactly the positions of the records equal to all filters (texts according to the collation of the property, numbers and booleans by value, so that true equals 1, and null equal to null only), ascending and without duplicates, on first build and after reopening the same database. The full-text index returns exactly the records that SQLite's full-text search matches; for a single word, those that contain it in an indexed property. Quotes and other special characters in names and values never change the meaning of the query. Property names of an index that differ only in the case of ASCII letters are refused.",
 ["inputs","configurations"],"all record contents, filter values and property names with arbitrary characters within the bound",
 "Tests use plain names and values; quoting mistakes and build/reload asymmetries depend on unusual characters and combinations.",
 ["pkg/index/sqlite.go","pkg/index/fts5.go","pkg/index/sqlite/sanitize.go","pkg/index/sqlite/metadata.go"],
 [("table creation and lookup","pkg/index/sqlite.go"),("identifier quoting","pkg/index/sqlite/sanitize.go")],["SQL statements and NewSqlite/GetRecordPositions"])
p("C11","Combining several indexes gives the exact sorted intersection",
 "For any number of ascending position streams, their combination yields exactly the positions present in all of them, in ascending order, each once; after the end it keeps answering end, an error in any stream is reported, and no position is skipped or repeated because of the relative lengths or values of the streams.",
 ["inputs","histories","fault_sequences"],"all stream counts, lengths, 64-bit positions and error points within the bound",
 "Tests fix three small lists; leap-frog skipping mistakes need particular relative orders of values and stream ends.",
 ["pkg/input/record/join.go","pkg/input/record/record.go"],[("join","pkg/input/record/join.go JoinPositionIterators")],["iterator results"])
p("C12","A CSV record fetched by position equals the one seen while scanning",
 "For every CSV file content and delimiter, scanning visits every data row exactly once in file order with strictly increasing positions, and fetching any visited position later, in any order, returns a record with the same position and the same column values. The header row and the dieOnInputChange, autodetectColumns or quoted multi-line fields do not change this.",
 ["inputs","histories"],"all file contents up to the bound (quotes, separators, CR/LF, multi-byte) and all fetch orders",
 "Tests use a few tidy files; byte positions go wrong only with particular combinations of quoting, blank lines, CRLF and buffering.",
 ["pkg/input/csv.go","pkg/input/csv_record.go","pkg/util/bufio.go"],
 [("sequential scan","pkg/input/csv.go IterateAll"),("random access","pkg/input/csv.go Get")],["Input.IterateAll / Input.Get"])
p("C13","CSV rows map to the declared columns whatever their length",
 "In every CSV row, each declared column that is present is parsed from its own field, a missing trailing field reads as null, extra fields are ignored, and an unknown column is an error; reading all columns at once agrees with reading each one. With autodetection the columns are named after the header row. Duplicate names are rejected, declared or not.",
 ["inputs","configurations"],"all rows, column counts and header contents up to the bound",
 "Tests use a couple of fixed rows; off-by-one handling of short and long rows and header edge cases need specific shapes.",
 ["pkg/input/csv.go","pkg/input/csv_record.go"],[("column access","pkg/input/csv_record.go"),("autodetection","pkg/input/csv.go autodetectColumns")],["Record.Get / Record.All"])
p("C14","A JSON-lines record fetched by position equals the one seen while scanning",
 "For every JSON input consisting of consecutive documents with any spacing between them, scanning visits every document exactly once in order with strictly increasing positions, and fetching any visited position returns the same document (an object, or null for a record without properties). Malformed content and documents of another kind are reported as an error, never skipped or cut.",
 ["inputs","histories"],"all separators and small documents up to the bound",
 "Tests use one fixed file; positions depend on whitespace and on how far the decoder has read ahead.",
 ["pkg/input/json.go","pkg/input/json_record.go"],[("scan","pkg/input/json.go IterateAll"),("random access","pkg/input/json.go Get")],["Input.IterateAll / Input.Get"])
p("C15","An XML record fetched by position equals the one seen while scanning",
 "For every XML input and selection of its records by their element name or path, scanning visits each selected element exactly once in document order with strictly increasing positions, and fetching any visited position returns a record with the same property values. The scan of a document that ends too early gives an error, no record that is cut.",
 ["inputs","histories"],"all small documents and spacings up to the bound",
 "Tests use one fixed file; positions depend on buffering and on what lies between the selected elements.",
 ["pkg/input/xml.go","pkg/input/xml_record.go"],[("scan","pkg/input/xml.go IterateAll"),("random access","pkg/input/xml.go Get")],["Input.IterateAll / Input.Get"])
p("C16","Nested property paths resolve consistently and never crash",
 "For every record value and every dotted path, looking a path up gives exactly the element reached by following each step through objects and lists, null when a step does not exist, and an error when a step is not applicable; it never crashes, whatever the path text (negative, huge or non-numeric indexes included).",
 ["inputs"],"all JSON-like values of small depth and all path texts up to the bound",
 "Tests follow a few valid paths; paths come from the configuration and request the element at arbitrary indexes.",
 ["pkg/input/json_record.go","pkg/input/xml_record.go","pkg/input/record/path.go","pkg/parser/split.go"],[("path walking","getSubValue in pkg/input and pkg/input/record")],["Record.Get"])
p("C17","Integer parsing accepts exactly the integers and keeps their value",
 "For every text, the integer parser (after removing the configured ignored characters) returns its exact 64-bit value if and only if it is a decimal integer in range, and an error otherwise. The pattern it advertises for routes matches only texts made of an optional minus sign, digits and ignored characters, and matches every such text.",
 ["inputs","configurations"],"all texts and ignored-character sets up to the bound",
 "Tests check a dozen literals; the boundary between accepted and rejected texts, and the pattern built from arbitrary ignored characters, is infinite.",
 ["pkg/parser/integer.go"],[("parse","pkg/parser/integer.go Parse"),("route pattern","pkg/parser/integer.go GetRegexpPattern")],["Parser.Parse / GetRegexpPattern"])
p("C18","Float and boolean parsing follow the configured notation exactly",
 "For every text, the float parser replaces exactly the configured decimal separator and ignored characters before parsing, and the boolean parser returns true or false exactly for the configured spellings and an error for anything else; the advertised route patterns accept every text written in the configured notation.",
 ["inputs","configurations"],"all texts, separators and spellings up to the bound",
 "Tests check literals for one or two settings; interactions of separator and ignored characters are configuration dependent.",
 ["pkg/parser/float.go","pkg/parser/boolean.go"],[("parse","pkg/parser/float.go, boolean.go")],["Parser.Parse / GetRegexpPattern"])
p("C19","Splitting text and converting charsets loses nothing",
 "For every text and delimiter the split parser returns exactly the pieces between consecutive delimiter occurrences, each parsed by the element parser, such that joining them gives the text back; an element error is reported. The text parser returns its input unchanged when no conversion is configured.",
 ["inputs","configurations"],"all texts and delimiters (plain and pattern) up to the bound",
 "Tests split a couple of literals.",
 ["pkg/parser/split.go","pkg/parser/string.go","pkg/parser/json.go"],[("split","pkg/parser/split.go Parse")],["Parser.Parse"])
p("C20","Record sorting is a correct ordering of the same records",
 "Sorting related records by any list of properties and directions yields a permutation of the same records in which every earlier record compares at or before every later one, comparing by the first property that differs; null, boolean, numeric and text values are ordered consistently and incomparable values never crash.",
 ["inputs","configurations"],"all value combinations and sort settings for small lists",
 "Tests sort a few fixed lists; ordering laws (antisymmetry, transitivity) range over all value triples.",
 ["pkg/input/record/sort.go","pkg/parser/parser.go"],[("sort","pkg/input/record/sort.go"),("compare","pkg/parser/parser.go Compare")],["List.Sort"])
p("C21","A request is routed to the first configured route it really matches",
 "For every configured route path made of literal text and parameters and every request path, the request matches exactly when its text equals the literal parts with each parameter replaced by a text its parser's pattern allows, and each parameter receives exactly its own part of the path (URL-decoded text, query parameters included). Literal characters have no special meaning and several parameters never exchange or shift their values.",
 ["inputs","configurations"],"all route path literals, parser types and request paths up to the bound",
 "Tests try a few alphabetic paths; special characters and parser patterns that contain groups only fail in particular combinations.",
 ["pkg/service/http.go"],[("route pattern","pkg/service/http.go createPathRegexp"),("parameters","pkg/service/http.go getParams")],["HTTP handler behaviour"])
p("C22","List responses contain exactly the requested page",
 "For every data set and every limit and offset text, the list output returns the matching records number offset to offset+limit-1 in input order, never more than the configured maximum, with the default limit when none is given; a limit that is not a positive integer or an offset that is negative or not an integer gives an error and no data. Consecutive pages neither overlap nor skip records.",
 ["inputs","configurations"],"all record counts, limits, offsets (texts and 64-bit values) and configured defaults/maximums within the bound",
 "Tests use a fixed small list; page boundaries, extreme values and default/maximum interaction are combinatorial.",
 ["pkg/output/json_array.go"],[("paging","pkg/output/json_array.go Handle/getLimit/getOffset")],["Output.Handle"])
p("C23","Query filters select exactly the matching records",
 "For every data set and set of request parameters, the list output returns exactly the records that match all given filters (absent parameters do not filter) whatever mixture of indexes serves them (same type and value for the exact indexes, containing the text for a wildcard index), and the single-object output returns the first record matching all its parameters or a not-found error; a value the parser refuses gives an error (another one than not found).",
 ["inputs","configurations"],"all data sets, parameter values and index assignments within the bound",
 "Tests use one or two filters on fixed data; combining filters over one or several indexes must hold for every combination.",
 ["pkg/output/json_array.go","pkg/output/json_object.go","pkg/output/json_common.go"],[("filters","getFiltersPerIndex / getRouteFiltersPerIndex"),("intersection","getFilteredRecordPositionsPerIndex")],["Output.Handle"])
p("C24","Relationships embed exactly the related records",
 "For every data set, each relationship of each returned record contains exactly the child records whose matched properties equal the parent's, in input order or in the configured sort order (records that compare as equal in any order), cut to the configured limit; as a list when configured so (empty when none) or as the first one or null otherwise, recursively for nested relationships. The result does not depend on the order in which relationships or matches happen to be processed.",
 ["inputs","configurations","schedules"],"all parent/child data, limits, sort settings, nesting and map iteration orders within the bound",
 "Tests use fixed data with a single relationship; map iteration order is random and key equality patterns are combinatorial.",
 ["pkg/output/json_common.go"],[("relationship loading","pkg/output/json_common.go loadRelationships")],["Output.Handle"])
p("C25","A response is either a complete success or an error, never a mixture",
 "For every data set (including values that have no JSON form) and every failure of an input or index at any step, a request is answered with exactly one status: either success with one complete JSON document, or the error with its message; success is never announced before the document is known to be complete.",
 ["inputs","fault_sequences"],"every failing call, and all record values including non-finite numbers",
 "Tests inject at most one fixed error; the failure must be tried at every step and value.",
 ["pkg/output/json_array.go","pkg/output/json_object.go","pkg/service/http.go"],[("response writing","Handle in pkg/output"),("error mapping","pkg/service/http.go")],["HTTP response"])
p("C26","The HTTP service answers each request with the right status and content",
 "For every request method, path, and content type, a matching route runs its output once with its parameters; an unmatched path gives 404, a payload of the wrong type gives an error, a missing record 404 and any other failure 500, each with a well-formed JSON error body and content type; no request crashes or blocks the service.",
 ["inputs","configurations"],"all methods, paths, content-type texts and handler outcomes within the bound",
 "Tests issue about a dozen requests; status selection is a function of many independent request features.",
 ["pkg/service/http.go"],[("dispatch","pkg/service/http.go")],["HTTP response"])
p("C27","Any configuration is accepted or rejected with an error, never a crash",
 "For every configuration (any combination of missing, empty, null, unknown, duplicate or dangling names and values) start-up validation terminates with either success or an error, and success implies that every referenced input, index, parser and output exists, every index is asked only for an input and a property that it handles, names are unique, and defaults are filled in. Creating the configured objects afterwards either works or gives an error.",
 ["configurations","inputs"],"all small configurations with symbolic presence, names and references",
 "Tests check one mistake at a time per object; combinations and null list items are not reached.",
 ["pkg/config/config.go","pkg/index/map_config.go","pkg/input/csv_config.go","pkg/output/json_array_config.go","pkg/output/relationship/config.go","pkg/service/http_config.go"],
 [("validation","Validate methods")],["Config validation result"])
p("C28","Concurrent requests read the same answers as sequential ones",
 "Under every interleaving of concurrent reads of the same input, index or parser, each request receives exactly the result it would receive alone: no mixed records, no lost or foreign data, no deadlock.",
 ["schedules","inputs"],"all interleavings of two or three concurrent readers at their synchronization and file-access points",
 "Tests are single threaded; the shared reader position and decoder state are only corrupted under particular schedules.",
 ["pkg/input/csv.go","pkg/input/json.go","pkg/input/xml.go","pkg/parser/string.go",W+"stream.go"],
 [("reader lock","pkg/input/*.go readerLock"),("shared parser state","pkg/parser/string.go")],["concurrent Input.Get results"])
p("C29","Every opened file and cursor is released",
 "After a scan, index build, lookup or request ends, by completion, early stop or error, every file and database cursor it opened is closed, so that any number of requests can follow one another; and closing a component releases what it holds.",
 ["histories","fault_sequences"],"all stopping points and failure points within the bound",
 "Tests never look at handles left open and never run enough requests to exhaust them.",
 ["pkg/input/csv.go","pkg/input/json.go","pkg/input/xml.go","pkg/index/map.go","pkg/index/noop.go","pkg/index/wildcard.go","pkg/index/sqlite.go"],
 [("iterator end","IterateAll end functions"),("cursor","pkg/index/sqlite.go rows")],["open handle counts"])
p("C30","A change of a watched input stops the service",
 "While an input is configured to stop on change, any modification event reported for its file ends the process with an error message, and no event does so when the option is off, nor does an event that is not a modification of the content; watcher failures are reported and do not end the process.",
 ["histories","configurations"],"all event kinds and option settings",
 "Tests never deliver file events.",
 ["pkg/util/fsnotify.go","pkg/input/csv.go"],[("watch","pkg/util/fsnotify.go")],["process exit on event"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
