#!/usr/bin/env python3
"""Source of checks.json: the harnesses, bounds and parameters of every check. Then runs mkmanifest.py."""
import json,os,subprocess
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
C={}
def check(id,outside,*hs,**kw):
    C[id]=dict(outside=outside,harnesses=list(hs),**kw)
def H(fn,bounds,reach,quick=None,thorough=None,qs=60,ts=600,tskip=False,qskip=False,**kw):
    h=dict(fn=fn,bounds=bounds,reach=reach.split(",") if reach else [],quick={"seconds":qs,"params":quick or {}},**kw)
    if qskip: h["quick"]["skip"]=True
    h["thorough"]={"seconds":ts,"params":thorough if thorough is not None else (quick or {})}
    if tskip: h["thorough"]["skip"]=True
    return h

check("C06","longer operation sequences; the 10 000 byte write buffer itself is the code's constant",
 H("stream.HSmall","file of 0..2 bytes, any 3 (thorough 4) operations with 0..2 arbitrary bytes at any offset","add,replace,get,flush",dict(steps=3),dict(steps=4)),
 H("stream.HSmall","file of 0..1 bytes, any 4 (thorough 5) operations with 0..1 arbitrary bytes","add,replace,get,flush",dict(steps=4,init=1,len=1),dict(steps=5,init=1,len=1)),
 H("stream.HRange","any 64-bit offset and length on contents of 0..4 bytes split between disk and buffer","get in range,get out of range,replace in range,replace out of range",dict(init=2),dict(init=4)),
 H("stream.HBig","3 (thorough 4) additions, replacements and flushes with sizes around the 10 000 byte buffer","add,replace,flush",dict(steps=3),dict(steps=4)),
)
check("C08","more records, properties and longer texts; NaN",
 H("idx.HExact","map and noop: 0..3 records of one property (text of 0..1 bytes, any 64-bit integer, boolean or null), any filter value","found,not found",dict(recs=3),dict(recs=4)),
 H("idx.HExact","0..2 records of two properties, one or two filters","found,not found",dict(recs=2,props=2,types=3),dict(recs=2,props=2,types=4)),
 H("idx.HExact","also floating-point values, arbitrary ascending positions","found,not found",dict(recs=1,types=5,widepos=1,len=2),dict(recs=2,types=5,widepos=1,len=2)),
 H("idx.HErrors","0..2 records, the input fails at any step","error"),
)
check("C09","deeper nesting",
 H("idx.HShapes","map, noop and wildcard: one record, value and filter of any shape nested once","index error,filter error,answer",dict(recs=1),dict(recs=1,depth=2,filterdepth=1),ts=900),
 H("idx.HShapes","one record of a null, a text of one byte, or lists and objects of these nested up to twice","index error,filter error,answer",dict(recs=1,few=1,depth=2,filterdepth=0),dict(recs=1,few=1,depth=2,filterdepth=2)),
 H("idx.HShapes","two records of any shape nested once, scalar filters","index error,filter error,answer",dict(recs=2,filterdepth=0),dict(recs=2),ts=900),
 H("sq.HShapes","sqlite and full-text: one record, value and filter of any shape nested once","index error,filter error,answer",dict(recs=1),dict(recs=2,depth=2,filterdepth=2),ts=900,cgo=True),
)
check("C11","more or longer streams",
 H("join.HJoin","0..2 streams of 0..3 ascending 64-bit positions","end,position",dict(iters=2,len=3,wide=1)),
 H("join.HJoin","0..2 streams of 0..4 (thorough 6) positions","end,position",dict(iters=2,len=4),dict(iters=2,len=6)),
 H("join.HJoin","0..3 (thorough 4) streams of 0..3 positions","end,position",dict(iters=3,len=3),dict(iters=4,len=3),ts=900),
 H("join.HJoin","0..3 streams of 0..2 positions, one failing at any call","error,end,position",dict(iters=3,len=2,fail=1)),
 H("join.HPositionList","0..3 positions","end",qs=20),
)
check("C07","more children, positions or properties",
 H("wild.HNodeBytes","any 56 bytes of a node, any 16 of a position","end"),
 H("wild.HNodeLinks","1..3 children, 0..3 arbitrary 64-bit positions (each possibly added twice)","positions,end"),
 H("wild.HPositionArray","0..3 arbitrary 64-bit positions","end"),
 H("wild.HMetadata","any 64-bit input size and time, flags, 0..3 properties","completed,not completed"),
)
AB="over a two-letter alphabet"
check("C01","longer texts, more records and properties; Unicode case folding beyond the letters listed",
 H("wild.HSearch","0..2 records, values of 0..3 arbitrary bytes, searched text of 1..2 (thorough 3) arbitrary bytes","found,nothing found",dict(recs=2,len=3,search=2),dict(recs=2,len=3,search=3)),
 H("wild.HSearch","0..3 records, values of 0..2 arbitrary bytes (thorough 0..2 records of 0..4), searched text of 1..2","found,nothing found",dict(recs=3,len=2,search=2),dict(recs=2,len=4,search=2),ts=900),
 H("wild.HSearch","0..2 records, values of 0..4 (thorough 6) letters "+AB+", searched text of 1..3","found,nothing found",dict(recs=2,len=4,search=3,alphabet=1),dict(recs=2,len=6,search=4,alphabet=1)),
 H("wild.HSearch","0..4 records, values of 0..2 letters "+AB,"found,nothing found",dict(recs=4,len=2,search=2,alphabet=1),dict(recs=5,len=2,search=2,alphabet=1)),
 H("wild.HSearch","two properties filtered together, 0..2 records of 0..2 letters "+AB,"found,nothing found",dict(recs=2,len=2,search=1,alphabet=1,props=2),dict(recs=2,len=2,search=2,alphabet=1,props=2)),
 H("wild.HSearch","list values of 0..2 texts of 0..1 bytes","found,nothing found",dict(recs=2,len=1,arrays=2,search=2),dict(recs=2,len=2,arrays=2,search=2)),
 H("wild.HSearch","ignoreCase, letters a A b B","found,nothing found",dict(recs=2,len=2,alphabet=2,ignore=1),dict(recs=2,len=3,search=3,alphabet=2,ignore=1)),
 H("wild.HSearch","ignoreCase, letters a A and several multi-byte ones","found,nothing found",dict(recs=1,len=2,search=2,alphabet=3,ignore=1),dict(recs=2,len=2,search=2,alphabet=3,ignore=1)),
 H("wild.HSearch","arbitrary ascending 64-bit positions","found,nothing found",dict(recs=2,len=1,widepos=1),dict(recs=3,len=2,widepos=1)),
 H("wild.HSearch","an index larger than the write buffer","found,nothing found",dict(recs=2,len=2,search=1,alphabet=1,fill=110),dict(recs=2,len=2,search=2,alphabet=1,fill=220)),
 H("wild.HSearch","one of 4 sets of records that share prefixes (abx and aby, abxabyab, xyz xy x, abc abc ab abx), then 0..1 records of 0..2 (thorough 3) letters out of a b c x y z, searched texts of 1..3","found,nothing found",dict(base=1,recs=1,len=2,search=3,alphabet=4),dict(base=1,recs=1,len=3,search=3,alphabet=4)),
 H("wild.HSearch","records abx, aby, ac and one of 0..3 letters out of a b c x y z, searched texts of 1..3","found,nothing found",dict(base=3,recs=1,len=3,search=3,alphabet=4,exact=1),dict(base=3,recs=2,len=3,search=3,alphabet=4)),
 H("wild.HSearch","records of 301 (thorough 600) and 3 letters, searched texts of 1..2 letters out of a b c x y z, alone or after 298..300 of them","found,nothing found",dict(base=4,recs=0,search=2,alphabet=4,length=300),dict(base=4,recs=0,search=2,alphabet=4,length=599)),
 H("wild.HSearch","140 (thorough 256) records of one byte each, all different, any searched byte","found",dict(base=2,recs=0,search=1),dict(base=2,recs=0,search=1,children=256)),
 H("wild.HSearch","ignoreCase, letters whose upper and lower case do not come in pairs","found,nothing found",dict(recs=1,len=2,search=1,alphabet=5,ignore=1),dict(recs=2,len=2,search=1,alphabet=5,ignore=1)),
)
check("C02","longer texts, more records and properties",
 H("wild.HReload","0..2 records, values of 0..2 arbitrary bytes, searched text of 0..2, any size and time of the input","found,nothing found",dict(recs=2,len=2,search=2,anyinput=1),dict(recs=3,len=2,search=2,anyinput=1)),
 H("wild.HReload","two properties, 0..2 records of 0..2 letters "+AB,"found,nothing found",dict(recs=2,len=2,search=1,alphabet=1,props=2),dict(recs=2,len=2,search=2,alphabet=1,props=2)),
 H("wild.HReload","an index larger than the write buffer","found,nothing found",dict(recs=2,len=2,search=1,alphabet=1,fill=110),dict(recs=2,len=2,search=2,alphabet=1,fill=220)),
 H("wild.HReload","the same with two properties","found,nothing found",dict(recs=2,len=1,search=1,alphabet=1,fill=110,props=2),dict(recs=2,len=2,search=1,alphabet=1,fill=110,props=2)),
 H("wild.HReload","ignoreCase, letters a A b B","found,nothing found",dict(recs=2,len=1,search=2,alphabet=2,ignore=1),dict(recs=2,len=2,search=2,alphabet=2,ignore=1)),
)
check("C03","a disk that reorders writes (power loss); crash points inside one write other than those listed",
 H("wild.HCrash","wildcard: 0..1 records, the build stops or a write fails at every change of the file, after each of its bytes","crash,write error,rejected,accepted",dict(recs=1,len=2,bytes=420,ops=4),dict(recs=2,exact=1,len=1,bytes=700,ops=4),faults=True),
 H("wild.HCrash","wildcard: an index larger than the write buffer, every change of the file, torn at 9 places","crash,write error,rejected,accepted",dict(recs=1,len=1,exact=1,fill=170,alphabet=1,ops=20),dict(recs=2,len=1,exact=1,fill=110,alphabet=1,ops=20),faults=True),
 H("sq.HCrash","sqlite and full-text: 0..2 records, the build stops or fails before any of its SQL statements or at any use of the input","crash,failure,rejected,accepted",dict(recs=2),dict(recs=3,props=2),cgo=True),
)
check("C04","indexes whose recorded names of properties differ (only their number is recorded for sqlite and full-text); times beyond 300 000 years",
 H("wild.HStale","wildcard: 0..1 records and 1 property at first; then any size, time (to the second), case folding and 1..3 properties","accepted,rejected",dict(recs=1,len=1,alphabet=1),dict(recs=2,len=2,alphabet=1)),
 H("wild.HStale","the same with 2 properties at first","accepted,rejected",dict(recs=1,len=1,alphabet=1,props=2),dict(recs=2,len=2,alphabet=1,props=2)),
 H("wild.HHeaderByte","wildcard: any single changed byte of the recorded format, time, size, case folding, completion and number of properties","accepted,rejected",dict(recs=1,len=1,alphabet=1,exact=1)),
 H("sq.HStale","sqlite and full-text: any size and time recorded, then any size and time","accepted,rejected",cgo=True),
 H("sq.HShared","two indexes (sqlite or full-text) in one database, names of 5 (with the letters that stand for others in a pattern), any sizes and times; built and opened again","shared",cgo=True),
 H("sq.HRecorded","sqlite and full-text: any single one of the recorded time, size and completion changed to any other value, the format to 14 others","rejected",cgo=True),
)
check("C05","larger files; links to places other than those listed",
 H("wild.HAnyBytes","files of 0..24 (thorough 80) arbitrary bytes","rejected",dict(bytes=24),dict(bytes=80)),
 H("wild.HHeader","right magic bytes (and version, or everything up to the number of properties), then 0..64 (thorough 120) arbitrary bytes","accepted,rejected",dict(bytes=64),dict(bytes=120)),
 H("wild.HTree","2 nodes and 2 positions whose links lead to any item","search error,search result",dict(odd=0)),
 H("wild.HTree","1 node and 2 positions, links also to misaligned, distant and negative places","search error,search result",dict(nodes=1)),
 H("wild.HTree","2 nodes and 1 position, links also to misaligned, distant and negative places","search error,search result",dict(nodes=2,positions=1),dict(nodes=2,positions=1,search=2)),
 H("wild.HTree","2 nodes whose texts lie anywhere, with negative and huge lengths","search error,search result",dict(nodes=2,positions=0,values=1,odd=0),dict(nodes=2,positions=0,values=1)),
 H("wild.HTree","the root itself leads anywhere","search error,search result",dict(nodes=1,positions=1,root=1),dict(nodes=3,positions=2,odd=0)),
)
check("C16","longer paths, deeper values, other XML properties",
 H("path.HXml","XML records with lists, objects and a structure in a text, of 0..1 (thorough 2) items each; paths of 1..3 steps","value,null,error",dict(items=1),dict(items=2,steps=4)),
 H("path.HXml","XML records with lists of lists; paths of 0..3 (thorough 5) characters l o . 0 1 - p","value,null,error",dict(items=1,lists=1,len=3),dict(items=2,lists=1,len=5)),
 H("path.HPath","values of any shape nested up to 2, paths of 1..3 steps","value,null,error",dict(depth=2,steps=3,items=1,keys=1),dict(depth=2,steps=4,items=2)),
 H("path.HPath","values of any shape nested once, paths of 0..4 (thorough 6) characters a . 0 1 -","value,null,error",dict(depth=1,len=4,items=2),dict(depth=1,len=6)),
 H("path.HPath","values of any shape nested once, paths of 0..3 arbitrary bytes","value,null,error",dict(depth=1,len=3,anybytes=1,items=1),dict(depth=1,len=4,anybytes=1)),
 H("path.HPath","objects with the keys a, 1, -1 and the empty one","value,null,error",dict(depth=1,steps=2,keys=3,items=0),dict(depth=1,len=6,keys=4)),
 H("path.HIndex","list indexes of 0..2 characters out of digits, signs, _ and space","value,null,error",dict(len=3),dict(len=5)),
 H("path.HIndex","list indexes of 18..20 digits, the first and last two arbitrary, 0 or 9 in between","value,null",dict(min=18,len=3,digits=1)),
)
check("C17","other sets of ignored characters; longer texts mixed from other characters",
 H("parse.HInteger","texts of 0..3 arbitrary bytes, 10 sets of ignored characters","accepted,refused",dict(len=3),dict(len=4)),
 H("parse.HInteger","texts of 0..5 characters out of - , . 0 1 5 space a _ ^ ]","accepted,refused",dict(len=4,alphabet=2),dict(len=5,alphabet=2)),
 H("parse.HInteger","numbers of 15..24 digits around the 64-bit limits, the last 0..3 (thorough 4) digits arbitrary","accepted,refused",dict(len=3,alphabet=4,sets=1,long=1),dict(len=4,alphabet=4,sets=1,long=1)),
 H("parse.HInteger","texts with multi-byte ignored characters","accepted,refused",dict(len=3,alphabet=3),dict(len=4,alphabet=3)),
 H("parse.HIntegerPattern","texts of 0..2 arbitrary bytes","matches,no match",dict(len=2),dict(len=3)),
 H("parse.HIntegerPattern","texts of 0..4 characters out of - , . 0 1 5 space a _ ^ ]","matches,no match",dict(len=3,alphabet=2),dict(len=4,alphabet=2)),
 H("parse.HIntegerPattern","texts with multi-byte ignored characters","matches,no match",dict(len=3,alphabet=3)),
)
check("C18","other separators, ignored characters and spellings; longer texts",
 H("parse.HFloat","texts of 0..2 arbitrary bytes, 5 separators, 10 sets of ignored characters","accepted,refused",dict(len=2),dict(len=3)),
 H("parse.HFloat","texts of 0..4 characters out of - , . 0 1 5 space a _ ^ ]","accepted,refused",dict(len=3,alphabet=2),dict(len=5,alphabet=2)),
 H("parse.HFloatPattern","texts of 0..2 arbitrary bytes","matches,no match",dict(len=2,sets=5),dict(len=3)),
 H("parse.HFloatPattern","texts of 0..4 characters out of - , . 0 1 5 space a _ ^ ]","matches,no match",dict(len=3,alphabet=2,sets=5),dict(len=4,alphabet=2)),
 H("parse.HBoolean","3 sets of spellings, texts of 0..2 arbitrary bytes","accepted,refused",dict(len=2),dict(len=4)),
 H("parse.HBoolean","a spelling with any one byte changed","accepted,refused",dict(len=0,spelled=1)),
)
check("C19","longer texts and delimiters; charsets other than ISO-8859-1 and windows-1252",
 H("parse.HSplit","texts of 0..4 and delimiters of 1..2 arbitrary bytes","several pieces,one piece",dict(len=4,delim=2,mindelim=1),dict(len=6,delim=3,mindelim=1)),
 H("parse.HSplit","texts of 0..2 arbitrary bytes, empty delimiter","several pieces,one piece",dict(len=2,delim=0),dict(len=3,delim=0)),
 H("parse.HSplit","texts of 100 pieces and 0..1 bytes, delimiters of one byte","several pieces",dict(fill=100,len=1,delim=1,mindelim=1),dict(fill=300,len=2,delim=1,mindelim=1)),
 H("parse.HSplitElements","texts of 0..4 characters, integer elements","accepted,refused",dict(len=4,alphabet=2),dict(len=6,alphabet=2)),
 H("parse.HSplitRegexp","texts of 0..3 (thorough 5) letters a b , ;, three regular expressions","several pieces",dict(len=3,alphabet=5),dict(len=5,alphabet=5)),
 H("parse.HSplitRegexp","texts of more than 120 pieces, the last 0..1 characters out of a b , ;","several pieces",dict(fill=60,len=1,alphabet=5)),
 H("parse.HText","texts of 0..4 arbitrary bytes","text",dict(len=4),dict(len=8)),
 H("parse.HCharset","one (thorough two) texts of 0..1 arbitrary bytes","converted",dict(len=1,texts=1),dict(len=1,texts=2)),
 H("parse.HCharset","texts of 2..3 bytes that can form UTF-8 characters","converted",dict(min=2,len=3,texts=1,alphabet=6)),
 H("parse.HDocCharset","two Shift_JIS characters (ASCII, katakana, hiragana, cut) one after the other","converted"),
)
check("C20","more records and properties; longer texts",
 H("sorting.HSort","0..3 records, two integer properties","moved,end",dict(recs=3,props=2,kinds=1),dict(recs=4,props=2,kinds=1)),
 H("sorting.HSort","0..3 records, one property of any type: integer, text, null, boolean, number, NaN, list or error","moved,end,several types",dict(recs=3,kinds=127),dict(recs=4,kinds=127)),
 H("sorting.HSort","0..4 records, one text or null property","moved,end,several types",dict(recs=4,kinds=6,directions=2)),
 H("sorting.HSort","13 records, 11 of them given (the algorithm changes at 12)","moved,end",dict(min=13,recs=13,fixed=11,kinds=1,directions=2),dict(min=14,recs=14,fixed=11,kinds=1,directions=2)),
 H("sorting.HCompare","any three values","three,not comparable",dict(kinds=63)),
)
check("C12","longer files; reading while the file is being changed",
 H("inputs.HCsv","files of 0..4 (thorough 6) characters out of a , \" LF CR","record,no record,unreadable row",dict(len=4),dict(len=6)),
 H("inputs.HCsv","the same with ignoreFirstRow","record,no record,unreadable header",dict(len=4,header=1),dict(len=6,header=1)),
 H("inputs.HCsv","files of 0..2 (thorough 3) arbitrary bytes","record,no record",dict(len=2,alphabet=1),dict(len=3,alphabet=1)),
 H("inputs.HCsv","files of 0..4 characters out of a ; LF \"","record,no record",dict(len=4,alphabet=2),dict(len=6,alphabet=2)),
 H("inputs.HCsv","files of 0..4 (thorough 5) characters out of é § , LF, a broken one and a byte order mark, one- and two-byte delimiters","record,no record",dict(len=3,alphabet=3),dict(len=5,alphabet=3)),
 H("inputs.HCsv","4 characters around the end of the 4096-byte read buffer, after two long rows","record",dict(len=4,exact=1,fill=4094),dict(len=5,exact=1,fill=4093)),
)
check("C13","longer rows and headers; columns of structured values (C16)",
 H("inputs.HColumns","1..2 (thorough 3) columns of 6 names, own or default parsers, rows of 1..3 (thorough 4) quoted fields of 0..1 characters","missing field,refused value,all columns,twice",dict(columns=2,fields=3),dict(columns=3,fields=4)),
 H("inputs.HAutodetect","headers of 0..5 (thorough 7) characters out of a b , \" LF","accepted,refused,missing field,header as data",dict(len=5,alphabet=5),dict(len=7,alphabet=5)),
 H("inputs.HAutodetect","headers of 0..2 (thorough 3) arbitrary bytes, records fetched","accepted,refused,header as data",dict(len=2,alphabet=1,fetch=1),dict(len=3,alphabet=1,fetch=1)),
)
check("C14","longer documents; escapes of the form \\u and invalid UTF-8 inside texts; reading while the file is being changed",
 H("inputs.HJson","any 0..2 (thorough 3) bytes","record,malformed",dict(shape=0,len=2),dict(shape=0,len=3)),
 H("inputs.HJson","0..3 (thorough 4) characters between two documents, out of { } [ ] , : \" 1 and spaces","record,malformed",dict(shape=1,len=3),dict(shape=1,len=4)),
 H("inputs.HJson","0..3 (thorough 4) characters inside a document","record,malformed",dict(shape=2,len=3),dict(shape=2,len=4)),
 H("inputs.HJson","0..1 (thorough 2) spaces before, between and after three documents","record,malformed",dict(shape=3,len=1),dict(shape=3,len=2)),
 H("inputs.HJson","0..1 (thorough 2) characters inside names and texts","record,malformed",dict(shape=4,len=1),dict(shape=4,len=2)),
 H("inputs.HJson","0..3 (thorough 4) pieces: documents, fragments, delimiters and spaces","record,malformed",dict(shape=5,len=3),dict(shape=5,len=4)),
 H("inputs.HJson","the boundary of the read buffer lies between the documents","record,malformed",dict(shape=1,len=3,fill=54),dict(shape=1,len=4,fill=54)),
)
check("C15","longer documents; other XPath expressions, prefixed names",
 H("inputs.HXml","documents of 0..2 pieces out of elements with and without content, other elements, text, comments, CDATA and entities, 4 document heads, selected by //i","record,no record",dict(),dict(pieces=3,len=2)),
 H("inputs.HXml","a first element of 5000 (beyond the read buffer) characters and 0..1 pieces","record",dict(fill=5000,pieces=1,heads=1),dict(fill=9000,pieces=2)),
 H("inputs.HXmlCut","documents of 5 pieces and 3 heads that end anywhere too early","cut"),
 H("inputs.HXmlAnchored","documents of 0..1 pieces selected by /root/i","record,no record",dict(xpath=1,pieces=1),dict(xpath=1,pieces=2)),
 H("inputs.HXmlGroups","documents of 0..2 pieces, elements in different parents","record,no record",dict(groups=1,heads=1),dict(groups=1)),
 H("inputs.HXmlCharset","documents of 0..1 pieces declared as ISO-8859-1","record,no record",dict(head=4,pieces=1,kinds=2),dict(head=4)),
)
check("C22","more records, longer number texts",
 H("outs.HPage","0..3 records, filtered or not by one or two indexes, every default and maximum limit, limit and offset texts of 0..2 characters out of 0 1 2 3 - + space a . and texts around the 64-bit limits","rows,empty,refused",dict(),dict(recs=4,len=3)),
)
check("C23","more records; sqlite and fts5 indexes",
 H("outs.HFilter","0..2 records, texts of 0..1 characters, integers, booleans and null, 5 combinations of parameters and indexes, every subset given, any order of the parameters","list,object,not found,refused",dict(),dict(recs=3),qs=120),
 H("outs.HFilter","0..1 records, texts of 0..1 characters out of a A and space, the same combinations","list,object,not found,refused",dict(recs=1,wide=1),dict(recs=2,wide=1,len=2)),
 H("outs.HFilter","a wildcard and an exact index, texts of 0..2 characters","list,object,not found,refused",dict(setup=5,len=2,recs=1),dict(setup=5,len=2,recs=3)),
 H("outs.HFilter","two properties of a wildcard index","list,object,not found",dict(setup=6,len=1),dict(setup=6,len=2)),
 H("outs.HSame","two parameters on the same property of the same index","list",dict(),dict(recs=3)),
)
check("C24","more records; records of several inputs with different property types; equal sort keys (their order is not fixed)",
 H("outs.HRelations","0..1 parents, 0..2 children, a list with every limit and a single object","list,object,not found",dict(kind=0,parents=2,children=2),dict(kind=0,parents=2,children=3)),
 H("outs.HRelations","0..1 parents, 0..2 children, a list sorted by one or two properties with every limit and a single object sorted the other way","list,object,not found",dict(kind=1,nulls=0,children=3),dict(kind=1,children=4)),
 H("outs.HRelations","relationships that take the name of the property they depend on, in any order","list,object,not found",dict(kind=2),dict(kind=2,parents=2)),
 H("outs.HRelations","nested relationships","list,object,not found",dict(kind=3,parents=2),dict(kind=3,parents=2,children=3)),
 H("outs.HRelations","nested sorted relationships","list,object,not found",dict(kind=5,nulls=0),dict(kind=5,children=3)),
 H("outs.HRelations","relationships on two properties, in one or two indexes","list,object,not found",dict(kind=4),dict(kind=4,parents=2)),
 H("outs.HRelations","the same request twice","list,object,not found",dict(kind=3,rounds=2),dict(kind=3,rounds=3,parents=2)),
)
check("C25","failures while the response is being sent; other kinds of values",
 H("outs.HValues","1..2 records and a related one, 13 values with and without a JSON form","form,no form",dict(),dict(recs=3)),
 H("outs.HFailures","0..2 records with two related ones each, a failure at any step of either input, of a record, or of a relationship","answered,failed",dict(),dict(recs=3)),
)
check("C21","other routes and parsers; longer paths; headers and hosts",
 H("web.HRoute","21 routes with literal text and parameters, paths of 1..6 (thorough 8) characters out of a b 1 - . / ,","match,no match",dict(len=5),dict(len=7)),
 H("web.HRoute","21 routes, paths of 1..4 (thorough 7) characters out of a b 1 - . / , ( ) [ ] $ + { } |","match,no match",dict(alphabet=1,len=3),dict(alphabet=1,len=6)),
 H("web.HRoute","21 routes, paths with percent escapes","match,no match,malformed",dict(alphabet=2,len=5),dict(alphabet=2,len=7)),
 H("web.HRoute","paths next to what each of the routes matches, parameter texts of 0..2 (thorough 4) characters","match,no match",dict(near=1,len=2),dict(near=1,len=4)),
 H("web.HQuery","a parameter of the path, a query parameter with a name of 0..3 (thorough 4) and a value of 0..3 (thorough 5) characters, and another one","query,malformed",dict(len=3,vlen=3),dict(len=4,vlen=5)),
 H("web.HFirst","every two of the 21 routes, paths of 1..3 (thorough 5) characters","first,second,none",dict(len=2),dict(len=4)),
)
check("C26","https; requests that the net/http server refuses before the service sees them; failures of the connection",
 H("web.HService","one request with 8 methods, 8 paths, 4 forms of content types, payloads of 0..1 characters and 4 results of the output","unmatched,payload,success,not found,failure",dict(rounds=1),dict(rounds=1,len=3)),
 H("web.HService","2 (thorough 3) requests one after the other with 2 methods, 3 paths and 2 content types","unmatched,payload,success,not found,failure",dict(rounds=2,methods=2,paths=3,types=2,len=0),dict(rounds=3,methods=2,paths=3,types=2,len=0)),
 H("web.HService","one request with a payload of 80 000 characters","payload,success",dict(rounds=1,methods=2,paths=2,types=2,long=5000)),
 H("web.HMessage","error messages of 0..1 (thorough 2) arbitrary bytes","plain,other",dict(len=1),dict(len=2)),
 H("web.HStart","route paths of 1..5 (thorough 7) characters out of a { } x (","started,refused",dict(),dict(len=6)),
)
check("C27","configurations with more than two unusual values",
 H("conf.HSlots","12 configurations, any one (thorough: two) of their 149 values missing, null, empty, of another type, dangling or unreachable","accepted,refused,started",dict(changes=1),dict(changes=2,kinds=8)),
 H("conf.HNames","8 configurations in which every name and reference is any of 2 (thorough 3) characters","accepted,refused,started",dict(),dict(names=3)),
 H("conf.HText","0..2 (thorough 3) of 23 characters in 40 places of a configuration","accepted,refused,started",dict(len=2),dict(len=3)),
 H("conf.HValues","a configuration of most kinds of objects whose texts, numbers and flags vary, directly and from the environment","accepted,refused",dict(len=0),dict(len=0)),
)
SQ="; the SQLite library itself (a model of its documented behaviour stands for it; counterexamples and samples are replayed with the library)"
check("C10","more records, properties and searches; longer texts; null bytes under NOCASE and in names; NaN (which SQLite stores as null)"+SQ,
 H("sq.HLookup","0..2 records of one property (text of 0..1 bytes, null, any 64-bit integer), 3 collations, when built and reopened","found,not found,reopened",dict(recs=2,collations=3),dict(recs=3,collations=3,len=2),cgo=True),
 H("sq.HLookup","0..1 (thorough 2) records of one property, texts of 0..2 bytes and nulls, 2 searches one after the other","found,not found,reopened",dict(recs=1,len=2,types=2,searches=2),dict(recs=2,len=2,types=2,searches=2),cgo=True),
 H("sq.HLookup","0..2 records of any scalar type: text, null, integer, boolean, 4 floating-point numbers","found,not found,reopened",dict(recs=2,types=5,len=0),dict(recs=2,types=5,len=1),cgo=True),
 H("sq.HLookup","0..1 (thorough 2) records of two properties, one or two filters","found,not found,reopened",dict(recs=1,props=2,types=2),dict(recs=2,props=2,types=3),cgo=True),
 H("sq.HLookup","0..2 records at arbitrary ascending positions","found,not found,reopened",dict(recs=2,types=1,widepos=1),dict(recs=3,types=2,widepos=1),cgo=True),
 H("sq.HLookup","150 (thorough 1100) records of the same text and 0..1 records of 0..1 bytes","found,not found,reopened",dict(fill=150,recs=1,types=1),dict(fill=1100,recs=1,types=1),cgo=True),
 H("sq.HLookup","12 names of properties and of the index with quotes, SQL and other special characters, values out of ' \" ? ; - %","found,not found,reopened",dict(recs=1,names=1,types=1,alphabet=1),dict(recs=1,names=1,types=2,alphabet=1,len=2),cgo=True),
 H("sq.HLookup","two properties out of the 12 names","found,refused,reopened",dict(recs=1,props=2,names=2,types=1,alphabet=1,len=0),dict(recs=1,props=2,names=2,types=2,alphabet=1),cgo=True),
 H("sq.HWords","full-text: 0..2 records of texts of 0..3 characters out of a A b space \" ' ( and nulls, words of 1..2 letters","found,not found,reopened",dict(recs=1,len=3),dict(recs=2,len=3),cgo=True),
 H("sq.HWords","full-text: phrases, several words, OR, NOT, AND and prefixes of two words","found,not found,reopened",dict(recs=1,len=3,forms=1,search=1),dict(recs=1,len=4,forms=1,search=2),ts=900,cgo=True),
 H("sq.HWords","full-text: two properties","found,not found,reopened",dict(recs=1,len=1,props=2,search=1),dict(recs=2,len=1,props=2),cgo=True),
 H("sq.HWords","full-text: 12 names of properties","found,not found,reopened",dict(recs=1,len=1,names=1,search=1),cgo=True),
)
check("C29","connections of the HTTP servers, their addresses with right certificates; several failing operations in one history; more records"+SQ,
 H("handles.HInput","csv, json and xml inputs with documents of 0..2 characters (6 documents for xml) or without a file, two configurations; opened, scanned up to 0..2 records, read, closed, the file possibly removed; any one of 14 operations on files and watchers fails","refused,scan,failed scan,no scan,fetched,closed",dict(len=1),dict(len=2,scans=2,ops=20),faults=True),
 H("handles.HInputs","1..3 inputs of which any cannot be opened or disappear, in every order","closed,refused",dict(),dict()),
 H("handles.HIndex","map, wildcard (built and loaded again) and noop indexes of 0..2 records of any value; searches; one failing operation of the input or of the file","refused,searched,failed search,closed",dict(),dict(recs=3,ops=20),faults=True),
 H("sq.HHandles","sqlite and full-text indexes, built and loaded again, of 0..2 records of any value, 1 (thorough 3) searches that stop anywhere; any one statement or use of the input fails","refused,searched,failed search,closed",dict(recs=1,searches=1,values=2),dict(recs=1),cgo=True),
 H("web.HListeners","1..2 HTTP services with one or both protocols; any address is taken or any output is missing; the certificates are wrong","started,refused",dict(),dict(services=3,wrong=1)),
 H("outs.HHandles","requests for objects and pages of 0..2 records with a relationship, with and without an index; any step of an input fails","answered,failed,indexed",dict(),dict(recs=3)),
)
check("C28","more than two or three requests at once; more than the stated number of forced switches (races are found without them); schedules inside the operating system and the SQLite library",
 H("conc.HParse","two texts of 2 (thorough 3) bytes through one of 8 parsers, 1 (thorough 2) forced switches at any access to memory or synchronization","parsed",dict(level=2),dict(level=2,len=3,switches=2),race=True,faults=True),
 H("conc.HInput","csv: two fetches, 1 (thorough 2) forced switches at any operation on files or synchronization","fetched",dict(kind=0,how=0),dict(kind=0,switches=2),race=True,faults=True),
 H("conc.HInput","csv: a scan during fetches","fetched",dict(kind=0,how=0,scan=1),dict(kind=0,scan=1,requests=3),race=True,faults=True),
 H("conc.HInput","json: two fetches","fetched",dict(kind=1,how=0),dict(kind=1,switches=2),race=True,faults=True),
 H("conc.HInput","json: a scan during fetches","fetched",dict(kind=1,how=0,scan=1),dict(kind=1,scan=1,requests=3),race=True,faults=True),
 H("conc.HInput","xml: two fetches, with an expression that gives nodes","fetched",dict(kind=2,how=0,xpath=4),dict(kind=2,switches=2,xpath=4),race=True,faults=True),
 H("conc.HInput","xml: a scan during fetches, with a logical expression","fetched",dict(kind=2,how=1,scan=1,xpath=1),dict(kind=2,scan=1,requests=3,xpath=1,how=0),race=True,faults=True),
 H("conc.HInput","xml: two fetches, with functions","fetched",dict(kind=2,how=1,xpath=5),dict(kind=2,xpath=2),race=True,faults=True),
 H("conc.HIndex","two searches in a map or wildcard index or without an index, 1 (thorough 2) forced switches at any access to memory or synchronization","searched",dict(level=2),dict(level=2,switches=2),race=True,faults=True),
 H("conc.HOutput","two requests to an object on a csv input","answered,not found",dict(kind=0,object=1),dict(kind=0,object=1,switches=2),race=True,faults=True),
 H("conc.HOutput","two requests to a list on a csv (thorough: json, with relationships) input","answered",dict(kind=0),dict(kind=1,related=1),race=True,faults=True),
 H("sq.HConc","two searches in a sqlite index, in a file or in memory","found,closed",dict(index=0,values=1),dict(index=0,switches=2),race=True,cgo=True),
 H("sq.HConc","two searches in a full-text index, in a file (thorough: or in memory)","found,closed",dict(index=1,values=1,places=1),dict(index=1,searches=2),race=True,cgo=True),
 H("web.HConc","two HTTP requests out of 4 kinds","200,404,500",dict(),dict(level=2),race=True,faults=True),
)
check("C30","events the operating system never reports (a file replaced by renaming another over it); changes between the opening of a file and the start of the watch; the two options of different processes",
 H("watch.HEvents","0..2 (thorough 3) events of any combination of the five kinds, or failures, either option, a file name of 0..1 bytes","ended,continued,failure,closed",dict(),dict(events=3)),
 H("watch.HInput","1..2 csv, json or xml inputs, the option unset, on or off, validated or not; 2 (thorough 3) steps: reading, closing, changing a file or an unrelated one","ended,continued",dict(),dict(steps=3)),
)
json.dump(dict(sorted(C.items())),open(V+'/checks.json','w'),indent=1)
subprocess.check_call(['python3',V+'/tools/mkmanifest.py'])
