#!/usr/bin/env python3
# Source of /verif/properties.jsonl (one JSON object per line).
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
           anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech]))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    d["anchors"]["observe_at"]=observe or []
    d["anchors"]["hook_needed"]=None
    P.append(d)
T="internal/tson/tson.go"; S="internal/tson/serialization.go"; TP="internal/tsonpatch/tsonpatch.go"; L="internal/logument/logument.go"; V="internal/vssgen/vss.go"; A="internal/vssgen/args.go"

p("C01","TSON parsing is total and grammar-exact",
 "Parsing any byte string as TSON terminates without a crash and either reports an error or yields a document. It accepts exactly the texts of the TSON grammar (objects, arrays, strings with escapes, numbers, true/false/null, each leaf with an optional <timestamp> after its object key or before the array element (strings and numbers may carry one before them anywhere) and another after the value, the former winning when both are written; numbers as strconv.ParseFloat reads them) with nothing but white space after the document, and the document it yields carries exactly the keys, values, order and timestamps written in the text (-1 where none is written).",
 ["inputs"],"every byte string, of any length and nesting depth (exhaustion of the call stack aside)",
 "Four sample texts are parsed; byte strings are an infinite domain, and nested nulls, postfix timestamps inside arrays, exponents, truncated escapes and trailing bytes never occur in them.",
 [S],[("recursive-descent parser","Unmarshal, Parser.parseVal/parseObject/parseArray/parseString/parseNumber/parseTimestamp"),("timestamp attachment","wrapIfPrimitive")],
 observe=["tson.Unmarshal"])
p("C02","Compact TSON text round-trips",
 "Writing any TSON document as compact text and parsing that text back yields the identical document: the same keys, values, array order and timestamps (every negative timestamp reads back as -1). Writing succeeds for every document made of objects, arrays, leaves and nulls.",
 ["inputs"],"every document: any strings (all byte values), any finite numbers, any int64 timestamps, any shape",
 "No test marshals and reparses; strings with control or non-ASCII bytes, very large or small numbers, and null members are never tried.",
 [S],[("writer","Marshal, marshalTson, marshalObject, marshalArray"),("reader","Unmarshal and Parser")],observe=["tson.Marshal","tson.Unmarshal"])
p("C03","Indented TSON text round-trips",
 "Writing any TSON document as indented text, with any white-space prefix and indentation, and parsing that text back yields the identical document, exactly as for the compact form. Layout choices never change content.",
 ["inputs"],"every document and every white-space prefix/indent",
 "The one test prints an example file and never reads it back.",
 [S],[("indented writer","MarshalIndent, marshalIndentValue"),("reader","Unmarshal and Parser")],observe=["tson.MarshalIndent","tson.Unmarshal"])
p("C04","Lookup by path follows JSON Pointer",
 "Looking up a path in a document returns exactly the value that RFC 6901 assigns to it: each reference token is unescaped on its own (~1 is '/', ~0 is '~'), names a member of an object or, read as a decimal integer, an index of an array, and the empty path denotes the whole document. When some token cannot be resolved an error is returned; no path crashes the lookup.",
 ["inputs"],"every document and every path string",
 "Tests look up a handful of well-formed paths in one example document.",
 [T],[("pointer resolution","GetValue")],observe=["tson.GetValue"])
p("C05","Latest timestamp of a document is the maximum",
 "The latest timestamp of a leaf is its own timestamp; that of an object or array is the greatest latest-timestamp among its members, and never less than zero. Members that are null contribute nothing.",
 ["inputs"],"every document",
 "One example document with two timestamps is tested.",
 [T],[("recursive maximum","GetLatestTimestamp")],observe=["tson.GetLatestTimestamp"])
p("C06","JSON-with-timestamps form is lossless",
 "Converting a TSON document to its JSON form that keeps timestamps and back yields the identical document, including every timestamp in the 64-bit range; the sorted variant carries the same content. Data that is not the JSON form of a TSON document is rejected with an error and never crashes the conversion (a null written with a timestamp reads as null).",
 ["inputs"],"every document with valid UTF-8 strings and finite numbers; every JSON text",
 "Only small second-resolution timestamps are tested; nanosecond timestamps and malformed data are not.",
 [T],[("conversions","ToCompatibleTsonBytes, ToCompatibleTsonBytesSorted, FromCompatibleTsonBytes, checkLeaf")],observe=["tson.ToCompatibleTson","tson.ToCompatibleTsonBytes","tson.ToCompatibleTsonBytesSorted","tson.FromCompatibleTsonBytes"])
p("C07","Plain JSON conversion strips and adds only timestamps",
 "Converting a TSON document to plain JSON yields the same document with every leaf replaced by its bare value, at every depth including the top level; converting plain JSON to TSON yields the same document with every string, number and boolean wrapped as a leaf without a timestamp. Neither conversion changes its input, and JSON to TSON to JSON is the identity.",
 ["inputs"],"every document; every plain JSON value",
 "One example file is converted; mixed nesting, top-level leaves and input mutation are not observed.",
 [T],[("conversions","ToJson, ToJsonBytes, FromJson, FromJsonBytes")],observe=["tson.ToJson","tson.FromJson","tson.ToJsonBytes","tson.FromJsonBytes"])
p("C08","Document equality is exact",
 "Two documents compare equal exactly when they have the same structure, values and timestamps; compared without timestamps they are equal exactly when they have the same structure and values. Comparison never changes the documents.",
 ["inputs"],"every pair of documents with valid UTF-8 strings and finite numbers",
 "No test compares documents that differ in a single deep leaf or in timestamps beyond 2^53.",
 [T],[("comparison","Equal, EqualWithoutTimestamp")],observe=["tson.Equal","tson.EqualWithoutTimestamp"])
p("C09","A patch operation changes exactly its target",
 "Applying an add or replace operation with a string, number or boolean yields a document that holds that value with the operation's timestamp at the addressed location; applying a remove yields the document without that member or element. Every other location keeps its value and timestamp, and an operation that cannot be carried out at its path reports an error and never crashes.",
 ["inputs"],"every document, every path in pointer or dotted form, every operation",
 "The patch tests touch three paths of one example; escaped keys, nested arrays, indexes out of range and paths through leaves are never tried.",
 [TP],[("path parsing and recursive update","ApplyOperation, applyTraverse, getIndex")],observe=["tsonpatch.ApplyOperation"])
p("C10","Applying patches never alters the input document",
 "Applying an operation or a patch leaves the document it was given, and every part of it, unchanged; only the returned document differs. Documents obtained earlier therefore keep their content whatever is applied later.",
 ["inputs","histories"],"every document and patch, including documents sharing parts with other documents",
 "Tests discard the original after applying a patch, so in-place modification goes unseen.",
 [TP],[("copy on write","ApplyOperation, ApplyPatch, applyTraverse")],observe=["tsonpatch.ApplyPatch","tsonpatch.ApplyOperation"])
p("C11","A patch is applied as its operations in order",
 "Applying a patch equals applying its operations one after the other, each to the result of the one before; the empty patch yields the document itself. If any operation fails, the whole patch reports an error and yields no document.",
 ["inputs"],"every document and every operation list",
 "The existing multi-operation test checks only a fully replaced example document.",
 [TP],[("fold","ApplyPatch")],observe=["tsonpatch.ApplyPatch"])
p("C12","A generated patch turns one document into the other",
 "Whenever a patch is generated between two documents, applying it to the first yields a document equal to the second in structure and values; with timestamp-aware generation, equal in timestamps as well. Generation never crashes, and it succeeds whenever every added or retyped member is a leaf.",
 ["inputs"],"every pair of documents",
 "Two hand-written example files are diffed; arrays of different length, retyped members, and keys needing escapes are not covered.",
 [TP],[("diff","GeneratePatch, GeneratePatchWithTimestamp, diff, handleValues, handleValuesWithTimestamp, compareArray, compareArrayWithTimestamp, makePath")],observe=["tsonpatch.GeneratePatch","tsonpatch.GeneratePatchWithTimestamp"])
p("C13","Generated patches record changes and nothing else",
 "A generated patch is empty exactly when the two documents have equal values; timestamp-aware generation yields an empty patch exactly when they are equal including timestamps. Every location is addressed at most once per patch by its escaped path, and each add or replace carries the second document's value and timestamp at that path.",
 ["inputs"],"every pair of documents for which a patch is generated",
 "No test checks for spurious or missing operations.",
 [TP],[("diff","diff, handleValues, handleValuesWithTimestamp, matchesValue, matchTimestamp, makePath")],observe=["tsonpatch.GeneratePatch","tsonpatch.GeneratePatchWithTimestamp"])
p("C14","Operations and patches survive their JSON form",
 "Serialising an operation or a patch to JSON yields well-formed JSON that parses back to the same operation kind, path, value and timestamp, for every path and string value. The order of operations in a patch is kept.",
 ["inputs"],"every operation with a string, number, boolean or absent value and valid UTF-8 text",
 "Serialisation is printed but never parsed back; quotes and backslashes in paths never occur.",
 [TP],[("serialisation","Operation.Marshal, Operation.String, Patch.String, Unmarshal, FromJson")],observe=["Operation.Marshal","Operation.String","Patch.String","tsonpatch.Unmarshal"])
p("C15","Version history is gap-free and append-only",
 "A managed document starts at version 0 holding the initial document, and committing the pending changes adds exactly one version, numbered one above the latest, holding exactly those changes in order; committing with nothing pending adds no version. Earlier versions, their changes and their documents are never altered by it.",
 ["histories"],"every sequence of store, commit, set and query calls",
 "Tests run fixed sequences of up to three commits and assert nothing about the recorded history.",
 [L],[("commit","NewLogument, Append, isGrown, isContinuous")],[("Version","ordered list of versions",L),("Patches","changes per version",L),("Snapshots","materialised documents per version",L)],observe=["Logument.Append","Logument.Version","Logument.Patches"])
p("C16","Stored changes are kept once and in order",
 "Storing changes, in any accepted form, adds them after the already pending ones in the given order, none lost, duplicated or reordered, and touches nothing else. The caller's own data is never modified by later calls, and pending changes do not affect any version until they are committed.",
 ["histories","inputs"],"every sequence of store and commit calls, every accepted input form",
 "Tests store two patches and print the result; aliasing with caller data needs specific capacities.",
 [L],[("pending pool","Store, NewLogument, Append")],[("PatchPool","pending changes",L)],observe=["Logument.Store","Logument.PatchPool"])
p("C17","Any version can be reconstructed",
 "The document reported for a version equals the initial document with the changes of versions 1 up to that version applied in order, whichever versions were materialised before and in whatever order. Asking again yields the same document.",
 ["histories"],"every history of store, commit, set and query calls and every order of version queries (no compaction)",
 "The test materialises versions 0 and 1 only, so accumulating over several versions is never exercised.",
 [L],[("replay from nearest snapshot","Snapshot, findLatest, getSortedVersions"),("fold","tsonpatch.ApplyPatch")],[("Snapshots","cache of reconstructed documents",L)],observe=["Logument.Snapshot"])
p("C18","Queries never rewrite recorded history",
 "Reconstructing a version or a point in time, slicing and tracking leave the recorded versions, their changes, the pending changes and the current document exactly as they were; at most the reconstructed document of a version is remembered. Documents handed out earlier never change.",
 ["histories"],"every interleaving of queries and updates",
 "Tests print results and never compare the history before and after a query.",
 [L],[("read-only queries","Snapshot, TemporalSnapshot, Slice, TemporalSlice, Track, TemporalTrack")],observe=["Logument.Version","Logument.Patches","Logument.PatchPool","Logument.CurrentState"])
p("C19","Tracking versions reports every effective change",
 "Tracking from version i to version j reports, for each recorded version in that range and no other, its changes in order, leaving out exactly the changes that write the same value that the last reported change of the same path wrote with nothing removed in between. Each reported change is identical to the recorded one.",
 ["histories"],"every history and version range",
 "One range of one history is printed.",
 [L],[("range selection and redundancy removal","Track")],observe=["Logument.Track"])
p("C20","Tracking a time range reports every effective change",
 "Tracking a time range reports, under its version and in order, every recorded change whose timestamp lies in the closed range, leaving out exactly the changes that write the same value that the last reported change of the same path wrote with nothing removed in between. No change outside the range is reported and no version without reported changes appears.",
 ["histories"],"every history and time range",
 "One range of one history is printed; boundary timestamps and repeated values across versions are not asserted.",
 [L],[("time filter and redundancy removal","TemporalTrack")],observe=["Logument.TemporalTrack"])
p("C21","Compaction drops only redundant changes below its target",
 "Compacting a path removes from the recorded history exactly the changes at or below that path that write the same value as the last kept change of the same path with nothing removed in between. All other changes keep their version and order, and versions, documents and pending changes are untouched.",
 ["histories"],"every history and target path",
 "One compaction is printed.",
 [L],[("redundancy removal","Compact")],observe=["Logument.Compact","Logument.Patches"])
p("C22","A version slice reproduces its versions",
 "Slicing from version i to version j yields a history that contains exactly the versions i to j, with the same changes as the original, and in which every one of these versions reconstructs to the same document as in the original.",
 ["histories"],"every history of store, commit, set and query calls and range 0 <= i <= j <= latest, whichever versions were materialised (no compaction)",
 "One slice not starting at version 0 is printed.",
 [L],[("slicing","Slice, Snapshot, getSortedVersions")],observe=["Logument.Slice"])
p("C23","Point-in-time reconstruction uses every change up to then",
 "The document reported for a time equals the first document of the history with every recorded or pending change whose timestamp is not later than that time applied in timestamp order, changes with equal timestamps in the order they were recorded. Changes with later timestamps have no influence.",
 ["histories"],"every history and every time",
 "The test has a single version and one query time.",
 [L],[("time-ordered replay","TemporalSnapshot, getSortedVersions"),("fold","tsonpatch.ApplyPatch")],observe=["Logument.TemporalSnapshot"])
p("C24","A time slice holds exactly the changes of its period",
 "Slicing a time range yields a history that holds, under its version and in order, exactly the recorded changes whose timestamps lie in the closed range, on top of the document as it was just before the range; an empty range yields a history without changes. Its versions are consecutive.",
 ["histories"],"every history and time range",
 "No test slices by time.",
 [L],[("time slicing","TemporalSlice, TemporalSnapshot")],observe=["Logument.TemporalSlice"])
p("C25","Per-path history is complete and time-ordered",
 "The history of a path lists, for every recorded location at or below it, all effective changes in timestamp order (equal timestamps in recorded order), preceded by the initial value when the initial document has one at that location (given as a JSON Pointer). Locations that merely share a textual prefix are not included, and locations added later do not crash it.",
 ["histories"],"every history and target path",
 "One history of two versions is printed; iteration order of versions is random in Go.",
 [L],[("history","History, Compact, tson.GetValue")],observe=["Logument.History"])
p("C26","Setting a value updates the current document and records it",
 "Setting a value applies the operation to the current document and adds exactly that operation to the pending changes, altering nothing else; operations other than add and replace are ignored. The conditional form does this for a replace exactly when the current document holds a different value, or none, at that JSON Pointer (none: recorded as an addition), and for an add always.",
 ["histories","inputs"],"every history, path, value and timestamp",
 "Two set calls are printed; the conditional form after an earlier set is not asserted.",
 [L],[("set","Set, TestSet, leafCompareValue"),("update","tsonpatch.ApplyOperation")],[("CurrentState","document after all set calls",L),("PatchPool","pending changes",L)],observe=["Logument.Set","Logument.TestSet"])
p("C27","Generated data series replays",
 "For every generated vehicle data series, applying each change file to the preceding data file yields the following data file, and each data file is derived from the one immediately before it.",
 ["inputs","configurations"],"every schema, change rate, maintain rate and series length, and every random choice",
 "Tests generate one step and save it; the generator is random and the series is never replayed.",
 [V,A],[("series generation","Generate, VssJson.GenerateNext")],observe=["vssgen.Generate","VssJson.GenerateNext"])
p("C28","Generating the next data set keeps the signal set",
 "The next data set generated from a data set has exactly the same signals with values of the same kind; a signal left unchanged keeps value and timestamp, and every other signal carries the new common timestamp.",
 ["inputs"],"every data set and random choice",
 "A single random run is printed.",
 [V],[("next data set","VssJson.GenerateNext, VssJson.LeafNodes")],observe=["VssJson.GenerateNext"])
with open("/verif/properties.jsonl","w") as f:
    for d in P: f.write(json.dumps(d,ensure_ascii=False)+"\n")
print(len(P))
