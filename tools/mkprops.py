#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one JSON object per line) from the table below."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"hook_needed":None}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

IMPL="src/implementations/"
p("P01","Every value survives a serialize/deserialize round trip unchanged",
 "For every supported type (primitives, strings, collections, optional third-party types, nested combinations of them, and user types with derived legacy or optimised encodings) and every value of it, serializing the value and deserializing the resulting bytes yields an equal value, including exact floating-point bit patterns, element order and multiplicity. This holds in every combination of the crate's encoding features, and for values serialized on their own, inside containers and through any writer. Values the format cannot represent (non-Unicode paths, times before 1970, optimised payloads longer than their 32-bit length field can state) are refused when serializing.",
 ["inputs","configurations"],
 "all values of every supported type and nesting, at any length of collection, in each of the four encoding-feature combinations",
 "The tests round-trip a handful of hand-picked values per type, mostly short vectors and small numbers; collection lengths at internal block boundaries, extreme integers in every integer position, NaN payloads, nested combinations and the non-default feature combinations are not reached.",
 [IMPL, "src/lib.rs", "src/optimised/", "revision-derive/src/expand/"],
 [("per-type serialize/deserialize pairs","src/implementations/*.rs"),("bulk vector paths","src/implementations/specialised.rs, vecs.rs"),("indexed containers","src/optimised/indexed/serialize.rs"),("derived code","revision-derive/src/expand/ser.rs, de.rs, optimised/")],
 observe=["revision::to_vec","revision::to_writer","revision::from_slice","revision::from_reader"])
p("P02","The bytes written are exactly the documented wire format",
 "For every supported type, value and encoding-feature combination, serialization writes exactly the bytes the format prescribes, so that data stored by one build stays readable by every other build of the same feature set; the same value always serializes to the same bytes. The format is: variable-width or fixed-width zigzag integers, length-prefixed strings and collections, tag bytes for options, 32-bit tags for results, bounds and legacy enums, raw little-endian element blocks and packed booleans for specialised vectors, a 16-bit revision header before every user-defined type, and length/tag/offset-table envelopes for optimised types.",
 ["inputs","configurations"],
 "all values of every supported type in each of the four encoding-feature combinations",
 "A round-trip test cannot see a symmetric change of both directions, and the tests pin the bytes of only a few small values; the stored format must hold for every value in every feature combination.",
 [IMPL,"src/optimised/","revision-derive/src/expand/"],
 [("integer encodings",IMPL+"primitives.rs"),("vector specialisation",IMPL+"vecs.rs, specialised.rs"),("envelopes and tags","src/optimised/envelope.rs, tag.rs"),("offset tables","src/optimised/indexed/serialize.rs"),("derived headers","revision-derive/src/expand/ser.rs, optimised/")],
 observe=["revision::to_vec"])
p("P03","Encodings are self-delimiting: decoding consumes exactly its own bytes",
 "Deserializing a value from a reader or slice consumes exactly the bytes that serializing it wrote, whatever bytes follow, so values of any types written one after another to one stream can be read back one after another. No deserializer reads ahead past its value or leaves any of its bytes behind.",
 ["inputs","configurations","histories"],
 "all values of every supported type, all sequences of values, all following bytes",
 "Tests decode each value from a buffer holding only that value, so reading too much or too little is not observed.",
 [IMPL,"src/lib.rs","src/slice_reader.rs","revision-derive/src/expand/de.rs"],
 [("exact reads",IMPL+"*.rs"),("bulk reads with explicit byte counts",IMPL+"specialised.rs"),("envelope length handling","src/optimised/envelope.rs")],
 observe=["revision::from_reader","position of the reader after a decode"])
p("P04","Skipping consumes exactly what decoding would, and checked skip validates alike",
 "For every type and every byte string that decodes successfully, skipping the value, from a streaming reader or from a slice, succeeds, consumes exactly the bytes decoding consumes and reports that count (for optimised encodings, whose lengths and offset tables skipping trusts, every well-formed byte string). Checked skipping additionally accepts a byte string exactly when decoding accepts it, for built-in and user types alike, so it rejects invalid booleans, characters, UTF-8, tags, integers and revision numbers.",
 ["inputs","configurations","histories"],
 "all values and all (bounded) byte strings of every supported type, both reader kinds, every revision of user types",
 "Tests skip a few sample values per type; the separate streaming and slice implementations, older revisions, and agreement on malformed input are sampled at best.",
 [IMPL+"skip.rs",IMPL+"vecs.rs","src/slice_reader.rs","revision-derive/src/expand/skip.rs","src/optimised/envelope.rs"],
 [("SkipRevisioned / SkipCheckRevisioned impls",IMPL+"skip.rs"),("slice fast paths","src/slice_reader.rs"),("derived skip","revision-derive/src/expand/skip.rs")],
 observe=["skip_slice","skip_reader","skip_check_slice","skip_check_reader"])
p("P05","Every truncated encoding is rejected with an error",
 "For every value of every supported type, each strict prefix of its encoding is rejected with an error by decoding, by checked and unchecked skipping and by walking to the end of the value; none of them ever panics, reads beyond the prefix or returns a value.",
 ["inputs","configurations","crash_points"],
 "every cut point of the encoding of every value of every supported type, streaming and slice sources",
 "Tests truncate one or two encodings at one point; cuts inside multi-byte integers, bulk blocks, offset tables, headers and nested values are all distinct code paths.",
 [IMPL,"src/slice_reader.rs","src/optimised/"],
 [("end-of-input checks","src/slice_reader.rs, "+IMPL+"primitives.rs"),("bulk reads",IMPL+"specialised.rs"),("envelope bounds checks","src/optimised/envelope.rs, validation.rs")],
 observe=["from_slice","from_reader","skip_slice","skip_reader"])
p("P06","Malformed bytes produce a typed error or a valid value, never a panic",
 "Decoding, skipping, checking or walking arbitrary bytes as any type returns an error or a value and never panics, and whatever is accepted is a legitimate value of the type: booleans other than 0 and 1, invalid characters, invalid UTF-8, unknown option, result, bound or variant tags, NaN in not-NaN floats, and reserved optimised tags are rejected. Any accepted value re-serializes to bytes that decode to an equal value. (Memory exhaustion from a huge but honest length prefix in the legacy format is out of scope.)",
 ["inputs","configurations"],
 "all single-byte corruptions of sample encodings, all short byte strings, all tag and length values at every position",
 "The tests try a few corrupted payloads; which byte is corrupted and into what decides the path taken.",
 [IMPL,"src/optimised/","src/walk.rs","revision-derive/src/expand/"],
 [("value validation",IMPL+"primitives.rs, string.rs, option.rs, result.rs, bound.rs"),("tag validation","src/optimised/tag.rs, envelope.rs"),("prologue validation","src/optimised/validation.rs")],
 observe=["from_slice","skip_slice","skip_check_slice","walk_revisioned"])
p("P07","Results do not depend on how the I/O source or sink splits the bytes",
 "Serializing through any writer and decoding or skipping through any reader gives the same bytes and values however the transfer is split into short or interrupted calls. If the writer or reader fails permanently at any point, the operation reports an error (never success, never a panic), and what was written so far is a prefix of the correct encoding.",
 ["fault_sequences","crash_points","configurations"],
 "every sequence of short reads/writes and interruptions up to a bound, and a hard fault at every byte offset",
 "All tests use in-memory buffers that transfer everything in one call and never fail.",
 [IMPL,"src/lib.rs","src/slice_reader.rs","src/optimised/envelope.rs"],
 [("write_all/read_exact use",IMPL+"primitives.rs, string.rs, specialised.rs"),("chunked skip","src/slice_reader.rs"),("scratch-buffered envelopes","src/optimised/envelope.rs, indexed/serialize.rs")],
 observe=["to_writer","from_reader","skip_reader","skip_check_reader"])
p("P08","Structs of any older revision decode to the documented upgraded value",
 "For every history of a struct - fields added at any revision with the type's default or a default function, removed at any revision through a conversion function, under legacy, optimised and field-indexed encodings mixed over the revisions - data written by the code as of any older revision decodes with the newest code to the value the history prescribes. Fields present at both are carried over, added fields get their default for the stored revision, and each removed field's conversion function is called exactly once, in declaration order, with the stored revision and value; the following data in the stream is unaffected. A default or conversion function that fails makes the decoding fail with its error.",
 ["programs","histories","inputs"],
 "all histories up to 3 revisions and small numbers of fields, every pair of writer revision and reader revision, every per-revision encoding",
 "The tests contain a few hand-written histories; the generated decoder differs for every combination of field interval and encoding.",
 ["revision-derive/src/expand/de.rs","revision-derive/src/expand/optimised/struct_codegen.rs","revision-derive/src/ast/history.rs"],
 [("per-revision decode arms","revision-derive/src/expand/de.rs"),("optimised struct arms","revision-derive/src/expand/optimised/struct_codegen.rs")],
 observe=["from_slice on data written by an older revision of the type"])
p("P09","Enums of any older revision decode to the documented upgraded value",
 "For every history of an enum - variants added or removed at any revision, fields added to or removed from existing variants, under legacy and optimised encodings mixed over the revisions - data written by the code as of any older revision decodes with the newest code to the value the history prescribes. Variants are identified by what they were called at the stored revision, never by the number a different variant has now; removed variants go through their conversion function with all their stored fields, and added or removed variant fields behave as for structs.",
 ["programs","histories","inputs"],
 "all histories up to 3 revisions of small enums, every writer/reader revision pair, every variant, every per-revision encoding and size class",
 "The tests contain a few hand-written enum histories; variant numbers shift with each combination of intervals.",
 ["revision-derive/src/expand/de.rs","revision-derive/src/expand/common.rs","revision-derive/src/expand/optimised/enum_codegen.rs"],
 [("per-revision discriminants","revision-derive/src/expand/common.rs"),("decode arms","revision-derive/src/expand/de.rs, optimised/enum_codegen.rs")],
 observe=["from_slice on data written by an older revision of the type"])
p("P10","Unknown revisions and unknown variants are always rejected; writes are newest",
 "A user-defined type always serializes with its newest revision number, and decoding, skipping, checking or walking data whose stored revision is 0 or greater than the newest one fails with an error, wherever the value is nested (skipping jumps over length-delimited optimised payloads without looking inside them). Stored revisions from 1 to the newest are accepted, and decoding a variant number or tag that does not exist at the stored revision - never existed, not added yet, or already removed - fails with an error.",
 ["inputs","programs"],
 "all 65536 revision headers for every derived type, all optimised tag bytes, all small and boundary variant numbers at every revision",
 "The tests try one or two bad revision numbers.",
 ["revision-derive/src/expand/","src/optimised/envelope.rs","src/error.rs"],
 [("revision match arms","revision-derive/src/expand/de.rs, skip.rs, walk.rs"),("revision constant","revision-derive/src/expand/mod.rs")],
 observe=["from_slice","skip_slice","walk_revisioned","Revisioned::revision"])
p("P11","Both ways of declaring a revision history give the same type",
 "Declaring revisions with the short form (a newest revision number) or with the list form (one entry per revision, in any order, on either attribute position) gives types that serialize to identical bytes, decode, skip and walk identical data to the same values and report the same revision, for every history of legacy revisions. The list form with options behaves identically for every order in which the entries are written.",
 ["programs","inputs"],
 "all legacy histories up to 4 revisions x all entry orders x both attribute positions, all sample values, every older revision's data",
 "The tests compare two hand-written declarations.",
 ["revision-derive/src/ast/history.rs","revision-derive/src/ast/attributes.rs","revision-derive/src/ast/mod.rs"],
 [("history normalisation","revision-derive/src/ast/history.rs")],
 observe=["to_vec","from_slice","Revisioned::revision"])
p("P12","Walking a struct field by field agrees with decoding it, for every history",
 "For every struct history, every stored revision and every sequence of per-field decode, skip and walk operations in declaration order, the walker yields for each field exactly the value that decoding the whole struct yields, including defaults for fields added later, and consumes exactly the same bytes. Operations the walker cannot serve return an error rather than a wrong value, and the byte view of a field is exactly that field's encoding.",
 ["histories","programs","inputs"],
 "all per-field operation sequences x stored revisions x bounded histories x legacy, optimised and field-indexed encodings",
 "The tests walk a few structs with one operation sequence each; the walker has a separate representation per combination of encoding and stored revision.",
 ["revision-derive/src/expand/walk.rs","src/walk.rs","src/optimised/indexed/struct_walk.rs"],
 [("walker representations","revision-derive/src/expand/walk.rs"),("field offset access","src/optimised/indexed/struct_walk.rs")],
 state=[("walker position","which field comes next in the stream","revision-derive/src/expand/walk.rs")],
 observe=["<Type>::walk_revisioned and the generated per-field methods"])
p("P13","Walking an enum agrees with decoding it, for every history",
 "For every enum history, stored revision and variant, the walker reports the variant the data holds in terms of the newest schema: exactly one variant test answers true, for the variant decoding yields, and the decode, descend and byte-view accessors give that variant's payload while the accessors of all other variants return an error. The generated per-revision variant name table agrees with the variants the encoder writes at that revision.",
 ["histories","programs","inputs"],
 "all variants x accessors x stored revisions x bounded enum histories x legacy and optimised encodings",
 "The tests walk a few enums at their newest revision; variant numbers at older revisions differ from the newest ones.",
 ["revision-derive/src/expand/walk.rs","src/walk.rs","src/optimised/"],
 [("walker representations","revision-derive/src/expand/walk.rs"),("variant tables","revision-derive/src/expand/walk.rs")],
 observe=["<Type>::walk_revisioned and the generated per-variant methods"])
p("P14","Container walkers follow their protocol for every sequence of operations",
 "For every sequence of operations on the walkers of leaves, options, results, sequences, maps and generic structs and enums, each step yields the same element a full decode would, the remaining count and the position advance exactly once per consumed element, and after any complete sequence the reader stands exactly after the container. Out-of-order operations (value before key, key twice, entering the absent alternative) return an error without advancing the reader or the counters, failed nested walks leave the counters unchanged, and vectors in bulk layout are refused before anything is read.",
 ["histories","inputs","configurations"],
 "all operation sequences up to the length of small containers, over several element types, incl. misuse operations",
 "The tests run a few fixed operation sequences per walker.",
 ["src/walk.rs",IMPL+"walk.rs","src/slice_reader.rs"],
 [("walker cursor checks","src/walk.rs"),("bulk vector refusal",IMPL+"walk.rs, vecs.rs")],
 state=[("remaining","items not yet consumed","src/walk.rs"),("map entry cursor","before key or before value","src/walk.rs")],
 observe=["WalkRevisioned::walk_revisioned and walker methods"])
p("P15","Key search in a walked map finds exactly the entry a sorted map would",
 "Searching a walked sorted map, by decoded key or by raw key bytes, visits keys in order, finds exactly the entry whose key compares equal and leaves the reader at its value, and otherwise reports no match with the reader exactly after the whole map. Borrowing raw bytes of keys, values and items shows exactly the payload bytes without the length prefix and consumes exactly that element.",
 ["inputs","histories"],
 "all subsets of a small key universe as maps x all search keys x both search methods x all key/value types of the alphabet",
 "The tests search one or two maps for one or two keys.",
 ["src/walk.rs","src/slice_reader.rs"],
 [("find / find_bytes","src/walk.rs"),("peeking","src/slice_reader.rs")],
 observe=["MapWalker::find","MapWalker::find_bytes","with_bytes family"])
p("P16","Indexed-map lookup, hinted lookup and iteration agree with a plain map",
 "For every map written in the indexed layout, looking up any key, present or absent, returns exactly the value bytes of that key or nothing, and iteration yields every entry exactly once in key-byte order with the right key and value bytes. A hinted lookup returns the same answer as an unhinted one for every starting hint and every sequence of hinted lookups, and the hint it hands back is usable.",
 ["inputs","histories"],
 "all maps of 0..16 entries over small key universes x all present/absent keys x all hints x bounded sequences of lookups",
 "The tests look up a few keys in one or two maps; binary-search and hint boundaries depend on entry count and key position.",
 ["src/optimised/indexed/map_walk.rs","src/optimised/indexed/serialize.rs"],
 [("binary search and hint gallop","src/optimised/indexed/map_walk.rs"),("sorted encoding","src/optimised/indexed/serialize.rs")],
 state=[("hint","index the previous lookup ended at","src/optimised/indexed/map_walk.rs")],
 observe=["IndexedMapWalker::find_value_bytes","find_value_bytes_with_hint","entries"])
p("P17","Random access into indexed sequences, sets and structs equals full decoding",
 "For every sequence, set or struct written in an indexed layout, the bytes returned for element or field i are exactly the encoding of element or field i of the fully decoded value, for every i in range, at and around the size where the offset table starts to be written, and every out-of-range i is refused. Reading fields or elements in any order gives the same answers as reading them in sequence.",
 ["inputs","histories"],
 "all lengths 0..40 x all indexes x several element types; all field orders of small indexed structs",
 "The tests read a few indexes of one or two payloads.",
 ["src/optimised/indexed/seq_walk.rs","src/optimised/indexed/struct_walk.rs","src/optimised/indexed/serialize.rs"],
 [("offset-table access","src/optimised/indexed/*.rs")],
 observe=["IndexedSeqWalker::element_bytes","IndexedStructWalker::field_bytes/decode_field"])
p("P18","Damaged indexed payloads are refused before any access can go wrong",
 "For every corruption of an indexed map, sequence, set or struct payload - any offset, count, length or key byte replaced, any truncation or extension - constructing a validated walker, decoding and skipping either return a typed error or give a walker whose every lookup, iteration and element access stays inside the payload without panicking. Offsets that are out of range or not strictly increasing and key regions that are not strictly ascending are rejected with the corresponding error when the walker is constructed.",
 ["inputs"],
 "every byte of every table replaced by every value, every 32-bit field set to boundary values (pairs of them in the thorough run), every truncation",
 "The tests corrupt one offset in one or two payloads.",
 ["src/optimised/validation.rs","src/optimised/indexed/","src/error.rs"],
 [("prologue validation","src/optimised/validation.rs"),("checked slicing","src/optimised/indexed/*.rs")],
 observe=["from_payload constructors","deserialize_indexed_*","skip_indexed_*"])
p("P19","Per-field fixed/specialised encodings are the same in every feature set",
 "Fields of types with legacy encoding that are marked for fixed-width (u32, i32, u64, i64, u128, i128) or specialised (bulk vector) encoding are written in that layout - plain little-endian integers, bulk element blocks - whatever encoding features the crate is built with, and decoding, skipping and walking them agree with it, in every feature combination, for every value and at every position among other fields. The bytes of a fixed-width field are the same in all four feature combinations, those of a specialised vector are the same with and without specialised-vectors (its length prefix follows the build's integer encoding), so data written by one such build is read identically by the other.",
 ["configurations","inputs"],
 "all four encoding-feature combinations x all values of the alphabet x field positions x struct, tuple struct and enum variants",
 "Unit tests run in one feature configuration at a time and on a few values; agreement between configurations is invisible to them.",
 [IMPL+"specialised.rs","revision-derive/src/expand/ser.rs","revision-derive/src/expand/de.rs","revision-derive/src/expand/skip.rs","revision-derive/src/expand/walk.rs"],
 [("attribute code generation","revision-derive/src/expand/common.rs, ser.rs, de.rs, skip.rs, walk.rs"),("fixed/specialised helpers",IMPL+"specialised.rs, primitives.rs")],
 observe=["to_vec","from_slice","skip_slice","walk_revisioned"])
p("P20","Interchangeable containers share one encoding; indexed encodings are canonical",
 "Containers holding the same elements in the same order can be read as one another: a list written from a vector decodes as any other sequence or set of that element type in element-wise layout, sorted maps and sets are written in key order, and owned, borrowed, boxed and shared forms of a value have identical encodings. The indexed encoding of a map or set depends only on its contents, never on container kind, hash seed or insertion order, so equal hash and tree containers give identical bytes.",
 ["inputs","histories"],
 "all insertion orders of small contents x all container kinds of the same shape x indexed and plain encodings",
 "Tests compare single containers with themselves; hash iteration order is random in each run.",
 ["src/implementations/","src/optimised/indexed/serialize.rs"],
 [("sort by key bytes","src/optimised/indexed/serialize.rs"),("common length-prefixed layout",IMPL+"collections.rs, imbl.rs, vecs.rs")],
 observe=["to_vec","from_slice","IndexedMapEncoded/IndexedSetEncoded/IndexedSeqEncoded"])
p("P21","Slice cursors stay in bounds and agree with a plain index model",
 "For every sequence of read, consume, peek, advance, take and sub-range operations on a slice cursor or borrowed reader, each operation returns exactly the bytes a plain index into the data would, reports the right position and remaining count, and fails when it would go past the end; a failed peek, consume, advance, take or sub-range operation does not move the cursor. Sub-ranges never expose bytes outside their parent.",
 ["histories","inputs"],
 "all operation sequences up to depth 5 over small buffers with lengths at, below and above the boundary, incl. maximum integers",
 "The tests call each method once or twice in range.",
 ["src/slice_reader.rs"],
 [("SliceReader / BorrowedReader / advance_read / take helpers","src/slice_reader.rs")],
 state=[("cursor","offset of the next unread byte","src/slice_reader.rs")],
 observe=["SliceReader","BorrowedReader","advance_read","read_borrowed_bytes"])
p("P22","Contradictory revision declarations never compile; consistent ones always do",
 "A type declaration whose revision history or attributes are contradictory - gaps, duplicates or a mix of forms in the revision list, intervals reaching past the newest revision, removed fields or variants without a conversion function, several index markers on a field, an option given twice, field indexing without the optimised flag, unknown or unsupported options and layouts, forced layouts on types that have none, missing or invalid size classes, too many variants, numbers that do not fit the tag - is rejected at compile time. Every consistent declaration of the same alphabet compiles.",
 ["programs"],
 "all small declarations over the attribute alphabet (revision lists up to 4 entries, all start/end pairs, all attribute pairs)",
 "The tests hold a small set of compile-fail fixtures, one per message.",
 ["revision-derive/src/ast/attributes.rs","revision-derive/src/ast/history.rs","revision-derive/src/expand/validate_version.rs","revision-derive/src/expand/optimised/enum_codegen.rs"],
 [("attribute parsing and validation","revision-derive/src/ast/, revision-derive/src/expand/")],
 observe=["rustc accepts or rejects the declaration"])
p("P23","Integers of every width encode, decode and reject exactly at their limits",
 "For every integer type and every value in its range, the encoding decodes to the same value and, in variable-width mode, has the minimal documented length with smaller magnitudes never longer; for every encoded integer, including non-minimal ones, decoding into a type either yields exactly the encoded number or, if it does not fit the type, fails with an overflow error and never truncates or wraps. Reserved integer prefixes are rejected.",
 ["inputs","configurations"],
 "all 2^16 values of the 16-bit types, all boundary values of all others (all 2^32 in the thorough run), all prefix bytes x boundary payloads for every target type",
 "The tests try a few values near the byte-length boundaries of some types.",
 [IMPL+"primitives.rs"],
 [("variable-width and fixed-width integer codecs",IMPL+"primitives.rs")],
 observe=["to_vec","from_slice","skip_slice"])
p("P24","The macro keeps the declared type and implements exactly the traits asked for",
 "Annotating a type leaves it exactly as it would be written by hand for its newest revision: fields and variants alive at the newest revision are kept in declared order with their names, types, visibility, attributes, documentation and explicit discriminants, those that are not are gone, and no revision attribute remains; attributes, documentation and visibility of the type itself are kept. The type reports its newest revision and implements serialization, deserialization, skipping, checked skipping and walking exactly according to the item switches (skipping and walking follow deserialization by default).",
 ["programs"],
 "all declarations at most 2 (3 thorough) changes away from a default one, for named, tuple and unit structs and enums, over attributes, visibility, names, types, lives, layouts, attribute positions and discriminants; every setting of the four switches x layouts x kinds",
 "The tests only use a few derives and doc comments, and never look at what is emitted.",
 ["revision-derive/src/expand/reexport.rs","revision-derive/src/expand/mod.rs","revision-derive/src/ast/mod.rs","revision-derive/src/ast/attributes.rs"],
 [("re-emission of the item","revision-derive/src/expand/reexport.rs"),("switches","revision-derive/src/expand/mod.rs"),("item parser","revision-derive/src/ast/mod.rs")],
 observe=["tokens a derive below the macro sees","traits implemented by the type","T::REVISION"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x)+"\n")
print(len(P))
