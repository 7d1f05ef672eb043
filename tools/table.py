"""One entry per property: how its check is built, run and reported."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

ENUM = "bounded-exhaustive enumeration of executions of the real code against a reference wire-format model"
CHECKS = {}

def c(id, **k):
    CHECKS[id] = k

c("P01", bins=["p01"], level="exploration",
  technique=ENUM,
  rule="one round trip per (configuration, type, value of the enumerated domain) through four entry points; distinct by type and encoded bytes; every value is judged by an exact (bitwise) equality",
  bounds="241 types up to 3 containers deep; integers at every power of two +-1 and small values, floats at every exponent and NaN payload, collections at every length 0..34 and every block boundary to 65537, every kind of container there, some around 2^17, 2^18 and 2^20; optimised payloads of 2^32 bytes (refused); 4 encoding configurations",
  note="exhaustive over the stated type catalogue and value domains in all 4 encoding configurations; values outside the domains are not covered")
c("P02", bins=["p02"], level="exploration",
  technique=ENUM,
  rule="one byte-for-byte comparison per (configuration, type, value) with an independent reference encoder; distinct by type and encoded bytes",
  bounds="as P01; reference encoder in harness/src/wire.rs, model.rs, derived.rs shares no code with the crate",
  note="exhaustive over the catalogue and value domains; reference encoder written from the format description")
c("P03", bins=["p03"], level="exploration",
  technique="bounded-exhaustive enumeration of values x suffixes and of value sequences (all ordered pairs, bounded triples) read from one stream",
  rule="one execution per (value, suffix) and per sequence of values; distinct by bytes; non-trivial: consumption is compared with the encoding's exact length on three reader kinds",
  bounds="8 suffixes per value of the P01 domain; all ordered pairs over ~450 items, triples with a strided tail alphabet; 4 configurations",
  note="exhaustive within the stated domains and sequence lengths")
c("P04", bins=["p04"], gen=True, level="exploration",
  technique="exhaustive enumeration of bounded byte strings and edits of encodings, comparing 8 skip paths with decoding",
  rule="one execution per (type, byte string): all strings of up to 2 bytes, longer strings over edge alphabets, every truncation / byte replacement / insertion / deletion of small encodings, every value of the P01 domain; distinct by type and bytes",
  bounds="strings <= 6 bytes; single edits (thorough: double edits) of encodings <= 72 (160) bytes, edits of longer ones (to 70000 bytes) at the edges, block boundaries and a grid; 237 types; 4 configurations; plus all stored revisions of generated struct and enum histories of up to 4 revisions",
  note="exhaustive within the stated strings and edits; byte strings with legacy length prefixes above 2^20 are excluded (documented memory behaviour)")
c("P05", bins=["p05"], gen=True, level="exploration",
  technique="exhaustive enumeration of truncation points of every enumerated value, over all consumers",
  rule="one execution per (value, prefix length): decode, stream decode, 3 skips, 2 checked skips, walk; distinct by prefix and full length",
  bounds="every prefix of encodings up to 150 (1200) bytes, of longer ones the edges, powers of two and a grid; 241 types; 4 configurations; and of data of every stored revision of generated struct and enum histories",
  note="exhaustive within the stated values and cut points")
c("P06", bins=["p06"], gen=True, gen_configs=["varint-spec"], level="exploration",
  technique="exhaustive enumeration of bounded byte strings and edits of encodings against a reference decoder",
  rule="one execution per (type, byte string) as P04, through decode, stream decode, skips, checked skips, walk and re-serialization; distinct by type and bytes; acceptance judged by an independent reference decoder",
  bounds="as P04, 241 types, 4 configurations; legacy lengths up to 2^64-1 before data of up to 5000 bytes; every byte and 32-bit edit of data of every stored revision of generated struct and enum histories (varint-spec)",
  note="exhaustive within the stated strings; inside length-delimited optimised payloads only panics and re-serialization are judged where the format leaves acceptance open")
MC = "explicit-state exploration of operation sequences on the real code in lockstep with a reference state machine"
c("P07", bins=["p07"], level="fault_enumeration",
  technique="exhaustive enumeration of I/O schedules: the writer's or reader's answer to every call is a choice point explored depth-first (full, short, interrupted, hard fault)",
  rule="one execution per (value, schedule of answers): all schedules up to the deviation bound and a hard fault at every byte offset; distinct by value and schedule",
  bounds="answers full/one byte/half/interrupted/zero/error; deviation-bounded iterative deepening per value, every byte offset for hard faults; derived values and the indexed layouts by themselves; 4 configurations",
  note="exhaustive up to the stated number of deviations from full transfers per execution")
c("P14", bins=["p14"], level="model_checking", technique=MC,
  bounds="all operation sequences (incl. misuse) on walkers of leaves, options, results, sequences, maps, structs and enums of up to 3 elements over the element alphabet, on whole data, on data with more behind it and on every strict prefix; 4 configurations",
  note="every transition is executed on the real walker and compared with the reference state; exhaustive for the listed containers")
c("P15", bins=["p15"], level="model_checking", technique=MC,
  bounds="all subsets of small key universes as maps x all probe keys x find/find_bytes/iteration mixes x key and value types; 4 configurations",
  note="every search is executed on the real walker and compared with a sorted reference map; exhaustive for the listed universes")
c("P16", bins=["p16"], level="model_checking", technique=MC,
  bounds="maps of up to 70000 entries (binary search path on the large ones) and 800000 bytes; all maps of 0..16 entries over the key universes x all present and absent keys x all hints 0..=n+1 and usize::MAX x all lookup sequences to depth 3; 4 configurations",
  note="every lookup is executed on the real walker and compared with a sorted reference map; exhaustive for the listed universes")
c("P17", bins=["p17"], level="model_checking", technique=MC,
  bounds="lengths 0..1000, 65537 and 70000, payloads up to 400000 bytes; lengths 0..40 x all indexes x element types; all access orders of small indexed structs; 4 configurations",
  note="every access is executed on the real walker and compared with slices of the reference encoding; exhaustive for the listed shapes")
c("P18", bins=["p18"], level="exploration",
  technique="exhaustive enumeration of corruptions of indexed payloads, driving every operation of whatever walker is handed back",
  rule="one execution per (payload shape, corruption): every byte replaced by every value, every 32-bit table field set to every boundary value (pairs of fields in the thorough run), every truncation and extension; then construct, decode, skip and every accessor; distinct by payload",
  bounds="all payloads of up to 5 (6) edge bytes and every count cut off anywhere; maps, sequences, sets and structs of 0..12 entries; one damage at every place of tables of up to 257 entries, at the 16-bit edges of tables of 66000; 4 configurations; element types without legacy length prefixes (those allocate by length, documented)",
  note="exhaustive within the stated payloads and corruptions; the expected verdict of construction comes from a reference validator")
c("P20", bins=["p20"], level="exploration",
  technique="exhaustive enumeration of contents, insertion orders, container kinds and hash orders",
  rule="one execution per (element type, ordered contents): every container kind is filled in that order, written, compared with the reference list / indexed layout and cross-read by the other kinds; distinct by type and order",
  bounds="12 element types, all tuples of up to 5 of 6 values (with repetition), all ordered selections of up to 6 keys, rotations/reversals/transpositions of up to 12; 5 hash orders incl. total collision; 4 configurations",
  note="exhaustive within the stated contents and orders; hash iteration orders are enumerated with deterministic hashers and sampled only for the default one")
c("P21", bins=["p21"], level="model_checking", technique=MC, configs=["varint-spec", "fixed"], opt=False,
  bounds="the full reachable state graph of cursors over 27 buffers of 0..11 bytes with every length argument 0..left+1 and the maximum integers, buffers around the 4096-byte chunk size, and all operation sequences to depth 4 (5) without state merging",
  note="every transition is executed on the real reader and compared with an index into the buffer, including the address of every slice handed out")
c("P23", bins=["p23"], level="exploration", opt=False,
  technique="exhaustive enumeration of integer values and integer spellings against a reference integer codec",
  rule="one execution per (type, value) and per (type, byte string), each through encode, decode, 2 skips and the checked skip; distinct by construction",
  bounds="23 integer types; all 8- and 16-bit values, all values below 2^17 and every power-of-two / bit-pair / byte pattern of the wider ones (all 2^32 of u32 and i32 in the thorough run); all strings of up to 2 bytes, all 2-byte payloads of every width class, all prefixes x edge payloads, all truncations; 4 configurations",
  note="exhaustive within the stated values and spellings")
HIST = "exhaustive enumeration of revision histories: every type is generated, compiled with the real derive and driven over every stored revision, against a reference upgrade semantics"
HB = "histories of 1..4 revisions: every combination of legacy/optimised/indexed encodings over up to 3 revisions (selected 4-revision ones), every life (start, end) of a field or variant within them, the 21 field kinds incl. forced and indexed layouts in rotating arrangements, awkward and reused names; sample values per field; histories of 300 revisions, structs of 40 and 300 fields, payloads beyond 65535 bytes; every default and conversion function failing in turn; default and all-features configuration (thorough: 4 configurations, more arrangements, 5 revisions)"
c("P08", gen=True, level="exploration", technique=HIST,
  rule="one upgrade per (type as of its reader revision, stored revision, sample): bytes compared with the reference encoding of that revision, decoded value and the log of conversion calls compared with the reference upgrade, alone, followed by other data and beside other revisions in a list; distinct by type, revision and sample",
  bounds=HB, note="exhaustive over the generated histories; code as of each older revision is compiled as well and its bytes compared with the reference encoder")
c("P09", gen=True, level="exploration", technique=HIST,
  rule="one upgrade per (enum as of its reader revision, stored revision, variant, sample), as P08; distinct by type, revision, variant and sample",
  bounds=HB + "; discriminant overrides; enums of 31, 32, 40 and 300 variants", note="exhaustive over the generated histories")
c("P10", gen=True, level="exploration",
  technique="exhaustive enumeration of stored revision numbers and variant numbers over generated histories",
  rule="one execution per (type, stored revision number 0..65535, spelling) through every decoding, skipping, checking and walking entry point, again inside 10 containers, and per (type, stored revision, variant number or tag byte); distinct by type, number and spelling",
  bounds="all 65536 revision numbers for the bare type (inside containers: all below 600, near powers of two and a grid; all in the thorough run); all variant numbers 0..=512 and powers of two, all 256 tag bytes; structs and enums of 1..3 revisions in every encoding",
  note="exhaustive for the generated types; skipping does not look inside length-delimited payloads by design, so there only decoding is judged")
c("P11", gen=True, level="exploration",
  technique="exhaustive enumeration of spellings of the same history, each compiled with the real derive and judged by the same reference",
  rule="one task per (history, spelling) driving upgrade, skip and walk; every spelling of a history is compared with the same reference bytes, values and walker answers; distinct by type, revision and sample",
  bounds="short and list form, all permutations of up to 4 entries, outer, inner and split attribute positions, all encodings of up to 3 revisions", note="exhaustive over the stated spellings")
c("P12", gen=True, level="model_checking",
  technique="explicit-state exploration of walker operation sequences on generated struct histories, executed on the real walker in lockstep with a reference",
  bounds=HB + "; all sequences of decode/skip/walk per field and every terminal operation at every position",
  note="every transition is executed on the real walker and compared with the fully decoded value and the reference encoding")
c("P13", gen=True, level="model_checking",
  technique="explicit-state exploration of walker operations on generated enum histories, executed on the real walker in lockstep with a reference",
  bounds=HB + "; every variant test, decode, descend and byte view for every stored variant", note="every transition is executed on the real walker and compared with the fully decoded value and the reference tables")
c("P19", gen=True, gen_configs=["varint-spec", "fixed-spec", "varint", "fixed"], level="exploration",
  technique="exhaustive enumeration of forced field kinds x positions x values, compiled in all four encoding configurations, against one reference layout",
  rule="one execution per (field kind, place, value, stored revision): bytes compared with the layout, then decode, skip, checked skip and walk; distinct by type and bytes",
  bounds="6 integer types x every power of two +-1 and small values; bulk vectors of 13 element types x every length 0..34 and block boundaries up to 5000 (65537 thorough); 13 places: alone, between others, tuple, several together, added later, removed, variants, legacy data read by an optimised revision and vice versa",
  note="the same reference bytes are demanded in all four configurations, so a build reads what another wrote")
c("P22", level="exploration", custom=__import__("decls").check,
  technique="exhaustive enumeration of declarations of a bounded alphabet, each given to the compiler with the real derive; verdicts from a reference rule set",
  rule="one compiler verdict per declaration; distinct by source text; contradictory declarations must each draw an error located in them, consistent ones none",
  bounds="all revision lists of up to 4 entries over 0..5 in 3 positions, all lives over 1..5 and out of range for fields, variants and variant fields, all marker combinations, all orders of up to 3 encoding options, size classes x shapes x layouts, 1..257 variants, discriminants around the tag limit, all item switches, awkward names",
  note="exhaustive over the stated alphabet; declarations whose status the documentation leaves open are not judged")
c("P24", level="exploration", custom=__import__("shapes").check,
  technique="exhaustive enumeration of declarations within a bounded number of changes from a default one; the compiler compares the tokens the macro leaves with those of the hand-written newest-revision type, and probes the traits implemented",
  rule="one declaration compiled together with its reference and a constant assertion; distinct by source text",
  bounds="all declarations at most 2 (3 thorough) changes away from the default over 25 dimensions (6 attribute lists per place, 6 visibilities, 7 types, names, 5 lives per field or variant, dead fields and variants at every position, 11 revision histories, attribute order, discriminants); 42 settings of the switches x 6 layouts x 4 kinds",
  note="token equality ignores only spacing, trailing commas and allow attributes; settings where skipping or walking is demanded without decoding are not judged")
NOT_APPLICABLE = {}
