"""What each check runs: harness runs (name:arguments, see harness/src/props.rs;
a name with `!` is about panics and memory only) with the points each must be able to reach, and the limits.

`quick` runs are the core: every obligation of theirs must be discharged for
the check to pass, in either tier.  `quick_ext` (both tiers) and `thorough`
runs go deeper and count as far as they finish in time."""
import json, os

CORE_LIMIT = 560
LIMIT = {"quick": 200, "thorough": 820}
WITNESSES = {"quick": 40, "thorough": 120}

ASSUMPTIONS = [
    "The encoded program is the LLVM IR rustc produces from /repo's sources (opt-level 1, fat LTO, overflow checks and "
    "debug assertions on, panic=abort); the LLVM passes below that and the code generator are trusted.",
    "The engine /verif/engine (IR semantics, memory model, bit-blaster) is trusted; each run's obligations are refuted "
    "a second time by an external SAT solver, and solver models are replayed against the real crate with its outputs "
    "compared.",
    "memchr is replaced by /verif/model/memchr, straightforward loops with the documented behaviour; its SIMD code is "
    "not encoded (the native replays use the real crate).",
    "The allocator never fails and hands out fresh memory; use after free is detected on paths that are not merged.",
    "Lengths are fixed per run, and all characters of those lengths are symbolic; inputs longer than the stated bounds "
    "are outside.",
]


def r(run, *reach):
    return (run, reach)


F = (1, 2)
PROPS = {}


def prop(id, bounds, quick, quick_ext=(), thorough=()):
    PROPS[id] = {"bounds": bounds, "quick": list(quick), "quick_ext": list(quick_ext), "thorough": list(thorough)}


prop("C01",
     "Queries of 0..3 arbitrary ASCII bytes (full grammar) against candidates of 2 arbitrary ASCII bytes, both metrics, "
     "every option; literal queries of 63..66, 70 and 140 characters; earlier calls with candidates of 100..700 "
     "characters and queries of up to 140; multi-byte layouts up to 4 characters incl. every 2- and 3-byte code point;"
     " queries of 65 one-letter words; candidates of 125..140 characters after shorter ones; terms of 9 and 140 characters; "
     "candidates of 1300 characters and of 150..200 matching ones; empty candidates; 66 000 characters in the extended runs.",
     [r("gr!:1200,3,2,0"), r("gr!:2200,3,2,0"), r("gr!:9999,2,2,8"), r("gr!:9999,1,2,8"), r("gr!:9999,0,2,8"),
      r("fz!:1999,2,4,1,16"), r("fz!:2999,2,4,1,272"), r("fzu!:9919,12,1213,16"), r("fzu!:9919,4,144,16"),
      r("fzu!:9919,13,131,16"), r("em!:9999,2,5"), r("em!:9200,3,121"),
      r("lq!:1200,0,63,2,3,8"), r("lq!:1200,0,64,2,3,8"), r("lq!:1200,0,65,2,3,8"), r("lq!:1200,1,66,2,3,8"),
      r("lq!:2200,0,64,0,1,8"), r("hi!:9909,0,0,11,1111,40130"), r("hi!:9919,1,0,12,1211,70200"),
      r("lq!:1200,1,70126,2,3,8"), r("lq!:1200,3,128,1,2,8"), r("lq!:2200,3,128,1,0,8"), r("fzu!:9919,5,11,16"), r("fzu!:9919,12,111,16"), r("fzu!:9919,3,11,16"),
      r("hl!:2200,2,1221,20140,1,15"), r("hl!:1200,2,1221,20140,1,15"), r("hl!:2200,2,11,10140,11,15"), r("tmu!:9919,1,12,1213,4"), r("tmu!:9919,2,12,112,4"), r("tmu!:9919,3,21,121,4"), r("tmu!:9919,4,121,121,4"), r("lt!:9200,1,9,1,22,7"), r("lt!:9200,4,1009,1,22,7"),
      r("lt!:9200,2,140,1,22,7"), r("le!:2209,1,12,1300,11,4"), r("gr!:9999,2,0,8"), r("gu!:9200,2,213,1"), r("hl!:2200,2,1,20127,1,12"), r("hl!:2200,2,1,20128,1,12"), r("hl!:1200,2,11,20125,11,12"),
      r("hl!:1209,2,1,141500,1,12"), r("hl!:2209,2,1,141500,1,12"), r("lr!:2209,13010140,1,1,6"), r("lr!:1209,14020150,1,1,6"),
      r("lr!:2200,15020200,1,1,6")],
     [r("oc!:2200,0,0,660001,1,4"), r("oc!:1200,0,0,660001,2,4"), r("fzu!:1010,5,115,16"), r("hi!:2209,1,0,12,1112,140300"), r("hi!:1209,1,0,12,1112,700"), r("gr!:1200,4,2,0")],
     [r("gr!:1200,4,3,0"), r("gr!:2200,4,2,0"), r("lq!:1200,2,70,2,3,8"), r("lq!:1200,2,140,2,3,8"), r("gr!:9999,3,2,0"),
      r("gr!:1200,5,2,0"), r("em!:9999,4,12")])

prop("C02",
     "Literal queries up to 3 and candidates up to 8 arbitrary ASCII characters, queries of one character up to 10; "
     "mixed-width layouts up to 4 characters; every 2- and 3-byte code point against every other, singly;"
     " candidates of 130..600 (ASCII), 1600 and 500 000 characters, 3..5 of them arbitrary; queries longer than the "
     "candidate; the query 'xab' occurring 66 000 characters in (extended).",
     [r("fz:1200,3,8,1,1", *F), r("fz:1999,2,5,1,1", *F), r("fz:2999,2,4,1,257", *F), r("fz:2200,3,5,1,257", *F),
      r("fz:1200,1,10,1,1", *F), r("fz:2200,1,10,1,1", *F), r("fzu:9919,12,1213,1", *F), r("fzu:9919,11,123,1", *F),
      r("fzu:9919,4,144,1", *F), r("fzu:9919,5,11,1", 2), r("fzu:9919,12,111,1", 2), r("fzu:9919,3,11,1", 2),
      r("hl:1200,2,11,130,11,1", *F), r("hl:2200,2,11,140,11,1", *F), r("hl:2209,2,1221,20140,1,1", *F), r("hl:1209,2,1221,20140,1,1", *F),
      r("hl:1200,2,11,1600,11,1", *F), r("hl:2200,2,11,1600,1,1", *F), r("hl:1200,2,11,600,11,1", *F), r("hl:2200,2,11,600,1,1", *F),
      r("hl:1200,2,1,500000,12,1", *F),
      r("hl:1210,2,11,140,12,1", *F), r("hl:2210,2,2,1140,21,1", *F), r("fz:9999,1,0,1,1", 2), r("fz:1999,3,3,1,1", *F), r("fz:2999,3,3,1,257", *F), r("fz:9200,2,1,1,1", 2),
      r("fzu:1010,1,5,1", *F), r("fzu:1010,5,5,1", *F)],
     [r("oc:1200,0,0,660001,1,1"), r("oc:2200,0,0,660001,1,1"), r("fz:2200,3,6,1,257"), r("fz:1200,4,8,1,1"), r("fzu:2110,5,115,1"), r("fz:2200,2,7,0,257"), r("fz:1200,2,12,0,1")],
     [r("fz:2200,4,6,1,257"), r("vv:1909,3,5"), r("fz:1200,5,8,1,1"), r("fz:1999,3,7,1,1"), r("fz:2999,3,5,1,257"),
      r("fzu:9919,12,12131,1"), r("fzu:1010,6,6,1"), r("fz:1200,3,12,1,1"), r("fz:1200,4,10,1,1")])

prop("C03",
     "Exact, prefix, suffix, equality terms and their negations of 2..3 arbitrary characters (incl. escaped spaces) "
     "against candidates of 0..6 arbitrary ASCII characters, and mixed-width layouts up to 4; a lone negated fuzzy term; "
     "terms of 9..140 characters with 1..2 arbitrary ones on either side of the candidate's copy; terms of 2 on "
     "candidates of 140..2300 characters that are filled with one repeated character, 2..4 of them arbitrary.",
     [r("tm:9999,1,2,4,0,1", *F), r("tm:9999,2,2,4,0,1", *F), r("tm:9999,3,2,4,0,1", *F), r("tm:9999,4,2,4,0,1", *F),
      r("tm:1999,10,2,4,0,1", *F), r("tm:9999,11,2,4,0,1", *F), r("tm:9999,12,2,4,0,1", *F),
      r("tm:9999,13,2,4,0,1", *F), r("tm:9999,14,2,4,0,1", *F), r("tm:9200,1,3,5,0,1", *F), r("tm:1200,11,3,5,0,1", *F),
      r("tm:9999,2,3,5,1,1", *F), r("tm:9999,3,3,5,4,1", *F),
      r("tm:9999,4,3,5,5,1", *F), r("tmu:9919,1,12,1213,1", *F), r("tmu:9919,2,12,112,1", *F),
      r("tmu:9919,3,21,121,1", *F), r("tmu:9919,4,121,121,1", *F), r("tmu:9919,12,12,112,1", *F),
      r("tmu:9919,11,21,1213,1", *F), r("tmu:9919,13,21,121,1", *F), r("tmu:9919,14,121,121,1", *F), r("tmu:9919,1,11,121,1", *F), r("tmu:9919,11,11,121,1", *F),
      r("tmu:9919,2,11,213,1", *F), r("tmu:9919,3,11,132,1", *F), r("tmu:9919,4,11,21,1", *F), r("lt:9200,1,9,1,22,1", *F), r("lt:9200,1,1009,1,22,1", *F), r("lt:9200,2,140,1,2,1", *F), r("lt:9200,3,140,1,21,1", *F),
      r("lt:9200,4,140,1,1,1", *F), r("lt:9200,11,9,1,22,1", *F), r("lt:9200,12,9,1,2,1", *F), r("lt:1200,10,9,1,22,1", *F), r("le:9200,1,11,140,11,1", *F), r("le:9200,2,0,2300,11,1", *F), r("le:9200,3,11,2300,0,1", *F),
      r("le:9200,11,11,140,11,1", *F), r("le:1200,1,12,1300,11,1", *F), r("tm:9999,1,2,0,0,1", 2), r("tm:9999,4,2,0,0,1", 2),
      r("tm:9999,12,2,0,0,1", 1), r("tmu:9919,2,1,31,1", *F), r("tmu:9909,2,1,551,1", 2), r("tmu:9909,3,1,16,1", 2), r("tmu:9909,4,1,313,1", 2)],
     [r("tm:9999,1,3,6,2,1"), r("tm:9999,11,2,6,1,1"), r("tm:9999,2,2,6,0,1"), r("tm:9999,3,2,6,0,1"),
      r("tm:9999,4,2,6,0,1"), r("tm:2999,10,2,3,0,1")],
     [r("tm:9999,1,3,7,0,1"), r("tm:1200,1,4,9,0,1"), r("tm:9999,12,3,6,1,1"), r("tm:9999,13,3,6,4,1"),
      r("tm:9999,14,3,6,5,1"), r("tm:1200,2,4,9,0,1"), r("tm:1200,3,4,9,0,1"), r("tm:1200,4,4,9,0,1")])

prop("C04",
     "Every query of 0..3 arbitrary ASCII bytes, every query of 4 bytes under one configuration, against every "
     "candidate of 2 bytes (3 in the extended runs), every query of 5 words of 4 shapes and of 3 words of 14 shapes "
     "(operators alone and combined); words of 63..260 characters (with letters, alternatives, escaped spaces) with "
     "symbolic tails; queries of 2..3 characters of mixed width; empty candidates: decision equal to that of the "
     "documented grammar.",
     [r("gr:1200,3,2,3", *F), r("gr:2200,3,2,7", *F), r("gr:9999,2,2,3", *F), r("gr:9999,1,2,3", *F),
      r("gr:1200,4,2,3", *F), r("gw:1200,5,4,1,1", *F), r("gw:1200,3,14,1,1", *F),
      r("lq:1200,4,260,2,3,1", *F), r("lq:1200,3,128,2,2,1", *F), r("gr:9999,2,0,3", *F), r("lq:1200,6,200,2,3,1", *F), r("lq:1200,6,63,2,3,1", *F), r("gu:1200,3,213,1", *F), r("gu:9200,2,1213,3", *F)],
     [r("gr:1200,3,3,1"), r("gw:1200,4,7,1,1")],
     [r("gr:1200,4,3,1"), r("gw:1200,6,4,1,1"), r("gw:2200,4,7,1,3"), r("gw:1200,3,14,2,3"), r("gw:1200,4,14,1,1"), r("gu:1200,4,21,1"), r("gu:2200,3,213,3"),
      r("gr:1200,5,2,1"), r("gr:9999,3,2,3"), r("gr:2200,4,2,7"), r("gr:1200,3,4,1"), r("gr:1200,5,3,1"),
      r("gr:1200,6,2,1")])

prop("C05",
     "Literal queries of 1..4 arbitrary ASCII bytes (spaces and operators included) against candidates up to 8, "
     "mixed-width layouts; queries of 62..66, 200 and 300 characters (some with an é) with symbolic tails, 600 when "
     "thorough; one of 126 after an earlier one of 70.",
     [r("fz:1200,3,6,1,1", *F), r("fz:1999,2,5,1,1", *F), r("fz:2999,2,4,1,257", *F), r("fzu:9919,12,1213,1", *F),
      r("fzu:9919,11,123,1", *F), r("lq:1200,0,62,2,3,8", *F), r("lq:1200,0,63,2,3,8", *F), r("lq:1200,0,64,2,3,8", *F),
      r("lq:1200,0,65,2,3,8", *F), r("lq:1200,0,70126,2,3,8", *F), r("lq:1200,0,300,2,3,8", *F), r("lq:1200,5,62,2,3,8", *F), r("lq:1200,5,64,2,3,8", *F), r("lq:1200,5,200,2,3,8", *F), r("lq:2200,0,63,1,1,0", *F), r("em:9200,3,121", 1, 3)],
     [r("fz:1200,4,8,1,1"), r("lq:1200,0,126,2,3,8"), r("lq:1200,0,127,2,3,8"), r("lq:1200,0,200,2,3,8")],
     [r("lq:2200,0,63,1,2,0"), r("lq:1200,0,600,2,3,8"), r("fz:2200,4,6,1,257")])

prop("C06",
     "Two-term queries over every combination of term kinds on candidates of 4..5 arbitrary bytes, three-term ones on "
     "4, every 3-byte query, fuzzy queries up to 3 on 7, mixed-width layouts up to 4 characters; four to five exact "
     "terms at arbitrary positions of candidates of 5..7 distinct characters;"
     " candidates of 80..1530 characters with 4..5 arbitrary ones or with terms that match at up to four places far apart; terms of 9 characters.",
     [r("gb:9200,3,2,1,4", 3, 4), r("fb:9999,2,4,1,4", 3, 4), r("fb:1200,3,7,1,4", 3, 4), r("fbu:9919,12,1213,1,4", 3, 4),
      r("fbu:9919,11,1232,1,4", 3, 4), r("hl:1200,2,11,10130,11,4", *F), r("hl:2200,2,12,20140,11,4", *F), r("mb:9200,12,22,0,4,20", 3, 4), r("mb:9200,26,22,0,4,20", 3, 4),
      r("mb:9200,134,111,5,4,20", 3, 4), r("mb:9200,222,111,0,4,20", 3, 4), r("iv:1200,222,6,0,4", 3),
      r("iv:1200,123,6,1,4", 3), r("iv:1200,1111,5,0,4", 3), r("iv:1200,12321,6,0,4", 3), r("iv:2200,232,7,0,4", 3),
      r("iv:1200,22,2040,0,4", 3), r("iv:1200,23,1530,1,4", 3), r("iv:1200,92,2040,0,4", 3), r("hl:1200,2,11,1300,11,4", *F), r("hl:2209,2,11,1140,11,4", *F),
      r("lr:1200,30080,1,2,4", *F), r("lr:2200,40080,1,1,4", *F), r("le:9200,1,12,1140,11,4", *F),
      r("tmu:9919,1,12,1213,4", *F), r("tmu:9919,1,21,213,4", *F), r("tmu:9919,2,21,212,4", *F), r("tmu:9919,3,32,132,4", *F),
      r("tmu:9919,4,121,121,4", *F), r("lt:9200,1,1009,1,22,4", *F)],
     [r("gb:1999,2,2,2,4"), r("mb:9200,22,22,0,5,20"), r("fb:2200,3,5,1,4"), r("iv:1200,2222,8,0,4"),
      r("iv:1200,11111,6,0,4")],
     [r("gb:1200,4,2,1,4"), r("fb:1200,4,8,1,4"), r("fb:2200,4,6,1,4"), r("mb:1200,222,222,0,5,20"),
      r("mb:1200,2222,1111,0,4,20"), r("mb:1200,122,122,0,5,20"), r("iv:1200,111111,7,0,4"), r("iv:1200,13131,8,0,4")])

prop("C07",
     "As C06, with 1..3 arbitrary ranges already in the buffer; 40 of them; candidates of 0 and 1 characters.",
     [r("gb:9200,3,2,1,3", 3, 4), r("fb:9999,2,4,1,3", 3, 4), r("fb:1200,3,6,1,3", 3, 4), r("fbu:9919,12,1213,1,3", 3, 4),
      r("mb:9200,12,22,0,4,19", 3, 4), r("mb:9200,26,22,0,4,19", 3, 4), r("mb:9200,134,111,5,4,35", 3, 4),
      r("mb:9200,222,111,0,4,19", 3, 4), r("iv:1200,123,6,1,2", 3), r("iv:1200,222,6,2,2", 3),
      r("gb:9999,1,2,1,3", 3, 4), r("fb:1200,2,4,40,3", 3, 4), r("iv:1200,23,1530,9,3", 3), r("gb:9200,3,0,2,3", 3, 4), r("gb:9200,3,1,2,3", 3, 4),
      r("hl:1209,2,11,10130,11,64", 3, 4), r("hl:2200,2,11,20140,12,64", 3, 4)],
     [r("gb:1999,2,2,2,3"), r("mb:9200,22,22,0,5,19"), r("fb:2200,3,5,1,3"), r("mb:1200,167,211,0,4,19"),
      r("mb:2200,167,211,0,4,19")],
     [r("gb:1200,4,2,1,3"), r("gb:9999,2,3,1,3"), r("mb:1200,2227,1111,0,4,19"), r("mb:1200,1617,1111,0,4,19"),
      r("mb:1200,116,222,0,4,19"), r("fb:1200,4,8,1,3")])

prop("C08",
     "Fuzzy queries up to 3 on candidates up to 6 (V1) and 5 (V2), anchored and exact terms of 2..3 on up to 6, two- "
     "and three-term queries on 3..4 arbitrary ASCII characters, mixed-width layouts up to 4, four to five exact terms "
     "at arbitrary positions;"
     " candidates of 80..2300 characters with 3..5 arbitrary ones or with terms that match at up to four places far apart.",
     [r("fz:1999,2,4,1,8"), r("fz:2999,2,4,1,264"), r("fz:1200,3,6,1,8"), r("fzu:9919,12,1213,8"), r("fzu:9919,11,123,8"),
      r("fzu:9919,4,144,8"), r("hl:1200,2,11,10130,11,4", *F), r("hl:2200,2,12,20140,11,4", *F), r("tm:9999,2,2,4,0,4"), r("tm:9999,3,2,4,0,4"), r("tm:9999,4,2,4,0,4"),
      r("tm:9200,1,2,4,0,4"), r("tm:9200,2,3,6,1,4"), r("tm:9200,3,3,6,4,4"), r("tm:9200,4,3,5,5,4"),
      r("tmu:9919,1,12,1213,4"), r("tmu:9919,2,12,112,4"), r("tmu:9919,3,21,121,4"), r("tmu:9919,4,121,121,4"),
      r("mt:9200,12,22,0,4,2"), r("mt:9200,222,111,0,4,2"), r("mt:9200,1234,1111,6,3,2"),
      r("mt:9200,62,22,1,4,2"), r("mt:9200,71,22,1,3,2"), r("mt:9200,82,22,1,4,2"), r("mt:9200,93,22,1,4,2"),
      r("mt:9200,162,212,3,4,2"), r("iv:1200,222,6,0,8", 3),
      r("iv:1200,123,6,1,8", 3), r("iv:1200,1111,5,0,8", 3), r("iv:2200,232,7,0,8", 3), r("lr:2200,280,1,1,4", *F),
      r("hl:1200,2,11,1300,11,4", *F), r("hl:2200,2,11,1140,11,4", *F), r("lr:1200,30080,1,2,4", *F), r("lr:2200,40080,1,1,4", *F),
      r("iv:1200,22,2040,0,8", 3), r("iv:1200,23,1530,1,8", 3), r("iv:1200,92,2040,0,8", 3), r("le:9200,1,11,140,11,4", *F), r("le:9200,1,12,1140,11,4", *F),
      r("le:9200,2,0,2300,11,4", *F), r("le:9200,3,11,2300,0,4", *F)],
     [r("fz:2200,3,5,1,264"), r("mt:9200,22,22,0,5,2"), r("iv:1200,12321,6,0,8")],
     [r("fz:2200,3,6,1,264"), r("fz:1200,4,7,1,8"), r("tm:9999,1,2,6,0,4"), r("mt:9200,122,211,0,4,2"),
      r("iv:1200,2222,8,0,8"), r("iv:1200,11111,7,0,8"), r("mt:1200,2222,1111,0,4,2")])

prop("C09",
     "Literal fuzzy queries up to 3 on candidates up to 5, every query of 0..3 arbitrary bytes on 2, term queries of "
     "every kind on 4, mixed-width layouts;"
     " candidates of 130..2140 characters, 4..5 of them arbitrary; terms of 9 characters; terms on mixed-width layouts.",
     [r("fz:1999,2,4,1,16"), r("fz:2999,2,4,1,272"), r("fz:1200,3,6,1,16"), r("fz:2200,3,5,1,272"),
      r("fz:9200,1,6,1,16"), r("fzu:9919,12,1213,16"), r("fzu:9919,11,123,16"), r("fzu:9919,4,144,16"),
      r("hl:1200,2,11,10130,11,128", *F), r("hl:2200,2,12,20140,11,128", *F), r("hl:2200,1,11,140,12,128", *F), r("hl:2200,3,11,70,11,128", *F), r("gr:1200,3,2,8"), r("gr:2200,3,2,8"), r("gr:9999,2,2,8"), r("gr:9999,1,2,8"),
      r("tm:9200,1,2,5,0,8", *F), r("tm:9999,2,2,4,0,8", *F), r("tm:9999,3,2,4,0,8", *F), r("tm:9999,4,2,4,0,8", *F), r("tm:9200,11,2,4,0,8", *F),
      r("tmu:9919,1,12,121,8", *F), r("tmu:9919,2,12,112,8", *F), r("tmu:9919,3,21,121,8", *F), r("tmu:9919,4,121,121,8", *F),
      r("lt:9200,1,9,1,22,8", *F), r("le:9200,1,11,140,11,8", *F), r("le:9200,2,0,2140,11,8", *F)],
     [r("tm:9999,1,2,5,0,8"), r("tmu:9919,1,12,1213,8"), r("gr:1200,4,2,8"), r("gr:1200,3,3,8")],
     [r("fz:2200,3,6,1,272"), r("gr:9999,3,2,8"), r("gr:2200,4,2,8"), r("gr:1200,4,3,8"), r("fz:2200,4,6,1,272"), r("fz:1200,4,8,1,16")])

prop("C10",
     "One earlier call with an arbitrary query of 2 and candidate of 3..5 characters under other options, or with "
     "concrete queries of 3..140 on candidates of 100..700 characters, then an arbitrary call of 2 on 3..4 characters; "
     "mixed widths in both;"
     " earlier calls on three candidates of 7..101 characters, then candidates of 125..300 characters with 4..5 arbitrary ones; "
     "earlier calls on 5001 characters, then candidates of 140..6140; an earlier call on a match of 150 characters, then one of 200; query and candidate overwritten in place between calls.",
     [r("hi:1999,12,121,12,112,0", *F),  r("lr:2200,15020200,1,1,6", *F), r("lr:1200,15020200,1,1,6", *F),
      r("hi:2999,12,121,12,112,0", *F), r("hi:9200,21,221,11,1111,0", *F),
      r("hi:9909,0,0,11,1111,40130", *F), r("hi:9919,1,0,12,1211,70200", *F), r("hl:2200,2,1111,10140,1,16", *F), r("hl:2209,2,1221,20140,1,16", *F), r("hl:1209,2,1221,20130,1,16", *F), r("hl:1200,2,11,10130,11,16", *F),
      r("hl:2200,2,121,10300,1,16", *F), r("hi:2209,0,0,11,1111,3700", *F),
      r("hi:2209,1,0,12,1112,140300", *F), r("ru:9200,2,11,11,3", *F), r("ru:9200,2,2,11,2", *F), r("ru:9909,1,111,21,3", *F), r("ru:9209,1,12,21,2", *F), r("ru:9210,2,122,212,2", *F),
      r("ru:9999,2,12,12,11", *F), r("ru:9999,1,11,11,8", *F), r("hl:2200,2,1,20127,1,16", *F), r("hl:2200,2,1,20128,1,16", *F), r("hl:1200,2,11,20125,11,16", *F), r("hl:1209,2,1,141500,1,16", *F), r("hl:2209,2,1,141500,1,16", *F),
      r("hl:2209,2,1,641140,1,16", *F), r("hl:2200,2,11,30140,1,16", *F), r("hl:2200,2,1,530140,1,16", *F), r("hl:1200,2,11,41140,11,16", *F)],
     [r("hi:9200,111,1111,11,111,0"), r("hi:9909,0,0,11,1111,2129"), r("hi:9909,0,0,11,1111,2128")],
     [r("hi:1200,11,11111,111,11111,0"), r("hi:2200,11,1111,111,1111,0"), r("hi:9999,12,121,12,112,0"),
      r("hi:9999,0,0,11,1111,3129"), r("hi:2200,111,1111,11,11111,0"), r("hi:9209,1,0,111,11112,300900")])

prop("C11",
     "One earlier query of 2 arbitrary bytes, or a concrete one of 120..130 characters in many terms, then every query "
     "of 2..3 bytes on 2; queries of one word of 66 and of many words of 70 characters with symbolic tails;"
     " an earlier query of 70 characters, then one of 126..130; twelve earlier queries of all kinds; a query overwritten in "
     "place between calls.",
     [r("hp:1200,2,2,2", *F), r("hp:1200,10,2,2", *F), r("hp:1200,120,3,2", *F), r("hp:9200,130,2,2", *F), r("lq:1200,1,66,2,3,8", *F),
      r("lq:1200,1,70126,2,3,8", *F), r("lq:1200,3,70128,1,2,8", *F), r("lq:1200,0,70126,2,3,8", *F), r("lq:1200,1,63,2,3,8", *F), r("ru:9200,2,11,11,1", *F), r("ru:9200,2,111,111,5", *F)],
     [r("lq:1200,2,70,2,3,8"), r("hp:1200,300,2,2")],
     [r("lq:1200,2,140,2,3,8"), r("hp:2200,2,2,2"), r("hp:1200,3,2,2"), r("hp:1200,10,3,2"), r("lq:1200,1,130,2,3,8")])

prop("C12",
     "Pairs of matches of an arbitrary literal query of 2 characters with candidates of 3, all options (V1); of 1 with "
     "3 (V2);"
     " distances of literal queries of 11 lengths up to 4095 against each other; negative scores against positive ones.",
     [r("od:1909,2,3", 1, 2, 3), r("od:2909,1,3", 1, 2, 3), r("ol:1200,2", 1, 2, 3), r("on:1200,60", 1, 2, 3), r("on:1200,30", 1, 2, 3)], [r("od:1909,2,4")], [r("od:2900,2,3"), r("od:1900,3,4")])

prop("C13",
     "Literal queries up to 3 and candidates up to 6 arbitrary ASCII characters, one character up to 10; mixed-width "
     "layouts up to 4; runs of 300 matches;"
     " candidates of 130..600 characters, 4..5 of them arbitrary, after earlier calls on others; 40 occurrences of the query with arbitrary tails.",
     [r("fz:1999,2,4,1,2", 1), r("fz:1200,3,5,1,2", 1), r("fz:1201,3,5,1,2", 1), r("fz:1999,1,5,1,2", 1),
      r("fz:1200,1,10,1,2", 1), r("fzu:1919,12,1213,2", 1), r("fzu:1919,11,123,2", 1), r("fzu:1919,4,144,2", 1),
      r("hl:1200,2,11,10130,11,2", *F), r("hl:1209,2,1221,20130,1,2", *F), r("hl:1200,3,11,70,11,2", *F), r("hl:1209,3,12,1070,11,2", *F), r("fz:1200,3,6,1,2", 1), r("lr:1200,300,1,2,2", *F), r("hl:1200,2,11,600,11,2", *F), r("oc:1200,0,0,40,11,2", 1), r("oc:1209,0,2,1040,1,2", 1)],
     [r("fz:1202,3,6,1,2"), r("fz:1999,2,5,1,2")],
     [r("fz:1200,3,7,1,2"), r("fz:1200,4,7,1,2"), r("fz:1999,3,5,1,2"), r("fz:1200,2,8,1,2"), r("fz:1999,2,6,1,2"), r("lr:1209,11200,2,2,2"), r("hl:1200,2,11,500000,11,2")])

prop("C14",
     "Exact, prefix, suffix and equality terms of 2..3 arbitrary characters (incl. escaped spaces) on candidates of 4..6 "
     "arbitrary ASCII characters, layouts up to 4 of mixed widths, terms of 9 and 140 characters, candidates of 140..2300 "
     "characters with 3..4 arbitrary ones, 20..40 occurrences of the term: which occurrence, its score and its ranges.",
     [r("tm:9999,1,2,4,0,3", *F), r("tm:9999,2,2,4,0,7", *F), r("tm:9999,3,2,4,0,7", *F), r("tm:9999,4,2,4,0,7", *F),
      r("tm:9200,1,2,4,0,7", *F), r("tm:9200,2,3,6,1,7", *F), r("tm:9200,3,3,6,4,7", *F), r("tm:9200,4,3,5,5,7", *F),
      r("tmu:9919,1,12,1213,7", *F), r("tmu:9919,2,12,112,7", *F), r("tmu:9919,3,21,121,7", *F),
      r("tmu:9919,4,121,121,7", *F), r("tmu:9919,1,11,121,7", *F), r("tmu:9919,2,11,213,7", *F), r("tmu:9919,3,11,132,7", *F), r("tm:9200,1,3,5,0,2", *F), r("lt:9200,1,9,1,22,7", *F), r("lt:9200,1,1009,1,22,7", *F),
      r("lt:9200,2,140,1,2,7", *F), r("lt:9200,3,140,1,21,7", *F), r("lt:9200,4,1140,1,1,7", *F),
      r("le:9200,1,11,140,11,7", *F), r("le:9200,1,12,1140,11,7", *F), r("le:9200,2,0,2300,11,7", *F), r("le:9200,3,11,2300,0,7", *F),
      r("le:1200,1,11,600,11,3", *F), r("oc:9200,1,0,40,11,7"), r("oc:9209,1,2,1020,1,7"), r("tmu:9919,2,1,31,7", *F)],
     [r("tm:9999,1,3,6,2,3"), r("tm:1200,1,2,6,0,7")],
     [r("tm:1200,1,2,7,0,7"), r("tm:1200,1,3,7,0,3"), r("tm:1200,1,3,8,0,1"), r("tm:9999,2,3,7,0,7"),
      r("tm:9999,3,3,7,0,7"), r("tm:9999,4,3,6,0,7")])

prop("C15",
     "Literal queries up to 3 and candidates up to 5 (6 extended) arbitrary ASCII characters; two on 4 under every "
     "option; one character up to 10; mixed-width layouts up to 4; runs of 300 matches;"
     " candidates of 127..140 characters, 3..5 of them arbitrary, after earlier calls on others; 40..60 occurrences of the query with arbitrary tails.",
     [r("fz:2999,2,4,1,258", 1), r("fz:2200,3,5,1,258", 1), r("fz:2201,3,4,1,258", 1), r("fz:2200,2,6,1,258", 1),
      r("hl:2200,2,11,10140,11,2", *F), r("hl:2209,2,1221,20140,1,2", *F), r("hl:2200,2,1,20127,1,2", *F), r("hl:2200,2,1,20128,1,2", *F), r("hl:2200,3,11,70,11,2", *F), r("hl:2209,3,12,1070,11,2", *F), r("oc:2200,0,0,40,11,2", 1), r("oc:2209,5,1,60,2,2", 1), r("fz:2200,1,8,1,2", 1), r("lr:2200,300,1,2,2", *F), r("fz:2999,1,5,1,2", 1), r("fzu:2919,12,1213,258", 1), r("fzu:2919,11,123,258", 1),
      r("fzu:2919,4,144,2", 1)],
     [r("fz:2200,4,5,1,258"), r("fz:2200,3,6,1,258"), r("hl:2200,2,11,500000,11,2")],
     [r("fz:2200,4,6,1,258"), r("fz:2999,3,4,1,258"), r("fz:2200,2,8,1,258"), r("fz:2201,3,6,1,258"),
      r("fz:2202,3,6,1,258"), r("fz:2200,3,7,1,258")])

prop("C16",
     "Terms of every kind of 2 arbitrary characters on candidates of 3, both metrics, all three sensitivities; "
     "mixed-width layouts; every 2- and 3-byte code point; two and three terms together, joined by bars and spaces.",
     [r("cs:9919,0,2,3", 1, 2, 3), r("cs:9909,1,2,3", 1, 2, 3), r("cs:9909,2,2,3", 1, 2, 3), r("cs:9909,3,2,3", 1, 2, 3),
      r("cs:9909,4,2,3", 1, 2, 3), r("cs:9909,10,2,3", 1, 2, 3), r("cs:9909,11,2,3", 1, 2, 3),
      r("fzu:9919,12,1213,1", *F), r("fzu:1110,1,5,1", *F), r("fzu:1010,5,5,1", *F), r("fz:1999,2,4,1,1", *F),
      r("fz:2999,2,4,1,257", *F), r("mt:9999,12,11,1,3,1", *F), r("mt:9909,11,11,1,3,1", *F), r("mt:9909,26,11,0,3,1", *F),
      r("mt:9909,13,12,1,3,1", *F), r("mt:9909,111,111,2,3,1", *F)],
     [r("tmu:9919,1,12,1213,1"), r("fzu:1110,5,5,1"), r("fzu:1210,5,5,1")],
     [r("cs:1900,0,3,5"), r("cs:1919,0,3,4"), r("cs:9909,1,2,4"), r("fzu:1110,6,6,1"), r("fzu:1210,6,6,1"),
      r("cs:9909,2,3,4"), r("cs:9909,3,3,4"), r("cs:9909,4,3,4")])

prop("C17",
     "Every 2- and every 3-byte code point of the candidate against every ASCII, 2- and 3-byte query character; "
     "mixed-width layouts up to 4 with representatives; terms of every kind on 4 ASCII characters with and without "
     "normalization; terms of every kind on layouts with wide characters; candidates of 140..1140 characters.",
     [r("fzu:1010,1,5,1", *F), r("fzu:1110,1,5,1", *F), r("fzu:1010,5,5,1", *F), r("fzu:1010,1,6,1", *F),
      r("fzu:2010,1,5,1", *F), r("fzu:9919,12,1213,1", *F), r("fzu:9919,11,123,1", *F),
      r("na:9909,0,2,4", *F), r("na:9909,1,2,4", *F), r("na:9909,2,2,4", *F), r("na:9909,3,2,4", *F),
      r("na:9909,4,2,4", *F), r("na:9909,10,2,4", *F), r("na:9909,11,2,4", *F),
      r("tmu:9919,1,12,1213,1", *F), r("tmu:9919,2,12,112,1", *F), r("tmu:9919,3,21,121,1", *F),
      r("tmu:9919,4,121,121,1", *F), r("tmu:9919,1,11,1213,1", *F), r("tmu:9919,2,11,213,1", *F), r("tmu:9919,3,11,132,1", *F), r("tmu:9919,4,111,213,1", *F),
      r("tmu:9919,11,11,121,1", *F), r("tmu:9919,12,11,213,1", *F), r("tmu:9919,13,11,132,1", *F),
      r("tmu:9919,14,111,213,1", *F), r("tmu:9919,10,1,121,1", *F), r("hl:1210,2,11,140,12,1", *F), r("hl:2210,2,2,1140,21,1", *F), r("hl:1200,2,11,140,12,1", *F)],
     [r("fzu:1010,5,115,1"), r("fzu:2110,5,115,1"), r("tmu:1010,1,1,15,1"), r("tmu:2010,1,1,15,1")],
     [r("fzu:1010,6,6,1"), r("fzu:2010,6,6,1"), r("fzu:1010,1,7,1"), r("fzu:1010,7,7,1"), r("fzu:1110,1,6,1"),
      r("na:1909,0,3,5"), r("fzu:1110,6,6,1")])

prop("C18",
     "Terms of every kind of 2 arbitrary characters on candidates of 3..4: one candidate character that the query does "
     "not match replaced by a wider one of the same class (lower, upper, number, other), or a wide character appended; "
     "long candidates (140 characters) in either representation.",
     [r("rp:9919,0,2,4,0", *F), r("rp:9919,1,2,4,1", *F), r("rp:9919,2,2,4,2", *F), r("rp:9919,11,2,3,0", *F),
      r("rp:9919,12,2,3,1", *F), r("rp:9919,10,2,3,1", *F), r("rq:9919,0,2,4,2", *F), r("rq:9919,0,2,4,11", *F),
      r("rq:9919,0,2,4,22", *F), r("rq:9919,0,2,4,31", *F), r("rq:9919,1,2,4,2", *F), r("rq:9919,1,2,4,11", *F),
      r("rq:9919,2,2,4,32", *F), r("rq:9919,3,2,4,1", *F), r("rq:9919,4,2,4,20", 2), r("rq:9919,10,2,3,1", *F),
      r("rq:9919,11,2,4,20", *F), r("rq:9919,12,2,3,2", *F), r("rq:9919,13,2,3,0", *F), r("rq:9919,14,2,3,1", 1),
      r("rq:9919,0,2,4,0", *F), r("rq:9919,1,2,4,0", *F), r("rq:9919,1,2,4,33", *F), r("rq:9919,0,2,4,13", *F),
      r("hl:1200,2,11,1140,11,10", *F), r("hl:1200,2,11,140,11,10", *F), r("hl:2200,2,1,1140,11,10", *F), r("hl:2200,2,1,140,11,10", *F),
      r("le:9200,1,11,140,11,7", *F), r("le:9200,1,11,1140,11,7", *F)],
     [r("rq:1200,0,3,6,2"), r("rq:1200,1,2,6,3"), r("rq:2200,0,2,6,2"), r("rp:1200,0,3,5,2")],
     [r("rp:9919,0,2,4,3"), r("rp:9919,1,2,4,3"), r("rp:1919,0,2,5,2"), r("rp:9919,0,3,4,1"), r("rp:1200,1,2,6,3"),
      r("rq:9919,0,3,5,2"), r("rq:9919,0,3,5,13"), r("rq:9919,1,3,5,1"), r("rq:9919,2,3,5,3"), r("rq:9919,3,3,5,0")])

prop("C19",
     "Bonus of a match after any two ASCII characters, any two 2-byte characters, and any 3-byte ones, under the three "
     "schemes; one-character queries on up to 10 and two-character ones on 4 arbitrary characters, both metrics.",
     [r("fz:1999,1,5,1,2", 1), r("fz:2999,1,5,1,2", 1), r("fz:1999,2,4,1,2", 1), r("fz:2999,2,4,1,258", 1),
      r("fz:2200,1,8,1,2", 1), r("tmu:1000,3,5,55,2", *F), r("tmu:1001,3,5,55,2", *F), r("tmu:1002,3,5,55,2", *F),
      r("tmu:9909,3,1,31,2", *F), r("tmu:9909,3,3,33,2", *F), r("tmu:9909,3,4,44,2", *F), r("tmu:9909,3,1,41,2", *F),
      r("tmu:9909,3,3,23,2", *F), r("tmu:9909,3,3,13,2", *F), r("tmu:9909,3,2,32,2", *F),
      r("tm:9999,3,2,4,0,2", *F), r("tm:9999,2,2,4,0,2", *F)],
     [r("tmu:2000,3,5,75,2"), r("tmu:1000,3,6,56,2")],
     [r("tmu:2000,3,6,66,2"), r("tmu:9919,3,5,55,2"), r("tmu:1001,3,6,66,2")])

prop("C20",
     "Two to four terms of every kind with 1..2 arbitrary characters joined by spaces and bars, on candidates of 3..4 "
     "arbitrary characters; alternatives and words of 40..260 characters in all.",
     [r("mt:9999,12,11,0,3,1", *F), r("mt:9200,12,22,0,4,1", *F), r("mt:9200,134,111,1,4,1", *F),
      r("mt:9200,1267,1111,5,3,1", *F), r("mt:9200,222,111,2,4,1", *F), r("mt:9200,222,111,3,4,1", *F),
      r("mt:9200,111,111,1,3,1", *F), r("mt:9200,111,111,2,3,1", *F), r("mt:9200,1234,1111,2,3,1", *F), r("lq:1200,4,80,1,3,3", *F), r("lq:1200,3,40,1,2,3", *F), r("lq:1200,4,260,2,3,1", *F)],
     [r("mt:9999,22,11,1,3,1"), r("mt:9200,26,22,0,4,1"), r("mt:9200,67,22,1,4,1"), r("mt:1200,22222,11111,10,3,1"),
      r("mt:1200,22222,11111,5,3,1")],
     [r("mt:9999,134,111,1,4,1"), r("mt:9999,222,111,2,4,1"), r("mt:1200,222222,111111,21,3,1"),
      r("mt:1200,122,222,1,4,1"), r("mt:9999,1267,1111,5,3,1"), r("mt:1200,2222222,1111111,42,2,1")])

prop("C21",
     "Queries of 0..3 characters that hold no term (spaces, and a literal empty query) on candidates of every layout up "
     "to 3 characters (none included) or of 200..600, every 2-byte code point.",
     [r("em:9999,3,121", 1, 3), r("em:9999,2,5", 1, 3), r("em:9999,0,12", 3), r("em:9999,1,0", 1, 3), r("em:9999,0,0", 3), r("em:9999,1,12,200", 1, 3), r("em:9999,1,1,600", 1, 3)],
     [r("em:9999,4,12")], [r("em:9999,3,6"), r("em:9999,4,121"), r("em:9999,5,1")])

prop("C22",
     "Literal queries up to 3 and candidates up to 5 arbitrary ASCII characters (6 extended), mixed-width layouts up to "
     "4, candidates of 80..1300 characters with up to 5 arbitrary ones at the ends, 40..60 occurrences of the query; 66 000 "
     "characters before the query's occurrence (extended).",
     [r("fz:2999,2,4,1,288", 1), r("fz:1999,2,4,1,32", 1), r("fz:2200,3,5,1,288", 1), r("fz:2201,3,4,1,288", 1),
      r("fz:2999,1,5,1,32", 1), r("fz:1200,3,6,1,32", 1), r("fzu:9919,12,1213,288", 1), r("fzu:9919,11,123,288", 1),
      r("fzu:2919,4,144,32", 1), r("hl:2209,2,1221,20140,1,32", *F), r("hl:1209,2,1221,20130,1,32", *F),
      r("hl:2200,2,11,140,11,32", *F), r("hl:2200,3,11,70,11,32", *F), r("hl:1200,3,11,70,11,32", *F), r("lr:2200,280,1,1,32", *F), r("lr:1200,300,1,2,32", *F), r("lr:2200,30080,1,1,32", *F), r("lr:1200,40080,1,2,32", *F),
      r("hl:1200,2,11,1300,11,32", *F), r("oc:9200,0,0,40,11,7", 1), r("oc:2209,5,1,60,2,7", 1), r("oc:9200,0,2,1040,1,7", 1), r("hl:2200,2,11,1140,11,32", *F)],
     [r("fz:2200,3,6,1,288"), r("hl:2200,2,1111,140,1,32"), r("oc:2200,5,0,660001,1,4"), r("oc:1200,0,0,660001,2,4"), r("oc:2200,0,0,660001,1,4")],
     [r("fz:2200,2,8,1,288"), r("fz:2200,4,6,1,288"), r("fz:2201,3,6,1,288"), r("fz:2202,3,6,1,288"),
      r("fz:1200,4,8,1,32"), r("fz:2200,3,7,1,288")])

prop("C23",
     "Metrics made by `new` and `default`, with every subset of the options set once or twice in either order, queries "
     "of up to 2 arbitrary characters on up to 4.",
     [r("df:9999,1,3,0,0", *F), r("df:9999,1,3,0,1", *F), r("df:9999,1,0,121,0", *F), r("df:9999,2,3,0,0", *F),
      r("df:9999,1,0,12,71", *F), r("df:9999,1,0,12,1070", *F), r("df:9999,1,0,12,1171", *F),
      r("df:9999,1,0,12,10", *F), r("df:9999,1,0,12,1120", *F), r("df:9999,1,0,12,40", *F),
      r("df:9999,1,0,12,1030", *F), r("df:9999,1,0,12,1150", *F), r("df:9999,1,0,12,1060", *F)],
     [r("df:9999,2,3,0,1070"), r("df:9999,1,5,0,0")],
     [r("df:9999,2,4,0,0"), r("df:9999,2,4,0,1171")])

for _l in open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl")):
    _p = json.loads(_l)
    if _p["id"] in PROPS:
        PROPS[_p["id"]]["title"] = _p["title"]
