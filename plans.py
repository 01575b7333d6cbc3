"""What each property's check runs (see DESIGN.md)."""
FRAG_CFG = """SPECIFICATION Spec
INVARIANTS ReportedIsFraming NothingWithheld BoundaryExact BufferExact NoLoss PoisonExact
CHECK_DEADLOCK FALSE
"""

PLANS = {}


def plan(pid, **kw):
    kw.setdefault("level", "model_checking")
    PLANS[pid] = kw


def fragmc(limits, ops):
    return [{"module": "FragMC", "cfg": FRAG_CFG,
             "quick": {"consts": {"MaxFree": 2, "Limits": limits, "WithOps": ops}},
             "thorough": {"consts": {"MaxFree": 4, "Limits": limits, "WithOps": ops}}}]


for pid, limits, ops in (("C01", "{999999999}", "FALSE"), ("C02", "{999999999}", "FALSE"),
                         ("C03", "{999999999, 0, 3, 6}", "FALSE"), ("C04", "{999999999, 4}", "TRUE")):
    plan(pid, mc=fragmc(limits, ops),
         steps=[{"name": "frag", "cmd": "frag", "module": "FragTrace", "scale": {"quick": 4, "thorough": 60}}],
         rule="streams: exhaustive over the structural bytes up to a length, every announcement spelling, all bytes in the "
              "sensitive places, random pipelined messages with literals; schedules: all cuts (short) or every single cut, "
              "byte-wise and random cuts; histories: random interleavings of enqueue/progress/poison/skip. Every record is distinct "
              "input; TLC judges each against Fragmentizer.tla")


def gram(mode, quick, thorough, kinds="cmd,auth,idle,gre,resp", name=None, **kw):
    return dict({"name": name or mode, "cmd": "gram", "args": ["--mode", mode, "--kinds", kinds], "module": "GrammarTrace", "grammar": True,
                 "scale": {"quick": quick, "thorough": thorough}}, **kw)


def ctor(quick=1, thorough=12, **kw):
    return dict({"name": "ctor", "cmd": "ctor", "module": "ValuesTrace", "scale": {"quick": quick, "thorough": thorough}}, **kw)


SENT = ("sentences of the exported grammar of spec/ImapGrammar.tla: for every place of the grammar and every spelling variant of that place (each "
        "alternative, presence, count, keyword case, boundary number, name and near-miss, literal and quoted form) one sentence built to take it, "
        "then random sentences with nesting up to and over the limits")
plan("C05", steps=[gram("pre", 25, 400)], rule=SENT + "; all strict prefixes of each are decoded; TLC derives the expected verdict of every prefix")
plan("C06", steps=[gram("ext", 12, 200)], rule=SENT + "; each decoded alone, with seven different continuations, and in pipelines of several messages")
plan("C07", steps=[gram("enc", 120, 1500)],
     rule="values: decoded sentences, Arbitrary values, values obtained by changing one or two leaves of a value's serde form; TLC parses the "
          "encoded bytes with the grammar and compares value, spelling and the code's own decoding")
plan("C08", steps=[gram("canon", 40, 600)], rule=SENT + "; TLC computes the canonical spelling with its fragment marks and compares it with the encoder's")
plan("C09", steps=[gram("enc", 120, 1500)], rule="as C07; TLC checks every fragment boundary and runs the specified splitter over the dump")
plan("C10", steps=[gram("dec", 25, 400, "cmd,auth,idle")], rule=SENT + " and damaged variants (1-2 byte edits, slices, truncations, continuations); TLC decides acceptance, value and consumption")
plan("C11", steps=[gram("dec", 50, 600, "gre,resp")], rule=SENT + " and damaged variants (1-2 byte edits, slices, truncations, continuations); TLC decides acceptance, value and consumption")
plan("C16", steps=[gram("case", 15, 200), ctor()], rule=SENT + ", each in further letter cases; every name constructor on every spelling and near-misses")
plan("C18", steps=[gram("crash", 40, 1500)], rule="all strings up to two bytes for each decoder, twelve nesting forms up to depth 120000, heavily damaged sentences, random bytes; accepted values are printed, encoded and compared")
CTOR = ("byte strings: all of one byte, all pairs over the sensitive bytes, every byte in begin/middle/end position, every known name in several "
        "letter cases and near-misses of each, random and non-ASCII strings; each offered to every constructor (bytes, Vec, str, String, Cow, Atom, serde, validate)")
plan("C12", steps=[ctor()], rule=CTOR + "; characters, list lengths, dates and date-times, non-zero numbers, continuation texts")
plan("C14", steps=[ctor()], rule=CTOR + " of the string and mailbox types; mailboxes from every representation of the string")
plan("C13", steps=[gram("serde", 30, 400), ctor()],
     rule="documents: serialised decoded sentences and Arbitrary values, each also with one leaf changed or one suspicious character, number, "
          "list length or date put into it; accepted documents are re-serialised and encoded, and TLC decides whether the result is that value of the grammar; "
          "leaf types: every string offered through serde to each basic type")
SEQ_CFG = """SPECIFICATION Spec
INVARIANTS SameExisting SameWhenAllExist Ordered Minimal Directed Stable Readable WalkIsDenotation NaiveIsDenotation
CHECK_DEADLOCK FALSE
"""
plan("C15", mc=[{"module": "SeqMC", "cfg": SEQ_CFG, "quick": {"consts": {"MaxLen": 2, "Edge": e}}, "thorough": {"consts": {"MaxLen": 3, "Edge": e}}} for e in ("FALSE", "TRUE")],
     steps=[{"name": "seq", "cmd": "seq", "module": "SeqTrace", "scale": {"quick": 1, "thorough": 12}}],
     rule="sets: all of one or two elements over small and over extreme numbers and *, random sets of up to seven elements; each iterated both ways for "
          "several largest numbers, normalised and encoded; texts; every integer type with every range form at all boundaries")
plan("C17", steps=[{"name": "secret", "cmd": "secret", "module": "SecretTrace", "scale": {"quick": 1, "thorough": 12}}],
     rule="secrets: empty, short, long, with every special character, words of the output itself, random; each as password (atom, quoted, UTF-8, both literal "
          "modes), initial response, data line, wrapped value of several types, bytes left in each decoding error; built, decoded, owned and inside containers; "
          "TLC computes the public part and compares the renderings of all values that agree in it")
TAG_CFG = """SPECIFICATION Spec
INVARIANTS Distinct AllLegal
CHECK_DEADLOCK FALSE
"""
plan("C19", mc=[{"module": "TagGen", "cfg": TAG_CFG, "quick": {"consts": {"Threads": "{1, 2}", "MaxGens": 3, "MaxDraws": 4, "Atomic": "TRUE"}},
                 "thorough": {"consts": {"Threads": "{1, 2, 3}", "MaxGens": 4, "MaxDraws": 6, "Atomic": "TRUE"}}},
                {"module": "TagGen", "cfg": TAG_CFG, "expect": "Distinct", "quick": {"consts": {"Threads": "{1, 2}", "MaxGens": 3, "MaxDraws": 4, "Atomic": "FALSE"}},
                 "thorough": {"consts": {"Threads": "{1, 2}", "MaxGens": 3, "MaxDraws": 4, "Atomic": "FALSE"}}}],
     steps=[{"name": "taggen", "cmd": "taggen", "module": "TagTrace", "scale": {"quick": 1, "thorough": 8}},
            {"name": "taggen-dbg", "cmd": "taggen", "module": "TagTrace", "features": "dbg", "scale": {"quick": 1, "thorough": 8}}],
     rule="tags of one generator drawn at length, of 130 generators drawn in turn, of generators created at the same moment on all cores (thousands of "
          "rendezvous) and handed between threads; in builds with and without the random part. All tags of a process are compared with each other")
plan("C20", steps=[gram("own", 30, 400)],
     rule=SENT + ", damaged and truncated sentences and encoded Arbitrary values; each decoded borrowed and owned, converted by to_static/into_static "
          "(also twice) with the input buffer overwritten before comparing")
SES_CFG = """SPECIFICATION Spec
INVARIANTS InSync Ann Heard NoDeadlock
CHECK_DEADLOCK FALSE
"""


def sesmc(fault="none", limit=999999999, expect=None):
    c = {"Fault": f'"{fault}"', "Limit": limit}
    m = {"module": "SessionMC", "cfg": SES_CFG + ("" if expect else "PROPERTY Terminates\n"), "quick": {"consts": dict(c, MaxMsgs=2)},
         "thorough": {"consts": dict(c, MaxMsgs=2 if expect else 3)}}
    if expect:
        m["expect"] = expect
    return m


plan("C21", mc=[sesmc(), sesmc(limit=4)] + [sesmc(f, expect=x) for f, x in (("skip_nonsync", "InSync"), ("poison_sync", "NoDeadlock"), ("go_nonsync", "InSync"), ("eager", "InSync"))],
     steps=[{"name": "session", "cmd": "session", "module": "SessionTrace", "grammar": True, "scale": {"quick": 24, "thorough": 400}}],
     rule="sessions of a client and a server made of the real encoders, splitters and decoders: scripts of up to four commands (sentences of the grammar, "
          "preferably with literals, IDLE and AUTHENTICATE with their continuations), pipelined as far as allowed, random go-ahead/refuse/poison decisions, "
          "size limits, greetings and unsolicited data, random interleavings and cuts of both streams; TLC replays every step in Session.tla")
plan("C22", steps=[{"name": "build", "cmd": "build", "module": "BuildTrace", "scale": {"quick": 2, "thorough": 40}}, gram("name", 2, 60, "cmd")],
     rule="every builder of commands, responses, codes, greetings and their parts with random legal and illegal arguments; all three macros; every character "
          "class on all 256 bytes; escaping of all strings over quote, backslash and a letter up to length 7, of all ASCII characters between specials and random "
          "strings; rendering of all bytes; the name of the command of " + SENT)
plan("C23", steps=[gram("wait", 30, 500)],
     rule=SENT + " and damaged variants (1-2 byte edits, slices, truncations, parts of the grammar left out, repeated or exchanged, lines ended early and "
          "followed by more); wherever the code asks for more bytes TLC decides whether the input can still be read on")


def conf(c, sample, quick=1, thorough=60):
    return gram("conf", quick, thorough, name="conf-" + c, features=c, sample=sample)


QUIRKS = ("missing_text", "rectify_numbers", "excessive_space_quota_resource", "spaces_between_addresses", "trailing_space_status",
          "trailing_space_capability", "trailing_space_id", "trailing_space_search", "empty_continue_req", "body_fld_enc_nil_to_empty",
          "always_normalize_sequence_sets", "crlf_relaxed", "id_empty_to_nil")
EXTS = ("starttls", "condstore", "id", "login_referrals", "mailbox_referrals", "metadata", "namespace", "utf8")
plan("C24", steps=[conf("strict", "relaxed"), conf("relaxed", "relaxed"), conf("plain", "full"), conf("bare", "relaxed"),
                   gram("enc", 8, 300, name="enc-strict", features="strict"), gram("enc", 8, 300, name="enc-plain", features="plain")]
     + [dict(conf("only-" + q, "relaxed", thorough=3), tiers=["thorough"]) for q in QUIRKS]
     + [dict(conf("lone-" + x, "full", thorough=3), tiers=["thorough"]) for x in EXTS],
     rule=SENT + " and damaged variants, sampled from the grammar with all quirks (builds without and with all quirks) and from the grammar with all extensions "
          "(build without any); each build is judged by its own grammar: acceptance, value, consumption and canonical spelling; values as for C07 in the builds "
          "without quirks and without extensions")
