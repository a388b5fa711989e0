"""What each check runs: TLC model checking (mc), printing of tables and vectors (emit), harness runs."""
import os

TABLE = ("table", "JsonTable.tla", "JsonTable.cfg")
RULE_TEXT = (
    "every reachable configuration of the transducer times every character class sequence of the bound, "
    "completed to a text, plus grammar-random texts, mutations and large texts, each in several visiting "
    "modes; non-trivial: distinct texts that reach the reader"
)


def mc(name, *cfgs):
    return [(name + ".tla", "%s_%s.cfg" % (name, c)) for c in cfgs]


NOTE_TEXT = (
    "TLC compares the character transducer with a declarative grammar on every class sequence of the bound; the "
    "printed transducer is then the oracle for the real reader on every short class sequence from every reachable "
    "configuration (W-method style) and on random, mutated and large texts in all visiting modes. Finite "
    "exploration of the code; trusts the harness that interprets the table"
)
TECH_TEXT = "TLA+ pushdown transducer (TLC-checked against the grammar), conformance-tested against the real reader"

NOT_APPLICABLE = {}


def text(mcs):
    return {
        "technique": TECH_TEXT,
        "note": NOTE_TEXT,
        "emit": [TABLE],
        "mc": mc("JsonTextMC", *mcs),
        "runs": [{"bin": "text", "files": ["table"]}],
        "rule": RULE_TEXT,
        "assumptions": [
            "exponents of magnitude beyond 2e9 are out of scope",
            "characters of one class of the specification are treated alike by the reader",
        ],
    }


def validate(module, name):
    """A hook that lets TLC validate what a harness recorded in name.ndjson against a trace module."""
    def post(prop, work, tlc, run_harness, files, thorough, seed):
        path = os.path.join(work, name + ".ndjson")
        if not os.path.exists(path):
            # the harness died or gave up, and has said so
            return None, []
        with open(path) as f:
            n = sum(1 for _ in f)
        if n == 0:
            # the harness stopped at its first violations
            return {}, []
        lines, distinct, _ = tlc(module + ".tla", module + ".cfg", work, 5 * 3600 if thorough else 700,
                                 ["-workers", "8"])
        out = []
        show = None
        for l in lines:
            if not l.startswith("REJECT|"):
                continue
            if show is None:
                with open(os.path.join(work, name + ".show")) as f:
                    show = f.read().split("\n")
            w = l.split("|", 3)
            out.append({"property": prop, "what": "step %s of what was recorded is not allowed: %s" % (w[2], w[3]),
                        "case": show[int(w[1]) - 1]})
            if len(out) >= 5:
                break
        return {name + "_validated_by_tlc": n, "trace_states": distinct}, out
    return post


sessions = validate("CursorTrace", "sessions")


NOTE_CURSOR = (
    "TLC checks the call-level session specification; the real reader is driven along every path of its graphs over "
    "all small documents, and random sessions of the real reader (raw calls and wrappers, str and chunked byte "
    "input) are recorded and validated by TLC. Finite exploration of the code; trusts the harness that makes calls"
)
TECH_CURSOR = "TLA+ call-level session spec (TLC); graph replay into the code and TLC validation of recorded traces"
RULE_CURSOR = (
    "every path (loops bounded, sampled beyond a cap) of the session graphs TLC printed for every document shape of "
    "the bound, and random recorded sessions over larger documents; non-trivial: distinct documents and sessions"
)


def cursor(graph, deep, n):
    return {
        "technique": TECH_CURSOR,
        "note": NOTE_CURSOR,
        "emit": [("graph", "CursorMC.tla", "CursorMC_%s.cfg" % graph)],
        "emit_thorough": [("graph", "CursorMC.tla", "CursorMC_%s.cfg" % deep)],
        "mc": mc("CursorMC", "mc"),
        "runs": [{"bin": "cursor", "files": ["graph"], "args": {"sessions": n}}],
        "post": [sessions],
        "rule": RULE_CURSOR,
        "assumptions": ["calls are made in the order the interface permits"],
    }


def with_cursor(base, graph, deep, n):
    c = cursor(graph, deep, n)
    return dict(
        base,
        technique=base["technique"] + "; " + c["technique"],
        note=base["note"] + ". " + c["note"],
        rule=base["rule"] + "; " + c["rule"],
        emit=base["emit"] + c["emit"],
        emit_thorough=c["emit_thorough"],
        mc=base["mc"] + c["mc"],
        runs=base["runs"] + c["runs"],
        post=c["post"],
        assumptions=base["assumptions"] + c["assumptions"],
    )


def both(a, b):
    """Two checks for one property."""
    return {
        k: a.get(k, "") + ("; " if k in ("technique", "rule") else ". " if k == "note" else type(a[k] if k in a else b[k])()) + b[k]
        if k in a and k in b else a.get(k, b.get(k))
        for k in list(a) + [k for k in b if k not in a]
    }


def told():
    base = text(["num", "sur", "key"])
    return dict(
        base,
        technique=base["technique"] + "; TLC validation of the messages of recorded sessions (Diag)",
        note=base["note"] + ". What the errors of random sessions of the real reader say is recorded and judged by TLC",
        rule=base["rule"] + "; random recorded sessions that end in an error; "
        "integer literals at the borders of all types",
        mc=base["mc"] + mc("DiagMC", "mc"),
        emit=base["emit"] + [("vectors", "NumbersVec.tla", "NumbersVec_int.cfg")],
        runs=base["runs"] + [
            {"bin": "cursor", "args": {"sessions": 30000}},
            {"bin": "numbers", "files": ["vectors"], "args": {"reads": 10000}},
        ],
        post=[validate("DiagTrace", "sessions")],
    )


def with_types(base):
    return dict(
        base,
        note=base["note"] + ". Texts, well-formed or not, are also read as every type of the codec specification",
        rule=base["rule"] + "; random and damaged documents of and as every type of CodecTypes",
        emit=base["emit"] + [("types", "CodecVec.tla", "CodecVec_types.cfg")],
        runs=base["runs"] + [{"bin": "codec", "files": ["types"]}],
    )


def numbers(which, n):
    return {
        "technique": "TLA+ spec of literal values by digit-sequence arithmetic (TLC-checked against an accumulator "
                     "machine); vectors printed by TLC and TLC validation of recorded reads",
        "note": "TLC compares the declarative verdicts with a digit accumulator on all short literals; the real reader "
                "then reads every literal of the border and layout families in several places (alone, set aside, "
                "nested, byte stream), and random reads are recorded and validated by TLC. Finite exploration of the "
                "code; trusts the harness that reads and records",
        "emit": [("vectors", "NumbersVec.tla", "NumbersVec_%s.cfg" % which)],
        "mc": mc("NumbersMC", "small"),
        "mc_thorough": mc("NumbersMC", "big"),
        "runs": [{"bin": "numbers", "files": ["vectors"], "args": {"reads": n}}],
        "post": [validate("NumbersTrace", "reads")],
        "rule": "every literal of the families TLC printed (borders of all integer types, prefixes of them with "
                "exponents, zeros; sums of powers of two over the whole float ranges in many layouts) and random "
                "literals; non-trivial: distinct literals",
        "assumptions": [
            "exponents of more than nine significant digits are out of scope",
            "integer literals with a fraction or negative exponent may be refused even when their value is in range",
        ],
    }


def floats():
    return {
        "technique": "TLA+ spec of rounding to the nearest float by exact digit-sequence arithmetic (TLC-checked against "
                     "distances in small formats); vectors printed by TLC, TLC validation of recorded reads and writes",
        "note": "TLC checks the declarative rounding rule against computed distances on all short literals in small "
                "formats; the real reader then reads every printed literal at and near the midpoints of f32 and f64, "
                "random reads and writes are recorded and validated by TLC, and many more floats are written and read "
                "back. Finite exploration of the code, not all bit patterns; trusts the harness that records",
        "emit": [("vectors", "FloatsVec.tla", "FloatsVec_vec.cfg")],
        "mc": mc("FloatsMC", "mc"),
        "mc_thorough": mc("FloatsMC", "big"),
        "runs": [{"bin": "floats", "files": ["vectors"], "args": {"reads": 2500, "writes": 2500, "back": 400000}}],
        "post": [validate("FloatsTrace", "floats")],
        "rule": "every printed literal (midpoints between neighbouring floats over the whole range, slightly more and "
                "less, cut off), random literals and random floats; non-trivial: distinct literals and floats",
        "assumptions": [
            "exponents of more than nine significant digits are out of scope",
            "a literal beyond the largest finite float may be refused or give infinity",
        ],
    }


NOTE_SER = (
    "TLC checks the writer specification (stack machine from interface calls to laid-out lines) on every session of "
    "the bound: its output conforms to the grammar of JSON and denotes the session; the real writer then makes every printed "
    "session with concrete values, indents and call flavours, its text is split into lines of tokens by the transducer "
    "of the reader specification and compared, and random sessions are validated by TLC. Finite exploration of the "
    "code; trusts the harness that tokenizes"
)


def ser():
    return {
        "technique": "TLA+ writer specification (TLC-checked against grammar and denotation); replay of its sessions "
                     "into the real writer and TLC validation of recorded ones",
        "note": NOTE_SER,
        "emit": [TABLE, ("full", "SerMC.tla", "SerMC_full.cfg"), ("slim", "SerMC.tla", "SerMC_slim.cfg")],
        "emit_thorough": [("slim", "SerMC.tla", "SerMC_slim6.cfg")],
        "mc": mc("SerMC", "mc"),
        "mc_thorough": mc("SerMC", "mc7"),
        "runs": [{"bin": "ser", "files": ["table", "full", "slim"], "args": {"random": 9000}}],
        "post": [validate("SerTrace", "writes")],
        "rule": "every session of calls of the bound TLC printed, each with random values, indents and ways of calling "
                "(raw, wrapped, byte sink, character sink), every character, random sessions; non-trivial: distinct "
                "sessions",
        "assumptions": ["NaN and infinities are not written", "indents consist of spaces and tabs"],
    }


def sink():
    return {
        "technique": "TLA+ specification of writes to a sink with short writes, interruptions and failures (TLC); "
                     "fault scripts printed by it played against the real writer, recorded runs validated by TLC",
        "note": "TLC checks on the sink machine that what is delivered is always a prefix, a failure is reported and "
                "success means complete; the real writer runs on sinks that fail at every byte offset, follow the "
                "printed fault scripts or behave randomly, and recorded event sequences are validated by TLC. Finite "
                "exploration of the code; trusts the faulty sink of the harness",
        "emit": [("full", "SerMC.tla", "SerMC_full.cfg"), ("slim", "SerMC.tla", "SerMC_slim.cfg"),
                 ("scripts", "SinkVec.tla", "SinkVec_4.cfg")],
        "emit_thorough": [("slim", "SerMC.tla", "SerMC_slim6.cfg"), ("scripts", "SinkVec.tla", "SinkVec_6.cfg")],
        "mc": mc("SinkMC", "mc"),
        "runs": [{"bin": "ser", "files": ["full", "slim", "scripts"], "args": {"random": 300}}],
        "post": [validate("SinkTrace", "faults")],
        "rule": "sessions of the writer specification times every failing byte offset, every fault script and random "
                "faults; non-trivial: distinct sessions",
        "assumptions": ["a sink keeps the contract of io::Write"],
    }


def names():
    return {
        "technique": "TLA+ specification of incremental lookup (TLC-checked narrowing range against exact lookup); its "
                     "maps replayed on the real name map, TLC validation of recorded lookups in large maps",
        "note": "TLC checks the narrowing search on every small map in every order and every cutting of every input; the "
                "real name map is built for every such map and asked every input in every cutting down to bytes, and "
                "random maps of up to 600 names are asked and validated by TLC. Finite exploration of the code",
        "emit": [("maps", "NameMapMC.tla", "NameMapMC_vec7.cfg")],
        "mc": mc("NameMapMC", "mc"),
        "mc_thorough": mc("NameMapMC", "mc5"),
        "runs": [{"bin": "names", "files": ["maps"], "args": {"random": 4000}}],
        "post": [validate("NameMapTrace", "lookups")],
        "rule": "every ordered selection of the 7 names of at most two letters, spelled with letters of one to four bytes, "
                "every input of at most three letters, every cutting; random large maps; non-trivial: distinct maps",
        "assumptions": ["names are distinct", "what is fed is UTF-8 as a whole"],
    }


def utf8():
    return {
        "technique": "TLA+ byte automaton of UTF-8 with a faulty source (TLC-checked against the declarative encoding); "
                     "the printed automaton replayed over byte sequences, TLC validation of recorded reads",
        "note": "TLC checks the automaton against the encoding of scalar values on all border byte sequences with "
                "interruptions, failures and ends; the real reader is compared with the printed automaton on all sequences of "
                "up to three bytes and most of four, and on random texts and JSON documents with ill-formed sequences and "
                "failing sources, recorded reads being validated by TLC. Finite exploration of the code",
        "emit": [("table", "Utf8MC.tla", "Utf8MC_table.cfg")],
        "mc": mc("Utf8MC", "mc"),
        "runs": [{"bin": "bytes", "files": ["table"], "args": {"random": 15000}}],
        "post": [validate("Utf8Trace", "decodes")],
        "rule": "all byte sequences of the bound; random texts with an ill-formed sequence or a failing source at every kind "
                "of place; non-trivial: distinct texts and first bytes",
        "assumptions": ["a source keeps the contract of io::Read"],
    }


def reader():
    return {
        "technique": "TLA+ specification of a source of characters (TLC); its transitions replayed on the real readers, "
                     "TLC validation of recorded sessions",
        "note": "TLC checks on all short texts that what is delivered is the text; str, byte and minimal readers are then "
                "driven along every path of three calls, and random sessions are recorded and validated by TLC. Finite "
                "exploration of the code; trusts the harness that makes calls",
        "emit": [("calls", "TextReaderMC.tla", "TextReaderMC_vec.cfg")],
        "mc": mc("TextReaderMC", "mc"),
        "runs": [{"bin": "reader", "files": ["calls"], "args": {"sessions": 6000}}],
        "post": [validate("TextReaderTrace", "reads")],
        "rule": "every path of the printed transitions over every text of at most three characters of one to four bytes, "
                "on each kind of reader, and random sessions over longer texts; non-trivial: distinct texts and sessions",
        "assumptions": ["the bytes are UTF-8 and the source does not fail"],
    }


def wrap():
    return {
        "technique": "TLA+ specification of programs over the wrappers (TLC: the flag design permits exactly what the stack "
                     "protocol does); its programs run on the real wrappers, TLC validation of recorded programs",
        "note": "TLC checks on all reachable wrapper states of the bound that a use is permitted iff it keeps the stack "
                "protocol; every printed program runs on the real wrappers against a format that notes the calls it gets, and "
                "random longer programs are recorded and validated by TLC. Finite exploration of the code",
        "emit": [(c, "WrapperMC.tla", "WrapperMC_%s.cfg" % c) for c in ("rj", "rp", "wj", "wp")],
        "emit_thorough": [("rj", "WrapperMC.tla", "WrapperMC_rj7.cfg")],
        "mc": mc("WrapperMC", "mc"),
        "mc_thorough": mc("WrapperMC", "mc5"),
        "runs": [{"bin": "wrap", "files": ["rj", "rp", "wj", "wp"], "args": {"random": 15000}}],
        "post": [validate("WrapperTrace", "programs")],
        "rule": "every program over the wrappers up to the length of the bound, reading and writing, with and without null "
                "literals and JSON objects, and random longer programs; non-trivial: distinct programs",
        "assumptions": ["the format keeps the contract of its traits", "no errors of the format"],
    }


def codec(kinds, docs, records=True):
    """docs: whether the documents of the specification are read; records: whether TLC validates records."""
    emit = [("types", "CodecVec.tla", "CodecVec_types.cfg"), ("enc", "CodecVec.tla", "CodecVec_enc.cfg")]
    if docs:
        emit += [("dec%d" % n, "CodecVec.tla", "CodecVec_dec%d.cfg" % n) for n in range(4)]
    return {
        "technique": "TLA+ specification of what types mean (calls made, documents written, results and faults of reading "
                     "any document; theorems checked by TLC); its types generated as Rust, its values and documents "
                     "replayed" + (", TLC validation of recorded calls and reads" if records else ""),
        "note": "TLC checks theorems (protocol, read-back, distinctness, any order, one tag per variant) for every type and "
                "value of the specification; the same types are derived in Rust and every printed value and document is "
                "written and read by the real code through JSON and through a format that notes the calls" +
                (", and random ones are recorded and validated by TLC" if records else ", and random values") +
                ". Finite exploration of the code; trusts the harness that maps values",
        "emit": emit,
        "mc": mc("CodecMC", "mc"),
        "runs": [{"bin": "codec", "files": [e[0] for e in emit]}],
        "post": [validate("CodecTrace", "codec")] if records else [],
        "rule": "every type of the specification (hand-picked and 200 pseudo-random ones) with " + kinds + ", its values"
                + (", documents near to them (reordered, extended, cut, retagged, retyped)" if docs else "")
                + " and random values; non-trivial: distinct pairs of a type and a value or document",
        "assumptions": ["context and validation of the harness's leaf types stand for those of users",
                        "NaN and infinities are not written"],
    }


CHECKS = {
    "C01": text(["struct", "num", "str", "sur", "lit"]),
    "C02": with_types(text(["lit"])),
    "C03": cursor("keys", "keys6", 9000),
    "C04": cursor("keys", "keys6", 9000),
    "C05": with_cursor(text(["struct"]), "keys", "keys6", 3000),
    "C06": numbers("int", 15000),
    "C07": numbers("float", 10000),
    "C08": text(["str", "sur", "key"]),
    "C09": ser(),
    "C10": ser(),
    "C11": codec("every kind of part", False, False),
    "C12": both(cursor("keys", "keys6", 3000), codec("an option", True)),
    "C13": codec("a struct", True),
    "C14": codec("an enum", True),
    "C15": names(),
    "C16": codec("every kind of part", False),
    "C17": wrap(),
    "C18": text(["lit"]),
    "C19": utf8(),
    "C20": sink(),
    "C21": with_cursor(text(["num", "sur"]), "size", "size5", 5000),
    "C22": text(["com", "key"]),
    "C23": both(cursor("size", "size5", 9000), codec("a tuple or a fixed-size array", True)),
    "C25": floats(),
    "C26": told(),
    "C27": reader(),
    "C24": codec("a context or a validation", True),
}
