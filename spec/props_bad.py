"""P10: specifications with one injected error are refused with a located diagnostic."""
import os, re, subprocess
from . import gen, model, run as R
from .checks import Check, register, rt
from .props import cut, mkspec
from .model import T

# type-level errors of ASN.1
TYPES = {
    "undefined-type": ["Missing-Type", "Missing-Type (0..5)"],
    "undefined-module": ["Missing-Module.Missing-Type"],
    "undefined-value": ["INTEGER (0..missing-value)", "OCTET STRING (SIZE(0..missing-value))", "INTEGER (missing-value)", "IA5String (SIZE(missing-value))"],
    "duplicate-component": ["SEQUENCE { aa INTEGER (0..5), bb BOOLEAN, aa BOOLEAN }", "SET { aa NULL, aa NULL }"],
    "duplicate-alternative": ["CHOICE { aa BOOLEAN, bb NULL, aa INTEGER (0..3) }"],
    "duplicate-enumeration": ["ENUMERATED { xx, yy, zz, xx }", "ENUMERATED { xx(1), xx(2) }"],
    "duplicate-enumeration-value": ["ENUMERATED { xx(1), yy(2), zz(1) }"],
    "constraint-of-other-type": ["INTEGER (SIZE(1..5))", "BOOLEAN (0..5)", "OCTET STRING (1..5)", "IA5String (SIZE(1..5)) (1..5)", "INTEGER (FROM(\"a\"..\"z\"))", "REAL (SIZE(1))", "INTEGER (TRUE)", "BOOLEAN (5)", "BIT STRING (FROM(\"a\"..\"z\"))", "ENUMERATED { xx, yy } (5..6)"],
    "empty-range": ["INTEGER (7..1)", "OCTET STRING (SIZE(5..1))", "IA5String (SIZE(9..2))"],
    "negative-size": ["OCTET STRING (SIZE(-1..5))", "SEQUENCE (SIZE(-4)) OF BOOLEAN"],
    "default-outside-constraint": ["SEQUENCE { aa INTEGER (0..5) DEFAULT 9 }", "SEQUENCE { aa IA5String (SIZE(1..3)) DEFAULT \"abcdef\" }", "SEQUENCE { aa OCTET STRING (SIZE(2)) DEFAULT '010203'H }"],
    "default-of-other-type": ["SEQUENCE { aa INTEGER (0..5) DEFAULT TRUE }", "SEQUENCE { aa BOOLEAN DEFAULT 5 }", "SEQUENCE { aa IA5String (SIZE(1..3)) DEFAULT 12 }"],
    "default-undefined": ["SEQUENCE { aa INTEGER (0..5) DEFAULT missing-value }", "SEQUENCE { aa ENUMERATED { xx, yy } DEFAULT zz }"],
    "unlimited-size": ["OCTET STRING", "BIT STRING", "IA5String", "SEQUENCE OF BOOLEAN", "SEQUENCE (SIZE(1..MAX)) OF NULL", "IA5String (SIZE(5..MAX))", "OCTET STRING (SIZE(4..MAX))"],
    "unknown-enumeration-in-constraint": ["ENUMERATED { xx, yy } (xx | zz)"],
    "unknown-component-in-constraint": ["SEQUENCE { aa INTEGER (0..5) } (WITH COMPONENTS {..., zz (0..3)})"],
    "undefined-parameterised-type": ["Missing-Generic{INTEGER}"],
    "syntax-in-type": ["SEQUENC { aa NULL }", "SEQUENCE { aa }", "SEQUENCE { aa NULL bb NULL }", "INTEGER (0..", "INTEGER 0..5)", "ENUMERATED { }", "CHOICE { }", "SEQUENCE { aa NULL, }", "OCTET (SIZE(1))", "SEQUENCE { Aa NULL }", "IA5String (SIZE(1..3)) OPTIONAL", "INTEGER (0...5)", "[5 INTEGER", "SEQUENCE { aa NULL DEFAULT }", "#NULL"],
    "parameters-of-plain-type": ["Plain-Type{INTEGER}"],
}
ASSIGN = {
    "duplicate-type": "Plain-Type ::= BOOLEAN",
    "duplicate-value": "plain-value INTEGER ::= 4",
    "lower-case-type": "badType ::= INTEGER (0..5)",
    "value-of-other-type": "bad-value INTEGER ::= TRUE",
    "value-of-other-type2": "bad-value BOOLEAN ::= 7",
    "value-undefined": "bad-value INTEGER ::= missing-value",
    "value-of-undefined-type": "bad-value Missing-Type ::= 900",
    "recursion": "Bad-One ::= SEQUENCE { aa Bad-One OPTIONAL }",
    "mutual-recursion": "Bad-One ::= SEQUENCE { aa Bad-Two OPTIONAL }\nBad-Two ::= CHOICE { bb Bad-One, cc NULL }",
    "recursion-through-list": "Bad-One ::= SEQUENCE (SIZE(0..3)) OF Bad-One",
    "self-reference": "Bad-One ::= Bad-One",
    "upper-case-value": "Bad-Value INTEGER ::= 5",
    "missing-assignment": "Bad-One INTEGER",
    "too-few-parameters": "Gen-One{TPARAM, TOTHER} ::= SEQUENCE { aa TPARAM, bb TOTHER }\nBad-One ::= Gen-One{INTEGER}",
    "unterminated-string": "bad-value IA5String ::= \"abc",
    "unterminated-comment": "/* no end",
    "cyclic-values": "bad-one INTEGER ::= bad-two\nbad-two INTEGER ::= bad-one",
}
# (ASN.1 of Bad-One, ACN text)
ACN = {
    "acn-unknown-component": ("SEQUENCE { aa INTEGER (0..5) }", "Bad-One [] { aa [], zz [] }"),
    "acn-missing-component": ("SEQUENCE { aa INTEGER (0..5), bb NULL }", "Bad-One [] { bb [] }"),
    "acn-unknown-type": ("NULL", "Missing-Type []"),
    "acn-size-too-small": ("INTEGER (0..1000)", "Bad-One [encoding pos-int, size 4]"),
    "acn-size-too-small-negative": ("INTEGER (-129..3)", "Bad-One [encoding twos-complement, size 8]"),
    "acn-encoding-of-other-type": ("BOOLEAN", "Bad-One [encoding pos-int, size 8]"),
    "acn-encoding-of-other-type2": ("OCTET STRING (SIZE(1..3))", "Bad-One [encoding BCD, size 8]"),
    "acn-encoding-of-other-type3": ("INTEGER (0..5)", "Bad-One [encoding IEEE754-1985-32]"),
    "acn-encoding-of-other-type4": ("REAL", "Bad-One [encoding pos-int, size 32]"),
    "acn-unsigned-for-negative": ("INTEGER (-5..5)", "Bad-One [encoding pos-int, size 8]"),
    "acn-undefined-size": ("OCTET STRING (SIZE(0..5))", "Bad-One [size zz]"),
    "acn-undefined-size-in-sequence": ("SEQUENCE { aa OCTET STRING (SIZE(0..5)) }", "Bad-One [] { aa [size zz] }"),
    "acn-size-of-other-type": ("SEQUENCE { aa OCTET STRING (SIZE(0..5)) }", "Bad-One [] { nn BOOLEAN [], aa [size nn] }"),
    "acn-determinant-after-use": ("SEQUENCE { aa OCTET STRING (SIZE(0..5)) }", "Bad-One [] { aa [size nn], nn INTEGER [encoding pos-int, size 8] }"),
    "acn-undefined-presence": ("SEQUENCE { aa NULL OPTIONAL }", "Bad-One [] { aa [present-when zz] }"),
    "acn-presence-of-other-type": ("SEQUENCE { aa NULL OPTIONAL }", "Bad-One [] { nn INTEGER [encoding pos-int, size 8], aa [present-when nn] }"),
    "acn-presence-of-mandatory": ("SEQUENCE { aa NULL }", "Bad-One [] { nn BOOLEAN [], aa [present-when nn] }"),
    "acn-unused-field": ("SEQUENCE { aa NULL }", "Bad-One [] { nn BOOLEAN [], aa [] }"),
    "acn-duplicate-component": ("SEQUENCE { aa NULL }", "Bad-One [] { aa [], aa [] }"),
    "acn-duplicate-property": ("INTEGER (0..5)", "Bad-One [encoding pos-int, size 8, size 16]"),
    "acn-unknown-property": ("INTEGER (0..5)", "Bad-One [colour 5]"),
    "acn-unknown-encoding": ("INTEGER (0..5)", "Bad-One [encoding base64, size 8]"),
    "acn-missing-size": ("INTEGER (0..5)", "Bad-One [encoding pos-int]"),
    "acn-arguments-of-plain-type": ("SEQUENCE { aa Plain-Type }", "Bad-One [] { nn INTEGER [encoding pos-int, size 8], aa <nn> [] }"),
    "acn-missing-argument": ("SEQUENCE { aa OCTET STRING (SIZE(0..5)) }", "Bad-One <INTEGER:nn> [] { aa [size nn] }\nBad-Two [] { bb [] }"),
    "acn-choice-determinant-undefined": ("CHOICE { aa NULL, bb BOOLEAN }", "Bad-One [determinant zz]"),
    "acn-choice-determinant-of-other-type": ("SEQUENCE { cc CHOICE { aa NULL, bb BOOLEAN } }", "Bad-One [] { nn BOOLEAN [], cc [determinant nn] }"),
    "acn-choice-determinant-names": ("SEQUENCE { cc CHOICE { aa NULL, bb BOOLEAN } }", "Bad-One [] { nn Plain-Enum [], cc [determinant nn] }"),
    "acn-pattern-of-other-type": ("INTEGER (0..5)", "Bad-One [true-value '1'B]"),
    "acn-duplicate-assignment": ("NULL", "Bad-One []\nBad-One []"),
    "acn-enumeration-unknown": ("ENUMERATED { xx, yy }", "Bad-One [encode-values] { xx [1], zz [2] }"),
    "acn-enumeration-duplicate-value": ("ENUMERATED { xx, yy }", "Bad-One [encode-values] { xx [1], yy [1] }"),
    "acn-children-of-primitive": ("INTEGER (0..5)", "Bad-One [] { aa [] }"),
    "acn-syntax": ("NULL", "Bad-One [ }"),
    "acn-syntax2": ("NULL", "Bad-One"),
    "acn-syntax3": ("SEQUENCE { aa NULL }", "Bad-One [] { aa }"),
    "acn-syntax4": ("INTEGER (0..5)", "Bad-One [encoding pos-int size 8]"),
    "acn-null-terminated-without-list": ("INTEGER (0..5)", "Bad-One [size null-terminated]"),
    "acn-undefined-constant": ("INTEGER (0..5)", "Bad-One [encoding pos-int, size missing-constant]"),
    "acn-bad-alignment": ("NULL", "Bad-One [align-to-next furlong]"),
}
WRAPS = ["%s", "SEQUENCE { xa BOOLEAN, xb %s }", "CHOICE { xa %s, xb NULL }", "SEQUENCE (SIZE(1..3)) OF %s", "SEQUENCE { xa SEQUENCE (SIZE(0..2)) OF CHOICE { xb %s } OPTIONAL }", "SET { xa %s OPTIONAL }"]
TOKENS = [("missing-brace", "}"), ("missing-open-brace", "{"), ("missing-parenthesis", ")"), ("missing-open-parenthesis", "("), ("missing-assignment-sign", "::="), ("missing-comma", ","), ("missing-END", "END"), ("missing-BEGIN", "BEGIN"), ("missing-DEFINITIONS", "DEFINITIONS")]


def inject(r, spec, kind):
    """(ASN.1 text, ACN text or None)"""
    base = model.asn1(spec)
    head, rest = base.split("BEGIN\n", 1)
    body = re.split(r"\n(?=[A-Za-z][\w-]* (?:\w+ )?::=)", rest[:rest.rindex("END")].rstrip("\n"))
    plain = ["Plain-Type ::= INTEGER (0..100)", "plain-value INTEGER ::= 3", "Plain-Enum ::= ENUMERATED { red, green }"]
    a = None
    bad = []
    if kind in TYPES:
        x = r.choice(TYPES[kind])
        bad = ["Bad-One ::= " + r.choice(WRAPS if "OPTIONAL" not in x[-8:] else WRAPS[:1]) % x]
    elif kind in ASSIGN: bad = ASSIGN[kind].split("\n")
    elif kind in ACN:
        t, a = ACN[kind]
        bad = ["Bad-One ::= " + t] + (["Bad-Two ::= SEQUENCE { bb Bad-One }"] if "Bad-Two" in a else [])
    elif kind == "import-from-nowhere": head2 = "IMPORTS Some-Type FROM Nowhere;"
    elif kind == "import-of-nothing": head2 = "IMPORTS Missing-Type FROM MODC;"
    items = body + plain
    for b in bad: items.insert(r.randrange(len(items) + 1) if kind != "unterminated-comment" else len(items), b)
    text = head + "BEGIN\n" + (head2 + "\n" if kind.startswith("import") else "") + "\n".join(items) + "\nEND\n"
    if kind == "import-of-nothing": text += "\nMODC DEFINITIONS AUTOMATIC TAGS ::= BEGIN\nOther ::= NULL\nEND\n"
    for k, tok in TOKENS:
        if k == kind:
            at = [m.start() for m in re.finditer(re.escape(tok), text)]
            i = r.choice(at)
            text = text[:i] + " " + text[i + len(tok):]
    if kind == "foreign-character":
        at = [m.start() for m in re.finditer(r"(?<=\n)\w|(?<= )\w", text)]
        i = r.choice(at)
        text = text[:i] + r.choice("#~%?\x01") + text[i:]
    acn = None
    if a is not None: acn = "%s DEFINITIONS ::= BEGIN\n%s\nEND\n" % (spec.name, a)
    if kind == "acn-unknown-module": acn = "Nowhere DEFINITIONS ::= BEGIN\nEND\n"
    if kind == "acn-missing-END": acn = "%s DEFINITIONS ::= BEGIN\n" % spec.name
    return text, acn


KINDS = list(TYPES) + list(ASSIGN) + list(ACN) + [k for k, _ in TOKENS] + ["foreign-character", "import-from-nowhere", "import-of-nothing", "acn-unknown-module", "acn-missing-END"]
LOCATED = re.compile(r"^\S*\.(asn1|acn):\d+:\d+:? *\w*", re.M)


@register
class P10(Check):
    pid, sub = "P10", "P10.error"
    quick, thorough = 60, 1500
    limit = (90, 600)
    cases_per_type = 1
    per = 6
    rule = "a case is a generated well-formed specification with one injected error of a class, at a random place and nesting, for a random target language; all are non-trivial; distinct by text"

    def prof(self, r): return gen.Prof(types=4, depth=1, big=0, consts=r.random() < 0.5)

    def options(self, r, spec): return [r.choice(["-c", "-c", "-Ada"]), r.choice(["-uPER", "-ACN", "-ACN"])]

    def cases(self, r, spec, roots, n):
        return [(roots[0], k, r.randrange(1 << 30)) for k in r.sample(KINDS, self.per)]

    def build(self, spec, d, opts):
        os.makedirs(d, exist_ok=True)
        return d, opts

    def evaluate(self, b, spec, cases):
        import random
        d, opts = b
        out = []
        for i, (t, kind, seed) in enumerate(cases):
            w = "%s/%d" % (d, i)
            os.makedirs(w)
            text, acn = inject(random.Random(seed), spec, kind)
            open(w + "/a.asn1", "w").write(text)
            names = ["a.asn1"]
            if acn is not None:
                open(w + "/a.acn", "w").write(acn)
                names.append("a.acn")
            o = [opts[0], "-ACN"] if acn is not None else opts
            try: rc, txt = R.asn1scc(o + ["-o", "out"] + names, w, timeout=float(os.environ.get('P10T','60')))
            except subprocess.TimeoutExpired:
                out.append((i, "hang-" + kind, "the compiler does not end within 60 s: " + "\n".join(x for x in (text, acn) if x)[-700:] + " with the error " + kind))
                continue
            left = [f for _, _, fs in os.walk(w + "/out") for f in fs] if os.path.exists(w + "/out") else []
            what = "%s with the error %s" % ("\n".join(x for x in (text, acn) if x)[-700:], kind)
            if rc == 0: out.append((i, "accepted-" + kind, "accepted: " + what))
            elif rc not in (2, 3): out.append((i, "internal-" + kind, "ends with status %d (%s): %s" % (rc, cut(txt, 400), what)))
            elif "   at " in txt: out.append((i, "trace-" + kind, "ends with a stack trace (%s): %s" % (cut(txt, 400), what)))
            elif not LOCATED.search(txt): out.append((i, "unlocated-" + kind, "the diagnostic names no position (%s): %s" % (cut(txt, 400), what)))
            elif left: out.append((i, "code-" + kind, "code is generated: " + what))
        return out

    def nontrivial(self, spec, c): return True

    def case_id(self, spec, c): return model.asn1(spec) + repr(c)
