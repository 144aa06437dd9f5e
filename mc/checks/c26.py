import string
from itertools import product
from pybgl.shunting_yard_postfix import re_escape
from pybgl.regexp import compile_dfa, compile_nfa
from pybgl.thompson_compile_nfa import bracket, parse_bracket, parse_escaped, parse_repetition, thompson_compile_nfa
from mc.core import Violation, require
from mc.lang import difference, real_machine
from mc import nfalang, relang
ID, LEVEL = "C26", "exploration"
RULE = ("every bracket expression whose content is a string of bounded length over 10 characters (hyphens, hats, escapes, nested brackets), every escape sequence "
        "alone and in context, and re_escape of every string of bounded length over 22 characters; the set of symbols is compared with a reference parser and the "
        "language of the compiled expression exactly, by exploring its product with the expected one. A case is non-trivial when it has a special character.")
ASSUMPTIONS = ["a hyphen that directly follows an interval, or follows a class such as \\d or precedes a complement such as \\D, is left unspecified",
               "the supported escape sequences are those of the documentation: operators, \\a \\b \\f \\n \\r \\t \\v, \\d \\s \\w and their complements",
               "complements are taken in the alphabet given (string.printable by default)", "words do not contain the epsilon symbol"]
BOUND = {"quick": "bracket contents of <= 5 characters out of 10, re_escape of strings of <= 3 characters out of 22, every escape of a printable character, repetitions with bounds <= 12; brackets of 150 symbols, escaped texts of 600",
         "thorough": "bracket contents of 5 characters out of 12 and 6 out of 8, re_escape of strings of <= 4 characters out of 22"}
SPECIAL = "|[]{}.+*?()^$\\"
CLASSES = {"d": string.digits, "s": " \t", "w": string.digits + string.ascii_letters}
CONTROL = {"a": "\a", "b": "\b", "f": "\f", "n": "\n", "r": "\r", "t": "\t", "v": "\v"}
ALPHA = "abcd-^]\\[ 0_\n"


def escape(c, alphabet):
    """Set of symbols of the escape sequence of c, or None."""
    if c in SPECIAL:
        return {c}
    if c in CONTROL:
        return {CONTROL[c]}
    if c in CLASSES:
        return set(CLASSES[c])
    if c.lower() in CLASSES:
        return set(alphabet) - set(CLASSES[c.lower()])
    return None


def reference(content, alphabet):
    """Set of symbols of [content]; "reject" for a reversed interval or one that ends with a class; None when it is malformed or unspecified."""
    rest = content
    negated = rest[:1] == "^"
    if negated:
        rest = rest[1:]
    items = []
    while rest:
        if rest[0] == "\\":
            if len(rest) < 2 or escape(rest[1], alphabet) is None:
                return None
            items.append((rest[:2], escape(rest[1], alphabet)))
            rest = rest[2:]
        elif rest[0] == "]":
            return None
        else:
            items.append((rest[0], {rest[0]}))
            rest = rest[1:]
    if not items:
        return None
    out, i, after = set(), 0, False      # after: an interval or a class has just been read
    while i < len(items):
        text, s = items[i]
        hyphen = text == "-"
        if hyphen and after and i + 1 < len(items):
            return None
        if i + 2 < len(items) and items[i + 1][0] == "-":
            end_text, end = items[i + 2]
            if len(text) == 2 and text[1] in "dswDSW" or len(end_text) == 2 and end_text[1] in "DSW":
                return None
            if len(end_text) == 2 and end_text[1] in "dsw":
                return "reject"        # an interval that ends with several symbols
            lo, hi = ord(min(s)), ord(min(end))
            if lo > hi:
                return "reject"
            out |= {chr(x) for x in range(lo, hi + 1)}
            i, after = i + 3, True
            continue
        out |= s
        after = len(text) == 2 and text[1] in "dswDSW"
        i += 1
    return set(alphabet) - out if negated else out


def shards(tier):
    out = [("bracket", n, 10, i, 8) for n in range(1, 6) for i in range(8)] + [("escapes",), ("reps",), ("sets",)] + [("word", n, i, 4) for n in range(4) for i in range(4)]
    if tier != "quick":
        out += [("bracket", 6, 8, i, 32) for i in range(32)] + [("bracket", 5, 12, i, 32) for i in range(32)] + [("word", 4, i, 16) for i in range(16)]
    return out


def cases(shard):
    part = shard[0]
    if part == "bracket":
        _, n, k, i, m = shard
        for j, t in enumerate(product("ac-^\\]d[bn0Z"[:k], repeat=n)):
            if j % m == i:
                yield ("bracket", "".join(t))
    elif part == "sets":
        for body in ("a-z", "A-Za-z", "0-9a-fA-F", "^a-z", "^0-9A-Za-z", " -~", "^ -~", "\\d\\s", "^\\w", "\\D", "^\\D", "^\\W\\d", "\\n-\\r", "\\(-\\+", "\\[-\\]", "\\^-a",
                     "\\t\\n\\r", "^\\t", "+--", "!-/", "(", "|", "(|)", "*+?.", "{2}", "$", "^$", "\\$\\^", "\\\\", "^\\\\", "é-ü", "é", "^é", "~-ȟ", "^!-ɏ", "ú-Ā", "퟾-",
                     "".join(chr(200 + 2 * i) for i in range(150)), "^" + "".join(chr(32 + i) for i in range(0, 59, 2)), "".join("%s-%s" % (chr(500 + 9 * i), chr(505 + 9 * i)) for i in range(40)),
                     "\\s\\d" * 20 + "x", "".join("\\" + c for c in "()*+.?[]^{|}$" * 3)):
            for alphabet in ("", ALPHA, "ab", string.printable, "é]^-z\n"):
                yield ("set", body, alphabet)
    elif part == "escapes":
        for c in string.printable:
            yield ("escape", c, "")
            yield ("escape", c, ALPHA)
    elif part == "reps":
        for m in range(13):
            yield ("rep", m, m, "{%d}")
            for n in [None] + list(range(13)):
                for fmt in ("{%s,%s}", "{ %s , %s }", "{%s ,%s  }"):
                    yield ("rep", m, n, fmt)
                    if m == 0:
                        yield ("rep", -1, n, fmt)
        for t in (SPECIAL * 12, "a" * 600, "ad0- ,\n:" * 20 + SPECIAL, "*" * 90, "\\" * 75, "{2,3}" * 20, "[^a-z]" * 15):
            yield ("word", t)
    elif part == "word":
        _, n, i, m = shard
        for j, t in enumerate(product(SPECIAL + "ad0- ,\n:", repeat=n)):
            if j % m == i:
                yield ("word", "".join(t))


def same(nfa, ref, alphabet, what, st):
    w, k = difference(nfa, ref, sorted(alphabet))
    st.states += k
    st.transitions += k * len(alphabet)
    require(w is None, "%s: wrong answer on the word %r", what, "".join(w or ()))


def word_of_sets(sets):
    return nfalang.Subsets((len(sets) + 1, 1, tuple((i, i + 1, a) for i, s in enumerate(sets) for a in s), 1 << len(sets)))


def bracket_case(content, alphabet, st, compiled):
    s = "[" + content + "]"
    want = reference(content, alphabet or string.printable)
    if want is None:
        st.outcome("unspecified")
        return
    args = (alphabet,) if alphabet else ()
    if want == "reject":
        st.outcome("reversed interval")
        try:
            got = parse_bracket(s, *args)
        except ValueError:
            return
        raise Violation("parse_bracket(%r) accepts a reversed interval: %r" % (s, got))
    got = parse_bracket(s, *args)
    require(set(got) == want, "parse_bracket(%r, %r): %r but expected %r", s, alphabet, sorted(got), sorted(want))
    st.outcome("set")
    if len(content) > 1:
        st.interesting()
    if compiled:
        for (before, after) in (("", ""), ("x", "y"), ("\\\\", "\\]"), ("[a\\]]", "[^b]"), ("(z|", ")")):
            nfa = thompson_compile_nfa(before + s + after, *args)[0]
            if before == "(z|":
                ref = word_of_sets([want | {"z"}])
            else:
                al = alphabet or string.printable
                b, a = {"": ([], []), "x": ([{"x"}], [{"y"}]), "\\\\": ([{"\\"}], [{"]"}]), "[a\\]]": ([set("a]")], [set(al) - {"b"}])}[before]
                ref = word_of_sets(b + [want] + a)
            letters = set("abcd-^]\\[xyz\n") | set(list(sorted(want))[:3]) | (set(ALPHA) - want)
            same(relang.nfa_machine(nfa), ref, letters, "%r over %r" % (before + s + after, alphabet), st)
            if len(want) > 3 and len(before) < 2:
                accepted = {a for (q, r, a) in relang.extract(nfa)[2] if a}
                require(accepted - {"x", "y"} == want - {"x", "y"}, "%r: its transitions read %r", before + s + after, sorted(accepted))


def check(case, st):
    kind = case[0]
    if kind == "bracket":
        content = case[1]
        bracket_case(content, ALPHA, st, True)
        if "^" in content or "\\" in content:
            bracket_case(content, "", st, False)
    elif kind == "set":
        bracket_case(case[1], case[2], st, True)
        want = reference(case[1], case[2] or string.printable)
        if isinstance(want, set):
            nfa, q0, f = bracket(sorted(want))
            require(set(nfa.initials) == {q0} and set(nfa.finals()) == {f}, "bracket: initial or final states")
            same(relang.nfa_machine(nfa), word_of_sets([want]), want | set("ab-"), "bracket(%r)" % sorted(want), st)
    elif kind == "escape":
        c, alphabet = case[1:]
        args = (alphabet,) if alphabet else ()
        want = escape(c, alphabet or string.printable)
        if want is None:
            try:
                got = parse_escaped("\\" + c, *args)
            except ValueError:
                st.outcome("rejected")
                return
            raise Violation("parse_escaped(%r) returned %r" % ("\\" + c, got))
        got = parse_escaped("\\" + c, *args)
        require(set(got) == want, "parse_escaped(%r, %r): %r but expected %r", "\\" + c, alphabet, sorted(got), sorted(want))
        st.interesting()
        for s, sets in (("\\" + c, [want]), ("a\\" + c, [{"a"}, want]), ("\\" + c + "b", [want, {"b"}]), ("\\" + c + "\\" + c, [want, want]),
                        ("(\\" + c + ")", [want]), ("[\\" + c + "]", [want]), ("\\" + c + "{2}", [want, want]), ("\\\\\\" + c, [{"\\"}, want]),
                        ("\\" + c + "\\\\", [want, {"\\"}]), ("a.\\" + c, [{"a"}, want])):
            letters = set("abdswnDSW\\\n0]Z") | {c} | set(sorted(want)[:2])
            ref = word_of_sets(sets)
            same(relang.nfa_machine(thompson_compile_nfa(s, *args)[0]), ref, letters, "%r over %r" % (s, alphabet), st)
            if not alphabet:
                same(real_machine(compile_dfa(s)), ref, letters, "compile_dfa(%r)" % s, st)
    elif kind == "rep":
        m, n, fmt = case[1:]
        s = fmt % m if fmt == "{%d}" else fmt % (m if m >= 0 else "", "" if n is None else n)
        m = max(m, 0)
        if n is not None and n < m:
            try:
                got = parse_repetition(s)
            except ValueError:
                st.outcome("rejected")
                return
            raise Violation("parse_repetition(%r) returned %r" % (s, got))
        got = parse_repetition(s)
        require(tuple(got) == (m, n), "parse_repetition(%r): %r", s, got)
        st.interesting()
    else:
        w = case[1]
        s = re_escape(w)
        ref = word_of_sets([{a} for a in w])
        letters = set(w) | set("a\\")
        same(relang.nfa_machine(compile_nfa(s)), ref, letters, "re_escape(%r) = %r" % (w, s), st)
        same(real_machine(compile_dfa(s)), ref, letters, "re_escape(%r) = %r" % (w, s), st)
        if any(a in SPECIAL for a in w):
            st.interesting()
