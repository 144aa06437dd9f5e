import colorsys
from fractions import Fraction
from itertools import product
from pybgl.algebra import INFINITY, ClosedMax, ClosedMin, ClosedPlus, ClosedTime, GreaterThan, Less
from pybgl.color import hsl_to_hsv, hsv_to_hsl, html_color_to_graphviz, normalize_color_tuple
from mc.core import require
ID, LEVEL = "C37", "exploration"
RULE = ("Operators: every triple of values of the grid, absorbing ones included (the same objects, and equal ones), for every operator and choice of absorbing element; operands that are lists, strings, tuples and sets: exact value, absorption, associativity, commutativity, monotony, order relations. "
        "Colours: every integer HTML colour of the grid, converted and compared through RGB with the standard library; both conversions are inverse of each other. "
        "A case is non-trivial when the absorbing element is involved or when the colour is not grey.")
ASSUMPTIONS = ["exact arithmetic (integers, fractions) for the operators; colours are compared up to 1e-9"]
BOUND = {"quick": "values 0..4, halves, absorbing elements; 25 hues x 101 saturations x 101 lightnesses", "thorough": "361 hues x 101 x 101"}
PLUS_VALUES = [0, 1, 2, 5, INFINITY - 1, INFINITY]
UNIT_VALUES = [0, Fraction(1, 3), Fraction(1, 2), 1, INFINITY]


def shards(tier):
    hues = range(0, 361, 15) if tier == "quick" else range(361)
    return [("color", h) for h in hues] + [("types",)] + [("op", k) for k in ("plus", "time", "max", "min", "rel")] + [("names",)]


def cases(shard):
    if shard[0] == "color":
        for s, x in product(range(101), repeat=2):
            yield ("color", shard[1], s, x)
    elif shard[0] == "op":
        vals = {"plus": PLUS_VALUES, "time": UNIT_VALUES, "max": PLUS_VALUES, "min": UNIT_VALUES, "rel": PLUS_VALUES}[shard[1]]
        for v in product(range(len(vals)), repeat=3):
            for absorbing in (None, 0, 1, 7):
                yield ("op", shard[1], v, absorbing)
    elif shard[0] == "types":
        for what in ("plus", "time", "max", "min"):
            for i in range(len(OTHERS)):
                for v in product(range(3), repeat=2):
                    for ab in (None, 0, 1, 2):
                        yield ("types", what, i, v, ab)
    else:
        for c in ("", "red", "#40e0d0", "transparent", "/accent3/1", "0.5 0.5 0.5", "darkhsl"):
            yield ("names", c)


def check(case, st):
    globals()["check_" + case[0]](case, st)


def twin(x):
    """An equal number which is another object."""
    return Fraction(x.numerator, x.denominator) if isinstance(x, Fraction) or x < 2 else int(str(x))


def check_op(case, st):
    _, what, v, ab = case
    if what == "rel":
        x, y, z = (PLUS_VALUES[i] for i in v)
        lt, gt = Less(), GreaterThan()
        require((lt(x, y), gt(x, y)) == (x < y, x > y), "relations on %s, %s", x, y)
        st.interesting()
        return
    vals = UNIT_VALUES if what in ("time", "min") else PLUS_VALUES
    x, y, z = (vals[i] for i in v)
    cls, f = {"plus": (ClosedPlus, lambda a, b: a + b), "time": (ClosedTime, lambda a, b: a * b), "max": (ClosedMax, max), "min": (ClosedMin, min)}[what]
    op = cls() if ab is None else cls(ab) if v[0] % 2 else cls(absorbing=ab)
    ab = {"min": 0}.get(what, INFINITY) if ab is None else ab
    want = ab if ab in (x, y) else f(x, y)
    require(op(x, y) == want and op(y, x) == want, "%s(%s, %s) = %s, expected %s (absorbing element %s)", what, x, y, op(x, y), want, ab)
    require(op(twin(x), y) == want and op(x, twin(y)) == want, "%s(%s, %s) depends on the identity of its operands", what, x, y)
    if op.absorbing == {"min": 0}.get(what, INFINITY) and what != "time":
        require(op(op(x, y), z) == op(x, op(y, z)) or INFINITY - 1 in (x, y, z), "%s is not associative on %s", what, (x, y, z))
    if ab in (x, y):
        st.interesting()


# Operands that are not numbers (some cannot be hashed).
OTHERS = [([1], [2, 3], []), ("a", "bc", ""), ((1,), (0, 5), ()), ({1}, {1, 2}, set())]


def check_types(case, st):
    _, what, i, v, ab = case
    x, y = (OTHERS[i][k] for k in v)
    if what == "time":
        y = v[1]            # repetition of a sequence
    absorbing = None if ab is None else OTHERS[i][ab]
    cls, f = {"plus": (ClosedPlus, lambda a, b: a + b), "time": (ClosedTime, lambda a, b: a * b), "max": (ClosedMax, max), "min": (ClosedMin, min)}[what]
    if isinstance(x, set) and what in ("plus", "time"):
        return
    op = cls() if absorbing is None else cls(absorbing)
    default = {"min": 0}.get(what, INFINITY)
    want = f(x, y) if absorbing is None and default not in [x, y] else default if absorbing is None else absorbing if absorbing in [x, y] else f(x, y)
    got = op(x, y)
    require(got == want and type(got) is type(want), "%s(%s, %s) = %s, expected %s (absorbing element %s)", what, x, y, got, want, absorbing)
    st.interesting()


def near(a, b):
    return all(abs(x - y) < 1e-9 for x, y in zip(a, b))


def check_color(case, st):
    _, h, s, x = case
    hn, sn, xn = norm = normalize_color_tuple(h, s, x)
    require(near(norm, (h / 360, s / 100, x / 100)), "normalized %s", norm)
    # HSL -> HSV through RGB
    rgb = colorsys.hls_to_rgb(hn, xn, sn)
    hsv = hsl_to_hsv(hn, sn, xn)
    require(all(-1e-9 <= c <= 1 + 1e-9 for c in hsv), "hsl_to_hsv%s = %s is out of range", norm, hsv)
    require(hsv[0] == hn and near(colorsys.hsv_to_rgb(*hsv), rgb), "hsl_to_hsv%s = %s is another colour", norm, hsv)
    back = hsv_to_hsl(*hsv)
    require(near(back, norm) or (xn in (0, 1) and abs(back[2] - xn) < 1e-9), "HSL %s -> HSV %s -> HSL %s", norm, hsv, back)
    # HSV -> HSL
    rgb = colorsys.hsv_to_rgb(*norm)
    hsl = hsv_to_hsl(*norm)
    require(all(-1e-9 <= c <= 1 + 1e-9 for c in hsl), "hsv_to_hsl%s = %s is out of range", norm, hsl)
    require(hsl[0] == hn and near(colorsys.hls_to_rgb(hsl[0], hsl[2], hsl[1]), rgb), "hsv_to_hsl%s = %s is another colour", norm, hsl)
    back = hsl_to_hsv(*hsl)
    require(near(back, norm) or (xn == 0 and abs(back[2]) < 1e-9), "HSV %s -> HSL %s -> HSV %s", norm, hsl, back)
    for text in ("hsl(%d, %d%%, %d%%)" % case[1:], "hsl(%d,%d,%d)" % case[1:]):
        got = html_color_to_graphviz(text)
        require(near([float(c) for c in got.split(",")], hsv) and got.count(",") == 2, "%s becomes %s", text, got)
    if s and 0 < x < 100:
        st.interesting()


def check_names(case, st):
    require(html_color_to_graphviz(case[1]) == case[1], "%r becomes %r", case[1], html_color_to_graphviz(case[1]))
    st.interesting()
