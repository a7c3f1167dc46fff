"""What to execute for every property: lists of (op, args)."""
import re
import vary
from vals import *

INTERVAL_UNITS = [1, 2, 3, 4, 6, 7, 8, 9, 10, 11, 12, 20]


def triple(g):                                   # a year, month and day, or nearly
    y, m, d = g.ymd(g.pick(True, False))
    yy = y if y > 0 else y - 1                   # as written: no year zero
    c = g.r.random()
    if c < .10:
        d = g.pick(0, -1, 32, days_in(y, m) + 1, g.i32())
    elif c < .16:
        m = g.pick(0, -1, 13, g.i32())
    elif c < .22:
        yy = g.pick(0, -4714, -4715, 5874897, 5874898, g.i32())
        m, d = g.pick((11, 23), (11, 24), (12, 31), (1, 1), (m, min(d, 28)))
    elif c < .25:
        m, d = 2, g.pick(28, 29, 30)
    return [yy, m, d]


def c01(g, n):                                   # calendar: days <-> year-month-day
    out = []
    for _ in range(n):
        out.append(("d_ymd", triple(g)))
        x = g.day(False, 0)
        out.append(("d_fmt", [x, g.pick(1, 4), 0]))
        if _ % 4 == 0:
            out.append(("d_part", [g.day(True, 0), 0, g.pick(4, 6, 8, 13, 14, 15, 16)]))
    return out


def c02(g, n):                                   # construction from fields: exact or an error
    out = []
    hh = lambda: g.pick(0, 24, 23, 25, -1, g.r.randint(0, 24), g.r.randint(0, 23), g.r.randint(0, 23), g.i32())
    mm = lambda: g.pick(0, 59, 60, -1, g.r.randint(0, 59), g.r.randint(0, 59), g.r.randint(0, 59), g.r.randint(0, 59), g.i32())
    for sg in (1, -1):                           # the seconds just inside and outside of what they may be
        for s in ((0, 0, 1), (0, 1, 10**6), (0, 1, 2**30), (0, 1, 10**7), (1, 0, 1), (59, 999999, 10**6), (59, 2**30 - 1, 2**30), (60, 0, 1),
                  (60, 1, 2**30), (60, 1, 10**6), (60, 1, 10**7), (61, 0, 1)):
            for h, m in ((24, 0), (24, 1), (23, 59), (0, 0), (0, 59), (23, 60), (25, 0), (-1, 0), (0, -1), (12, 30)):
                out.append(("t_hms", [h, m, [0, sg] + list(s)]))
                for y, mo, d in ((2000, 2, 29), (294276, 12, 31), (1, 1, 1), (1999, 2, 29)):
                    out.append(("s_ymdhms", [y, mo, d, h, m, [0, sg] + list(s)]))
    for _ in range(n):
        h = hh()
        m = 0 if h == 24 and g.r.random() < .7 else mm()
        s = [0, 1, 0, 0, 1] if h == 24 and g.r.random() < .6 else g.seconds()
        out.append(("t_hms", [h, m, s]))
        y, mo, d = g.ymd(True)
        c = g.r.random()
        if c < .12:
            y = g.pick(0, -1, 1, 294276, 294277, 294275, g.i32())
        elif c < .2:
            mo = g.pick(0, 13, 12, g.i32())
        elif c < .3:
            d = g.pick(0, 31, 32, 30, 29, g.i32())
        elif y < 1:
            y = g.r.randint(1, 294276)
        h = hh()
        m = 0 if h == 24 and g.r.random() < .7 else mm()
        s = [0, 1, 0, 0, 1] if h == 24 and g.r.random() < .6 else g.seconds()
        out.append(("s_ymdhms", [y, mo, d, h, m, s]))
        if g.r.random() < .75:
            q = [g.small(3000), g.small(40), g.small(100), g.small(400), g.small(100), g.small(100)]
            for j in range(6):
                if g.r.random() < .06:
                    q[j] = g.i32()
        else:
            q = [g.i32() if g.r.random() < .3 else 0 for _ in range(6)]
        s = g.seconds()
        out.append(("i_ymwd", q + [s]))
        out.append(("d_ymd", triple(g)))
    return out


FRACTIONS = sorted({int(d) * 10**k for d in ("1", "9", "5", "11", "99", "123") for k in range(6)} | {10**6 - 10**k for k in range(6)} |
                   {sum(7 * 10**k for k in range(6) if m >> k & 1) for m in range(64)})
FRACTIONS = [f for f in FRACTIONS if f < 10**6]


def fractions():
    """Every pattern of zeros in the fraction of a second, at several seconds of a day."""
    for f in FRACTIONS:
        for c in (0, 9, 3600, 43200, 86399):
            yield [c, f]


def c03(g, n):                                   # layout of date, timestamp and time text
    out = []
    for i, c in enumerate(fractions()):
        out += [("t_fmt", [[0] + c, i % 5]), ("s_fmt", [[g.pick(0, -1, -730120, 8000)] + c, i % 4 + i // 5 % 2, i % 3])]
    for _ in range(n):
        o = g.r.randint(0, 2)
        st = g.r.randint(0, 4)
        out.append(("d_fmt", [g.day(False), st, o]))
        o = g.r.randint(0, 2)
        st = g.r.randint(0, 4)
        out.append(("s_fmt", [g.ts(), st, o]))
        out.append(("s_fmt", [[g.day()] + g.clock(), g.r.randint(0, 4), g.r.randint(0, 2)]) if _ % 2 else
                   ("t_fmt", [g.time(), g.r.randint(0, 4)]))
    return [(o, a) for o, a in out if not (o == "s_fmt" and a[0][0] in (I32MAX, I32MIN))]


def fmtiv(g):
    c = g.r.random()
    if c < .35:
        return g.iv()
    if c < .5:
        return [g.pick(0, 0, 1, -1, 12, -12, 13, -13, 11, 24, -25), g.pick(0, 0, 1, -1, 2, -7)] + \
            T(g.pick(0, 0, 1, -1, 10**6, -10**6, 61 * 10**6, -3600 * 10**6, 3661 * 10**6, -1500000, 500000, -500000, 60 * 10**6))
    return g.smalliv()


def signs():
    """Every combination of signs and zeros of the fields of an interval as it is written."""
    clocks = sorted({k * (3600 * 10**6 * h + 60 * 10**6 * m + 10**6 * s + u) for k in (1, -1) for h in (0, 1) for m in (0, 1) for s in (0, 1)
                     for u in (0, 1, 100000, 999999)})
    return [[mo, d] + T(c) for mo in (-13, -12, -1, 0, 1, 12, 13) for d in (-1, 0, 1) for c in clocks]


def c04(g, n):                                   # layout of interval text
    return [("i_fmt", [a, s]) for a in signs() for s in range(4)] + [("i_fmt", [fmtiv(g), s]) for _ in range(n) for s in range(4)]


RT_DATE = [(st, fo, po) for st in range(5) for fo in range(3) for po in range(3)]


def compat(st, fo, po):
    """The reader's field order reads back what was written: year-first styles always (read as YMD the
    fields are unambiguous), German is day-first, the others are written in the order given
    (month-first unless DMY)."""
    if st in (1, 4):
        return True
    if st == 3:
        return po == 1
    return po == (1 if fo == 1 else 2)


RT_OK = [x for x in RT_DATE if compat(*x)]
vary.RT_OK = RT_OK


def c05(g, n):                                   # date / timestamp / time text reads back
    out = []
    for i, c in enumerate(fractions()):
        out += [("t_rt", [[0] + c, i % 5, i % 3]), ("s_rt", [[g.pick(0, -1, -730120, 8000)] + c] + list(RT_OK[i % len(RT_OK)]))]
    for _ in range(n):
        st, fo, po = g.r.choice(RT_OK)
        out.append(("d_rt", [g.day(False), st, fo, po]))
        st, fo, po = g.r.choice(RT_OK)
        out.append(("s_rt", [g.ts(), st, fo, po]))
        if _ % 2:
            out.append(("t_rt", [g.time(), g.r.randint(0, 4), g.r.randint(0, 2)]))
    return out


def c06(g, n):
    return [("i_rt", [a, s]) for a in signs() for s in range(4)] + [("i_rt", [fmtiv(g), s]) for _ in range(n) for s in range(4)]


def c07(g, n):
    out = []
    r = g.r
    for a in signs():
        out += [("i_json", [a]), ("i_jrt", [a])]
    for c in fractions():
        out += [("t_jrt", [[0] + c]), ("s_jrt", [[g.pick(0, -1, -730120, 8000)] + c])]
    for _ in range(n):
        out += [("d_json", [g.day(False)]), ("s_json", [g.ts()]), ("t_json", [g.time()]), ("i_json", [fmtiv(g)])]
        out += [("d_jrt", [g.day(False)]), ("s_jrt", [g.ts()]), ("t_jrt", [g.time()]), ("i_jrt", [fmtiv(g)])]
        if _ % 2:
            by = lambda k: [g.pick(0, 255, 127, 128, 1, r.randint(0, 255), r.randint(0, 255)) for _ in range(k)]
            out += [("d_bin", [g.day(False)]), ("s_bin", [g.ts()]), ("t_bin", [g.time()]), ("i_bin", [fmtiv(g)]),
                    ("d_unbin", [by(4)]), ("s_unbin", [by(8)]), ("t_unbin", [by(8)]), ("i_unbin", [by(16)])]
        out += serial(g, r.randrange(8))
    return out


def of_us(v):
    return [v // 86400000000, v // 1000000 % 86400, v % 1000000]


def serial(g, k):
    """Self-describing binary forms."""
    r = g.r
    p = g.pick(0, 1)
    edge = lambda *c: of_us(g.pick(*c) + g.pick(0, 0, 1, -1))
    i64 = lambda: edge(0, 23, 24, 255, 256, 65535, 65536, -24, -256, 2**31, -2**31, 2**32, 2**63 - 1, -2**63, 2**64 - 2, -2**63 - 1, r.randint(-2**63, 2**63 - 1), r.randint(-10**6, 10**6))
    i32 = lambda: edge(0, 1, 23, 255, 65535, -24, -65536, 2**31 - 1, -2**31, 2**32 - 1, r.randint(-2**31, 2**31 - 1), r.randint(-400, 400))
    if k < 4:
        return [("d_cbor", [g.day(False), p]), ("s_cbor", [g.ts(), p]), ("t_cbor", [g.time(), p]), ("i_cbor", [fmtiv(g), p])]
    if k < 6:
        w = r.randrange(5)
        return [("d_ofint", [i32(), w]), ("s_ofint", [i64(), w]), ("t_ofint", [i64(), w])]
    keys = [0, 1, 2]
    r.shuffle(keys)
    z = r.randrange(8)
    if z == 0:
        keys.pop()
    elif z == 1:
        keys.insert(r.randrange(4), g.pick(0, 1, 2, 3))
    elif z == 2:
        keys[r.randrange(3)] = g.pick(0, 1, 2, 3)
    small = lambda: of_us(r.randint(-2**31, 2**31 - 1))
    vals = [(i64 if x == 0 else g.pick(small, i32))() for x in keys]
    return [("i_ofmap", [keys, vals, p]), ("i_oflist", [[i64()] + [g.pick(small, i32)() for _ in range(g.pick(2, 2, 2, 2, 1, 3))][:g.pick(9, 9, 9, 9, 9, 9, 1, 0)]])]


def c15(g, n):
    out = []
    for _ in range(n):
        t = g.ts()
        iv = g.iv()
        out.append((g.pick("s_addiv", "s_subiv"), [t, iv]))
        if t[0] not in (-106751992, 106751991):  # month ends
            y, m, d = g.ymd(True)
            e = [daynum(y, m, g.pick(28, 29, 30, 31, days_in(y, m)) if False else days_in(y, m))] + g.clock()
            if MINDAY <= e[0] < ENDTS:
                out.append((g.pick("s_addiv", "s_subiv"), [e, [g.pick(1, -1, 11, 12, 13, -12, g.small(50), g.small(5000)), g.pick(0, 0, g.small(40))] + g.smallspan()]))
        out.append((g.pick("d_addiv", "d_subiv"), [g.day(g.pick(True, True, True, False)), g.iv()]))
        if _ % 3 == 0:
            out.append((g.pick("s_addtime", "s_subtime"), [g.ts(), g.time()]))
            out.append(("d_addtime", [g.day(g.pick(True, True, True, False)), g.time()]))
    return out


def c16(g, n):
    out = []
    for _ in range(n):
        d = g.day(False)
        k = g.i32()
        out.append((g.pick("d_adddays", "d_subdays"), [d, k]))
        if _ % 2:
            # aim at the ends of the range
            e = g.pick(MINDAY, MAXDAY, I32MAX, I32MIN, MINDAY - 1, MAXDAY + 1)
            k = e - d
            if I32MIN <= k <= I32MAX:
                out.append(("d_adddays", [d, k]))
            if I32MIN <= -k <= I32MAX:
                out.append(("d_subdays", [d, -k]))
        a, b = g.day(False), g.day(False)
        if I32MIN <= a - b <= I32MAX or a in (I32MIN, I32MAX) or b in (I32MIN, I32MAX):
            out.append(("d_subdate", [a, b]))
    return out


def c17(g, n):
    out = []
    for _ in range(n):
        out.append((g.pick("t_addiv", "t_subiv"), [g.time(), g.iv()]))
        if _ % 3 == 0:
            out.append(("t_subt", [g.time(), g.time()]))
            out.append(("t_fromiv", [g.iv()]))
    return out


def c18(g, n):
    out = []
    for e in (L64MAX, L64MIN):                   # differences at the ends of 64 bits
        for k in range(n // 30):
            q = e + g.pick(0, 0, g.small(3), g.small(2 * 10**6), g.small(10**7), g.small(10**12))
            lo, hi = max(MINDAY * DAYUS, MINDAY * DAYUS + q), min(ENDTS * DAYUS - 1, ENDTS * DAYUS - 1 + q)
            if lo <= hi:
                a = g.pick(lo, hi, g.r.randint(lo, hi))
                out.append(("s_sub", [T(a), T(a - q)]))
                d = (a - q) // DAYUS
                if d < ENDTS:
                    out.append(("s_subdate", [T(d * DAYUS + q), d]) if MINDAY * DAYUS <= d * DAYUS + q < ENDTS * DAYUS else ("s_sub", [T(a), T(a - q)]))
    for _ in range(n):
        a = g.ts()
        b = g.pick(g.ts(), g.tsnear(a) if MINDAY <= a[0] < ENDTS else g.ts())
        out.append(("s_sub", [a, b]))
        if _ % 3 == 0:
            d = g.day(g.pick(True, True, False))
            out.append(("s_subdate", [a, d]))
        if _ % 3 == 1 and MINDAY < a[0] < ENDTS - 1:
            out.append(("s_subdate", [a, a[0] + g.pick(-1, 0, 1)]))
    return out


def c19(g, n):
    out = []
    for _ in range(n):
        a = g.ts(.03)
        b = g.ts(.03) if g.r.random() < .3 or not MINDAY <= a[0] < ENDTS else g.tsnear(a)
        if g.r.random() < .3:
            y, m, d = g.ymd(True)
            y2, m2 = y + g.small(4), g.r.randint(1, 12)
            x, z = daynum(y, m, days_in(y, m)), daynum(y2, m2, g.pick(1, days_in(y2, m2), 28))
            if MINDAY <= x < ENDTS and MINDAY <= z < ENDTS:
                a, b = [x] + g.clock(), [z] + g.clock()
        out.append(("s_age", [a, b]))
    return out


def c20(g, n):
    out = []
    for _ in range(n):
        a, b = g.iv(), g.iv()
        c = g.r.random()
        if c < .3:                               # at the edge of one field
            j = g.r.randint(0, 2)
            for _k in range(2):
                t = [a, b][_k]
                if j < 2:
                    t[j] = g.pick(I32MAX, I32MIN, 2**30, -2**30, 1, -1, 0, I32MAX - 1)
                else:
                    t[2:] = T(g.pick(L64MAX, L64MIN, 2**62, -2**62, 2**62 - 1, 1, -1, 0))
        out.append((g.pick("i_add", "i_sub"), [a, b]))
        out.append(("i_neg", [a]))
        if all(I32MIN <= a[j] + b[j] <= I32MAX for j in (0, 1)) and L64MIN <= US(a[2:]) + US(b[2:]) <= L64MAX:
            out.append(("i_plus", [a, b]))
    return out


def c21(g, n):
    out = []
    for _ in range(n):
        a = g.iv() if g.r.random() < .6 else [g.small(40), g.pick(0, 30, -30, 29, -29, 31, 60, -60, g.small(100))] + \
            T(g.pick(0, 1, -1, DAYUS, -DAYUS, DAYUS - 1, 1 - DAYUS, 31 * DAYUS, US(g.span())))
        for op in ("i_jh", "i_jd", "i_ji"):
            out.append((op, [a]))
    return out


def equal_iv(g, a):
    """Another interval with the same 30-day/24-hour length, when there is one."""
    k, l = g.small(5), g.small(5)
    b = [a[0] + k, a[1] - 30 * k + l]
    t = US(a[2:]) - l * DAYUS
    if all(I32MIN <= x <= I32MAX for x in b) and L64MIN <= t <= L64MAX:
        return b + T(t + g.pick(0, 0, 1, -1) if abs(t) < 2**62 else t)
    return a


def c22(g, n):
    out = []
    near = lambda x, lo, hi: max(lo, min(hi, x + g.pick(0, 1, -1, g.small())))
    for _ in range(n):
        a = g.iv()
        out.append(("i_cmp", [a, g.pick(equal_iv(g, a), equal_iv(g, a), g.iv())]))
        a = g.smalliv()
        out.append(("i_cmp", [a, equal_iv(g, a)]))
        out.append(("i_i128", [g.iv()]))
        d = g.day(False)
        out.append(("d_cmp", [d, g.pick(g.day(False), near(d, I32MIN, I32MAX))]))
        s = g.ts()
        out.append(("s_cmp", [s, g.pick(g.ts(), T(near(US(s), L64MIN, L64MAX)))]))
        t = g.time()
        out.append(("t_cmp", [t, g.pick(g.time(), T(near(US(t), 0, DAYUS)))]))
    return out


def c23(g, n):
    out = []
    ends = [I32MAX, I32MIN, I32MAX - 1, I32MIN + 1, 2**30, -2**30, 0]
    for mo in ends:                              # fields at their ends, factors about 1
        for d in ends:
            for f in ([0, 1, 1, 0, 1], [0, -1, 1, 0, 1], [0, 1, 2, 0, 1], [0, -1, 2, 0, 1], [0, 1, 0, 1, 2], [0, -1, 0, 1, 2], [0, 1, 1, 1, 128], [0, 1, 0, 127, 128]):
                out += [("i_mul", [[mo, d, 0, 0, 0], f]), ("i_div", [[mo, d, 0, 0, 0], f])]
    for k in (1, 8, 20, 29, 30, 31, 32, 33, 40, 52, 62, 63, 100, 1000):      # very small factors
        for a in ([0, 0, 0, 0, 0], [1, 1, 0, 1, 1], [I32MAX, I32MIN] + T(L64MAX), [0, 0] + T(1), [0, 0] + T(-2**20), [0, 0] + T(2**62),
                  [1, 0, 0, 0, 0], [0, -1, 0, 0, 0], [-12, 30, 0, 3600, 0]):
            for f in ([4, 1, -k, 0, 1], [4, -1, -k, 0, 1]) + (([0, 1, 1, 1, 2**k], [0, -1, 2, 2**k - 1, 2**k]) if k <= 30 else ()):
                out += [("i_mul", [a, f]), ("i_div", [a, f])]
    for _ in range(n):
        c = g.r.random()
        a = g.smalliv() if c < .5 else g.iv()
        out.append((g.pick("i_mul", "i_div"), [a, g.factor()]))
        if _ % 6 == 0:
            out.append((g.pick("i_mul", "i_div"), [[g.i32(), g.i32()] + g.span(), [0, g.pick(1, -1), g.pick(0, 1, 2), g.pick(0, 64, 1, 127), 128]]))
    return out


def ext(g, op):
    return (op, [g.ts(), g.pick(0, 0, 0, 0, 0, 0, 1), g.unit()])


def c24(g, n):
    out = []
    for _ in range(n):
        out.append(("s_trunc", [g.ts(), 0, g.pick(g.unit(), 5, 7, 9, 10, 20)]))
        out.append(("d_trunc", [g.day(g.pick(True, True, True, False)), 0, g.pick(g.unit(), 5, 7, 9, 10, 20)]))
        if _ % 20 == 0:
            out.append(("s_trunc", [g.ts(), 1, g.unit()]))
            out.append(("d_trunc", [g.day(), 1, g.unit()]))
    return out


def c25(g, n):
    out = []
    for _ in range(n):
        out.append(("i_trunc", [g.iv(), 0, g.unit()]))
        out.append(("i_trunc", [fmtiv(g), 0, g.r.choice(INTERVAL_UNITS)]))
        out.append(("t_trunc", [g.time(), 0, g.pick(1, 2, 3, 11, 12, g.unit())]))
        if _ % 20 == 0:
            out.append(("i_trunc", [g.iv(), 1, g.unit()]))
            out.append(("t_trunc", [g.time(), 1, g.unit()]))
    return out


def c26(g, n):
    out = []
    for _ in range(n):
        out.append(("s_part", [g.ts(), 0, g.unit()]))
        out.append(("s_part", [g.ts(), 0, g.pick(5, 7, 8, 9, 10, 20, 21, 14, 15, 16, 13)]))
        out.append(("d_part", [g.day(g.pick(True, True, True, False)), 0, g.unit()]))
        if _ % 10 == 0:
            out.append(("s_part", [g.ts(.2), 1, g.unit()]))
            out.append(("d_part", [g.day(True, .2), 1, g.unit()]))
    return out


def c27(g, n):
    out = []
    for _ in range(n):
        out.append(("i_part", [g.iv(), 0, g.r.choice(INTERVAL_UNITS)]))
        out.append(("i_part", [fmtiv(g), 1, 22]))
        out.append(("i_part", [fmtiv(g), 0, g.unit()]))
        out.append(("t_part", [g.time(), 0, g.pick(1, 2, 3, 11, 12, g.unit())]))
        if _ % 5 == 0:
            out.append(("t_part", [g.time(), 1, g.pick(22, 22, g.unit())]))
            out.append(("i_part", [g.iv(), 1, g.unit()]))
    return out


def c28(g, n):
    out = [("t_new", []), ("i_new", [])]
    for _ in range(n):
        d = g.day(False, .1)
        s = g.ts(.1)
        out += [("d_tots", [d]), ("s_tod", [s]), ("t_fromts", [s]), ("d_fin", [d]), ("s_fin", [s]),
                ("d_tots", [g.day(True, .1)])]
        if _ % 4 == 0:
            out += [("t_fromiv", [g.iv()]), ("i_fromt", [g.time()]), ("t_fin", [g.time()]), ("i_fin", [g.iv()])]
        if _ % 5 == 0:                           # infinities through every operation that takes one
            i = g.pick(T(L64MAX), T(L64MIN))
            e = g.pick(I32MAX, I32MIN)
            iv = g.smalliv() if g.r.random() < .8 else [0, 0] + T(L64MAX)
            out += [(g.pick("s_addiv", "s_subiv"), [i, iv]), (g.pick("d_addiv", "d_subiv"), [e, iv]),
                    (g.pick("s_addtime", "s_subtime"), [i, g.time()]), ("d_addtime", [e, g.time()]),
                    (g.pick("d_adddays", "d_subdays"), [e, g.i32()]), ("s_trunc", [i, 0, g.unit()]),
                    ("d_trunc", [e, 0, g.unit()]), ("s_part", [i, 0, g.unit()]), ("d_part", [e, 0, g.unit()]),
                    ("s_sub", g.pick([i, s], [s, i])), ("s_age", g.pick([i, s], [s, i])),
                    ("d_subdate", g.pick([e, g.day(True)], [g.day(True), e])), ("s_cmp", [i, s]), ("d_cmp", [e, d]),
                    ("s_fmt", [i, g.r.randint(0, 4), g.r.randint(0, 2)]), ("d_fmt", [e, g.r.randint(0, 4), g.r.randint(0, 2)])]
    return out


# ---------------------------------------------------------------- reading texts
from texts import TG, B8, RANGES, ODD  # noqa: E402


def tg(g):
    t = TG.__new__(TG)
    t.r = g.r
    return t


def prec(t, p=.3):
    if t.r.random() > p:
        return -1
    return t.pick(0, 1, 2, 3, 4, 5, 6, 6, 7, -2, 100, -1)


def maybe(t, s, p=.15):
    return t.mutate(s) if t.r.random() < p else s


def strings(g, parts, n):
    """Strings of parts: all of the shortest, then n longer ones (all of three parts when n allows)."""
    out = [""] + list(parts) + [a + b for a in parts for b in parts]
    k = len(parts)
    if n >= k**3:
        out += [a + b + c for a in parts for b in parts for c in parts]
    for _ in range(n):
        out.append("".join(g.r.choice(parts) for _ in range(g.pick(3, 3, 4, 4, 5, 5, 6, 7))))
    return out


DPARTS = ("1 31 99 00 2000 12345 6000000 20000101 001 366 - / . , jan sat bc j y m d t at +".split() + [" "])
TPARTS = ("1 12 24 60 1234 123456 . : : am pm h mm s t - + allballs bc 00:00 24:00:00 .5 0000001 2000-01-01 on".split() + [" ", " "])
SPARTS = ("1 12 2000 2000-01-01 20000101 1234 123456 :30 24:00:00 12:30 .5 - . : t T j2451545 jan bc pm allballs infinity mon y2000 h12 s5 / ad".split() +
          [" ", " ", " "])
IPARTS = ("1 -1 +1 1.5 2147483647 - + . : 1:02 -1:02:03 1-2 -0-1 day mon y s us w h min c ago @ infinity".split() + [" ", " ", " "])
OPARTS = ("1 -1 1.5 .5 2001 20010203 010203 - T : Y M D W H S . + 2147483647 0 12".split())


BASES = ("2000 1 2", "2000 jan 2", "jan 2 2000", "2 jan 2000", "1 2 2000", "2 1 2000", "20000102", "000102", "2000-01-02", "1/2/2000", "2000.002", "2000 002",
         "J2451545", "jan-2-2000", "2000-jan-2", "2-jan-2000", "y2000 m1 d2", "y2000 jan d2", "y2000 d2 m1", "jan 2 99", "2 jan 9", "99 jan 2", "1.2.2000", "99 1 2")


def inserted(words):
    """Each word at every place of a date."""
    for b in BASES:
        f = b.split(" ")
        for i in range(len(f) + 1):
            for w in words:
                yield " ".join(f[:i] + [w] + f[i:])


def c08(g, n):                                   # dates from text
    t, out = tg(g), []
    for s in strings(g, DPARTS, n // 3):
        out.append(("d_parse", [B8(s), t.r.randint(0, 2)]))
    for s in inserted("sat sunday bc ad on at am pm isodow feb february dow 10:00 1030 t".split()):
        out += [("d_parse", [B8(s), o]) for o in range(3)]
    for s in parted():
        out.append(("d_parse", [B8(s), t.r.randint(0, 2)]))
    for s in digits(("%s", "%s-01-01", "01-01-%s", "01-%s-01", "J%s", "j%s", "y%s m1 d1", "y2000 m%s d1", "y2000 m1 d%s", "%s jan 1", "jan %s 2000", "jan 1 %s",
                     "2000 %s", "2000.%s", "%s BC", "1-jan-%s", "%s 001", "%s 1 1", "1 1 %s")):
        out.append(("d_parse", [B8(s), t.r.randint(0, 2)]))
    for _ in range(n):
        o = t.r.randint(0, 2)
        out.append(("d_parse", [B8(maybe(t, t.date_text(o))), o]))
        if _ % 4 == 0:
            out.append(("d_parse", [B8(maybe(t, t.ts_text(o), .05)), o]))
        if _ % 8 == 0:
            out.append(("d_parse", [B8(t.noise()), o]))
            out.append(("d_unjson", [B8(maybe(t, t.date_text(0)))]))
    return out


def c09(g, n):                                   # timestamps from text
    t, out = tg(g), []
    for s in strings(g, SPARTS, n // 3):
        out.append(("s_parse", [B8(s), prec(t, .1), t.r.randint(0, 2)]))
    for s in inserted("10:30;T10:30;t 10:30;103015;1030;10:30 pm;12:00 am;13:00 pm;h10 mm30;10:30:15.5;103015.5;24:00:00;allballs;10:30 bc;bc 10:30;sat 10:30;10:30 ad pm;pm 10:30".split(";")):
        o = t.r.randint(0, 2)
        out += [("s_parse", [B8(s), -1, o]), ("s_parse", [B8(s), prec(t), (o + 1) % 3])]
    for s in parted():
        if t.r.random() < .5:
            out.append(("s_parse", [B8(t.pick("%s", "%s 10:00:00", "%sT10:00", "10:00 %s", "%s 24:00:00", "%s 0103", "%s BC") % s), -1, t.r.randint(0, 2)]))
    for s in digits(("%s", "2000-01-01 %s", "2000-01-01T%s", "2000-01-01 %s:00", "2000-01-01 0:%s", "2000-01-01 0:0:%s", "2000-01-01 0:0:0.%s", "%s 10:00",
                     "20000101 %s.5", "J%s", "J2451545.%s", "2000-01-01 h%s", "2000-01-01 s%s", "2000-01-01 t %s", "2000-01-01 %s pm", "%s-01-01 10:00")):
        out.append(("s_parse", [B8(s), -1, t.r.randint(0, 2)]))
    for _ in range(n):
        o = t.r.randint(0, 2)
        out.append(("s_parse", [B8(maybe(t, t.ts_text(o))), prec(t), o]))
        if _ % 8 == 0:
            out.append(("s_parse", [B8(t.noise()), prec(t, .1), o]))
            out.append(("s_unjson", [B8(maybe(t, t.ts_text(0)))]))
    return out


def parted():
    """Delimited dates of two and three parts, parts of every kind, a part of one kind given twice among them."""
    P = ["jan", "feb", "xyz", "1", "13", "32", "99", "2000", "032", "mon", "st", ""]
    for s in "-", "/", ".":
        for a in P:
            for b in P:
                yield s.join((a, b))
                if s == "-":
                    for c in P[:8]:
                        yield s.join((a, b, c))


def c10(g, n):                                   # times from text
    t, out = tg(g), []
    for s in strings(g, TPARTS, n // 3):
        out.append(("t_parse", [B8(s), prec(t, .1), t.r.randint(0, 2)]))
    for s in digits(("%s", "T%s", "%s:00", "0:%s", "0:0:%s", "0:0:0.%s", "%s.5", "h%s", "h1 mm%s", "h1 mm1 s%s", "h1 mm1 s1.%s", "%s pm", "t %s", "%s:0:0")):
        out.append(("t_parse", [B8(s), -1, t.r.randint(0, 2)]))
    for s in parted():
        if t.r.random() < .4:
            out.append(("t_parse", [B8(s + t.pick(" 10:00:00", " 10:00:00", " 10:00", " 24:00", " 23:59:60", " 1 pm", "")), -1, t.r.randint(0, 2)]))
    for i, (c, f) in enumerate(fractions()):
        s = ("%02d:%02d:%02d.%06d" % (c // 3600, c // 60 % 60, c % 60, f))
        out.append(("t_parse", [B8(s if i % 2 else s.rstrip("0")), -1, i % 3]))
    for _ in range(n):
        o = t.r.randint(0, 2)
        s = t.clock_text()
        if t.r.random() < .2:
            s = t.pick(t.date_text(o) + " " + s, s + " " + t.date_text(o), "T" + s, s + " " + t.clock_text(), t.ts_text(o))
        out.append(("t_parse", [B8(maybe(t, s)), prec(t), o]))
        if _ % 8 == 0:
            out.append(("t_parse", [B8(t.noise()), prec(t, .1), o]))
            out.append(("t_unjson", [B8(maybe(t, t.clock_text()))]))
    return out


def ivmod(t, p=.35):
    r = t.r
    if r.random() > p:
        return -1
    rg = r.choice(RANGES + [32767]) if r.random() < .93 else r.choice([0, 1, 12, 5, 4100, 16, 32766, r.randint(0, 32767)])
    pr = 65535 if r.random() < .4 else r.choice([0, 1, 2, 3, 4, 5, 6, 7, 100, 65534] if r.random() < .3 else [0, 1, 2, 3, 4, 5, 6])
    return rg * 65536 + pr


def signed(g):
    """Signs before the fields of an SQL interval, and before labelled ones."""
    for a in ("", "1-1", "0-1", "1-0", "-1-1", "-0-1", "-1-0", "+1-1"):
        for b in ("", "0", "1", "-0", "-1", "+1", "1.5", "-1.5"):
            for c in ("", "0:00:01", "-0:00:01", "+0:00:01", "0:01", "-0:01", "1:00:00", "-1:00:00", "0:00:00.5", "-0:00:00.5", "0:00:00"):
                yield " ".join(x for x in (a, b, c) if x)
    us = "millennium century decade year month week day hour minute second ms us".split()
    for a in us:
        for b in us:
            for x in ("", "-", "+"):
                for y in ("", "-", "+"):
                    yield "%s1 %s %s2%s%s%s" % (x, a, y, g.pick("", " "), b, g.pick("", "", " ago"))
            for s in ("3 5 %s 4 %s", "-3 5 %s 4%s", "5 %s 3 4 %s", "3.5 5%s 4%s", "3 5.5 %s 4 %s", "5 %s 4 %s 3", "0:0:3 5 %s 4 %s",
                      "5 %s 0:3 4 %s", "5 %s 4 %s 0:3", "1-2 5 %s 4 %s", "%s 5 4 %s", "5%s4%s", "1 2 3 %s 4 %s"):
                yield s % (a, b)


UNITS = [("millennium", 1000, "y"), ("century", 100, "y"), ("decade", 10, "y"), ("year", 1, "y"), ("month", 1, "m"), ("week", 7, "d"),
         ("day", 1, "d"), ("hour", 1, "h"), ("minute", 1, "n"), ("second", 1, "s"), ("ms", 1, "s"), ("us", 1, "s")]


def ivedges(g):
    """Amounts about the ends of the fields they count in, alone, with another one, and with fractions carried into them."""
    ends = (2**31 - 1, -2**31)
    for u, k, f in UNITS:
        for e in ends:
            for j in (-1, 0, 1):
                a = (e // k if e > 0 else -(-e // k)) + j
                for z in ("", ".5", ".999999"):
                    for ago in ("", " ago"):
                        yield "%d%s %s%s" % (a, z, u, ago)
                for v, _, h in UNITS:
                    if h == f and v != u or f in "yms" and h in "yms" and h != f:
                        for b in (g.pick("1", "0", "2"), g.pick("-1", "-2", "-0")):
                            p = ["%d %s" % (a, u), "%s %s" % (b, v)]
                            g.r.shuffle(p)
                            yield " ".join(p) + g.pick("", "", " ago")
    for u in ("second", "day", "month", "year"):
        for e in ends:
            for j in ((0, -1, -15, -30) if e > 0 else (0, 1, 15, 30)):
                for v in ("minute", "hour", "day", "week", "month", "year", "decade", "century", "millennium"):
                    for z in ("0.5", "-0.5", "0.9", "1.25", "-1.75"):
                        if v != u:
                            p = ["%d %s" % (e + j, u), "%s %s" % (z, v)]
                            g.r.shuffle(p)
                            yield " ".join(p) + g.pick("", "", " ago")
    for e in ("2147483647", "2147483646", "-2147483648", "-2147483647"):
        sg = "-" if e[0] == "-" else ""
        for m in ("0", "1", "999", "1000", "1001", "1999", "2000", "0.5", "999.5", "999.999"):
            for u in ("0", "1", "999", "1000", "999999", "1000000", "1000001", "2000000", "999999.5", "0.5"):
                yield "%s secs %s%s ms %s%s us" % (e, sg, m, sg, u) + g.pick("", "", " ago")
                if m != "0":
                    yield "%s.5 secs %s%s ms" % (e, sg, m)
    for h in (2**31 - 1, 2**31, 2**31 - 2):      # and in the other forms
        for s in ("%d:00", "-%d:00:00", "%d:59:59.999999", "%d-0", "-%d-1", "%d", "-%d", "%d.5", "1-1 %d", "1-1 -%d", "%d 1:00", "-%d 1:00", "-1-1 %d 1:00"):
            yield s % h
            yield s % h + " ago"
    for y in (178956970, 178956971):
        for m in (0, 6, 7, 8, 11):
            yield from ("%d-%d" % (y, m), "-%d-%d" % (y, m), "%d-%d ago" % (y, m), "%d years %d months" % (y, m), "-%d years -%d months" % (y, m),
                        "%d years -%d months" % (y, m), "-%d years -%d months ago" % (y, m))
    for n in range(8, 14):                       # as many digits as are read
        for z in ("0" * (n - 1) + "1", "1" * n, "0" * n):
            for s in ("%s days", "-%s days", "%s", "%s:00", "0:%s", "0:0:%s", "%s-1", "1-%s", "%s.5 days", "%s secs", "%s us", "%s weeks", "0.%s sec"):
                yield s % z


def isoedges(g):
    """The same of ISO 8601 durations."""
    ends = (2**31 - 1, -2**31)
    per = {"Y": 1, "M": 1, "W": 7, "D": 1}
    for u in "YMWDhms":
        k = per.get(u, 1)
        for e in ends:
            for j in (-1, 0, 1):
                a = (e // k if e > 0 else -(-e // k)) + j
                for z in ("", ".5", ".999999", ".0"):
                    yield ("P%d%s%s" if u in per else "PT%d%s%s") % (a, z, u.upper())
                for v in "YMWDhms":
                    if v != u:
                        for b in (g.pick("1", "0.5", "0.9"), g.pick("-1", "-0.5", "-1.75")):
                            x, y = ("%d%s" % (a, u), b + v) if "YMWDhms".index(u) < "YMWDhms".index(v) or g.r.random() < .3 else (b + v, "%d%s" % (a, u))
                            lo = [i for i in (x, y) if i[-1] in "hms"]
                            yield "P" + "".join(i for i in (x, y) if i[-1] in per) + ("T" + "".join(lo).upper() if lo else "")
    for n in range(8, 14):
        for z in ("0" * (n - 1) + "1", "1" * n, "0" * n, "2147483647".rjust(n, "0"), "2147483648".rjust(n, "0")):
            for s in ("P%sD", "P-%sD", "P%s", "P%sY", "PT%sS", "PT%s", "PT0.%sS", "P%s.5W", "P%s-1", "P1-%s", "P1-1-%s", "PT%s:1", "PT1:%s", "PT1:1:%s", "P1YT%sM"):
                yield s % z
    for y in (178956970, 178956971):
        for m in (0, 6, 7, 8, 11):
            yield from ("P%dY%dM" % (y, m), "P-%dY-%dM" % (y, m), "P%d-%d" % (y, m), "P-%d-%d" % (y, m), "P%04d-%02d-01" % (y, m), "P%dY-%dM" % (y, m))


def digits(forms):
    """Numbers of 8 to 13 digits everywhere a number may stand."""
    for n in range(7, 14):
        for z in ("0" * (n - 1) + "1", "1" * n, "0" * n, "2000".rjust(n, "0"), "2147483647".rjust(n, "0"), "2147483648".rjust(n, "0"), "20000101".rjust(n, "0")):
            for s in forms:
                yield s.replace("%s", z)


def c11(g, n):                                   # intervals from text
    t, out = tg(g), []
    for s in signed(g):
        out.append(("i_parse", [B8(s), -1, 2]))
        out.append(("i_parse", [B8(s), -1, t.pick(0, 1, 3)]))
    for s in ivedges(g):
        out.append(("i_parse", [B8(s), -1, t.pick(0, 0, 1, 2, 3)]))
    for s in strings(g, IPARTS, n // 3):
        out.append(("i_parse", [B8(s), ivmod(t, .1), t.pick(0, 0, 2)]))
    for _ in range(n):
        out.append(("i_parse", [B8(maybe(t, t.iv_text(), .1)), ivmod(t, .15), t.pick(0, 0, 2, 2, 1, 3)]))
        if _ % 8 == 0:
            out.append(("i_parse", [B8(t.noise()), -1, t.pick(0, 2)]))
            out.append(("i_unjson", [B8(maybe(t, t.iv_text()))]))
    return out


def c12(g, n):                                   # ISO 8601 durations
    t, out = tg(g), []
    for s in strings(g, OPARTS, n // 4):
        out.append(("i_parse", [B8(t.pick("P", "P", "PT", "P1YT", "P1Y", "p") + s), ivmod(t, .05), t.pick(3, 0, 2)]))
    for s in isoedges(g):
        out.append(("i_parse", [B8(s), -1, t.pick(3, 3, 0, 2)]))
    for a in ("Y", "M", "W", "D"):               # labelled fields before the other forms, and behind them
        for b in ("20010203", "2001-02-03", "2001-02", "2001", "-2001-02-03", "20010203.5", "2001-02-03.5"):
            for s in ("P1%s%s", "P%s1%s", "P1%sT%s"):
                s = s % ((b, a) if s == "P%s1%s" else (a, b))
                out += [("i_parse", [B8(s + c), -1, 3]) for c in ("", "T010203", "T01:02:03", "T1H", "T1M010203", "T1H02:03")]
    for a in ("H", "M", "S"):
        for b in ("010203", "01:02:03", "01:02", "01", "-01:02:03", "010203.5", "01:02:03.5"):
            out += [("i_parse", [B8(s % (a, b)), -1, 3]) for s in ("PT1%s%s", "P1DT1%s%s", "PT-1%s%s", "PT1%sT%s")]
            out += [("i_parse", [B8(s % (b, a)), -1, 3]) for s in ("PT%s1%s", "PT%s%s")]
    for _ in range(n):
        out.append(("i_parse", [B8(maybe(t, t.iso_text(), .1)), ivmod(t, .05), t.pick(3, 3, 0, 2)]))
    return out


def limits(t):
    """Texts about as long, or of about as many fields, as are read at all."""
    r = t.r
    k = r.random()
    if k < .4:                                   # filled up with punctuation, each of it ignored
        s = t.pick(t.date_text, t.clock_text, t.ts_text, t.iv_text)()
        fill = r.choice([",", ";", ",;", "()", "!"])
        m = max(0, 128 + r.choice([-2, -1, 0, 0, 1, 1, 2]) - sum(not c.isspace() for c in s))
        f = (fill * m)[:m]
        return r.choice([s + f, s + " " + f, s + " ".join(f), f + s, " ".join(f) + " " + s])
    if k < .7:                                   # words without effect
        s = t.pick(t.date_text, t.clock_text, t.ts_text)()
        return " ".join([r.choice(["at", "on"]) for _ in range(max(0, 25 - len(s.split()) + r.randint(-2, 2)))]) + " " + s
    if k < .9:                                   # every unit once
        us = "millennium century decade year month week day hour minute second ms us".split()
        for _ in range(r.choice([0, 0, 1, 2])):
            us.insert(r.randrange(12), us.pop(r.randrange(12)))
        s = " ".join("%d%s%s" % (r.randint(0, 9), r.choice([" ", " ", ""]), u) for u in us)
        return r.choice(["", "", "@ "]) + s + r.choice(["", " ago", " ago", " ago 1", " 1 day", " ago ago"])
    s = t.pick(t.date_text, t.clock_text, t.ts_text, t.iv_text)()
    return " " * r.randint(0, 150) + s.replace(" ", " " * r.randint(1, 150)) + "\t" * r.randint(0, 150)


def anytext(t):
    c = t.r.random()
    if c < .06:
        return limits(t)
    c = (c - .06) / .94
    if c < .45:
        return t.noise()
    s = t.pick(t.date_text, t.clock_text, t.ts_text, t.iv_text, t.iso_text)()
    return t.mutate(s) if t.r.random() < .6 else s


def c13(g, n):                                   # every reader on every kind of text
    t, out = tg(g), []
    for _ in range(n):
        s = B8(anytext(t))
        o = t.r.randint(0, 2)
        out += [("d_parse", [s, o]), ("s_parse", [s, prec(t, .1), o]), ("t_parse", [s, prec(t, .1), o]),
                ("i_parse", [s, ivmod(t, .1), t.r.randint(0, 3)])]
        if _ % 10 == 0:
            out += [("d_unjson", [s]), ("s_unjson", [s]), ("t_unjson", [s]), ("i_unjson", [s])]
    return out


def respell(t, s):
    """The same fields: other letter case, other white space between them."""
    r = t.r
    k = r.random()
    if k < .4:
        s = r.choice([s.upper(), s.lower(), s.swapcase(), s.title()])
    if k > .3:
        ws = [" ", "  ", "\t", "\n ", " \r", "\x0c"]
        if r.random() < .03:                     # a great deal of it
            ws = [c * r.choice([60, 110, 127, 128, 150, 260]) for c in ws]
        s = "".join(r.choice(ws) if c == " " else c for c in s)
        s = r.choice(["", "", " ", "\t "]) + s + r.choice(["", "", " ", "\n"])
    if k > .55:                                  # white space behind a sign
        s = re.sub(r"(^|(?<=\s))([+-])(?=[\w.])", lambda m: m.group(2) + r.choice(ws + ["  ", "\t"]), s)
    if k < .12 and " " in s:                     # marks that are passed over
        s = "".join(c if c != " " or r.random() < .5 else r.choice(["", " "]) + chr(r.choice(vary.PUNCT)) + r.choice(["", " "]) for c in s)
    elif k > .9 and len(s) < 60:                 # words that are passed over, the others come later
        s = " ".join([r.choice(["on", "at"])] * r.randint(1, 21) + [s])
    return s


def c14(g, n):                                   # the same texts again, in other company
    t, out = tg(g), []
    pool = []
    words = ["jan", "feb", "sat", "pm", "am", "bc", "ad", "t", "y", "m", "d", "h", "mm", "s", "j", "allballs", "infinity", "on",
             "january", "sunday", "year", "years", "mon", "mons", "month", "min", "mins", "minute", "ms", "mil", "mils", "millennium",
             "milliseconds", "microseconds", "sec", "dec", "decade", "week", "w", "wed", "may", "mar", "march", "ago", "hour", "hr", "us", "sep", "sept"]
    per = max(1, n // 8)
    for _ in range(max(40, n // 40)):
        k = t.r.random()
        o = t.r.randint(0, 2)
        if k < .3:
            pool.append(("d_parse", t.date_text(o), [o]))
        elif k < .5:
            pool.append(("s_parse", t.ts_text(o), [-1, o]))
        elif k < .65:
            pool.append(("t_parse", t.clock_text(), [-1, o]))
        elif k < .9:
            pool.append(("i_parse", t.iv_text(), [-1, t.pick(0, 2)]))
        else:                                    # one word after another in the same place
            w = t.r.choice(words)
            op = t.pick("d_parse", "i_parse", "s_parse", "t_parse")
            s = t.pick("%s 1 2000", "1 %s 2000", "1 %s", "2000-01-01 11:00 %s", "11:00 %s", "5 %s 3 days", "1 day 5 %s", "%s1", "%s 5") % w
            pool.append((op, s, {"d_parse": [o], "s_parse": [-1, o], "t_parse": [-1, o], "i_parse": [-1, 0]}[op]))
    for _ in range(n):
        op, s, rest = t.r.choice(pool)
        out.append((op, [B8(respell(t, s))] + rest))
    return soaked(t.r, out, n, list(out), 30000, [("i_parse", [B8("1 " + w), -1, 0]) for w in IVWORDS] +
                  [("s_parse", [B8(w + (" 5 2001" if i < 26 else " 2001-02-05")), -1, 0]) for i, w in enumerate(TSWORDS)])


IVWORDS = ("c cent centuries century d day days dec decade decades decs h hour hours hr hrs m min mins minute minutes mon mons month months "
           "ms msec msecs msecond mseconds mil mils millennia millennium millisecond milliseconds microsecond microseconds us usec usecs "
           "useconds qtr quarter s sec second seconds secs timezone w week weeks y year years yr yrs ago bogus dx mx").split()
TSWORDS = ("jan january feb february mar march apr april may jun june jul july aug august sep sept september oct october nov november dec "
           "december jx mx sun sunday mon monday tue tues tuesday wed weds thu thur friday fri sat saturday am ad at bc allballs bogus on t").split()


def soaked(r, out, n, some, times, words=()):
    """Calls made very often by several threads at once, between the others."""
    for _ in range(min(12, max(2, n // 10000))):
        w = r.sample(words, min(45, len(words)))
        calls = r.sample(some, min(60 - len(w), len(some))) + w
        out.insert(r.randrange(len(out)), ("soak", [times, 4, [list(c) for c in calls]]))
    return out


def c29(g, n):                                   # precision of times and timestamps
    t, out = tg(g), []
    r = t.r
    for _ in range(n):
        p = r.choice([0, 1, 2, 3, 4, 5, 6, 0, 1, 2, 3, 4, 5, 6, 7, -1, -2, 2**31 - 1, -2**31])
        k = r.randint(0, 6) if r.random() < .6 else max(0, 5 - p) if p >= 0 else 0
        us = r.choice([0, 5 * 10**k, 5 * 10**k - 1, 5 * 10**k + 1, 10**6 - 5 * 10**k, 10**6 - 5 * 10**k - 1, r.randint(0, 999999), 999999]) % 10**6
        sec = r.choice([0, 59, 86399, 86340, 43200, r.randint(0, 86399)])
        clk = "%02d:%02d:%02d.%06d" % (sec // 3600, sec // 60 % 60, sec % 60, us)
        if r.random() < .3:
            out.append(("t_parse", [B8(clk if r.random() < .95 else "24:00:00"), p, 0]))
        elif r.random() < .9:
            d = r.choice([t.day(True, 0), MINDAY, ENDTS - 1, 0, -1, t.r.randint(-100, 100)])
            y, m, dd = t.ymd(True)
            if d in (MINDAY, ENDTS - 1):
                s = "4714-11-24 %s BC" % clk if d == MINDAY else "294276-12-31 " + clk
            elif y < 1:
                s = "%04d-%02d-%02d %s BC" % (1 - y, m, dd, clk)
            else:
                s = "%04d-%02d-%02d %s" % (y, m, dd, clk)
            out.append(("s_parse", [B8(s), p, 0]))
        else:
            out.append(("s_parse", [B8(t.pick("infinity", "-infinity")), p, 0]))
    return out


def c30(g, n):                                   # range and precision of intervals
    t, out = tg(g), []
    r = t.r
    for _ in range(n):
        k = r.random()
        if k < .15:                              # about a tie of the precision, near zero
            p = r.randint(0, 6)
            u = 10**(6 - p)
            v = r.choice([0, 0, 1, 2, 9, 99, 10**p - 1]) * u + u // 2 + r.choice([-1, 0, 0, 0, 1])
            s = t.pick("-", "") + "%d:%02d:%02d.%06d" % (r.choice([0, 0, 0, 1]), r.choice([0, 0, 0, 59]), abs(v) // 10**6 % 60, abs(v) % 10**6)
            out.append(("i_parse", [B8(s), t.pick(32767, 4096, 4096 + 2048, 4096 + 2048 + 1024, 4096 + 2048 + 1024 + 8, 1024) * 65536 + p, 0]))
            continue
        if k < .35:
            s = t.iv_text()
        elif k < .55:
            s = t.pick("%d", "-%d", "%d.5", "-%d.75", "%d-3", "%d:30", "-%d:30", "%d:30.5", "%d 1:30", "%d 12:30:45.678901") % r.randint(0, 40)
        else:
            f = r.randint(0, 6)
            us = r.choice([0, 5 * 10**f, 5 * 10**f - 1, 10**6 - 5 * 10**f, r.randint(0, 999999), 999999]) % 10**6
            sg = t.pick("", "-")
            s = "%s%d years %s%d mons %s%d days %s%d:%02d:%02d.%06d" % (sg, r.randint(0, 30), t.pick("", "-"), r.randint(0, 14), sg, r.randint(0, 50),
                                                                 t.pick("", "-"), r.randint(0, 50), r.randint(0, 59), r.randint(0, 59), us)
        out.append(("i_parse", [B8(s), ivmod(t, .97), t.pick(0, 0, 2, 1, 3)]))
    return out


def c31(g, n):
    """Programs: most operands are the last value of their type that the session has got ("@d" ...)."""
    out = []
    r = g.r
    D = lambda p=.85: "@d" if r.random() < p else g.day(g.pick(True, False))
    S = lambda p=.85: "@s" if r.random() < p else g.ts()
    C = lambda p=.85: "@t" if r.random() < p else g.time()
    I = lambda p=.7: "@i" if r.random() < p else g.pick(g.iv, g.smalliv, g.smalliv)()
    steps = [
        (3, lambda: (g.pick("d_adddays", "d_subdays"), [D(), g.pick(g.i32(), g.small(400), g.small(40))])),
        (1, lambda: ("d_trunc", [D(), 0, g.pick(4, 5, 6, 7, 8, 9, 10, 20)])),
        (2, lambda: ("s_tod", [S()])),
        (2, lambda: ("d_ymd", list(g.ymd(g.pick(True, False))))),
        (1, lambda: ("d_subdate", [D(), D(.5)])),
        (3, lambda: (g.pick("t_addiv", "t_subiv"), [C(), I()])),
        (1, lambda: ("t_trunc", [C(), 0, g.pick(1, 2, 3, 11, 12)])),
        (2, lambda: ("t_fromts", [S()])),
        (1, lambda: ("t_fromiv", [I()])),
        (1, lambda: ("t_hms", [r.randint(0, 24), r.randint(0, 59), g.seconds()])),
        (6, lambda: (g.pick("s_addiv", "s_subiv"), [S(), I()])),
        (3, lambda: (g.pick("s_addtime", "s_subtime"), [S(), C()])),
        (2, lambda: (g.pick("d_tots",), [D()])),
        (1, lambda: ("d_addtime", [D(), C()])),
        (2, lambda: (g.pick("d_addiv", "d_subiv"), [D(), I()])),
        (2, lambda: ("s_trunc", [S(), 0, g.unit()])),
        (2, lambda: ("s_ymdhms", [r.randint(1, 3000), r.randint(1, 12), r.randint(1, 31), r.randint(0, 24), r.randint(0, 59), g.seconds()])),
        (4, lambda: (g.pick("i_add", "i_sub", "i_add", "i_sub", "i_plus"), [I(), I(.4)])),
        (1, lambda: ("i_neg", [I()])),
        (2, lambda: (g.pick("i_jh", "i_jd", "i_ji"), [I()])),
        (2, lambda: (g.pick("i_mul", "i_div"), [I(), g.factor()])),
        (2, lambda: ("i_trunc", [I(), 0, r.choice(INTERVAL_UNITS)])),
        (1, lambda: ("i_fromt", [C()])),
        (1, lambda: ("t_subt", [C(), C(.5)])),
        (2, lambda: ("s_subdate", [S(), D()])),
        (3, lambda: (g.pick("s_sub", "s_age"), [S(), S(.2)])),
        (1, lambda: ("i_ymwd", [g.small(30), g.small(30), g.small(30), g.small(60), g.small(50), g.small(100), g.seconds()])),
        # looked at, written and read back on the way
        (1, lambda: ("s_part", [S(), 0, g.unit()])),
        (1, lambda: ("d_part", [D(), 0, g.unit()])),
        (1, lambda: ("i_part", [I(), 0, r.choice(INTERVAL_UNITS)])),
        (1, lambda: ("d_rt", [D()] + list(r.choice(RT_OK)))),
        (1, lambda: ("s_rt", [S()] + list(r.choice(RT_OK)))),
        (1, lambda: ("t_rt", [C(), 1, 0])),
        (1, lambda: ("i_rt", [I(), r.randint(0, 3)])),
        (1, lambda: (g.pick("d_jrt", "d_json"), [D()])),
        (1, lambda: (g.pick("s_jrt", "s_json"), [S()])),
        (1, lambda: ("i_jrt", [I()])),
        (1, lambda: ("t_jrt", [C()])),
        (1, lambda: ("s_cmp", [S(), S(.3)])),
        (1, lambda: ("d_cmp", [D(), D(.3)])),
        (1, lambda: ("i_cmp", [I(), I(.3)])),
        (1, lambda: ("t_cmp", [C(), C(.3)])),
    ]
    pool = [f for w, f in steps for _ in range(w)]
    fresh = {"@d": lambda: g.day(False), "@s": g.ts, "@t": g.time, "@i": g.iv}
    some = [(op, [fresh[x]() if isinstance(x, str) else x for x in a]) for op, a in (r.choice(pool)() for _ in range(n // 50))]
    for _ in range(n):
        out.append(r.choice(pool)())
    return soaked(r, out, n, some, 20000)
