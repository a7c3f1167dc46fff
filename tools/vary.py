"""The same call again with one argument a little different, and again as it was: what the library may have kept of one
call must not show in the next."""
import re

from vals import CYCLE, DAYUS, ENDTS, I32MAX, I32MIN, L64MAX, L64MIN, MAXDAY, MINDAY, T, US

# one letter per argument: d/s/t/i a value, n a count of days, f a factor, F type of a field, u its unit, y/v styles, o the order
# of fields, p/q precision of a time / type modifier of an interval, x a text; - stays
SIG = {"d_ymd": "---", "d_tots": "d", "d_fin": "d", "d_cmp": "dd", "d_fmt": "dyo", "d_rt": "d---", "d_json": "d", "d_jrt": "d", "d_bin": "d",
       "d_addiv": "di", "d_subiv": "di", "d_addtime": "dt", "d_adddays": "-n", "d_subdays": "-n", "d_trunc": "dFu", "d_part": "dFu",
       "s_tod": "s", "s_fin": "s", "s_cmp": "ss", "s_fmt": "syo", "s_rt": "s---", "s_json": "s", "s_jrt": "s", "s_bin": "s",
       "s_addiv": "si", "s_subiv": "si", "s_addtime": "st", "s_subtime": "st", "s_sub": "ss", "s_age": "ss", "s_subdate": "-d",
       "s_trunc": "sFu", "s_part": "sFu", "t_fromts": "s", "t_fromiv": "i", "t_fmt": "ty", "t_rt": "tyo", "t_json": "t", "t_jrt": "t",
       "t_bin": "t", "t_cmp": "tt", "t_addiv": "ti", "t_subiv": "ti", "t_subt": "tt", "t_trunc": "tFu", "t_part": "tFu", "t_fin": "t",
       "i_add": "ii", "i_sub": "ii", "i_neg": "i", "i_jh": "i", "i_jd": "i", "i_ji": "i", "i_cmp": "ii", "i_i128": "i", "i_mul": "if",
       "i_div": "if", "i_trunc": "iFu", "i_part": "iFu", "i_fromt": "t", "i_fin": "i", "i_fmt": "iv", "i_rt": "iv", "i_json": "i",
       "i_jrt": "i", "i_bin": "i", "d_parse": "xo", "t_parse": "xpo", "s_parse": "xpo", "i_parse": "xqv"}


def day(r, d, last):
    if d in (I32MAX, I32MIN):
        return I32MAX + I32MIN - d
    e = d + r.choice([1, -1, 7, -7, 28, 29, 30, 31, 365, 366, -365, -366, CYCLE, -CYCLE, 256, 65536, -65536])
    return e if MINDAY <= e <= last else d


def stamp(r, s):
    if US(s) in (L64MAX, L64MIN):
        return T(L64MAX + L64MIN - US(s))
    k = r.random()
    if k < .4:
        return [day(r, s[0], ENDTS - 1)] + s[1:]
    if k < .5:
        e = T(US(s) + r.choice([2**32, -2**32, 2**53, 1000, -1000, 2**16]))
    elif k < .6:
        e = T(US(s) + r.choice([1, -1, 10**6, -10**6, DAYUS // 2]))
    else:
        e = [s[0]] + clock(r, s[1:])
    return e if MINDAY <= e[0] < ENDTS else s


def clock(r, c):
    return r.choice([[c[0], 0], [c[0], (c[1] + 1) % 10**6], [c[0], (c[1] + 500000) % 10**6], [(c[0] + 43200) % 86400, c[1]],
                     [(c[0] + 60) % 86400, c[1]], [(c[0] + 3600) % 86400, c[1]], [0, 0], [86399, 999999]])


def time(r, t):
    return [0] + clock(r, t[1:]) if t[0] == 0 else [0, 0, 0]


def interval(r, a):
    k = r.random()
    m, d, t = a[0], a[1], US(a[2:])
    if k < .45:                                  # as long as that by the rule of 30 days and 24 hours
        j, l = r.choice([(1, 0), (-1, 0), (0, 1), (0, -1), (m, 0), (-m, 0), (0, d), (1, 1), (r.randint(-5, 5), r.randint(-5, 5))])
        if k < .1:
            j, l = 0, -(t // DAYUS)
        m, d, t = m - j, d + 30 * j - l, t + l * DAYUS
    elif k < .6:
        m, d, t = r.choice([(-m, d, t), (m, -d, t), (m, d, -t), (d, m, t), (-m, -d, -t)])
    elif k < .8:
        m, d, t = r.choice([(m + 1, d, t), (m - 1, d, t), (m + 12, d, t), (m, d + 1, t), (m, d - 1, t), (m, d + 7, t)])
    else:
        m, d, t = r.choice([(0, d, t), (m, 0, t), (m, d, 0), (m, d, t + 1), (m, d, t - 1), (m, d, t + 10**6), (m, d, t + 2**32)])
    return [m, d] + T(t) if all(I32MIN <= x <= I32MAX for x in (m, d)) and L64MIN <= t <= L64MAX else a


def factor(r, f):
    if f[0] != 0:
        return f
    k = r.random()
    _, sg, w, n, den = f
    if k < .3:
        return [0, -sg, w, n, den]
    if k < .5:
        return [0, sg, w + 1, n, den]
    if k < .85 and den & (den - 1) == 0 and den <= 2**7 and w < 1000:      # the next ones of about 30 bits
        return [0, sg, w, n * (2**30 // den) + r.choice([1, 2, 3]), 2**30]
    return [0, sg, w, (n + 1) % den, den]


PUNCT = b"!\"#$%&'()*,;<=>?@[\\]^_`{|}~"


def text(r, b):
    s = bytes(b)
    if not s or len(s) > 120 or max(s) > 127:
        return b
    k = r.random()
    at = [i for i, c in enumerate(s) if c in b" \t\n"]
    dig = [i for i, c in enumerate(s) if 48 <= c <= 57]
    sep = [i for i, c in enumerate(s) if c in b"-/.:,"]
    if k < .3 and at:                            # white space somewhere else
        i = r.choice(at)
        t = s[:i] + s[i + 1:]
        if k < .07:                              # or a mark that is passed over
            t = s[:i + r.randint(0, 1)] + bytes([r.choice(PUNCT)]) + s[i + r.randint(0, 1):]
        elif k < .2:
            j = max(0, min(len(t), i + r.choice([-2, -1, 1, 2])))
            t = t[:j] + b" " + t[j:]
    elif k < .5 and any(65 <= c & 0xdf <= 90 for c in s):
        t = r.choice([s.swapcase(), s.upper(), s.lower(), s.title()])
        if k < .4:
            i = r.choice([i for i, c in enumerate(s) if 65 <= c & 0xdf <= 90])
            t = s[:i] + s[i:i + 1].swapcase() + s[i + 1:]
    elif k < .7 and dig:
        i = r.choice(dig)
        t = s[:i] + b"%d" % r.randint(0, 9) + s[i + 1:]
    elif k < .8 and sep:
        i = r.choice(sep)
        t = s[:i] + r.choice([b"-", b"/", b".", b":", b" ", b"", b"_", bytes([r.choice(PUNCT)])]) + s[i + 1:]
    elif k < .87:
        t = s[1:] if s[:1] in b"+-@" else r.choice([b"-", b"+", b"@", b"0", bytes([r.choice(PUNCT)])]) + s
    elif k < .94 and len(s.split()) > 1:
        w = s.split()
        i = r.randrange(len(w) - 1)
        w[i], w[i + 1] = w[i + 1], w[i]
        t = b" ".join(w)
    else:
        t = r.choice([s[:-1], s + b" ago", s + b" bc", s + b"0", s + b" pm"])
    return list(t)


RT_OK = []                                       # set by gens: the styles and orders that read back
FULL = 32767 * 65536 + 65535


def other(r, x, xs):
    return r.choice([y for y in xs if y != x])


def modifier(r, q):
    if q == -1:
        return r.choice([FULL, 32767 * 65536 + r.randint(0, 6), r.choice([4, 2, 6, 8, 1024, 3072, 7168, 7176, 4096, 1032]) * 65536 + 65535])
    if r.random() < .3:
        return q ^ 1 << r.choice([r.randint(16, 30), r.randint(0, 15)])
    if r.random() < .5:
        return q // 65536 * 65536 + other(r, q % 65536, [0, 1, 2, 3, 4, 5, 6, 65535])
    return r.choice([4, 2, 6, 8, 1024, 3072, 7168, 7176, 4096, 1032, 32767]) * 65536 + q % 65536


KIND = {"s": stamp, "t": time, "i": interval, "f": factor, "x": text, "q": modifier,
        "n": lambda r, n: max(I32MIN, min(I32MAX, r.choice([n + 1, n - 1, -n, n + 65536]))),
        "F": lambda r, x: 1 - x, "u": lambda r, x: other(r, x, range(23)), "y": lambda r, x: other(r, x, range(5)),
        "v": lambda r, x: other(r, x, range(4)), "o": lambda r, x: other(r, x, range(3)), "p": lambda r, x: other(r, x, range(-1, 7))}


def vary(r, op, a):
    """The call with one argument changed, or None."""
    if op not in SIG or len(SIG[op]) != len(a) or SIG[op] == "if" and a[1][0] == 4:      # 2^k: slow to judge
        return None
    if op in ("d_rt", "s_rt") and r.random() < .4:
        return op, [a[0]] + list(r.choice([x for x in RT_OK if list(x) != list(a[1:])]))
    if SIG[op] in ("ss", "tt", "ii", "dd") and r.random() < .5 and isinstance(a[0], list) and isinstance(a[1], list):
        if r.random() < .4:                      # the other way round
            return (op, [a[1], a[0]]) if a[0] != a[1] else None
        if op in ("s_sub", "s_age", "s_cmp"):    # as far from each other, elsewhere
            k = r.choice([1, -1, 28, 30, 31, -31, 365, 366, CYCLE, -CYCLE])
            if all(MINDAY <= x[0] + k < ENDTS and MINDAY <= x[0] < ENDTS for x in a):
                return op, [[x[0] + k] + x[1:] for x in a]
    js = [j for j, k in enumerate(SIG[op]) if k != "-" and not isinstance(a[j], str)]
    if not js:
        return None
    j = r.choice(js)
    k = SIG[op][j]
    if k == "d":
        last = ENDTS - 1 if a[j] < ENDTS or a[j] in (I32MAX, I32MIN) else MAXDAY
        x = day(r, a[j], last)
    else:
        x = KIND[k](r, list(a[j]) if isinstance(a[j], list) else a[j])
    return None if x == a[j] else (op, list(a[:j]) + [x] + list(a[j + 1:]))


def again(r, ops, share=.22):
    out = []
    for op, a in ops:
        out.append((op, a))
        if r.random() < share:
            v = vary(r, op, a)
            if v:
                out.append(v)
                if r.random() < .4:
                    out.append((op, a))
    return out


def at_once(r, ops, times):
    """Some of the calls, made very often by several threads at the same time."""
    out = list(ops)
    for _ in range(times):
        calls = []
        while len(calls) < 36:                   # with what follows them: often the same call, varied
            i = r.randrange(len(ops))
            calls += [[op, a] for op, a in ops[i:i + 3] if not any(isinstance(x, str) for x in a)]
        out.insert(r.randrange(len(out)), ("soak", [60000, 4, calls]))
    return out
