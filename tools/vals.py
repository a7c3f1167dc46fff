"""Argument pools: boundary values and seeded random values, in the encoding of the harness."""
import random

I32MAX, I32MIN = 2**31 - 1, -2**31
L64MAX, L64MIN = 2**63 - 1, -2**63
DAYUS = 86400 * 10**6
MINDAY, MAXDAY, ENDTS = -2451545, 2145031948, 106751983
MINTS, MAXTS = MINDAY * DAYUS, ENDTS * DAYUS - 1
CYCLE = 146097


def T(us):
    d, r = divmod(us, DAYUS)
    return [d, r // 10**6, r % 10**6]


def US(t):
    return t[0] * DAYUS + t[1] * 10**6 + t[2]


def B(s):
    return list(s.encode())


def leap(y):
    return (y % 4 == 0 and y % 100 != 0) or y % 400 == 0


def days_in(y, m):
    return 29 if m == 2 and leap(y) else [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][m - 1]


def daynum(y, m, d):
    """Only used to aim at interesting days; never an oracle."""
    yy = y - 1 if m <= 2 else y
    era = yy // 400
    yoe = yy - era * 400
    doy = (153 * (m + (-3 if m > 2 else 9)) + 2) // 5 + d - 1
    doe = yoe * 365 + yoe // 4 - yoe // 100 + doy
    return era * CYCLE + doe - 730425


class G:
    def __init__(self, seed, salt=""):
        self.r = random.Random("%s/%s" % (seed, salt))

    # ---- plain integers
    def i32(self):
        r = self.r
        c = r.random()
        if c < .25:
            return r.choice([I32MAX, I32MIN, I32MAX - 1, I32MIN + 1, 0, 1, -1, 2**30, -2**30, 178956970, -178956971,
                             71582788, -71582789, 65535, 65536, -65536])
        if c < .5:
            return r.randint(-400, 400)
        if c < .75:
            return r.randint(-3000000, 3000000)
        return r.randint(I32MIN, I32MAX)

    def small(self, n=60):
        return self.r.randint(-n, n)

    # ---- days
    def year(self, ts=True):
        r = self.r
        c = r.random()
        lo, hi = -4713, (294276 if ts else 5874897)
        if c < .08:
            return r.choice([lo, lo + 1, hi, hi - 1])
        if c < .30:
            return r.choice([-4, -3, -1, 0, 1, 2, 4, -100, 100, -99, 99, 101, 1000, 1001, -999, -1000, 999, 2000, 2001,
                             1999, 1900, 1600, 2400, 1970, 1969, 2069, 2070, -1001, -101])
        if c < .6:
            return r.randint(1890, 2110)
        if c < .7:
            return r.randint(-10, 10) * 100 + r.randint(-1, 1)
        if c < .8:
            return r.randint(-120, 120)
        return r.randint(lo, hi)

    def ymd(self, ts=True):
        r = self.r
        y = self.year(ts)
        m = r.choice([1, 2, 2, 3, 12, r.randint(1, 12), r.randint(1, 12)])
        d = r.choice([1, days_in(y, m), r.randint(1, days_in(y, m)), r.randint(1, min(7, days_in(y, m)))])
        return y, m, d

    def day(self, ts=True, inf=.06):
        """A day number of a date (of a timestamp if ts)."""
        r = self.r
        c = r.random()
        if c < inf:
            return r.choice([I32MAX, I32MIN])
        if c < inf + .06:
            return r.choice([MINDAY, MINDAY + 1, MINDAY + 6] + ([ENDTS - 1, ENDTS - 2] if ts else
                            [MAXDAY, MAXDAY - 1, ENDTS - 1, ENDTS, ENDTS + 1]))
        if c < .7:
            n = daynum(*self.ymd(ts))
        elif c < .8:
            n = r.randint(-50000, 50000)
        else:
            n = r.randint(MINDAY, ENDTS - 1 if ts else MAXDAY)
        return max(MINDAY, min(n, ENDTS - 1 if ts else MAXDAY))

    # ---- microseconds
    def usec(self):
        r = self.r
        return r.choice([0, 0, 1, 5, 499999, 500000, 500001, 999999, 999995, 999994, 100000, 50, 49, 4999, 5000, 1000, 999,
                         r.randint(0, 999999), r.randint(0, 999999), r.randint(0, 999) * 1000])

    def clock(self):
        """[secs, usecs] of a day"""
        r = self.r
        c = r.random()
        if c < .2:
            return [0, 0]
        if c < .3:
            return [86399, 999999]
        if c < .55:
            return [r.choice([0, 59, 60, 3599, 3600, 43199, 43200, 46800, 86399, 86340, 1]), self.usec()]
        return [r.randint(0, 86399), self.usec()]

    def time(self):
        r = self.r
        if r.random() < .08:
            return [1, 0, 0]
        return [0] + self.clock()

    def ts(self, inf=.05):
        r = self.r
        c = r.random()
        if c < inf:
            return T(r.choice([L64MAX, L64MIN]))
        if c < inf + .04:
            return T(r.choice([MINTS, MINTS + 1, MAXTS, MAXTS - 1]))
        return [self.day(True, 0)] + self.clock()

    def tsnear(self, t):
        """A timestamp near t: same day, month, year or clock."""
        r = self.r
        c = r.random()
        d = t[0]
        if c < .25:
            d += r.choice([0, 1, -1])
        elif c < .6:
            d += r.choice([28, 29, 30, 31, -28, -29, -30, -31, 365, 366, -365, -366, 59, -59, 60, 61])
        else:
            d += r.randint(-1500, 1500)
        d = max(MINDAY, min(d, ENDTS - 1))
        clk = [t[1], t[2]] if r.random() < .3 else self.clock()
        return [d] + clk

    def span(self):
        """An i64 count of microseconds as a triple."""
        r = self.r
        c = r.random()
        if c < .12:
            return [0, 0, 0]
        if c < .2:
            return T(r.choice([L64MAX, L64MIN, L64MAX - 1, L64MIN + 1, 2**62, -2**62]))
        if c < .45:
            s = [r.choice([0, 0, 0, 1, 2, 29, 30, 31])] + self.clock()
        elif c < .7:
            s = [r.randint(0, 40)] + self.clock()
        elif c < .9:
            s = [r.randint(0, 100000)] + self.clock()
        else:
            return T(r.randint(L64MIN, L64MAX))
        return T(-US(s)) if r.random() < .45 else s

    def smallspan(self):
        """up to a few days, either sign"""
        r = self.r
        c = r.random()
        if c < .2:
            return [0, 0, 0]
        s = [r.choice([0, 0, 0, 0, 1, 2, 3])] + self.clock()
        return T(-US(s)) if r.random() < .45 else s

    def iv(self):
        r = self.r
        c = r.random()
        if c < .12:
            return [self.i32(), self.i32()] + self.span()
        if c < .55:
            return [r.choice([0, self.small(30), self.small(30), 12 * self.small(20)]),
                    r.choice([0, self.small(70), self.small(400)])] + self.smallspan()
        if c < .8:
            return [r.choice([0, r.randint(-100000, 100000)]), r.choice([0, r.randint(-10**6, 10**6)])] + self.span()
        return r.choice([[self.i32(), 0, 0, 0, 0], [0, self.i32(), 0, 0, 0], [0, 0] + self.span()])

    def smalliv(self):
        r = self.r
        return [r.choice([0, self.small(30)]), r.choice([0, self.small(70)])] + self.smallspan()

    # ---- doubles
    def seconds(self, wild=True):
        """A second count for the h:m:s constructors; the digit behind the microseconds is no tie."""
        r = self.r
        c = r.random()
        if wild and c < .05:
            return r.choice([[1, 1, 0, 0, 1], [2, 1, 0, 0, 1], [3, -1, 0, 0, 1]])
        if wild and c < .09:
            return [4, r.choice([1, -1]), r.choice([31, 32, 40, 60, 63, 64, 100, 1000, -20, -30, -31, -32, -33, -40, -52, -60, -63, -100, -1000]), 0, 1]
        s = r.choice([0, 59, 60, r.randint(0, 60), r.randint(0, 59), r.randint(0, 59), 61])
        c = r.random()
        if c < .35:
            n, d = 0, 1
        elif c < .75:
            n, d = self.usec(), 10**6
        elif c < .9:
            n, d = r.randint(0, 127), 128
        else:
            n, d = r.randint(0, 999999) * 10 + r.choice([0, 1, 2, 3, 7, 8, 9]), 10**7
        sg = -1 if r.random() < .08 else 1
        return [0, sg, s, n, d]

    def factor(self):
        r = self.r
        c = r.random()
        if c < .05:
            return r.choice([[1, 1, 0, 0, 1], [2, 1, 0, 0, 1], [3, -1, 0, 0, 1]])
        if c < .09:
            return [4, r.choice([1, -1]), r.choice([31, 32, 40, 60, 63, 64, 100, 1000, -20, -30, -31, -32, -33, -40, -52, -60, -63, -100, -1000]), 0, 1]
        sg = r.choice([1, 1, -1])
        if c < .14:
            return [0, sg, 0, 0, 1]
        if c < .40:
            return [0, sg, r.choice([1, 2, 3, 5, 7, 10, 12, 30, 60, r.randint(1, 1000)]), 0, 1]
        if c < .85:
            return [0, sg, r.choice([0, 0, 1, 2, r.randint(0, 50)]), r.choice([1, 3, 5, 7, r.randint(1, 127)]), 128]
        return [0, sg, r.choice([0, 0, 1, r.randint(0, 20)]), r.randint(1, 9), 10]

    def pick(self, *xs):
        return self.r.choice(xs)

    def unit(self):
        return self.r.randint(0, 22)
