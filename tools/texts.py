"""Texts to read: by the grammar, near it, and far from it. Only texts are made here, never expectations."""
from vals import *

MON = ["january", "february", "march", "april", "may", "june", "july", "august", "september", "october", "november",
       "december"]
MONABBR = ["jan", "feb", "mar", "apr", "may", "jun", "jul", "aug", "sep", "oct", "nov", "dec"]
DAY = ["sun", "mon", "tue", "wed", "thu", "fri", "sat", "sunday", "monday", "tues", "wednesday", "thurs", "friday",
       "saturday", "weds", "thur", "tuesday", "thursday"]
ODD = ["infinity", "-infinity", "epoch", "now", "today", "tomorrow", "yesterday", "allballs", "invalid", "current",
       "undefined", "zulu", "z", "utc", "gmt", "est", "pst", "msk", "at", "on", "ago", "t", "y", "m", "d", "h", "mm", "s", "j",
       "jd", "julian", "dow", "doy", "isodow", "bc", "ad", "am", "pm", "dst", "@", "foo", "bar", "infinit", "infinityy",
       "januaryfoo", "septemberx", "sept", "wednesdayx", "microsecond", "microsecondsx", "millisecond", "p", "e", "e5"]
IUNITS = {
    "micro": ["us", "usec", "usecs", "usecond", "useconds", "microsecond", "microseconds", "microsecon"],
    "milli": ["ms", "msec", "msecs", "msecond", "mseconds", "millisecond", "milliseconds", "millisecon"],
    "second": ["s", "sec", "secs", "second", "seconds"],
    "minute": ["m", "min", "mins", "minute", "minutes"],
    "hour": ["h", "hr", "hrs", "hour", "hours"],
    "day": ["d", "day", "days"],
    "week": ["w", "week", "weeks"],
    "month": ["mon", "mons", "month", "months"],
    "year": ["y", "yr", "yrs", "year", "years"],
    "decade": ["dec", "decs", "decade", "decades"],
    "century": ["c", "cent", "century", "centuries"],
    "millennium": ["mil", "mils", "millennia", "millennium", "millenniums"],
    "other": ["qtr", "quarter", "timezone", "timezone_h", "timezone_m", "foo", "yea", "daysx", "hour_", "mon1"]}
RANGES = [4, 2, 6, 8, 1024, 2048, 4096, 1032, 3080, 7176, 3072, 7168, 6144]


class TG(G):
    def text_case(self, s):
        c = self.r.random()
        if c < .5:
            return s
        if c < .65:
            return s.upper()
        if c < .8:
            return s.capitalize()
        return "".join(self.r.choice([x, x.upper()]) for x in s)

    def frac(self, most=7):
        r = self.r
        n = r.choice([1, 1, 1, 2, 2, 3, 3, 4, 5, 6, 6, 7])
        s = "".join(r.choice("0123456789") for _ in range(n))
        if r.random() < .25:
            s = r.choice(["5", "25", "75", "125", "1", "9", "7", "99", "999", "999999", "9999999", "0000005", "000001",
                          "0000001", "123456", "1234565", "4999999", "5000000", "000000", "0", "95", "995", "9999995", "50"])
        if r.random() < .02:
            s += "1234567"
        return "." + s

    # ---- date and time pieces
    def ymd_any(self):
        y, m, d = self.ymd(self.pick(True, True, True, False))
        if self.r.random() < .5:
            y = self.r.randint(1, 2100)
            d = min(d, days_in(y, m))
        if self.r.random() < .05:
            d = self.pick(0, 29, 30, 31, 32)
        if self.r.random() < .03:
            m = self.pick(0, 13)
        return y, m, d

    def yr(self, y, n=4):
        return "%0*d" % (n, y)

    def date_text(self, order=None):
        r = self.r
        y, m, d = self.ymd_any()
        bc = ""
        if y <= 0:
            y, bc = 1 - y, self.pick(" BC", " bc", "BC", " Bc")
        elif r.random() < .06:
            bc = self.pick(" AD", "ad", " ad")
        elif r.random() < .02:
            bc = " BC"
        mn = self.text_case(MON[m - 1] if r.random() < .4 and 1 <= m <= 12 else MONABBR[(m - 1) % 12])
        if r.random() < .04:
            mn = self.pick("sept", "Sept")
        Y = self.yr(y, self.pick(4, 4, 4, 4, 4, 1, 2, 3, 5, 6))
        if r.random() < .2:
            Y = "%02d" % (y % 100)
        M, D = ("%02d" % m, "%02d" % d) if r.random() < .75 else (str(m), str(d))
        sep = self.pick("-", "-", "/", ".", " ")
        o = order if order is not None and r.random() < .8 else r.randint(0, 2)
        c = r.random()
        if c < .25:
            s = {0: [Y, M, D], 1: [D, M, Y], 2: [M, D, Y]}[o]
            s = sep.join(s) if r.random() < .9 else s[0] + sep + s[1] + r.choice("-/. _:,'") + s[2]
        elif c < .35:
            s = sep.join([Y, M, D])
        elif c < .6:
            w = self.pick([mn, D, Y], [D, mn, Y], [Y, mn, D], [mn, Y, D], [D, Y, mn], [Y, D, mn])
            j = self.pick(" ", " ", "-", "-", ", ", "/", ".", "")
            s = j.join(w)
            if r.random() < .15:                 # two different separators
                s = w[0] + r.choice("-/.") + w[1] + r.choice("-/.+_: ,") + w[2]
            if r.random() < .12:
                s = mn + " " + D + ", " + Y
        elif c < .68:
            s = self.yr(y, 4) + "%02d%02d" % (m, d)
        elif c < .72:
            s = "%02d%02d%02d" % (y % 100, m, d)
        elif c < .78:
            n = r.choice([1, 59, 60, 365, 366, 367, 0, r.randint(1, 366), r.randint(1, 366)])
            s = Y + self.pick(".", "-", " ", "/") + "%03d" % n
        elif c < .88:
            j = daynum(y if not bc.strip().lower() == "bc" else 1 - y, (m - 1) % 12 + 1, max(1, min(d, 28))) + 2451545
            if r.random() < .15:
                j = self.pick(0, 1, 2147483493, 2147483494, 2147483647, 2147483648, 109203528, 109203527, 9999999999)
            s = self.pick("J", "J", "j", "J ", "julian ", "JD", "jd ") + str(j)
            if r.random() < .8:
                bc = ""
            if r.random() < .3:
                s += self.frac()
        elif c < .93:
            w = ["y%d" % y, "m%d" % m, "d%d" % d]
            if r.random() < .3:
                r.shuffle(w)
            if r.random() < .1:
                w.pop()
            s = self.pick("", " ").join(w)
        elif c < .96:
            s = self.pick("infinity", "-infinity", "Infinity", "-INFINITY", "- infinity", "+infinity", "infinityxyz", "epoch", "now",
                          "today", "invalid", "allballs")
            bc = bc if r.random() < .1 else ""
        else:
            s = self.pick("%d %s" % (d, mn), "%s %s" % (mn, Y), Y, Y + "-" + M, mn, D + "." + M, "%02d" % d, M + "/" + D, "")
        if r.random() < .12:
            w = self.text_case(r.choice(DAY))
            s = self.pick(w + " " + s, w + ", " + s, s + " " + w)
        return s + bc

    def clock_text(self, day=True):
        r = self.r
        h, mi, s = r.randint(0, 23), r.randint(0, 59), r.randint(0, 59)
        if r.random() < .35:
            h = self.pick(0, 12, 24, 23, 11, 13, 1)
        if r.random() < .2:
            mi, s = self.pick(0, 59), self.pick(0, 59, 60)
        if h == 24 and r.random() < .7:
            mi = s = 0
        if r.random() < .04:
            h, mi, s = self.pick((25, 0, 0), (h, 60, 0), (h, mi, 61), (99, 99, 99), (h, 99, 0))
        mer = ""
        if r.random() < .2:
            mer = self.pick(" AM", " PM", "am", "pm", " pm", "AM")
            if r.random() < .85:
                h = h % 12 or 12
        f = self.frac() if r.random() < .45 else ""
        c = r.random()
        if c < .5:
            t = "%02d:%02d:%02d%s" % (h, mi, s, f)
        elif c < .65:
            t = "%02d:%02d" % (h, mi)
        elif c < .70:
            t = "%d:%d:%d%s" % (h, mi, s, f)
        elif c < .74:
            t = "%02d:%02d%s" % (mi, s, f)
        elif c < .84:
            t = "%02d%02d%02d%s" % (h, mi, s, f)
        elif c < .88:
            t = "%02d%02d" % (h, mi)
        elif c < .93:
            t = "h%d mm%d s%d%s" % (h, mi, s, f)
        elif c < .95:
            t = self.pick("allballs", "Z", "zulu")
        elif c < .98:
            t = self.pick("t", "T") + "%02d%02d%02d%s" % (h, mi, s, f)
        else:
            t = self.pick("%02d%s" % (h, f), "%d" % h, "%02d:" % h, "%02d:%02d:" % (h, mi), "::", ":%02d" % mi,
                          "%02d:%02d:%02d:%02d" % (h, mi, s, s), "", "%d.%d" % (h, mi))
        return t + mer

    def ts_text(self, order=None):
        r = self.r
        d, t = self.date_text(order), self.clock_text()
        c = r.random()
        if c < .6:
            s = d + " " + t
        elif c < .75:
            y, m, dd = self.ymd(True)
            s = (self.pick("%04d-%02d-%02dT", "%04d%02d%02dT", "%04d-%02d-%02d t", "%04d-%02d-%02d T") % (abs(y), m, dd)) + t
        elif c < .85:
            s = t + " " + d
        elif c < .95:
            s = d
        else:
            s = t
        if r.random() < .04:
            s += self.pick("+08", " -05:30", " PST", " UTC", "Z", " z", "+00", " America/New_York", " dst")
        return s

    # ---- intervals
    def amount(self, wild=.05):
        r = self.r
        c = r.random()
        if c < wild:
            n = str(self.pick(2147483647, 2147483648, 4294967296, 99999999999, 178956970, 178956971, 214748364, 214748365,
                              306783378, 306783379, 2147483, 2147484, 596523, 1000000, 2000000000))
        elif c < .3:
            n = self.pick("0", "1", "1", "2", "12", "00", "007")
        else:
            n = str(r.choice([r.randint(0, 30), r.randint(0, 500), r.randint(0, 100000)]))
        if r.random() < .25:
            n += self.frac()
        elif r.random() < .02:
            n = self.pick(".5", ".25", ".", "1.", ".1234567", ".12345678")
        sg = self.pick("", "", "", "", "-", "-", "+")
        return sg + n

    def unit_word(self, units=None):
        u = self.r.choice(units or ["micro", "milli", "second", "minute", "hour", "day", "week", "month", "year", "decade",
                                    "century", "millennium"])
        return self.text_case(self.r.choice(IUNITS[u]))

    def iclock(self):
        r = self.r
        h = r.choice([r.randint(0, 23), r.randint(0, 23), r.randint(0, 200), 0, 2147483647 if r.random() < .1 else 24])
        t = "%s:%02d" % (h if r.random() < .5 else "%02d" % h, r.randint(0, 59) if r.random() < .97 else 60)
        if r.random() < .6:
            t += ":%02d" % (r.randint(0, 59) if r.random() < .95 else self.pick(60, 61))
        if r.random() < .35:
            t += self.frac()
        return self.pick("", "", "", "-", "+", "-") + t

    def iv_text(self):
        r = self.r
        c = r.random()
        out = []
        units = ["millennium", "century", "decade", "year", "month", "week", "day", "hour", "minute", "second", "milli", "micro"]
        if c < .6:
            k = r.choice([1, 1, 2, 2, 3, 4, 5])
            us = sorted(r.sample(range(12), k))
            if r.random() < .2:
                r.shuffle(us)
            if r.random() < .04:
                us.append(r.choice(us))
            for u in us:
                j = self.pick(" ", " ", " ", "", "  ")
                out.append(self.amount() + j + self.unit_word([units[u]]))
            if r.random() < .2:
                out.append(self.iclock())
            if r.random() < .04:
                out.append(self.amount() + " " + self.unit_word(["other"]))
        elif c < .72:
            out = [self.pick("", "-", "+") + "%d-%d" % (r.choice([r.randint(0, 30), 0, 178956970, 178956971]) if r.random() < .9 else r.randint(0, 10**9),
                                                     r.choice([r.randint(0, 11), 0, 11, 12, 1]))]
            if r.random() < .6:
                out.append(self.amount(.01))
            if r.random() < .6:
                out.append(self.iclock())
        elif c < .85:
            out = [self.amount(.02)] if r.random() < .5 else []
            out.append(self.iclock())
            if r.random() < .2:
                out.append(self.amount(.02) + self.pick(" days", " day", "d", " mon", " years", " weeks"))
        else:
            out = [self.amount()]
            if r.random() < .15:
                out.append(self.amount())
        if r.random() < .08:
            out.insert(0, "@")
        if r.random() < .12:
            out.append(self.text_case("ago"))
        if r.random() < .03:
            out.insert(r.randint(0, len(out)), r.choice(ODD))
        return self.pick(" ", " ", " ", "  ", ", ").join(out)

    def iso_amount(self, frac=.3, sign=.2, wild=.02):
        r = self.r
        n = str(r.choice([0, 1, 2, 12, r.randint(0, 60), r.randint(0, 999), r.randint(0, 999)]))
        if r.random() < wild:
            n = str(self.pick(2147483647, 2147483648, 178956970, 178956971, 306783378, 306783379, 99999999999, 1000000))
        if r.random() < frac:
            n += self.frac()
        elif r.random() < .02:
            n = self.pick(".5", ".", "", "1.", "0.", "-", "+1")
        return ("-" if r.random() < sign else "") + n

    def iso_text(self):
        r = self.r
        c = r.random()
        if c < .6:
            d = [self.iso_amount() + u for u in "YMWD" if r.random() < .4]
            t = [self.iso_amount() + u for u in "HMS" if r.random() < .45]
            if r.random() < .08:
                r.shuffle(d)
                r.shuffle(t)
            if r.random() < .04 and d:
                d.append(r.choice(d))
            s = "P" + "".join(d) + ("T" + "".join(t) if t or r.random() < .1 else "")
        elif c < .8:
            y, m, d = r.randint(0, 3000), r.randint(0, 14), r.randint(0, 40)
            s = "P" + self.pick("%04d-%02d-%02d" % (y, m, d), "%04d-%02d-%02d" % (y, m, d), "%04d%02d%02d" % (y, m, d),
                                "%04d-%02d" % (y, m), "%d" % y, "%d.%d-%02d" % (y, 5, m), "%d-%d.5-%d.25" % (y, m, d),
                                "%04d-%02d-%02d.%d" % (y, m, d, r.randint(0, 99)), "%04d%02d%02d.5" % (y, m, d))
            if r.random() < .6:
                h, mi, se = r.randint(0, 30), r.randint(0, 70), r.randint(0, 70)
                s += "T" + self.pick("%02d:%02d:%02d" % (h, mi, se), "%02d:%02d:%02d%s" % (h, mi, se, self.frac()),
                                     "%02d%02d%02d" % (h, mi, se), "%02d%02d%02d%s" % (h, mi, se, self.frac()), "%02d:%02d" % (h, mi),
                                     "%d" % h, "%d%s" % (h, self.frac()), "%dH%dM" % (h, mi), "")
        elif c < .9:
            s = "PT" + self.pick("%02d:%02d:%02d" % (r.randint(0, 30), r.randint(0, 60), r.randint(0, 60)),
                                 "%02d%02d%02d" % (r.randint(0, 99), r.randint(0, 99), r.randint(0, 99)),
                                 self.iso_amount(), self.iso_amount() + ":" + self.iso_amount(), self.iso_amount() + ":" + self.iso_amount() + ":" + self.iso_amount(),
                                 self.iso_amount() + "H" + self.iso_amount() + ":" + self.iso_amount())
        else:
            s = "P" + "-".join(self.iso_amount() for _ in range(r.randint(1, 4)))
            if r.random() < .4:
                s += "T" + ":".join(self.iso_amount() for _ in range(r.randint(1, 4)))
        return s

    # ---- near misses and noise
    def mutate(self, s):
        r = self.r
        for _ in range(r.choice([1, 1, 2, 3])):
            c = r.random()
            i = r.randint(0, len(s))
            if c < .25 and s:
                s = s[:i] + s[i + 1:]
            elif c < .55:
                s = s[:i] + r.choice("0123456789:.-+/ ,TPZ@#_ymdhsjJ\t\x0b\x00~é") + s[i:]
            elif c < .7 and s:
                i = min(i, len(s) - 1)
                s = s[:i] + r.choice("0123456789:.-+/ T") + s[i + 1:]
            elif c < .8:
                s = s + self.pick(" ", "") + r.choice(ODD)
            elif c < .87:
                w = s.split(" ")
                w.insert(r.randint(0, len(w)), r.choice(w))
                s = " ".join(w)
            elif c < .93:
                w = s.split(" ")
                r.shuffle(w)
                s = " ".join(w)
            else:
                s = s[:i]
        return s

    def noise(self):
        r = self.r
        c = r.random()
        if c < .25:
            n = r.choice([0, 1, 2, 3, 5, 8, 20, 40, 127, 128, 129, 130, 300])
            return "".join(r.choice("0123456789:.-+/ aPTymdh,") for _ in range(n))
        if c < .4:
            n = r.choice([1, 2, 3, 10])
            return "".join(chr(r.choice([r.randint(0, 127), r.randint(128, 0x2fff), 0x1f600])) for _ in range(n))
        if c < .55:
            w = r.choice(["1", "a", "-1", "1:1", "1.1", "@", "1 day", "+", ".", "1-1-1", "T", "j1", "\t", "y1", ":1"])
            return self.pick(" ", "").join([w] * r.choice([1, 2, 24, 25, 26, 27, 60, 64]))
        if c < .75:
            return " ".join(r.choice(ODD + MONABBR + DAY + ["1", "12", "99", "1999", "2:3", "04:05:06", "1-2", "-1", "+1:2", "1.5",
                                                             "19990108", "040506", "1999-01-08"]) for _ in range(r.randint(1, 5)))
        if c < .9:
            w = r.choice(["9" * r.randint(1, 40), "0" * r.randint(1, 140), "-" + "9" * 10, "2147483648", "1" + "0" * 9])
            return r.choice(["%s", "P%sY", "P%sD", "PT%sS", "%s days", "J%s", "y%s", "%s-01-01", "01-01-%s", "%s:00", "00:%s", "00:00:%s",
                             "00:00:00.%s", "%s BC", "1.%s sec", "PT1.%sS", "%s centuries", "h%s", "T%s", "2000-01-01 h%s", "2000-01-01 s%s",
                             "2000-01-01 mm%s", "-%s", "+%s:00", "%s.%s", "m%s d1 y1", "d%s m1 y1", "2000 d%s", "%s ago"]).replace("%s", w)
        return r.choice(["", " ", "T", "P", "PT", "p1y", "P1y", "- ", "-", "+", "+-1", "--1", "@", "@ @", "1 @", ":", "::", ".", "..", "1..2", "1.-2",
                         "1-", "1/", "1.", "1:", "1a", "1-a", "a1", "a-1", "j", "J", "J-1", "j.5", "y", "infinity infinity",
                         "infinity 2000-01-01", "2000-01-01 infinity", "24:00:00.000001", "24:00:01", "23:59:60", "23:59:60.5", "23:59:59.9999999",
                         "00:00:60", "12:00 am pm", "13:00 am", "0:00 pm", "12 am", "2000-02-30", "1900-02-29", "2000-02-29", "0000-01-01", "0-1-1",
                         "4714-11-24 BC", "4714-11-23 BC", "4713-01-01 BC", "294276-12-31 23:59:59.999999", "294276-12-31 23:59:59.9999999",
                         "294277-01-01", "5874897-12-31", "5874898-01-01", "294276-12-31 24:00:00", "J0", "2000-12-31 24:00", "2000-01-01 allballs",
                         "allballs 2000-01-01", "2000-366", "1999-366", "2000.366", "2000366", "1999-01-08 04:05:06-8", "01/02/03", "02/03/01 BC",
                         "99-01-08", "70-01-01", "69-12-31", "00-01-01", "00-01-01 BC", "1-1-1 BC", "0044-03-15 BC", "2000-01-01T", "T12", "t1234",
                         "2000-01-01 T12:30", "20000101T", "20000101T123456.789", "2000-01-01 123456.7", "2000-01-01 1234", "2000-01-01 12"])


def B8(s):
    return list(s.encode("utf8"))
