"""C13: serial number <-> calendar conversions."""
import datetime as dt
from mc import Space, Result
from xl import *
from xlrd import xldate as X

ID = "C13"
LEVEL = "exploration"
TECHNIQUE = "complete enumeration of both date systems (every day, every second, tuple neighbourhoods) against the proleptic calendar"
NOTE = ("Every day of both date systems, every second of sampled days with offsets inside the rounding interval, every millisecond pattern "
        "of sampled seconds, and all small/edge date and time tuples are converted both ways; oracle: Python's datetime calendar.")
RULE = ("A case is a block of serial numbers or tuples; evaluations = individual conversions compared with the calendar. Every block is non-trivial.")
ASSUMPTIONS = ["Python's proleptic Gregorian calendar is the reference; Excel's serial 60 (29 Feb 1900) belongs to the documented ambiguous range"]

EPOCH = (dt.date(1899, 12, 30), dt.date(1904, 1, 1))
FIRST = (61, 1)
LAST = ((dt.date(9999, 12, 31) - EPOCH[0]).days, (dt.date(9999, 12, 31) - EPOCH[1]).days)


def exc(fn, *a):
    try:
        return fn(*a)
    except Exception as e:
        return type(e)


class Days(Space):
    name = "every day"
    bound = "all valid days of both date systems"
    step = 20000
    step1 = 1

    def gen(self):
        for mode in (0, 1):
            for lo in range(FIRST[mode], LAST[mode] + 1, self.step):
                yield (mode, lo, min(lo + self.step, LAST[mode] + 1))

    def judge(self, case):
        mode, lo, hi = case
        ep = EPOCH[mode].toordinal()
        n = 0
        for x in range(lo, hi, self.step1):
            d = dt.date.fromordinal(ep + x)
            t3 = (d.year, d.month, d.day)
            if X.xldate_as_tuple(x, mode) != t3 + (0, 0, 0):
                return Result("xldate_as_tuple(%r,%d) = %r, should be %r" % (x, mode, X.xldate_as_tuple(x, mode), t3))
            if X.xldate_as_tuple(x + 0.75, mode) != t3 + (18, 0, 0):
                return Result("xldate_as_tuple(%r,%d) = %r, should be %r 18:00" % (x + 0.75, mode, X.xldate_as_tuple(x + .75, mode), t3))
            v = X.xldate_from_date_tuple(t3, mode)
            if v != x or not isinstance(v, float):
                return Result("xldate_from_date_tuple(%r,%d) = %r, should be %r" % (t3, mode, v, float(x)))
            if X.xldate_from_datetime_tuple(t3 + (18, 0, 0), mode) != x + 0.75:
                return Result("xldate_from_datetime_tuple(%r 18:00,%d) wrong" % (t3, mode))
            if X.xldate_as_datetime(x + 0.25, mode) != dt.datetime(d.year, d.month, d.day, 6):
                return Result("xldate_as_datetime(%r,%d) = %r" % (x + 0.25, mode, X.xldate_as_datetime(x + .25, mode)))
            n += 5
        return Result(outcome=case, evals=n)


class Seconds(Space):
    name = "every second of a day"

    def __init__(self, days):
        self.days = days
        self.bound = "86400 seconds x offsets x %d days x 2 modes" % len(days)

    def gen(self):
        for day in self.days:
            for mode in (0, 1):
                for h in range(24):
                    yield (day, mode, h)

    def judge(self, case):
        day, mode, h = case
        n = 0
        if day:
            d = dt.date.fromordinal(EPOCH[mode].toordinal() + day)
            pre = (d.year, d.month, d.day)
            base = dt.datetime(d.year, d.month, d.day)
        else:
            pre = (0, 0, 0)
            base = dt.datetime(1904, 1, 1) if mode else dt.datetime(1899, 12, 31)
        for s in range(h * 3600, h * 3600 + 3600):
            t = (s // 3600, s // 60 % 60, s % 60)
            v = X.xldate_from_time_tuple(t)
            if abs(v - s / 86400.0) > 1e-15:
                return Result("xldate_from_time_tuple(%r) = %r, should be %r" % (t, v, s / 86400.0))
            if day:
                w = X.xldate_from_datetime_tuple(pre + t, mode)
                if abs(w - (day + s / 86400.0)) > 1e-9:
                    return Result("xldate_from_datetime_tuple(%r) = %r" % (pre + t, w))
            else:
                w = v
            if X.xldate_as_tuple(w, mode) != pre + t:
                return Result("round trip of %r mode %d gives %r" % (pre + t, mode, X.xldate_as_tuple(w, mode)))
            for off in (-0.499, -0.3, 0.3, 0.499):
                x = day + (s + off) / 86400.0
                if x < 0:
                    continue
                if X.xldate_as_tuple(x, mode) != pre + t:
                    return Result("xldate_as_tuple(%r,%d) = %r, nearest second is %r" % (x, mode, X.xldate_as_tuple(x, mode), pre + t))
                n += 1
            for ms in (0, 1, 499, 500, 999):
                x = day + (s + ms / 1000.0) / 86400.0
                want = base + dt.timedelta(seconds=s, milliseconds=ms)
                if X.xldate_as_datetime(x, mode) != want:
                    return Result("xldate_as_datetime(%r,%d) = %r, should be %r" % (x, mode, X.xldate_as_datetime(x, mode), want))
            n += 8
        return Result(outcome=case, evals=n)


class Millis(Space):
    name = "every millisecond of some seconds"
    bound = "1000 ms x 40 seconds x 3 offsets x 2 modes"

    def gen(self):
        for mode in (0, 1):
            for day in (0, 61, 25569, 43000):
                for s in (0, 1, 59, 60, 3599, 3600, 43199, 43200, 86398, 86399):
                    yield (mode, day, s)

    def judge(self, case):
        mode, day, s = case
        if day == 0 or mode == 1:
            base = (dt.datetime(1904, 1, 1) if mode else dt.datetime(1899, 12, 31)) + dt.timedelta(day)
        else:
            base = dt.datetime(1899, 12, 30) + dt.timedelta(day)
        n = 0
        for ms in range(1000):
            for off in (-0.4, 0, 0.4):
                x = day + (s + (ms + off) / 1000.0) / 86400.0
                if x < 0:
                    continue
                want = base + dt.timedelta(seconds=s, milliseconds=ms)
                if X.xldate_as_datetime(x, mode) != want:
                    return Result("xldate_as_datetime(%r,%d) = %r, should be %r" % (x, mode, X.xldate_as_datetime(x, mode), want))
                n += 1
        return Result(outcome=case, evals=n)


class Midnight(Space):
    name = "rounding up to midnight"
    bound = "last half second of edge days, both modes"

    def gen(self):
        for mode in (0, 1):
            for day in (0, 1, 58, 59, 60, 61, 62, 365, 366, 36525, 36584, 36585, LAST[mode] - 1, LAST[mode], LAST[mode] + 1, LAST[mode] + 2, 3000000):
                yield (mode, day)

    def judge(self, case):
        mode, day = case
        n = 0
        for off, up in ((0.0, 0), (0.3, 0), (86399.0, 0), (86399.49, 0), (86399.51, 1), (86399.9, 1), (86399.999, 1)):
            x = day + off / 86400.0
            s = 0 if up else int(off + 0.5)
            d = day + up
            if x == 0:
                want = (0,) * 6
            elif d > LAST[mode]:
                want = X.XLDateTooLarge
            elif d == 0:
                want = (0, 0, 0, s // 3600, s // 60 % 60, s % 60)
            elif d < 61 and mode == 0:
                want = X.XLDateAmbiguous
            else:
                q = dt.date.fromordinal(EPOCH[mode].toordinal() + d)
                want = (q.year, q.month, q.day, s // 3600, s // 60 % 60, s % 60)
            got = exc(X.xldate_as_tuple, x, mode)
            if got != want:
                return Result("xldate_as_tuple(%r,%d) gives %r, should be %r" % (x, mode, got, want))
            n += 1
        return Result(outcome=case, evals=n)


class Early(Space):
    name = "datetimes before March 1900"
    bound = "serials 0..62 in quarter days"

    def gen(self):
        for q in range(0, 4 * 62):
            yield q

    def judge(self, q):
        x = q / 4.0
        for mode in (0, 1):
            if mode:
                want = dt.datetime(1904, 1, 1) + dt.timedelta(x)
            elif x < 60:
                want = dt.datetime(1899, 12, 31) + dt.timedelta(x)
            elif x >= 61:
                want = dt.datetime(1899, 12, 30) + dt.timedelta(x)
            else:
                continue
            got = exc(X.xldate_as_datetime, x, mode)
            if got != want:
                return Result("xldate_as_datetime(%r,%d) gives %r, should be %r" % (x, mode, got, want))
            got = exc(X.xldate_as_tuple, x, mode)
            if 1 <= x < 61 and mode == 0:
                want2 = X.XLDateAmbiguous
            else:
                want2 = ((0, 0, 0) if x < 1 else (want.year, want.month, want.day)) + (want.hour, 0, 0)
            if got != want2:
                return Result("xldate_as_tuple(%r,%d) gives %r, should be %r" % (x, mode, got, want2))
        return Result(outcome=q, evals=4)


class DateTuples(Space):
    name = "date tuple neighbourhoods"

    def __init__(self, years):
        self.years = years
        self.bound = "%d years x months -1..14 x days -1..33" % len(years)

    def gen(self):
        for y in self.years:
            yield y

    def judge(self, y):
        n = 0
        for m in range(-1, 15):
            for d in range(-1, 34):
                for mode in (0, 1):
                    if (y, m, d) == (0, 0, 0):
                        want = 0.0
                    else:
                        try:
                            q = dt.date(y, m, d)
                            if y < 1900:
                                raise ValueError
                            want = float((q - EPOCH[mode]).days)
                            if mode == 0 and want < 61:
                                want = X.XLDateAmbiguous
                            elif want is not X.XLDateAmbiguous and want <= 0:
                                want = X.XLDateBadTuple
                        except ValueError:
                            want = X.XLDateBadTuple
                    got = exc(X.xldate_from_date_tuple, (y, m, d), mode)
                    if got != want:
                        return Result("xldate_from_date_tuple(%r,%d) gives %r, should be %r" % ((y, m, d), mode, got, want))
                    g2 = exc(X.xldate_from_datetime_tuple, (y, m, d, 12, 0, 0), mode)
                    w2 = want + 0.5 if isinstance(want, float) else want
                    if g2 != w2:
                        return Result("xldate_from_datetime_tuple(%r 12:00,%d) gives %r, should be %r" % ((y, m, d), mode, g2, w2))
                    n += 2
        return Result(outcome=y, evals=n)


class TimeTuples(Space):
    name = "time tuples and bad arguments"
    bound = "hours -2..26, minutes and seconds -2..62 edges"

    def gen(self):
        for h in range(-2, 27):
            yield h

    def judge(self, h):
        n = 0
        R = [-2, -1, 0, 1, 30, 58, 59, 60, 61, 62]
        for m in R:
            for s in R:
                got = exc(X.xldate_from_time_tuple, (h, m, s))
                if 0 <= h < 24 and 0 <= m < 60 and 0 <= s < 60:
                    if not isinstance(got, float) or abs(got - (h * 3600 + m * 60 + s) / 86400.0) > 1e-15:
                        return Result("xldate_from_time_tuple(%r) gives %r" % ((h, m, s), got))
                elif got is not X.XLDateBadTuple:
                    return Result("xldate_from_time_tuple(%r) gives %r, should raise XLDateBadTuple" % ((h, m, s), got))
                n += 1
        for x in (1e-9, 0.5, 1, 60, 61, 40000.5, 1e7):
            for bad in (-1, 2, 3, None, "0", 1904):
                got = exc(X.xldate_as_tuple, x, bad)
                g2 = exc(X.xldate_from_date_tuple, (2000, 1, 1), bad)
                if got is not X.XLDateBadDatemode or g2 is not X.XLDateBadDatemode:
                    return Result("datemode %r accepted: %r %r" % (bad, got, g2))
                n += 2
            for mode in (0, 1):
                got = exc(X.xldate_as_tuple, -x, mode)
                if got is not X.XLDateNegative:
                    return Result("xldate_as_tuple(%r) gives %r, should raise XLDateNegative" % (-x, got))
                n += 1
        for cls in (X.XLDateNegative, X.XLDateAmbiguous, X.XLDateTooLarge, X.XLDateBadDatemode, X.XLDateBadTuple):
            if not issubclass(cls, X.XLDateError) or not issubclass(cls, ValueError):
                return Result("%r is not an XLDateError/ValueError" % cls)
        if xlrd.xldate_as_tuple is not X.xldate_as_tuple or xlrd.xldate_as_datetime is not X.xldate_as_datetime:
            return Result("package-level functions differ from the module's")
        return Result(outcome=h, evals=n)


def spaces(tier):
    q = tier == "quick"
    days = (0, 61, 43000) if q else (0, 61, 365, 366, 1462, 25569, 36525, 43000, 60000, 109000, LAST[1])
    years = ([-1, 0, 1, 1582, 1899, 1900, 1901, 1903, 1904, 1905, 1999, 2000, 2001, 2099, 2100, 2400, 9996, 9999, 10000, 10001]
             if q else list(range(1890, 2110)) + [-1, 0, 1, 2400, 9996, 9999, 10000])
    return [Days(), Seconds(days), Millis(), Midnight(), Early(), DateTuples(years), TimeTuples()]
