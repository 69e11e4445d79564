"""C08: serial dates, ISO texts and date/time metadata denote the same moment."""
import datetime as pydt
import logging
import math
import os

from .common import *

ID = "C08"
U = "rsciio/utils/_date_time.py"
ORIGIN = pydt.datetime(1899, 12, 30)
EPOCH = ORIGIN


def secs_of(d):
    x = d.replace(tzinfo=None) - EPOCH
    return z3.RealVal("%d/1000000" % ((x.days * 86400 + x.seconds) * 1000000 + x.microseconds))


class Zone:
    """a time zone: offset to UTC in seconds"""

    def __init__(self, name, off):
        self.name, self.off = name, off

    def __bool__(self):
        return True


UTC = Zone("UTC", z3.RealVal(0))


class Delta:
    def __init__(self, secs):
        self.secs = secs

    def _days(self):
        return z3.ToInt(self.secs / 86400)

    days = property(lambda self: mk_int(self._days()))

    def _rest(self):
        return self.secs - z3.ToReal(self._days()) * 86400

    seconds = property(lambda self: mk_int(z3.ToInt(self._rest())))
    microseconds = property(lambda self: mk_real((self._rest() - z3.ToReal(z3.ToInt(self._rest()))) * 1000000))

    def total_seconds(self):
        return mk_real(self.secs)

    def __truediv__(self, o):
        if isinstance(o, Delta):
            return mk_real(self.secs / o.secs)
        raise Unsupported("timedelta / number")


def delta(days=0, seconds=0, microseconds=0, milliseconds=0, minutes=0, hours=0, weeks=0):
    return Delta(z3.simplify(re_(days) * 86400 + re_(seconds) + re_(microseconds) / 1000000 + re_(milliseconds) / 1000
                             + re_(minutes) * 60 + re_(hours) * 3600 + re_(weeks) * 604800))


class Moment:
    """date and time: seconds of the wall clock, and a time zone"""

    def __init__(self, wall, zone):
        self.wall, self.tzinfo = wall, zone

    def utc(self):
        return self.wall - self.tzinfo.off

    def replace(self, tzinfo=0, **k):
        if k or tzinfo == 0:
            raise Unsupported("datetime.replace(%s)" % ", ".join(k))
        return Moment(self.wall, tzinfo)

    def astimezone(self, zone):
        return Moment(self.utc() + zone.off, zone)

    def __sub__(self, o):
        if isinstance(o, Moment):
            if (o.tzinfo is None) != (self.tzinfo is None):
                raise TypeError("can't subtract offset-naive and offset-aware datetimes")
            return Delta(self.wall - o.wall if o.tzinfo is None else self.utc() - o.utc())
        return Moment(self.wall - o.secs, self.tzinfo)

    def __add__(self, o):
        return Moment(self.wall + o.secs, self.tzinfo)

    __radd__ = __add__

    def isoformat(self):
        return ("iso", self)

    def time(self):
        return Part("time", self)

    def date(self):
        return Part("date", self)

    def tzname(self):
        return self.tzinfo.name


class Part:
    def __init__(self, which, m):
        self.which, self.m = which, m

    def isoformat(self):
        return ("iso", self.which, self.m)


class Dt:
    timedelta = staticmethod(delta)

    class datetime:
        def __new__(cls, *a, tzinfo=None):
            return Moment(secs_of(pydt.datetime(*a)), tzinfo)


class Tz:
    LOCAL = None
    known = None

    @staticmethod
    def tzutc():
        return UTC

    UTC = UTC

    @staticmethod
    def tzlocal():
        return Tz.LOCAL

    @staticmethod
    def gettz(name):
        if name == "UTC":
            return UTC
        expect(name == "ZONE", "the time zone that was given is looked up")
        return Tz.known


class Parser:
    """dateutil's parser on the texts that can occur"""
    wall = None
    zone = None        # zone written in the time itself
    offset = None      # zone that "ZONE" denotes

    @classmethod
    def parse(cls, text, *a, **k):
        w = cls.wall
        if text == "DATETTIME":
            return Moment(w, cls.zone)
        if text == "DATETTIMEZONE":
            expect(cls.zone is None, "one time zone")
            return Moment(w, cls.offset)
        if text == "TIME":
            return Moment(w, None)
        if text == "DATE":
            return Moment(w, None)
        expect(False, "the text of a date, a time and a zone is parsed: %r" % text)


def mod(**np_over):
    return load_module(U, {"datetime": Dt, "tz": Tz, "parser": Parser}, np_over=np_over)


def real_(name):
    return z3.Real(name)


def serial_in():
    m = mod()
    s = fresh_real("serial")
    d = m.serial_date_to_datetime(s)
    expect(d.tzinfo is UTC, "in UTC")
    prove(d.utc() == re_(s) * 86400, "the moment: origin plus the serial date, in days")


def serial_out(zone):
    def run():
        m = mod()
        w = re_(fresh_real("wall"))
        z = None if zone is None else Zone("z", re_(fresh_real("offset")))
        s = m.datetime_to_serial_date(Moment(w, z))
        prove(re_(s) * 86400 == (w if z is None else w - z.off), "days since the origin (UTC if no time zone is given)")
    return run


def round_trip():
    m = mod()
    s = fresh_real("serial")
    prove(re_(m.datetime_to_serial_date(m.serial_date_to_datetime(s))) == re_(s), "serial date and back")
    w = re_(fresh_real("wall"))
    d = m.serial_date_to_datetime(m.datetime_to_serial_date(Moment(w, UTC)))
    prove(d.utc() == w, "date and back")


def to_iso():
    m = mod()
    Tz.LOCAL = Zone("LOCAL", re_(fresh_real("local")))
    s = fresh_real("serial")
    date, time, name = m.serial_date_to_ISO_format(s)
    expect(date[:2] == ("iso", "date") and time[:2] == ("iso", "time") and name == "LOCAL", "date, time and zone")
    for p in (date[2], time[2]):
        expect(p.tzinfo is Tz.LOCAL, "in local time")
        prove(p.utc() == re_(s) * 86400, "the same moment")


def from_iso(case):
    def run():
        m = mod()
        Parser.wall = w = re_(fresh_real("wall"))
        off = Zone("off", re_(fresh_real("offset")))
        Parser.zone = Parser.offset = Tz.known = None
        if case == "known zone":
            Tz.known = off
        elif case == "numeric zone":
            Parser.offset = off
        elif case == "zone in the time":
            Parser.zone = off
        else:
            off = UTC
        args = ("DATE", "TIME") if case == "default" else ("DATE", "TIME", None) if case == "None" else \
            ("DATE", "TIME", "Coordinated Universal Time") if case == "long" else ("DATE", "TIME", "ZONE")
        prove(re_(m.ISO_format_to_serial_date(*args)) * 86400 == w - off.off, "the same moment")
    return run


def metadata(date, time, zone, fmt):
    def run():
        seen = []
        m = mod(datetime64=lambda x: ("dt64", x))
        Parser.wall = w = re_(fresh_real("wall"))
        off = Zone("off", re_(fresh_real("offset")))
        Parser.zone = None
        Tz.known = off if zone == "known" else None
        Parser.offset = off if zone == "numeric" else None
        g = {}
        if date:
            g["date"] = "DATE"
        if time:
            g["time"] = "TIME"
        if zone:
            g["time_zone"] = "ZONE"
        before = dict(g)
        r = m.get_date_time_from_metadata({"General": g}, **({} if fmt is None else dict(formatting=fmt)))
        expect(g == before, "the metadata are left alone")
        if not date and not time:
            expect(r is None, "nothing to return")
            return
        if fmt == "datetime64":
            expect(r == ("dt64", "DATETTIME" if date and time else "DATE"), "local date and time")
            return
        if fmt in (None, "ISO"):
            expect(r[0] == "iso" and len(r) == (2 if date and time else 3), "ISO text")
            if len(r) == 3:
                expect(r[1] == ("date" if date else "time"), "the part that is there")
            d = r[-1]
        else:
            if not (date and time):
                expect(isinstance(r, Part) and r.which == ("date" if date else "time"), "the part that is there")
                d = r.m
            else:
                d = r
        prove(d.wall == w, "date and time")
        if date and time:
            expect((d.tzinfo is None) if zone is None else d.tzinfo is off, "time zone")
    return run


F = lambda *n: [U + ":" + x for x in n]
CONTRACTS = [
    Contract("serial date to datetime", serial_in, F("serial_date_to_datetime")),
    Contract("datetime to serial date", serial_out(True), F("datetime_to_serial_date")),
    Contract("datetime without zone to serial date", serial_out(None), F("datetime_to_serial_date")),
    Contract("round trip", round_trip, F("datetime_to_serial_date", "serial_date_to_datetime")),
    Contract("serial date to ISO", to_iso, F("serial_date_to_ISO_format", "serial_date_to_datetime")),
]
for _c in ("default", "None", "long", "known zone", "numeric zone", "zone in the time"):
    CONTRACTS.append(Contract("ISO to serial date: %s" % _c, from_iso(_c), F("ISO_format_to_serial_date", "datetime_to_serial_date")))
for _d in (0, 1):
    for _t in (0, 1):
        for _z in (None, "known", "numeric"):
            for _f in (None, "ISO", "datetime", "datetime64"):
                if _f == "datetime64" and _t and not _d:
                    continue
                CONTRACTS.append(Contract("metadata:%s%s%s as %s" % (" date" if _d else "", " time" if _t else "",
                                                                     " zone %s" % _z if _z else "", _f or "default"),
                                          metadata(_d, _t, _z, _f), F("get_date_time_from_metadata")))

ASSUMPTIONS = [
    "datetime arithmetic is exact (real numbers); the rounding to microseconds and of serial dates as floating point "
    "numbers is checked by the search only",
    "dateutil parses ISO texts and finds time zones",
    "a time without date cannot be given as numpy.datetime64 (error)",
]


def search(s):
    logging.disable(logging.CRITICAL)
    import sys
    import warnings
    warnings.simplefilter("ignore")
    from dateutil import tz
    import rsciio.utils._date_time as m
    rng = s.rng
    utc = pydt.timezone.utc
    o = pydt.datetime(1899, 12, 30, tzinfo=utc)
    us = pydt.timedelta(microseconds=1)

    def moment():
        k = rng.choice(["any", "old", "day", "near", "recent"])
        if k == "day":
            return o + pydt.timedelta(rng.randint(-100000, 100000))
        if k == "near":
            return o + pydt.timedelta(rng.randint(-2, 2), rng.randint(-3, 3), rng.randint(-3, 3))
        lo = {"any": -600000, "old": -3000, "recent": 40000}[k]
        hi = {"any": 100000, "old": 0, "recent": 50000}[k]
        return o + pydt.timedelta(rng.randint(lo, hi), rng.randint(0, 86399), rng.choice([0, 1, 500000, 999999, rng.randint(0, 999999)]))
    import time as systime
    old_tz = os.environ.get("TZ")
    for it in range(s.n(4000, 100000)):
        if not s.left():
            break
        if it % 200 == 0:       # local time zones without daylight saving time
            os.environ["TZ"] = ("UTC", "AAA5", "BBB-5:30", "CCC-13")[it // 200 % 4]
            systime.tzset()
        d = moment()
        delta_ = d - o
        exact = delta_ / us / 86400e6
        tol = us * max(2, math.ceil(abs(exact) * 2 ** -52 * 86400e6 * 2))
        case = dict(moment=d.isoformat(), serial=exact)
        s.note(case)
        try:
            got = m.serial_date_to_datetime(exact)
            s.check(got.utcoffset() == pydt.timedelta(0) and abs(got - d) <= tol, "serial date to datetime",
                    dict(case, got=got.isoformat()))
            ser = m.datetime_to_serial_date(d)
            s.check(abs(ser - exact) * 86400e6 <= tol / us, "datetime to serial date", dict(case, got=ser))
            off = rng.choice([0, 60, -300, 330, 765, -720])
            z = pydt.timezone(pydt.timedelta(minutes=off))
            try:
                dz = d.astimezone(z)
            except OverflowError:
                continue
            s.check(abs(m.datetime_to_serial_date(dz) - exact) * 86400e6 <= tol / us, "zone aware datetime to serial date",
                    dict(case, zone=off))
            s.check(abs(m.datetime_to_serial_date(d.replace(tzinfo=None)) - exact) * 86400e6 <= tol / us,
                    "datetime without zone to serial date", case)
            date, time, name = m.serial_date_to_ISO_format(exact)
            back = pydt.datetime.fromisoformat("%sT%s" % (date, time)).replace(tzinfo=tz.tzlocal())
            s.check(abs(back - d) <= tol and name == back.tzname(), "serial date to ISO", dict(case, got=[date, time, name]))
            text = "%s%02d:%02d" % ("-" if off < 0 else "+", abs(off) // 60, abs(off) % 60)
            for args, want in (((text,), dz), (("UTC",), d), ((None,), d), (("Coordinated Universal Time",), d), ((), d)):
                ser = m.ISO_format_to_serial_date(want.date().isoformat(), want.time().isoformat(), *args)
                s.check(abs(ser - exact) * 86400e6 <= tol / us, "ISO to serial date", dict(case, zone=args, got=ser))
            name = rng.choice(["EST", "Asia/Tokyo", "Asia/Kolkata"])
            if tz.gettz(name) is not None and d.year > 1970:
                dn = d.astimezone(tz.gettz(name))
                ser = m.ISO_format_to_serial_date(dn.date().isoformat(), dn.time().isoformat(), name)
                s.check(abs(ser - exact) * 86400e6 <= tol / us, "ISO to serial date", dict(case, zone=name, got=ser))
                md = {"General": {"date": dn.date().isoformat(), "time": dn.time().isoformat(), "time_zone": name}}
                s.check(m.get_date_time_from_metadata(md, "datetime") == d, "metadata with a named zone", dict(case, zone=name))
            md = {"General": {"date": dz.date().isoformat(), "time": dz.time().isoformat(), "time_zone": text}}
            s.check(pydt.datetime.fromisoformat(m.get_date_time_from_metadata(md)) == d, "metadata as ISO", case)
            s.check(m.get_date_time_from_metadata(md, "datetime") == d, "metadata as datetime", case)
            s.check(m.get_date_time_from_metadata(md, "datetime64") == np.datetime64(dz.replace(tzinfo=None)),
                    "metadata as datetime64", case)
            md = {"General": {"date": d.date().isoformat(), "time": d.time().isoformat(), "time_zone": "UTC"}}
            s.check(m.get_date_time_from_metadata(md, "datetime") == d, "metadata with UTC", case)
            md = {"General": {"date": d.date().isoformat()}}
            s.check(m.get_date_time_from_metadata(md) == d.date().isoformat()
                    and m.get_date_time_from_metadata(md, "datetime64") == np.datetime64(d.date()), "metadata, date only", case)
            md = {"General": {"time": d.time().isoformat()}}
            s.check(m.get_date_time_from_metadata(md) == d.time().isoformat(), "metadata, time only", case)
            ticks = (d.replace(tzinfo=None) - pydt.datetime(1601, 1, 1)) // us * 10
            if ticks >= 0:
                s.check(abs(m.msfiletime_to_unix(ticks) - d.replace(tzinfo=None)) <= 2 * us, "Windows file time", case)
        except (Failure, KeyboardInterrupt):
            raise
        except Exception as exc:
            s.fail("conversion fails: %r" % exc, case)
    if old_tz is None:
        os.environ.pop("TZ", None)
    else:
        os.environ["TZ"] = old_tz
    systime.tzset()
