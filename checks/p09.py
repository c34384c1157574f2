"""P09: timestamps."""
import datetime, os, time
from hypothesis import strategies as st
from vp.engine import Check, expect, same

ZONES = {"UTC": 0, "XXX-3": 3 * 3600, "XXX-7": 7 * 3600, "XXX+5": -5 * 3600, "XXX-5:30": 19800}
SUMMER = ["CET-1CEST,M3.5.0,M10.5.0/3", "EST5EDT,M3.2.0,M11.1.0", "NZST-12NZDT,M9.5.0,M4.1.0/3", "XXX-3YYY-5,J100,J200"]


def offset(zone, t):
    """offset of local time by the C library's reading of the zone"""
    old = os.environ.get("TZ")
    os.environ["TZ"] = zone
    time.tzset()
    try:
        return time.localtime(t).tm_gmtoff
    finally:
        if old is None:
            del os.environ["TZ"]
        else:
            os.environ["TZ"] = old
        time.tzset()


UNIX_FT = 11644473600          # seconds from 1601 to 1970
V8_UNIT = 10000                # container time: 1/10000 s since 0001-01-01
V8_UNIX = 62135596800          # seconds from 0001 to 1970
LO, HI = -UNIX_FT, 253402300799 - 86400     # 1601 .. 9999 (one day of room for zones)

instants = st.one_of(
    st.integers(LO + 86400, HI), st.integers(0, 2 ** 32),
    st.sampled_from([0, 1, -1, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1, 2 ** 32, LO + 86400, HI, 951782400, 1709164799, 4107542399]),
    st.integers(-2 ** 31, -1))


class C(Check):
    id = "P09"
    rule = ("random instants 1601..9999 (uniform, around 1970/2038/2106, leap days) in five fixed-offset time zones and four with summer time (outside the hours around a change), with and without a "
            "fraction of a second, converted between container time, file time and Unix time. Every case is non-trivial.")
    quick, thorough = 2500, 100000

    def strategy(self, tier):
        return st.tuples(st.sampled_from(["v8", "unix", "1cd", "utime", "frac", "now", "summer"]), st.sampled_from(sorted(ZONES)), instants, st.integers(0, 9999)).map(list)

    def run(self, case, ctx):
        ex = ctx.ex
        k, tz, t, frac = case
        if k == "summer":
            tz = SUMMER[(t + frac) % len(SUMMER)]
            off = offset(tz, t)
            if {offset(tz, t - 10800), offset(tz, t + 10800)} != {off}:
                return ["ambiguous"]
        else:
            off = ZONES[tz]
        ft = (t + UNIX_FT) * 10000000
        v8 = (t + off + V8_UNIX) * V8_UNIT       # container times are local
        what = "instant %d (%s), zone %s" % (t, datetime.datetime(1970, 1, 1) + datetime.timedelta(seconds=t), tz)
        if k in ("v8", "summer"):
            r = ex.call("time.v8.toft", tz, v8)
            same(int(r[0]), ft, "file time of container time %d; %s" % (v8, what))
            same(int(r[1]), v8, "container time as written")
            r = ex.call("time.v8.fromft", tz, ft)
            same([int(x) for x in r], [v8, v8], "container time of file time %d; %s" % (ft, what))
        elif k == "frac":                          # coarser resolution: within the same second
            r = int(ex.call("time.v8.toft", tz, v8 + frac)[0])
            expect(abs(r - (ft + frac * 1000)) < 10000000, "file time of container time %d is %d, expected about %d; %s", v8 + frac, r, ft + frac * 1000, what)
            r = int(ex.call("time.v8.fromft", tz, ft + frac * 1000)[0])
            expect(abs(r - (v8 + frac)) < V8_UNIT, "container time of file time %d is %d, expected about %d; %s", ft + frac * 1000, r, v8 + frac, what)
            r = int(ex.call("time.posix", tz, ft + frac * 1000)[0])
            expect(r in (t, t + 1) if t < 0 else r == t, "Unix time of file time %d is %d, expected %d", ft + frac * 1000, r, t)
        elif k == "unix":
            same(int(ex.call("time.posix", tz, ft)[0]), t, "Unix time of file time; %s" % what)
            same(int(ex.call("time.unix", tz, t)[0]), ft, "file time of Unix time; %s" % what)
        elif k == "1cd":
            d = datetime.datetime(1970, 1, 1) + datetime.timedelta(seconds=t + off)
            raw = bytes.fromhex(d.strftime("%Y%m%d%H%M%S").rjust(14, "0"))
            same(int(ex.call("time.1cd", tz, raw)[0]), ft, "file time of the date field %s; %s" % (raw.hex(), what))
        elif k == "utime":
            v2 = v8 - frac * V8_UNIT
            if t - frac < LO:
                return ["skip"]
            same([int(x) for x in ex.call("time.v8.utime", tz, v2, v8)], [t - frac, t], "file times; %s" % what)
        else:
            a = time.time()
            v = int(ex.call("time.v8.now", tz)[0])
            b = time.time()
            now = v / V8_UNIT - V8_UNIX - off
            expect(int(a) - 1 <= now <= b + 1, "current container time %d in zone %s is off by %.0f s", v, tz, now - a)
        return [k, tz]


CHECK = C()
