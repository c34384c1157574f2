"""P07: packed decimal numbers and dates."""
import datetime
from hypothesis import strategies as st
from vp.engine import Check, expect, same


def present(neg, ints, frac):
    """digit strings -> canonical text"""
    i = ints.lstrip("0") or "0"
    f = frac.rstrip("0")
    return ("-" if neg else "") + i + ("." + f if f else "")


def pack(digits, sign):
    """sign: None, 1 or 0 as leading nibble"""
    h = ("" if sign is None else str(sign)) + digits
    if len(h) % 2:
        h += "0"
    return bytes.fromhex(h)


@st.composite
def number(draw, kind):
    length = draw(st.one_of(st.integers(1, 9), st.integers(1, 38)))
    prec = draw(st.integers(0, length - 1)) if draw(st.booleans()) else 0
    digits = draw(st.one_of(st.text("0123456789", min_size=length, max_size=length), st.sampled_from(["0" * length, "9" * length]),
                            st.tuples(st.integers(0, length), st.text("0123456789", min_size=length, max_size=length)).map(lambda t: "0" * t[0] + t[1][t[0]:])))
    return [kind, length, prec, draw(st.booleans()), digits, draw(st.integers(0, 3)), draw(st.booleans())]


dates = st.tuples(st.integers(1, 9999), st.integers(1, 12), st.integers(1, 31), st.integers(0, 23), st.integers(0, 59), st.integers(0, 59)).map(
    lambda t: (t[0], t[1], min(t[2], (datetime.date(t[0] + (t[1] == 12), t[1] % 12 + 1, 1) - datetime.timedelta(1)).day if (t[0], t[1]) != (9999, 12) else 31)) + t[3:])


class C(Check):
    id = "P07"
    rule = ("random numbers of length 1..38 and precision below it, signed, in packed and text form (text written with or without "
            "leading/trailing zeros, with more fraction digits than are kept, or too large for the field, which keeps nines then); random calendar dates 0001..9999. Non-trivial: a non-zero number or any date.")
    quick, thorough = 4000, 100000

    def strategy(self, tier):
        return st.one_of(number("read"), number("parse"), number("extra"), number("parts"), dates.map(lambda d: ["date", list(d)]), st.tuples(st.just("short"), dates.map(list), st.integers(0, 19)).map(list))

    def run(self, case, ctx):
        ex, k = ctx.ex, case[0]
        if k in ("read", "parse", "extra", "parts"):
            _, length, prec, neg, digits, lead, trail = case
            ints, frac = digits[:length - prec], digits[length - prec:]
            zero = not digits.strip("0")
            if k == "read":
                raw = pack(digits, 0 if neg else 1)
                t, back = ex.call("bcd.read", raw, length, prec, 1)
                want = present(neg, ints, frac)
                if zero:
                    expect(t.decode().lstrip("-") == "0", "text of packed zero: %r", t)
                else:
                    same(t.decode(), want, "text of packed %s (length %d precision %d)" % (raw.hex(), length, prec))
                same(back[:len(raw)], raw, "re-packed form of %s" % raw.hex())
                expect(back[len(raw):] == b"\x5a" * (len(back) - len(raw)), "packing wrote past its size")
                raw = pack(digits, None)
                t, back = ex.call("bcd.read", raw, length, prec, 0)
                if length > 1:
                    same(t.decode(), present(False, ints, frac), "text of unsigned packed %s" % raw.hex())
                    same(back[:len(raw)], raw, "re-packed form of unsigned %s" % raw.hex())
            else:
                i = "0" * (lead % 2) * 0 + (ints.lstrip("0") or "0")
                f = frac if trail else frac.rstrip("0")
                neg = neg and not zero
                t = ("-" if neg else "") + i + ("." + f if f else "")
                if len(i) > length - prec:      # no digits before the point: "0.5" in a number without integer digits
                    i = ""
                    t = ("-" if neg else "") + ("." + f if f else "0")
                    if not f or length == prec:
                        return ["skip"]
                raw = pack(digits, 0 if neg else 1)
                if k == "extra":        # more fraction digits than kept, or more integer digits than fit
                    more = "".join(str((int(c) + lead) % 10) for c in digits)[:1 + lead] or "5"
                    if trail and not zero and not prec:
                        t += "." + more
                        p, out = ex.call("bcd.parse", t, 1, length, prec, len(raw) + 8)
                        same(p.decode(), present(neg, ints, frac), "value of %r as number(%d,%d)" % (t, length, prec))
                        same(out[:len(raw)], raw, "packed form of %r as number(%d,%d)" % (t, length, prec))
                    elif trail and not zero and "." in t:
                        t += "0" * (len(ints.lstrip("0") or "0") + prec - len(t.lstrip("-").replace(".", ""))) + more
                        p, out = ex.call("bcd.parse", t, 1, length, prec, len(raw) + 8)
                        same(p.decode(), present(neg, ints, frac), "value of %r as number(%d,%d)" % (t, length, prec))
                        same(out[:len(raw)], raw, "packed form of %r as number(%d,%d)" % (t, length, prec))
                    elif ints.strip("0"):
                        big = "1" + more + ints
                        t = ("-" if neg else "") + big + ("." + frac if prec else "")
                        raw = pack("9" * len(ints) + frac, 0 if neg else 1)
                        p, out = ex.call("bcd.parse", t, 1, length, prec, len(raw) + 8)
                        same(out[:len(raw)], raw, "packed form of %r as number(%d,%d), which holds at most nines" % (t, length, prec))
                    else:
                        return ["skip"]
                    expect(out[len(raw):] == b"\x5a" * 8, "packing wrote past its size")
                elif k == "parse":
                    p, out = ex.call("bcd.parse", t, 1, length, prec, len(raw) + 8)
                    same(p.decode(), present(neg, ints, frac), "value of %r as number(%d,%d)" % (t, length, prec))
                    same(out[:len(raw)], raw, "packed form of %r as number(%d,%d)" % (t, length, prec))
                    expect(out[len(raw):] == b"\x5a" * 8, "packing wrote past its size")
                else:
                    a, b = ex.call("bcd.parts", t, 1, length, prec)
                    same((a.decode(), b.decode()), (ints, frac), "digits of %r as number(%d,%d)" % (t, length, prec))
        elif k == "date":
            y, m, d, H, M, S = case[1]
            raw = bytes.fromhex("%04d%02d%02d%02d%02d%02d" % (y, m, d, H, M, S))
            disp, c1 = "%02d.%02d.%04d %02d:%02d:%02d" % (d, m, y, H, M, S), "%04d%02d%02d%02d%02d%02d" % (y, m, d, H, M, S)
            r = [x.decode() for x in ex.call("date.read", raw)]
            same(r, [disp] + [str(x) for x in case[1]], "date parts of %s" % raw.hex())
            same([x.decode() for x in ex.call("date.texts", raw)], [disp, c1], "texts of date %s" % raw.hex())
            same(ex.call("date.from", disp), [b"1", raw], "packed form of %r" % disp)
            same(ex.call("date.from1c", c1), [b"1", raw], "packed form of %r" % c1)
            p, out = ex.call("date.parse", disp)
            same((p.decode(), out[:7], out[7:]), (disp, raw, b"\x5a" * 9), "date object of %r" % disp)
        else:
            y, m, d, H, M, S = case[1]
            c1 = "%04d%02d%02d%02d%02d%02d" % (y, m, d, H, M, S)
            n = min(case[2], 14)
            same(ex.call("date.from1c", c1[:n]), [b"1", bytes.fromhex(c1[:n].ljust(14, "0"))], "packed form of the shortened date %r" % c1[:n])
        return [k]

    def nontrivial(self, case, labels):
        return case[0] in ("date", "short") or "skip" not in labels and case[4].strip("0") != ""


CHECK = C()
