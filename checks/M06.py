#!/usr/bin/env python3
"""Calendar: every day of whole 400-year cycles and the days around every year boundary of the whole supported range, every
combination of boundary fields, next to an independent day counter; both directions, and refusal of everything else."""
import os, sys, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import common, batch, cases

ML = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]
def leap(y): return y % 400 == 0 or (y % 4 == 0 and y % 100 != 0)
def mlen(y, m): return 29 if m == 2 and leap(y) else ML[m - 1]
_first = {}
def first_of(y):
    """days from 1970-01-01 to the first of January of year y, by counting"""
    if not _first:
        d = 0
        for i in range(1970, 290310): _first[i] = d; d += 366 if leap(i) else 365
    return _first[y]
def daynum(y, m, d): return first_of(y) + sum(mlen(y, k) for k in range(1, m)) + d - 1

HEAD = "import datetime.datetime\n"
FN = '''
const f = fun(t) { return [t.year, t.month, t.day, t.hour, t.minute, t.second, t.us, t.leap ? 1 : 0, t.timestamp] -> map(x => stringify(x)) -> join(" ") }
'''
# both directions for all days of a span: the program counts the days itself, prints a checksum per month that Python recomputes
def cases_days(lo, hi, chunk):
    for y0 in range(lo, hi, chunk):
        y1 = min(hi, y0 + chunk)
        prog = HEAD + FN + '''
var n = %d
const end = %d
const out = []
var month = 0
var line = ""
while n < end {
    const ts = n * 86_400_000_000 + (n * 7919 %% 86_400) * 1_000_000 + n %% 1_000_000
    const t = datetime(ts)
    const back = datetime(t.year, t.month, t.day, t.hour, t.minute, t.second, t.us)
    if t.month != month {
        print(line)
        month = t.month
        line = string(t.year) + "-" + string(month) + (t.leap ? "L" : " ") + string(t.timestamp) + ":"
    }
    line += string(t.day) + "."
    if back.timestamp != ts || t.timestamp != ts { print("differs " + f(t) + " / " + f(back)) }
    if t.hour * 3600 + t.minute * 60 + t.second != n * 7919 %% 86_400 || t.us != n %% 1_000_000 { print("time " + f(t)) }
    if t.hour < 0 || t.hour > 23 || t.minute < 0 || t.minute > 59 || t.second < 0 || t.second > 59 { print("time " + f(t)) }
    if back.leap != t.leap || back.year != t.year || back.month != t.month || back.day != t.day || back.hour != t.hour || back.minute != t.minute || back.second != t.second || back.us != t.us { print("fields " + f(t) + " / " + f(back)) }
    n += 1
}
print(line)
''' % (first_of(y0), first_of(y1))
        exp = [""]
        for y in range(y0, y1):
            for m in range(1, 13):
                n = daynum(y, m, 1)
                exp.append("%d-%d%s%d:" % (y, m, "L" if leap(y) else " ", n * 86400000000 + (n * 7919 % 86400) * 1000000 + n % 1000000) + "".join("%d." % d for d in range(1, mlen(y, m) + 1)))
        yield "days of %d to %d" % (y0, y1 - 1), prog, exp
# days around the end of February and of the year, first and last moment, for every year of the range
def cases_years(lo, hi, chunk, step):
    for y0 in range(lo, hi, chunk):
        y1 = min(hi, y0 + chunk)
        ys = list(range(y0, y1, step))
        prog = HEAD + FN + '''
const first_n = %d
var day = first_n
var y = %d
const leap = fun(y) { if y %% 400 == 0 { return true }
    if y %% 100 == 0 { return false }
    return y %% 4 == 0 }
const expect = fun(n, y, m, d, last) {
    const ts = n * 86_400_000_000 + (last ? 86_399_999_999 : 0)
    const t = datetime(ts)
    if t.year != y || t.month != m || t.day != d || t.leap != leap(y) || t.hour != (last ? 23 : 0) || t.minute != (last ? 59 : 0) || t.second != (last ? 59 : 0) || t.us != (last ? 999_999 : 0) {
        print("day", n, "year", y, m, d, f(t)) }
    const b = last ? datetime(y, m, d, 23, 59, 59, 999_999) : datetime(y, m, d, 0, 0)
    if b.timestamp != ts { print("back", n, y, m, d, b.timestamp) }
}
while y < %d {
    const l = leap(y) ? 1 : 0
    expect(day, y, 1, 1, false)
    expect(day + 58, y, 2, 28, true)
    if l { expect(day + 59, y, 2, 29, true) }
    expect(day + 59 + l, y, 3, 1, false)
    expect(day + 364 + l, y, 12, 31, true)
    if ! l { var bad = true
        try { datetime(y, 2, 29, 0, 0) } catch const e { bad = false }
        if bad { print("accepted february 29", y) } }
    day += 365 + l
    y += 1
}
print("end", day)
''' % (first_of(y0), y0, y1)
        yield "years %d to %d" % (y0, y1 - 1), prog, ["end %d" % first_of(y1)], (y1 - y0) * 5
def cases_fields():
    Y = [1969, 1970, 1971, 1972, 1999, 2000, 2001, 2004, 2100, 2400, 290307, 290308, 0, -1]
    body, exp = [], []
    for y in Y:
        lines, e = [], []
        for m in range(-1, 15):
            for d in range(-1, 34):
                ok = 1970 <= y <= 290307 and 1 <= m <= 12 and 1 <= d <= mlen(y, m)
                e.append("%d" % (daynum(y, m, d) * 86400000000 + 3660000000) if ok else "E")
        yield "year %d all months and days" % y, HEAD + '''
for const m in range(-1, 15) { for const d in range(-1, 34) {
    try { print(datetime(%d, m, d, 1, 1).timestamp) } catch const e { print("E") }
} }
''' % y, e
    H, M, S, U = [-1, 0, 1, 12, 23, 24, 25, 60], [-1, 0, 1, 30, 59, 60, 61], [None, -1, 0, 1, 59, 60, 61], [None, -1, 0, 1, 999999, 1000000]
    e = []
    for h, m, s, u in itertools.product(H, M, S, U):
        ok = 0 <= h <= 23 and 0 <= m <= 59 and (s is None or 0 <= s <= 59) and (u is None or 0 <= u <= 999999)
        e.append("%d %d %d %d %s %d" % (2000, h, m, s or 0, "void" if u is None else u, daynum(2000, 2, 29) * 86400000000 + h * 3600000000 + m * 60000000 + (s or 0) * 1000000 + (u or 0)) if ok else "E")
    L = lambda a: "[" + ", ".join("void" if x is None else str(x) for x in a) + "]"
    yield "all times", HEAD + '''
for const h in %s { for const m in %s { for const s in %s { for const u in %s {
    try { const t = datetime(2000, 2, 29, h, m, s, u)
        print(t.year, t.hour, t.minute, t.second, stringify(t.us), t.timestamp) } catch const e { print("E") }
} } } }
''' % (L(H), L(M), L(S), L(U)), e
    # every second of a day, both ways
    e = []
    for h in range(24): e.append(" ".join("%d" % (h * 3600 + k) for k in range(0, 3600, 450)))
    yield "all seconds of a day", HEAD + '''
const base_ts = 951_782_400_000_000
for const h in range(24) {
    const out = []
    for const m in range(60) { for const s in range(60) {
        const x = h * 3600 + m * 60 + s
        const t = datetime(base_ts + x * 1_000_000)
        const b = datetime(2000, 2, 29, h, m, s)
        if t.hour != h || t.minute != m || t.second != s || t.us != 0 || t.day != 29 || b.timestamp != t.timestamp || b.us != void { print("bad", h, m, s) }
        if x % 450 == 0 { out.push(string(x)) }
    } }
    print(out -> join(" "))
}
''', e
    # missing and wrong fields, both at once, named arguments
    F = [("year", "2000"), ("month", "2"), ("day", "29"), ("hour", "1"), ("minute", "2"), ("second", "3"), ("us", "4")]
    body, exp = [], []
    for mask in range(1 << 7):
        for ts in (None, "5"):
            args = ["%s = %s" % F[i] for i in range(7) if mask >> i & 1] + (["timestamp = " + ts] if ts else [])
            if not mask and not ts: r = "E"
            elif ts: r = "E" if mask else "5"
            elif mask == 1: r = "2000"
            elif mask & 31 == 31: r = str(daynum(2000, 2, 29) * 86400000000 + 3720000000 + (3000000 if mask & 32 else 0) + (4 if mask & 64 else 0))
            else: r = "E"
            body.append("try { print(datetime(%s).timestamp) } catch const e { print(\"E\") }" % ", ".join(args)); exp.append(r)
    for i in range(7):
        for v in ("void", '"1"', '"x"', "true", "[]", "[1]", "{}", "x => x", "infinity", "-infinity", "nan", "1e30"):
            if v == "void" and i >= 5: continue
            a = [x[1] for x in F]; a[i] = v
            body.append("try { print(datetime(%s).timestamp) } catch const e { print(\"E\") }" % ", ".join(a)); exp.append("E")
        a = [x[1] for x in F]; a[i] += ".75"
        body.append("print(datetime(%s).timestamp)" % ", ".join(a)); exp.append(str(daynum(2000, 2, 29) * 86400000000 + 3720000000 + 3000000 + 4))
        a = [x[1] for x in F]; a[i] = "-0.25"
        body.append("try { print(datetime(%s).timestamp) } catch const e { print(\"E\") }" % ", ".join(a)); exp.append("E")
    for i in range(0, len(body), 100): yield "arguments %d" % i, HEAD + "import math.infinity\nimport math.nan\n" + "\n".join(body[i:i + 100]) + "\n", exp[i:i + 100]
    # every microsecond boundary around 1970 and the end of the supported range
    last = daynum(290307, 12, 31) * 86400000000 + 86399999999
    body, exp = [], []
    for t in list(range(0, 2000)) + [10**6 * k + d for k in range(1, 60) for d in (-1, 0, 1)] + [6 * 10**7 * k + d for k in range(1, 60) for d in (-1, 0, 1)] + [36 * 10**8 * k + d for k in range(1, 50) for d in (-1, 0)] + [last - k for k in (0, 1, 999999, 10**6, 86399999999, 86400000000)]:
        n, r = divmod(t, 86400000000)
        y = 1970 + n // 366
        while first_of(y + 1) <= n: y += 1
        n -= first_of(y); m = 1
        while n >= mlen(y, m): n -= mlen(y, m); m += 1
        body.append(str(t)); exp.append("%d %d %d %d %d %d %d %d %d" % (y, m, n + 1, r // 3600000000, r // 60000000 % 60, r // 1000000 % 60, r % 1000000, leap(y), t))
    for i in range(0, len(body), 400): yield "moments %d" % i, HEAD + FN + "for const t in [%s] { print(f(datetime(t))) }\n" % ", ".join(body[i:i + 400]), exp[i:i + 400]

def run():
    ck = common.Check("M06"); q = ck.quick
    b = batch.Batch(timeout=60)
    cs = list(cases_fields())
    cases.compare(ck, b, cs, chunk=1)
    ck.sample({"program": cs[0][1], "expected": cs[0][2][:40]})
    for fam in (cases_days(1970, 2770 if q else 12000, 10), cases_years(1970, 290308, 2000, 1)):
        if ck.viol: break
        cs = list(fam)
        cases.compare(ck, b, cs, chunk=1)
        ck.transitions += sum(c[3] if len(c) > 3 else 3652 for c in cs)
        ck.sample({"family": cs[0][0], "expected": str(cs[0][2])[:200]})
    ck.extra["bounds"] = "every day of %s, every year boundary and end of February from 1970 to 290307, every second of a day, all month/day pairs of 14 years, all subsets of fields" % ("1970-2769" if q else "1970-11999")
    ck.assumptions = ["timestamps are integers from 1970 on; `us` is void when not given, as documented"]
    ck.finish()
if __name__ == "__main__": common.main(run)
