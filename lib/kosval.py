"""Model of Kos scalar values and operators (reference oracle), and Kos source for values / exact representations."""
import math, struct

I64 = 1 << 63
def wrap(v):
    v &= (1 << 64) - 1
    return v - (1 << 64) if v >= I64 else v

class Obj:
    """A value compared by identity / opaque."""
    def __init__(self, name, typ): self.name, self.typ = name, typ
class Err(Exception): pass

# Kos source of an exact representation function; floats by their bits, strings by code points
REP = r'''
const rep = fun(v) {
    switch typeof v {
        case "integer" { return "i" + string(v) }
        case "float" {
            if ! (v == v) { return "nan" }
            const b = buffer()
            b.pack(">f8", v)
            return "f" + string(b.unpack(">i8")[0])
        }
        case "string" {
            var s = "s"
            for const i in range(v.size) { s += string(v.code(i)) + "." }
            return s
        }
        case "void" { return "v" }
        case "boolean" { return v ? "T" : "F" }
        case "array" {
            var s = "["
            for const e in v { s += rep(e) + " " }
            return s + "]"
        }
        case "buffer" {
            var s = "<"
            for const e in v { s += string(e) + " " }
            return s + ">"
        }
        case "object" {
            var s = "{"
            for const k, e in sort(shallow(v)) { s += k + ":" + rep(e) + " " }
            return s + "}"
        }
        default { return typeof v }
    }
}
'''
REP = REP.replace('for const k, e in sort(shallow(v)) { s += k + ":" + rep(e) + " " }',
                  'const ks = [shallow(v)...]\n            ks.sort()\n            for const k in ks { s += k + ":" + rep(v[k]) + " " }')

def rep(v):
    if v is None: return "v"
    if v is True: return "T"
    if v is False: return "F"
    if isinstance(v, int): return "i%d" % v
    if isinstance(v, float):
        if v != v: return "nan"
        return "f%d" % struct.unpack(">q", struct.pack(">d", v))[0]
    if isinstance(v, str): return "s" + "".join("%d." % ord(c) for c in v)
    if isinstance(v, (list, tuple)): return "[" + "".join(rep(e) + " " for e in v) + "]"
    if isinstance(v, (bytes, bytearray)): return "<" + "".join("%d " % e for e in v) + ">"
    if isinstance(v, dict): return "{" + "".join("%s:%s " % (k, rep(v[k])) for k in sorted(v)) + "}"
    return "{}" if v.typ == "object" else v.typ

def src(v):
    """Kos literal source."""
    if v is None: return "void"
    if v is True: return "true"
    if v is False: return "false"
    if isinstance(v, int):
        if v == -I64: return "(-0x8000000000000000)"
        return str(v) if v >= 0 else "(%d)" % v
    if isinstance(v, float):
        if v != v or v in (math.inf, -math.inf): raise ValueError
        s = repr(v)
        if "e" in s and "." not in s: s = s.replace("e", ".0e")
        s = s.replace("e+", "e")
        return s if not s.startswith("-") else "(%s)" % s
    if isinstance(v, str):
        o = ""
        for c in v:
            if c in '"\\': o += "\\" + c
            elif 32 <= ord(c) < 127: o += c
            else: o += "\\x{%x}" % ord(c)
        return '"%s"' % o
    if isinstance(v, list): return "[" + ", ".join(src(e) for e in v) + "]"
    raise ValueError(v)

def isnum(v): return isinstance(v, (int, float)) and not isinstance(v, bool)
def typ(v):
    if v is None: return "void"
    if isinstance(v, bool): return "boolean"
    if isinstance(v, int): return "integer"
    if isinstance(v, float): return "float"
    if isinstance(v, str): return "string"
    if isinstance(v, list): return "array"
    return v.typ

def f(v):
    return float(v)

def toint(v):
    if not isnum(v): raise Err("int")
    if isinstance(v, int): return v
    if v != v: raise Err("nan")
    if v <= -9223372036854775808.0 or v >= 9223372036854775808.0: raise Err("range")
    return math.floor(v)

def truthy(v):
    return not (v is None or v is False or (isnum(v) and v == 0))

def fop(fn):
    def g(a, b):
        try: return fn(a, b)
        except OverflowError: return math.inf
    return g

def _fmul(a, b):
    return a * b

def arith(op, a, b):
    if op == "+" and isinstance(a, str) and isinstance(b, str): return a + b
    if not isnum(a) or not isnum(b): raise Err("types")
    if isinstance(a, int) and isinstance(b, int):
        if op == "+": return wrap(a + b)
        if op == "-": return wrap(a - b)
        if op == "*": return wrap(a * b)
        if b == 0: raise Err("div0")
        if a == -I64 and b == -1: raise Err("ovf")
        q = abs(a) // abs(b)
        if (a < 0) != (b < 0): q = -q
        return q if op == "/" else a - q * b
    x, y = float(a), float(b)
    if op == "+": return x + y
    if op == "-": return x - y
    if op == "*": return x * y
    if y == 0: raise Err("div0")
    if op == "/":
        return x / y
    if math.isinf(x) or x != x or y != y: return math.nan
    return math.fmod(x, y)

def bitop(op, a, b):
    x, y = toint(a), toint(b)
    if op == "&": return wrap(x & y)
    if op == "|": return wrap(x | y)
    if op == "^": return wrap(x ^ y)
    if op == "<<":
        if y < 0: return x >> min(-y, 64)
        return wrap(x << y) if y < 64 else 0
    if op == ">>":
        if y < 0: return wrap(x << -y) if -y < 64 else 0
        return x >> min(y, 64)
    u = x & ((1 << 64) - 1)
    if y < 0: return wrap(x << -y) if -y < 64 else 0
    return wrap(u >> y) if y < 64 else 0

def equal(a, b):
    if isnum(a) and isnum(b):
        if isinstance(a, int) and isinstance(b, int): return a == b
        return float(a) == float(b)
    if typ(a) != typ(b): return False
    if isinstance(a, Obj): return a is b
    return a == b

def compare(op, a, b):
    if op == "==": return equal(a, b)
    if op == "!=":
        return not equal(a, b)
    if isnum(a) and isnum(b):
        if not (isinstance(a, int) and isinstance(b, int)): a, b = float(a), float(b)
    elif isinstance(a, str) and isinstance(b, str):
        a, b = [ord(c) for c in a], [ord(c) for c in b]
    else:
        return None             # not defined by the documentation
    return {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b}[op]

def binop(op, a, b):
    if op in ("+", "-", "*", "/", "%"): return arith(op, a, b)
    if op in ("&", "|", "^", "<<", ">>", ">>>"): return bitop(op, a, b)
    if op == "&&": return b if truthy(a) else a
    if op == "||": return a if truthy(a) else b
    return compare(op, a, b)

def unop(op, a):
    if op == "!": return not truthy(a)
    if op == "typeof": return typ(a)
    if op == "~": return wrap(~toint(a))
    if not isnum(a): raise Err("types")
    if op == "+": return a
    return wrap(-a) if isinstance(a, int) else -a
