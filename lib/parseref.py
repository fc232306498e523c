"""Reference recogniser for the syntax in doc/grammar.md, written from that document.

parse(tokens) -> True (conforms), False (does not), None (the document leaves it open).
tokens: list of (text, first_on_line).  Interpolated strings are given as the tokens `"x\\(`, `)y\\(`, `)z"`.
"""
KEYWORDS = set("""_ __line__ assert async break case catch class const constructor continue default defer delete do else
extends fallthrough false for fun get if import in instanceof loop match propertyof public repeat return set static super
switch this throw true try typeof var void while with yield""".split())
ASSIGN = {"+=", "-=", "*=", "/=", "%=", "&=", "|=", "^=", "<<=", ">>=", ">>>="}
CMP = {"==", "!=", "<=", ">=", "<", ">", "in", "instanceof", "propertyof"}
UNARY = {"typeof", "delete", "+", "-", "~", "!"}


class Bad(Exception):
    pass


class Open(Exception):
    pass


EOF = ("", True)


class P:
    def __init__(self, toks):
        self.t = toks
        self.i = 0
        self.loops = self.breaks = self.falls = 0
        self.ctor = self.member = self.infun = False
        self.open = False
        self.depth = 0

    # --- tokens
    @property
    def cur(self):
        return self.t[self.i][0] if self.i < len(self.t) else ""

    @property
    def eol(self):
        return self.t[self.i][1] if self.i < len(self.t) else True

    def peek(self, k=1):
        return self.t[self.i + k][0] if self.i + k < len(self.t) else ""

    def take(self):
        x = self.cur
        self.i += 1
        return x

    def need(self, x):
        if self.cur != x:
            raise Bad
        self.i += 1

    def opt(self, x):
        if self.cur == x:
            self.i += 1
            return True
        return False

    @staticmethod
    def isident(x):
        return bool(x) and (x[0].isalpha() or x[0] == "_") and x not in KEYWORDS and '"' not in x

    @staticmethod
    def isstr(x):
        return x[:1] == '"' and len(x) > 1 and x[-1] == '"' or x[:2] in ('r"', 'R"')

    def ident(self):
        if not self.isident(self.cur):
            raise Bad
        return self.take()

    def semi(self):
        if self.cur == ";":
            self.i += 1
        elif not (self.eol or self.cur == "}" or self.cur == ""):
            raise Bad

    # --- statements
    def module(self):
        while self.cur in ("import", ";"):
            if self.take() == "import":
                self.ident()
                while self.opt("/"):
                    self.ident()
                if self.opt("."):
                    if not self.opt("*"):
                        self.anyname()
                elif self.opt(":"):
                    self.anyname()
                    while self.opt(","):
                        self.anyname()
                self.semi()
        while self.cur != "":
            if self.cur == "public":
                self.public()
            else:
                self.stmt()

    def anyname(self):
        """identifier; keywords are "identifiers matching one of the reserved keywords" and are left open here"""
        if self.cur in KEYWORDS:
            raise Open
        self.ident()

    def propname(self):
        if self.cur in KEYWORDS:
            return self.take()     # "keywords can still be used as object property names"
        return self.ident()

    def public(self):
        self.need("public")
        if self.cur in ("var", "const"):
            self.take()
            self.ident()
            if self.cur == ",":
                raise Open
            self.need("=")
            self.rhs(True)
        elif self.cur == "fun":
            self.take()
            self.ident()
            self.function()
        elif self.cur == "class":
            self.take()
            self.ident()
            self.klass()
        else:
            raise Bad

    def block(self):
        self.need("{")
        while self.cur != "}":
            if self.cur == "":
                raise Bad
            self.stmt()
        self.take()

    def stmt(self):
        c = self.cur
        f = getattr(self, "s_" + c, None) if c in KEYWORDS else None
        if c == ";":
            self.take()
        elif f:
            self.take()
            f()
        elif c in ("import", "public"):
            raise Bad
        else:
            self.expr()
            self.semi()

    def s_fun(self):
        if not self.isident(self.cur):    # a function literal which starts a statement
            raise Open
        self.ident()
        self.function()

    def s_class(self):
        if not self.isident(self.cur):
            raise Open
        self.ident()
        self.klass()

    def s_do(self):
        self.block()

    def s_if(self):
        self.rhs(True)
        self.block()
        while self.cur == "else":
            self.take()
            if self.opt("if"):
                self.rhs(True)
                self.block()
            else:
                self.block()
                break

    def s_try(self):
        self.block()
        self.need("catch")
        par = self.opt("(")
        if self.cur not in ("var", "const"):
            raise Bad
        self.take()
        if self.cur == "_":
            raise Open
        self.ident()
        if par:
            self.need(")")
        self.block()

    def s_defer(self):
        # a deferred block cannot be left by these; not described
        save = self.loops, self.breaks, self.falls
        self.block()
        self.loops, self.breaks, self.falls = save

    def s_with(self):
        if self.cur == "(":
            self.withpar()
        else:
            self.withlist()
        self.block()

    def withpar(self):
        """"(" may open the list or its first expression"""
        start = self.i
        depth = 0
        j = start
        while j < len(self.t):
            x = self.t[j][0]
            depth += (x in ("(", "[", "{")) - (x in (")", "]", "}"))
            if depth == 0:
                break
            j += 1
        if j + 1 < len(self.t) and self.t[j + 1][0] != "{":
            raise Open     # `with (a).b {`: both readings begin alike
        self.take()
        self.withlist()
        self.need(")")

    def withlist(self):
        while True:
            if self.opt("const"):
                self.ident()
                self.need("=")
            self.rhs(True)
            if not self.opt(","):
                break
            if self.cur == "{":
                raise Open     # an object literal or the block after a stray comma

    def s_switch(self):
        self.rhs(True)
        self.need("{")
        self.breaks += 1
        self.falls += 1
        dflt = False
        last_fall = False
        while self.cur != "}":
            if self.opt("default"):
                if dflt:
                    raise Bad
                dflt = True
            else:
                self.need("case")
                self.rhs(True)
                while self.opt(","):
                    self.rhs(True)
            self.opt(":")
            self.need("{")
            n = 0
            save, self.sawfall = getattr(self, "sawfall", False), False
            while self.cur != "}":
                if self.cur == "":
                    raise Bad
                k = self.cur
                self.stmt()
                n += 1
                if k in ("break", "fallthrough") and self.cur != "}":
                    raise Open       # statements which cannot be reached
            if not n:
                raise Bad
            self.take()
            last_fall = self.sawfall
            self.sawfall = save
        if last_fall:
            raise Bad
        self.take()
        self.breaks -= 1
        self.falls -= 1

    def loopbody(self):
        self.loops += 1
        self.breaks += 1
        self.block()
        self.loops -= 1
        self.breaks -= 1

    def s_loop(self):
        self.loopbody()

    def s_repeat(self):
        self.loopbody()
        self.need("while")
        self.rhs(True)
        self.semi()

    def s_while(self):
        self.rhs(True)
        self.loopbody()

    def s_for(self):
        par = False
        if self.cur == "(":
            par = True
            self.take()
        if self.cur in ("var", "const"):
            self.take()
        n = 1
        ph = self.cur == "_"
        self.identph()
        while self.opt(","):
            n += 1
            self.identph()
        if ph and n == 1:
            raise Open
        self.need("in")
        self.rhs(True)
        if par:
            self.need(")")
        self.loopbody()

    def identph(self):
        if not self.opt("_"):
            self.ident()

    def s_continue(self):
        if not self.loops:
            raise Bad
        self.semi()

    def s_break(self):
        if not self.breaks:
            raise Bad
        self.semi()

    def s_fallthrough(self):
        if not self.falls:
            raise Bad
        self.sawfall = True
        self.semi()

    def s_return(self):
        if not self.infun:
            self.open = True      # "illegal in the global scope": diagnosed by the compiler
        if self.cur in (";", "}", ""):
            if self.cur == ";":
                self.take()
            return
        if self.ctor:
            if self.cur != "this":
                raise Bad
            if not (self.peek() in (";", "}", "") or self.t[self.i + 1][1]):
                raise Open
        self.rhs(True)
        self.semi()

    def s_throw(self):
        self.rhs(True)
        self.semi()

    s_assert = s_throw

    # --- functions and classes
    def scope(self, f, ctor=False, member=None):
        save = self.loops, self.breaks, self.falls, self.ctor, self.member, self.infun
        self.loops = self.breaks = self.falls = 0
        self.ctor, self.infun = ctor, True
        if member is not None:
            self.member = member
        f()
        self.loops, self.breaks, self.falls, self.ctor, self.member, self.infun = save

    def function(self, ctor=False, member=None):
        if self.cur == "(":
            self.params()
        self.scope(self.block, ctor, member)

    def params(self):
        self.need("(")
        dflt = False
        if self.cur != ")":
            while True:
                self.ident()
                if self.opt("..."):
                    break
                if self.cur == "=":
                    self.take()
                    dflt = True
                    self.rhs(False)
                elif dflt:
                    raise Bad
                if not self.opt(","):
                    break
                if self.cur == ")":
                    raise Open         # trailing comma
        self.need(")")

    def klass(self):
        if self.opt("extends"):
            self.memberx(False)     # what a line break means before ( and [ here: see below
        self.need("{")
        ctor = False
        while self.cur != "}":
            if self.opt("constructor"):
                if ctor:
                    raise Bad
                ctor = True
                self.function(True, True)
            elif self.opt("fun"):
                self.propname()
                self.function(False, True)
            elif self.opt("var"):
                if self.cur in KEYWORDS:
                    raise Open
                self.ident()
                self.need("=")
                self.rhs(True)
            else:
                raise Bad
        self.take()

    # --- expressions
    def expr(self):
        if self.cur in ("var", "const"):
            self.take()
            n = 1
            ph = self.cur == "_"
            self.identph()
            while self.opt(","):
                n += 1
                self.identph()
            if ph and n == 1:
                raise Bad
            self.need("=")
            a = self.i
            self.rhs(True)
            if n > 1 and self.i == a + 1 and (self.t[a][0][0].isdigit() or self.t[a][0] in ("void", "true", "false", "__line__")):
                raise Open
            if n > 1 and self.t[a][0] in ("fun", "class"):
                raise Open
            if n > 1 and any(x[0] == "=>" for x in self.t[a:self.i]):
                raise Open
            return
        kind = self.rhs(True)
        if self.cur == "," or self.cur == "=" or self.cur in ASSIGN:
            n = 1
            ph = kind == "ph"
            sl = kind == "slice"
            if kind == "par":
                raise Open
            if kind not in ("id", "ref", "ph", "slice"):
                raise Bad
            while self.opt(","):
                n += 1
                k = self.memberx(True)
                if k == "par":
                    raise Open
                if k not in ("id", "ref", "ph", "slice"):
                    raise Bad
            if self.opt("="):
                if ph and n == 1:
                    raise Bad
            elif self.cur in ASSIGN and n == 1 and not ph:
                self.take()
                if sl:
                    raise Bad
            else:
                raise Bad
            self.rhs(True)
        elif kind == "ph":
            raise Bad
        elif kind in ("id", "ref", "slice", "par") and self.cur == "}" and not self.eol:
            raise Open     # the document asks for a semicolon or line break, the implementation mostly does not

    def rhs(self, outer):
        """returns the kind of the expression: id, ref, slice, ph (placeholder), par (parenthesised), call, other"""
        self.depth += 1
        if self.depth > 40:
            raise Open
        k = "other"
        if self.opt("yield"):
            if self.ctor:
                raise Bad
            if not self.infun:
                self.open = True
            if self.cur == "async":
                self.asyncx(outer)
            else:
                self.ph(self.stream(outer))
        elif self.cur == "async":
            self.asyncx(outer)
        else:
            k = self.stream(outer)
        self.depth -= 1
        return k

    def asyncx(self, outer):
        self.need("async")
        if self.opt("do"):
            self.scope(self.block)
            return
        k = self.stream(outer)
        if k == "par":
            raise Open
        if k not in ("call", "arrow"):
            raise Bad

    def stream(self, outer):
        k = self.cond(outer)
        while self.cur == "->":
            self.ph(k)
            self.take()
            self.noinv = False
            k2 = self.cond(outer)
            if k2 == "super" and not self.ctor:
                raise Bad
            if k2 != "super":
                self.ph(k2)
            k = "arrow"
        return k

    def ph(self, k):
        """the placeholder is no expression"""
        if k == "ph":
            raise Bad

    def cond(self, outer):
        k = self.logical(outer)
        if self.cur == "?":
            self.ph(k)
            self.take()
            self.ph(self.cond(False))
            self.need(":")
            self.ph(self.cond(outer))
            k = "other"
        return k

    def logical(self, outer):
        k = self.cmp(outer)
        if self.cur in ("&&", "||"):
            op = self.cur
            while self.cur in ("&&", "||"):
                if self.cur != op:
                    raise Bad
                self.ph(k)
                self.take()
                k = self.cmp(outer)
            self.ph(k)
            k = "other"
        return k

    def cmp(self, outer):
        k = self.arith(outer)
        if self.cur in CMP:
            self.ph(k)
            self.take()
            self.ph(self.arith(outer))
            if self.cur in CMP:
                raise Bad
            k = "other"
        return k

    def arith(self, outer):
        k = self.unary(outer)
        c = self.cur
        if c in ("+", "-", "*", "/", "%"):
            self.ph(k)
            while self.cur in ("+", "-", "*", "/", "%"):
                if self.cur in "+-" and self.eol and outer:
                    raise Bad
                self.take()
                self.ph(self.unary(outer))
            if self.cur in ("&", "|", "^", "<<", ">>", ">>>"):
                raise Bad
            k = "other"
        elif c in ("&", "|", "^"):
            self.ph(k)
            while self.cur == c:
                self.take()
                self.ph(self.unary(outer))
            if self.cur in ("+", "-") and self.eol and outer:
                raise Bad
            if self.cur in ("&", "|", "^", "<<", ">>", ">>>", "+", "-", "*", "/", "%"):
                raise Bad
            k = "other"
        elif c in ("<<", ">>", ">>>"):
            self.ph(k)
            self.take()
            self.ph(self.unary(outer))
            if self.cur in ("<<", ">>", ">>>"):
                raise Open          # the grammar allows a chain of shifts, the implementation asks for parentheses
            if self.cur in ("&", "|", "^", "+", "-", "*", "/", "%"):
                raise Bad
            k = "other"
        return k

    def unary(self, outer):
        if self.cur in UNARY:
            while self.cur in UNARY:
                self.take()
            self.underop = True
            k = self.memberx(None if outer else False)
            self.ph(k)
            return "other"
        return self.memberx(outer)

    def memberx(self, outer):
        """outer: True, False, or None: behind an unary operator of the outermost expression, where it is left open
        whether a bracket on the next line continues the expression"""
        k = self.primary()
        while True:
            c = self.cur
            if c == ".":
                self.ph(k)
                self.take()
                q = self.opt("?")
                if self.isstr(self.cur):
                    self.take()
                elif self.cur[:1] == '"':
                    raise Bad
                else:
                    self.propname()
                k = "other" if q else "ref"
            elif c == "[":
                if self.eol:
                    if outer is None:
                        raise Open
                    if outer:
                        raise Bad
                self.ph(k)
                self.take()
                q = self.opt("?")
                if self.opt(":"):
                    if q:
                        raise Bad
                    k = "slice"
                    if self.cur != "]":
                        self.ph(self.rhs(False))
                else:
                    self.ph(self.rhs(False))
                    k = "other" if q else "ref"
                    if self.opt(":"):
                        if q:
                            raise Bad
                        k = "slice"
                        if self.cur != "]":
                            self.ph(self.rhs(False))
                self.need("]")
            elif c == "(":
                if self.eol:
                    if outer is None:
                        raise Open
                    if outer:
                        raise Bad
                self.ph(k)
                if k == "super" and not self.ctor:
                    raise Bad
                self.args()
                k = "call"
            else:
                return k

    def args(self):
        self.need("(")
        if self.opt(")"):
            return
        if self.isident(self.cur) and self.peek() == "=":
            while True:
                self.ident()
                self.need("=")
                self.ph(self.rhs(False))
                if not self.opt(","):
                    break
        else:
            while True:
                self.ph(self.rhs(False))
                self.opt("...")
                if not self.opt(","):
                    break
        self.need(")")

    def lambda_body(self):
        self.need("=>")
        self.scope(lambda: self.ph(self.rhs(False)))
        return "other"

    def primary(self):
        c = self.cur
        if c == "":
            raise Bad
        if self.isident(c):
            self.take()
            if self.cur == "=>":
                return self.lambda_body()
            return "id"
        if c in ("this", "__line__", "true", "false", "void"):
            self.take()
            return "other"
        if c == "super":
            if not self.member:
                raise Bad
            self.take()
            return "super"
        if c == "_":
            self.take()
            return "ph"
        if c[0].isdigit() or self.isstr(c):
            self.take()
            return "other"
        if c[0] == '"':              # interpolated
            self.take()
            while True:
                self.ph(self.rhs(False))
                x = self.take()
                if x[:1] != ")":
                    raise Bad
                if x == ")":
                    raise Bad
                if x[-1] == '"':
                    return "other"
        if c == "fun":
            self.take()
            self.function()
            return "other"
        if c == "class":
            self.take()
            self.klass()
            return "other"
        if c == "[":
            self.take()
            while self.cur != "]":
                self.ph(self.rhs(False))
                self.opt("...")
                if not self.opt(","):
                    break
            self.need("]")
            return "other"
        if c == "{":
            self.take()
            first = True
            while self.cur != "}":
                if self.isstr(self.cur):
                    self.take()
                elif self.cur[:1] == '"':
                    raise Bad
                else:
                    self.propname()
                self.need(":")
                self.ph(self.rhs(False))
                if self.cur != "}":
                    self.need(",")
                    if self.cur == ",":
                        raise Open        # several commas in a row
            self.take()
            return "other"
        if c == "(":
            if self.islambda():
                self.params()
                return self.lambda_body()
            self.take()
            self.ph(self.rhs(False))
            self.need(")")
            return "par"
        if c == "=>":
            raise Open
        raise Bad

    def islambda(self):
        d = 0
        for j in range(self.i, len(self.t)):
            x = self.t[j][0]
            d += (x in ("(", "[", "{")) - (x in (")", "]", "}"))
            if d == 0:
                return j + 1 < len(self.t) and self.t[j + 1][0] == "=>"
        return False


def parse(toks):
    p = P(toks)
    try:
        p.module()
    except Bad:
        return False
    except Open:
        return None
    return None if p.open else True
