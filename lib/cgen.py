"""Random generator of C programs inside the stated subset (no shadowing, goto, static locals,
unsigned wrap-around, 64-bit integers, function-like macros).  Every generated construct is one the
tool claims to translate; programs whose C execution is undefined are filtered by UBSan later."""
import random, re

TOK = re.compile(r"[A-Za-z_]\w*")


def clean(text, banned):
    """text mentions no name in banned"""
    return not banned or not (set(TOK.findall(text)) & banned)


BIN_ARITH = ["+", "-", "*", "/", "%"]
BIN_BIT = ["&", "|", "^"]
BIN_SHIFT = ["<<", ">>"]
CMP = ["<", ">", "<=", ">=", "==", "!="]
PREC = {"*": 10, "/": 10, "%": 10, "+": 9, "-": 9, "<<": 8, ">>": 8, "<": 7, ">": 7, "<=": 7, ">=": 7,
        "==": 6, "!=": 6, "&": 5, "^": 4, "|": 3, "&&": 2, "||": 1}


class Eff:
    """What an expression may do so that C's unspecified evaluation order cannot matter."""
    __slots__ = ("effects", "globals_ok", "banned")

    def __init__(self, effects=False, globals_ok=True, banned=frozenset()):
        self.effects, self.globals_ok, self.banned = effects, globals_ok, banned

    def pure(self):
        return Eff(False, self.globals_ok, self.banned)


class Out:
    __slots__ = ("s", "prec", "impure", "incs", "reads_global")

    def __init__(self, s, prec=100, impure=False, incs=frozenset(), reads_global=False):
        self.s, self.prec, self.impure, self.incs, self.reads_global = s, prec, impure, incs, reads_global


class Func:
    def __init__(self, name, params, impure, ret="int"):
        self.name, self.params, self.impure, self.ret = name, params, impure, ret


class Gen:
    def __init__(self, seed, nfuncs=None, size=10):
        self.r = random.Random(seed)
        self.funcs = []
        self.globals = []
        self.consts = []      # (#define or enum) names usable as int constants
        self.feats = set()
        self.size = size
        self.nfuncs = nfuncs or self.r.randint(3, 6)
        self.uid = 0
        self.trace = 0

    # ---------- small helpers
    def f(self, name):
        self.feats.add(name)

    def chance(self, p):
        return self.r.random() < p

    def pick(self, xs):
        return self.r.choice(xs)

    def fresh(self, base="v"):
        self.uid += 1
        return f"{base}{self.uid}"

    # ---------- literals
    def lit(self, small=True):
        r = self.r
        k = r.random()
        if k < 0.55:
            return str(r.randint(0, 20))
        if k < 0.72:
            return str(r.randint(0, 1000))
        if k < 0.80:
            self.f("lit.hex")
            return r.choice(["0x%x", "0x%X", "0X%02X"]) % r.randint(0, 255)
        if k < 0.85:
            self.f("lit.octal")
            return "0%o" % r.randint(0, 64)
        if k < 0.93:
            self.f("lit.neg")
            return "(-%d)" % r.randint(1, 50)
        return str(r.choice([0, 1, 2, 7, 8, 15, 16, 31, 63, 64, 100, 127, 128, 255, 256]))

    # ---------- int expressions
    def atom(self, env, eff):
        r = self.r
        opts = []
        vs = [v for v in env["vars"] if clean(v, eff.banned)]
        if vs:
            opts += ["var"] * 6
        if self.globals and eff.globals_ok and env.get("globals_ok", True):
            opts += ["glob"] * 2
        if self.consts:
            opts += ["const"]
        opts += ["lit"] * 3
        k = r.choice(opts)
        if k == "var":
            return Out(r.choice(vs))
        if k == "glob":
            self.f("global.read")
            return Out(r.choice(self.globals), reads_global=True)
        if k == "const":
            self.f("const.use")
            return Out(r.choice(self.consts))
        s = self.lit()
        return Out(s)

    def paren(self, o, minprec):
        """Operand text: parenthesised when needed, sometimes although not needed."""
        if o.prec < minprec or self.r.random() < 0.08:
            return "(" + o.s + ")"
        return o.s

    def combine(self, l, r, s, prec):
        return Out(s, prec, l.impure or r.impure, l.incs | r.incs, l.reads_global or r.reads_global)

    def two(self, env, eff, d, mk_l, mk_r):
        """Two unsequenced operands."""
        if eff.effects and self.chance(0.5):
            l = mk_l(eff)
            r = mk_r(Eff(False, eff.globals_ok and not l.impure, eff.banned | l.incs))
        elif eff.effects:
            r = mk_r(eff)
            l = mk_l(Eff(False, eff.globals_ok and not r.impure, eff.banned | r.incs))
        else:
            l, r = mk_l(eff), mk_r(eff)
        return l, r

    def comma(self, env, eff, d, right):
        self.f("op,")
        l, q = self.two(env, eff, d, lambda e: self.expr(env, max(d - 2, 0), e), right)
        return self.combine(l, q, f"({l.s}, {q.s})", 20)

    def expr(self, env, d, eff):
        r = self.r
        if d <= 0:
            return self.atom(env, eff)
        k = r.random()
        if k < 0.16:
            return self.atom(env, eff)
        if k < 0.20:
            return self.const_expr(r.randint(1, 2))
        if k < 0.22:
            return self.comma(env, eff, d, lambda e: self.expr(env, d - 1, e))
        if k < 0.44:
            op = r.choice(["+", "+", "-", "-", "*", "/", "%"])
            self.f("op" + op)
            l, q = self.two(env, eff, d, lambda e: self.expr(env, d - 1, e), lambda e: self.expr(env, d - 1, e))
            p = PREC[op]
            if op in "/%":
                # keep the divisor positive most of the time, any value sometimes
                if self.chance(0.75):
                    q = Out("(" + self.paren(q, 6) + " & 7) + 1", PREC["+"], q.impure, q.incs, q.reads_global)
            return self.combine(l, q, f"{self.paren(l, p)} {op} {self.paren(q, p + 1)}", p)
        if k < 0.55:
            op = r.choice(BIN_BIT)
            self.f("op" + op)
            l, q = self.two(env, eff, d, lambda e: self.expr(env, d - 1, e), lambda e: self.expr(env, d - 1, e))
            p = PREC[op]
            return self.combine(l, q, f"{self.paren(l, p)} {op} {self.paren(q, p + 1)}", p)
        if k < 0.60:
            op = r.choice(BIN_SHIFT)
            self.f("op" + op)
            l = self.expr(env, d - 1, eff)
            p = PREC[op]
            amt = str(r.randint(0, 6)) if self.chance(0.6) else None
            if op == "<<":
                l = Out("(" + self.paren(l, 6) + " & 255)", 100, l.impure, l.incs, l.reads_global)
            if amt is None:
                q = self.atom(env, Eff(False, eff.globals_ok and not l.impure, eff.banned | l.incs))
                amt = f"({q.s} & 7)"
            return Out(f"{self.paren(l, p)} {op} {amt}", p, l.impure, l.incs, l.reads_global)
        if k < 0.70:
            return self.cond(env, d - 1, eff)
        if k < 0.78:
            self.f("ternary")
            c = self.cond(env, d - 1, eff)
            e2 = Eff(eff.effects and self.chance(.4), eff.globals_ok, eff.banned)
            a = self.expr(env, d - 1, e2)
            b = self.expr(env, d - 1, e2)
            s = f"{self.paren(c, 2)} ? {self.paren(a, 1)} : {self.paren(b, 1)}"
            return Out(s, 0, c.impure or a.impure or b.impure, c.incs | a.incs | b.incs, True)
        if k < 0.86:
            op = r.choice(["-", "~", "-", "!"])
            self.f("unary" + op)
            o = self.expr(env, d - 1, eff)
            t = self.paren(o, 11)
            if t.startswith("-") and op == "-":
                t = "(" + t + ")"
            return Out(op + t, 11, o.impure, o.incs, o.reads_global)
        if k < 0.95 and self.funcs:
            return self.call(env, d, eff) or self.atom(env, eff)
        if eff.effects and self.globals and not env.get("pure") and eff.globals_ok and env.get("globals_ok", True) \
                and self.chance(.35):
            gs = [g for g in self.globals if g.isidentifier() and g not in eff.banned]
            if gs:
                g = r.choice(gs)
                self.f("incdec.global.expr")
                return Out(r.choice([f"{g}++", f"{g}--", f"++{g}", f"--{g}"]), 12, True, frozenset([g]), True)
        if eff.effects:
            vs = [v for v in env["assignable"] if v.isidentifier() and v not in eff.banned and v not in env["counters"]]
            if vs:
                v = r.choice(vs)
                form = r.choice([f"{v}++", f"{v}--", f"++{v}", f"--{v}"])
                self.f("incdec.expr")
                return Out(form, 12, False, frozenset([v]))
        if self.chance(.5):
            self.f("cast.int")
            o = self.expr(env, d - 1, eff)
            return Out("(int)" + ("(" + o.s + ")" if o.prec < 12 else o.s), 11, o.impure, o.incs, o.reads_global)
        self.f("sizeof")
        return Out("(int)sizeof(int)", 11)

    def const_expr(self, d):
        """Literals only: what a constant folder works on."""
        r = self.r
        self.f("const.expr")
        if d <= 0:
            if self.chance(.12):
                return Out(r.choice(["2147483647", "2147483646", "1073741824", "(-2147483647 - 1)", "(-2147483647)", "65535", "65536"]))
            return Out(self.lit())
        k = r.random()
        if k < .12:
            o = self.const_expr(d - 1)
            t = "(" + o.s + ")" if o.prec < 11 or o.s.startswith("-") else o.s
            return Out(r.choice(["-", "~", "!"]) + t, 11)
        op = r.choice(list(PREC))
        p = PREC[op]
        a, b = self.const_expr(d - 1), self.const_expr(d - 1)
        if op in ("<<", ">>"):
            b = Out(str(r.randint(0, 31) if self.chance(.3) else r.randint(0, 7)))
            if op == "<<":
                a = Out(str(r.randint(0, 100)))
        if op in "/%" and self.chance(.6):
            b = Out(str(r.choice([1, 2, 3, 7, 10, -1, -3]))) if self.chance(.5) else Out(str(r.randint(1, 9)))
            if b.s.startswith("-"):
                b = Out("(" + b.s + ")")
        lp = p + 1 if op in CMP else p
        return Out(f"{self.paren(a, lp)} {op} {self.paren(b, p + 1)}", p)

    def call(self, env, d, eff, want=None):
        r = self.r
        cands = [fn for fn in self.funcs if fn.ret == "int" and (not fn.impure or eff.effects)
                 and (env.get("pure") is not True or not fn.impure) and fn.params is not None
                 and all(t == "int" for t in fn.params)]
        if not cands:
            return None
        fn = r.choice(cands)
        self.f("call.impure" if fn.impure else "call.pure")
        args, banned, imp = [], frozenset(), False
        for _ in fn.params:
            a = self.expr(env, min(d - 1, 2), eff.pure())
            args.append(a.s)
        return Out(f"{fn.name}({', '.join(args)})", 100, fn.impure, frozenset(), True)

    def cond(self, env, d, eff):
        r = self.r
        k = r.random()
        if k < 0.58 or d <= 0:
            op = r.choice(CMP)
            self.f("cmp" + op)
            l, q = self.two(env, eff, d, lambda e: self.expr(env, max(d - 1, 0), e), lambda e: self.expr(env, max(d - 1, 0), e))
            p = PREC[op]
            # chained comparisons always parenthesised (readability; gcc warns)
            return self.combine(l, q, f"{self.paren(l, p + 1)} {op} {self.paren(q, p + 1)}", p)
        if k < 0.82:
            op = r.choice(["&&", "||"])
            self.f("op" + op)
            p = PREC[op]
            l = self.cond(env, d - 1, eff)
            q = self.cond(env, d - 1, Eff(eff.effects, eff.globals_ok, eff.banned))
            return self.combine(l, q, f"{self.paren(l, p)} {op} {self.paren(q, p + 1)}", p)
        if k < 0.90:
            self.f("unary!")
            o = self.cond(env, d - 1, eff) if self.chance(.6) else self.atom(env, eff)
            return Out("!" + ("(" + o.s + ")" if o.prec < 11 else o.s), 11, o.impure, o.incs, o.reads_global)
        if k < 0.93:
            return self.comma(env, eff, d, lambda e: self.cond(env, d - 1, e))
        self.f("cond.int")
        return self.expr(env, d - 1, eff)

    def bound(self, o):
        """Keep magnitudes small so that later arithmetic stays defined."""
        k = self.r.random()
        if k < 0.5:
            return f"({o.s}) % {self.r.choice([7, 10, 97, 100, 1000])}"
        if k < 0.8:
            return f"({o.s}) & {self.r.choice([7, 15, 63, 255, 1023])}"
        return o.s

    # ---------- statements
    def stmts(self, env, n, depth, loop=None, ind=1):
        out = []
        for _ in range(n):
            out += self.stmt(env, depth, loop, ind)
            if out and out[-1].strip().startswith(("return", "break;", "continue;")) and out[-1].startswith("    " * ind) and not out[-1].startswith("    " * (ind + 1)):
                break
        return out

    def block(self, env, n, depth, loop, ind):
        sub = self.subenv(env)
        body = self.stmts(sub, n, depth, loop, ind + 1)
        return body

    def subenv(self, env):
        e = dict(env)
        for k in ("vars", "assignable"):
            e[k] = list(env[k])
        e["counters"] = set(env["counters"])
        return e

    def pr(self, env, ind):
        self.trace += 1
        self.f("printf")
        n = self.r.randint(1, 3)
        exprs = []
        # print arguments are unsequenced: no effects
        for _ in range(n):
            exprs.append(self.expr(env, 2, Eff(False)).s)
        fm = " ".join(self.pick(["%d", "%d", "%d", "%5d", "%-4d|", "%03d"]) for _ in range(n))
        return ["    " * ind + f'printf("t{self.trace} {fm}\\n", {", ".join(exprs)});']

    def assign_target(self, env):
        """(text, is_global) of an assignable int lvalue."""
        opts = [v for v in env["assignable"] if v not in env["counters"]]
        g = self.globals if not env.get("pure") else []
        if g and (not opts or self.chance(.2)):
            self.f("global.write")
            return self.pick(g)
        if opts:
            return self.pick(opts)
        return None

    def stmt(self, env, depth, loop, ind):
        r = self.r
        I = "    " * ind
        eff = Eff(True)
        k = r.random()
        pure = env.get("pure")
        if pure:
            eff = Eff(True)  # may inc locals and call pure functions
        if k < 0.17:
            v = self.fresh()
            o = self.expr(env, 3, eff)
            s = self.bound(o)
            if self.chance(.12):
                w = self.fresh()
                self.f("decl.multi")
                env["vars"] += [v, w]
                env["assignable"] += [v, w]
                return [f"{I}int {v} = {s}, {w} = {self.lit()};"]
            env["vars"].append(v)
            env["assignable"].append(v)
            if self.chance(.1):
                self.f("decl.uninit")
                return [f"{I}int {v};", f"{I}{v} = {s};"]
            return [f"{I}int {v} = {s};"]
        if k < 0.33:
            t = self.assign_target(env)
            if t is None:
                return []
            e2 = Eff(True, True, frozenset([t]) if t not in self.globals else frozenset())
            o = self.expr(env, 3, eff if t not in self.globals and t.isidentifier() else Eff(False))
            if t in o.incs:
                return []
            self.f("assign")
            return [f"{I}{t} = {self.bound(o)};"]
        if k < 0.43:
            t = self.assign_target(env)
            if t is None:
                return []
            op = r.choice(["+=", "-=", "*=", "/=", "%=", "&=", "|=", "^=", "<<=", ">>="])
            self.f("compound" + op)
            # right operand without effects: x op= f() reads x after or before f
            o = self.expr(env, 2, Eff(False))
            if op in ("/=", "%="):
                return [f"{I}{t} {op} ({o.s} & 7) + 1;"]
            if op in ("<<=", ">>="):
                pre = [f"{I}{t} &= 255;"] if op == "<<=" else []
                return pre + [f"{I}{t} {op} {o.s if False else '(' + o.s + ' & 3)'};"]
            if op == "*=":
                return [f"{I}{t} {op} {r.randint(-3, 5)};", f"{I}{t} %= 1000;"]
            return [f"{I}{t} {op} {o.s};"]
        if k < 0.49:
            t = self.assign_target(env)
            if t is None:
                return []
            self.f("incdec.stmt")
            return [I + r.choice([f"{t}++;", f"{t}--;", f"++{t};", f"--{t};"])]
        if k < 0.58 and not pure:
            return self.pr(env, ind)
        if k < 0.62 and not pure:
            c = [fn for fn in self.funcs if fn.impure and all(t == "int" for t in fn.params)]
            if c:
                fn = r.choice(c)
                self.f("call.stmt")
                return [f"{I}{fn.name}({', '.join(self.expr(env, 2, Eff(False)).s for _ in fn.params)});"]
            return []
        if depth <= 0:
            return []
        if k < 0.76:
            return self.if_stmt(env, depth, loop, ind)
        if k < 0.81:
            return self.for_stmt(env, depth, ind)
        if k < 0.86:
            return self.while_stmt(env, depth, ind)
        if k < 0.90:
            return self.switch_stmt(env, depth, loop, ind)
        if k < 0.93 and loop and loop != "switch":
            j = r.choice(["break", "continue"])
            self.f("jump." + j)
            c = self.cond(env, 2, eff)
            return [f"{I}if ({c.s}) {j};"] if self.chance(.5) else [f"{I}if ({c.s}) {{"] + [f"{I}    {j};", f"{I}}}"]
        if k < 0.96:
            self.f("return.early")
            c = self.cond(env, 2, eff)
            o = self.expr(env, 2, Eff(False))
            if env.get("ret") == "void":
                return [f"{I}if ({c.s}) return;"]
            return [f"{I}if ({c.s}) return {self.bound(o)};"]
        return []

    def if_stmt(self, env, depth, loop, ind):
        I = "    " * ind
        self.f("if")
        c = self.cond(env, 3, Eff(True))
        if self.chance(.12):
            self.f("if.const")
            c = self.const_expr(self.r.randint(0, 2))
        if self.chance(.15):
            b = self.stmt1(env, ind + 1)
            if b:
                self.f("if.unbraced")
                out = [f"{I}if ({c.s})", b]
                if self.chance(.4):
                    b2 = self.stmt1(env, ind + 1)
                    if b2:
                        out += [f"{I}else", b2]
                return out
        out = [f"{I}if ({c.s}) {{"] + self.block(env, self.r.randint(1, 3), depth - 1, loop, ind)
        n = self.r.choice([0, 0, 1, 2, 3])
        for _ in range(n):
            self.f("elseif")
            c = self.cond(env, 2, Eff(True))
            out += [f"{I}}} else if ({c.s}) {{"] + self.block(env, self.r.randint(1, 2), depth - 1, loop, ind)
        if self.chance(.5):
            self.f("else")
            out += [f"{I}}} else {{"] + self.block(env, self.r.randint(1, 3), depth - 1, loop, ind)
        return out + [f"{I}}}"]

    def stmt1(self, env, ind):
        t = self.assign_target(env)
        if t is None:
            return None
        o = self.expr(env, 2, Eff(False))
        return "    " * ind + self.pick([f"{t} = {self.bound(o)};", f"{t}++;", f"{t} += {self.lit()};", f"{t} ^= {self.lit()};"])

    def for_stmt(self, env, depth, ind):
        r = self.r
        I = "    " * ind
        self.f("for")
        n = r.randint(1, 6)
        sub = self.subenv(env)
        form = r.choice(["decl", "decl", "decl", "pre", "noinit", "nocond", "noinc", "two", "down", "step", "comma"])
        self.f("for." + form)
        if form == "two":
            i, j = self.fresh("i"), self.fresh("j")
            head = f"for (int {i} = 0, {j} = {n + 3}; {i} < {j}; {i}++, {j}--)"
            names, pre = [i, j], []
        else:
            i = r.choice(["i", "j", "k", "n"]) if r.random() < .5 else self.fresh("i")
            if i in env["vars"] or i in env.get("reserved", ()):
                i = self.fresh("i")
            names, pre = [i], []
            if form == "decl":
                head = f"for (int {i} = 0; {i} < {n}; {r.choice([i + '++', '++' + i, i + ' += 1', f'{i} = {i} + 1'])})"
            elif form == "down":
                head = f"for (int {i} = {n}; {r.choice([i + ' > 0', i, i + ' >= 1', i + ' != 0'])}; {r.choice([i + '--', '--' + i, i + ' -= 1'])})"
            elif form == "step":
                head = f"for (int {i} = 1; {i} < {n * 4}; {r.choice([i + ' += 2', i + ' *= 2', i + ' += ' + i, i + ' <<= 1', f'{i} = {i} * 3'])})"
            elif form == "pre":
                pre = [f"{I}int {i};"]
                head = f"for ({i} = 0; {i} < {n}; {i}++)"
            elif form == "comma":
                j = self.fresh("j")
                pre = [f"{I}int {i}, {j};"]
                head = f"for ({i} = 0, {j} = {n}; {i} < {j}; {i}++, {j}--)"
                names.append(j)
            elif form == "noinit":
                pre = [f"{I}int {i} = 0;"]
                head = f"for (; {i} < {n}; {i}++)"
            elif form == "nocond":
                head = f"for (int {i} = 0; ; {i}++)"
            else:
                head = f"for (int {i} = 0; {i} < {n}; )"
        if pre:
            env["vars"] += names
            sub = self.subenv(env)
        else:
            sub["vars"] += names
        sub["counters"] |= set(names)
        env["counters"] |= set(names)
        loop = "for"
        body = []
        if form == "nocond":
            body += [f"{I}    if ({names[0]} >= {n}) break;"]
        if form == "noinc":
            body += [f"{I}    {names[0]}++;"]
        if self.chance(.15) and form not in ("nocond", "noinc"):
            b = self.stmt1(sub, ind + 1)
            if b:
                self.f("for.unbraced")
                return pre + [I + head, b]
        body += self.block(sub, r.randint(1, 3), depth - 1, loop, ind)
        return pre + [I + head + " {"] + body + [I + "}"]

    def while_stmt(self, env, depth, ind):
        r = self.r
        I = "    " * ind
        c = self.fresh("w")
        n = r.randint(1, 6)
        env["vars"].append(c)
        env["counters"].add(c)
        sub = self.subenv(env)
        extra = self.cond(env, 2, Eff(True))
        dow = self.chance(.4)
        self.f("dowhile" if dow else "while")
        test = r.choice([f"{c} < {n}", f"{c} < {n} && ({extra.s})", f"{c} < {n} && !({extra.s})", f"{c} != {n}"])
        body = [f"{I}    {c}++;"] + self.block(sub, r.randint(1, 3), depth - 1, "while", ind)
        pre = [f"{I}int {c} = 0;"]
        if dow:
            return pre + [I + "do {"] + body + [f"{I}}} while ({test});"]
        if not dow and self.chance(.1):
            self.f("while.false")
            return pre + [f"{I}while ({r.choice(['0', '0', '1 - 1', '2 > 3', '0 && ' + c])}) {{"] + body + [I + "}"]
        if self.chance(.12):
            self.f("while.unbraced")
            return pre + [f"{I}while ({c} < {n})", f"{I}    {c}++;"]
        if self.chance(.15):
            self.f("while.true")
            return pre + [f"{I}while (1) {{", f"{I}    if ({c} >= {n}) break;"] + body + [I + "}"]
        return pre + [f"{I}while ({test}) {{"] + body + [I + "}"]

    def switch_stmt(self, env, depth, loop, ind):
        r = self.r
        I = "    " * ind
        self.f("switch")
        o = self.expr(env, 2, Eff(True))
        sel = f"({o.s}) % 6" if self.chance(.7) else f"({o.s}) & 7"
        vals = r.sample(list(range(-3, 8)), r.randint(2, 5))
        has_def = self.chance(.7)
        defpos = r.randint(0, len(vals)) if self.chance(.3) else len(vals)
        arms = []
        for n, v in enumerate(vals):
            if has_def and n == defpos:
                arms.append("default")
            arms.append(v)
        if has_def and "default" not in arms:
            arms.append("default")
        out = [f"{I}switch ({sel}) {{"]
        for n, v in enumerate(arms):
            out.append(f"{I}default:" if v == "default" else f"{I}case {v}:")
            last = n == len(arms) - 1
            k = r.random()
            if k < .15 and not last:
                self.f("switch.stacked")
                continue
            # a switch body has no declarations and no break except at the end of an arm
            body = []
            for _ in range(r.randint(1, 2)):
                b = self.stmt1(env, ind + 1)
                if b:
                    body.append(b)
            if self.chance(.2):
                c = self.cond(env, 2, Eff(True))
                b = self.stmt1(env, ind + 2)
                if b:
                    body += [f"{I}    if ({c.s}) {{", b, f"{I}    }}"]
            out += body
            if last and self.chance(.5):
                continue
            if k < .35 and not last:
                self.f("switch.fallthrough")
                continue
            if k < .45 and loop in ("for", "while"):
                self.f("switch.continue")
                out.append(f"{I}    continue;")
                continue
            if k < .55 and env.get("ret") == "int":
                self.f("switch.return")
                out.append(f"{I}    return {self.atom(env, Eff(False)).s};")
                continue
            out.append(f"{I}    break;")
        return out + [I + "}"]

    # ---------- functions and program
    def func(self, idx):
        r = self.r
        impure = r.random() < .45
        np = r.randint(0, 4)
        params = [self.pick("abcdxyz") + str(i) for i in range(np)]
        ret = "void" if impure and self.chance(.2) else "int"
        name = self.pick(["f", "calc", "step", "get_value", "doWork"]) + str(idx)
        env = {"vars": list(params), "assignable": list(params), "counters": set(), "ret": ret, "pure": not impure,
               "globals_ok": impure, "reserved": ()}
        saved = self.globals
        body = []
        kind = r.random()
        rec = False
        if kind < .18 and ret == "int":
            # bounded recursion on the first parameter
            rec = True
            self.f("recursion")
            if not params:
                params = ["a0"]
                env["vars"], env["assignable"] = ["a0"], ["a0"]
            body += [f"    if ({params[0]} <= 0) return {self.atom(env, Eff(False)).s};"]
            env["counters"].add(params[0])
        if not impure:
            self.globals = []
        body += self.stmts(env, r.randint(2, self.size), 3)
        if rec:
            o = self.expr(env, 2, Eff(False))
            args = [f"{params[0]} - 1"] + [f"({self.atom(env, Eff(False)).s}) % 50" for _ in params[1:]]
            body.append(f"    return ({name}({', '.join(args)}) + ({o.s}) % 10) % 1000;")
        elif ret == "int" and self.chance(.3):
            self.f("return.temp")
            t = self.fresh("t")
            body += [f"    int {t} = {self.bound(self.expr(env, 3, Eff(True)))};"]
            body += [f"    return {t if self.chance(.6) else t + ' + ' + self.lit()};"]
        elif ret == "int":
            body.append(f"    return {self.bound(self.expr(env, 3, Eff(True)))};")
        self.globals = saved
        fn = Func(name, ["int"] * len(params), impure, ret)
        fn.rec = rec
        plist = ", ".join("int " + p for p in params) if params else self.pick(["void", "void", ""])
        sig = f"{ret} {name}({plist})"
        return fn, sig, [sig + " {"] + body + ["}"]

    def program(self, globals_ok=True):
        r = self.r
        L = ["#include <stdio.h>", ""]
        if self.chance(.4):
            for _ in range(r.randint(1, 2)):
                n = self.fresh("MAX_")
                L.append(f"#define {n} {r.randint(0, 40)}")
                self.consts.append(n)
        if self.chance(.35):
            ms = []
            v = 0
            for _ in range(r.randint(2, 4)):
                n = self.fresh("EN_")
                self.consts.append(n)
                ms.append(n + (f" = {r.randint(-5, 30)}" if self.chance(.4) else ""))
            self.f("enum")
            L.append(f"enum {self.fresh('E')} {{ {', '.join(ms)} }};")
        if self.chance(.5) and globals_ok:
            for _ in range(r.randint(1, 3)):
                g = self.fresh("g")
                self.globals.append(g)
                L.append(f"int {g}" + (f" = {r.choice([r.randint(0, 90), -r.randint(1, 9)])}" if self.chance(.7) else "") + ";")
            self.f("globals")
        L.append("")
        fns = []
        protos = []
        for i in range(self.nfuncs):
            fn, sig, body = self.func(i)
            fns.append((fn, body))
            if self.chance(.2):
                self.f("prototype")
                protos.append(sig + ";")
            if not fn.rec:
                self.funcs.append(fn)
            else:
                self.rec_funcs = getattr(self, "rec_funcs", []) + [fn]
        L += protos + [""]
        for fn, body in fns:
            L += body + [""]
        L.append("int main(void) {")
        n = 0
        for fn, _ in fns:
            for _ in range(r.randint(1, 3)):
                n += 1
                args = []
                for i, _p in enumerate(fn.params):
                    if fn.rec and i == 0:
                        args.append(str(r.randint(0, 5)))
                    else:
                        args.append(str(r.choice([0, 1, -1, 2, 3, 5, -7, 10, 31, 100, -64, 255, r.randint(-99, 99)])))
                c = f"{fn.name}({', '.join(args)})"
                if fn.ret == "void":
                    L.append(f"    {c};")
                    L.append(f'    printf("m{n}\\n");')
                else:
                    L.append(f"    int r{n} = {c};")
                    L.append(f'    printf("m{n} %d\\n", r{n});')
        for g in self.globals:
            L.append(f'    printf("{g} %d\\n", {g});')
        if self.chance(.3):
            self.f("exitcode")
            L.append(f"    return {r.randint(0, 100)};")
        else:
            L.append("    return 0;")
        L.append("}")
        return "\n".join(L) + "\n"


if __name__ == "__main__":
    import sys
    g = Gen(int(sys.argv[1]))
    print(g.program())
    print("//", sorted(g.feats))
