"""Small functions that put one int expression in one context, many per program: every pair of
context, operator and kinds of operands comes up again and again, with operands that leave a trace
when they are evaluated."""
import random

ARITH = ["+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>"]
CMP = ["<", ">", "<=", ">=", "==", "!="]
LOGIC = ["&&", "||"]


class Micro:
    def __init__(self, seed):
        self.r = random.Random(seed)
        self.feats = set()
        self.n = 0

    def val(self, eff):
        """(text, has_effect): a small int operand of some kind"""
        r = self.r
        ks = ["param", "param", "local", "lit", "const", "enum", "call", "neg", "chr"]
        ks += ["glob"] if not self.noglob else []
        if eff:
            ks += ["tick"] * 5 + ["inc"]
        k = r.choice(ks)
        self.kinds.append(k)
        if k == "param":
            return r.choice("ab"), False
        if k == "local":
            return r.choice("xy"), False
        if k == "lit":
            return r.choice(["0", "1", "2", "5", "9", "0x0A", "017"]) if r.random() < .9 else str(r.randint(0, 40)), False
        if k == "const":
            return r.choice(["LIM", "OFF"]), False
        if k == "enum":
            return r.choice(["RED", "GREEN", "BLUE"]), False
        if k == "glob":
            return "total", False
        if k == "call":
            return f"pick({r.choice('abxy')}, {r.choice(['0', '1', '2', 'b'])})", False
        if k == "chr":
            return r.choice(["(x + 'A')", "(b - '0')", "('z' - a)", "((y & 15) + '0')", "(x * 2 - 'a')", "(a == '1')", "(y < 'A')"]), False
        if k == "neg":
            return r.choice(["-1", "-a", "-3", "~x", "!b", "(-b)"]), False
        if k == "inc":
            # z appears nowhere else in the expression
            if self.z:
                return "a", False
            self.z = True
            return r.choice(["z++", "++z", "z--", "--z"]), True
        self.ticks += 1
        return f"tick({self.ticks}, {r.choice(['a', 'b', 'x', '0', '1', 'a - b', 'a > b', 'y == 2'])})", True

    def arith(self, eff, d=1):
        r = self.r
        op = r.choice(ARITH)
        self.ops.append(op)
        le = eff and r.random() < .5
        l, e1 = self.sub(le, d)
        rr, e2 = self.sub(eff and not e1, d)
        # an effect on one side and a global on the other are unsequenced
        if op in "/%":
            rr = r.choice(["3", "7", "LIM", f"({rr} & 3) + 1", f"(({rr}) * ({rr}) % 50 + 1)" if not e2 else "2"])
            if " + 1" in rr and rr[0] == "(" and not rr.endswith("+ 1)"):
                rr = "(" + rr + ")"
        if op == "<<":
            l = f"({l} & 63)"
        if op in ("<<", ">>"):
            rr = r.choice(["1", "3", f"({rr} & 7)"])
        if rr.startswith("-") and op == "-":
            rr = f"({rr})"
        return f"({l} {op} {rr})", e1 or e2

    def sub(self, eff, d):
        if d > 0 and self.r.random() < .3:
            return self.expr(eff, d - 1)
        return self.val(eff)

    def cmp(self, eff, d=1):
        op = self.r.choice(CMP)
        self.ops.append(op)
        l, e1 = self.sub(eff and self.r.random() < .6, d)
        q, e2 = self.sub(eff and not e1, d)
        return f"{l} {op} {q}", e1 or e2

    def truth(self, eff, d):
        """an operand of && and ||"""
        k = self.r.random()
        if k < .55:
            return self.cmp(eff, 0)
        if k < .7:
            t, e = self.val(eff)
            return f"!({t})", e
        if k < .85 and d > 0:
            t, e = self.logic(eff, d - 1)
            return f"({t})", e
        return self.val(eff)

    def logic(self, eff, d=1):
        op = self.r.choice(LOGIC)
        self.ops.append(op)
        l, e1 = self.truth(eff, d)
        q, e2 = self.truth(eff, d)
        return f"{l} {op} {q}", e1 or e2

    def tern(self, eff, d):
        self.ops.append("?:")
        c, e1 = self.truth(eff, 1)
        a, e2 = self.sub(eff, d)
        b, e3 = self.sub(eff, d)
        return f"({c} ? {a} : {b})", e1 or e2 or e3

    def expr(self, eff, d):
        r = self.r
        k = r.random()
        if k < .3:
            return self.arith(eff, d)
        if k < .45:
            t, e = self.cmp(eff, d)
            return f"({t})", e
        if k < .75:
            t, e = self.logic(eff, d)
            return f"({t})", e
        if k < .88:
            return self.tern(eff, d)
        if k < .92:
            self.ops.append(",")
            a, e1 = self.val(eff)
            b, e2 = self.val(eff)
            return f"({a}, {b})", e1 or e2
        op = r.choice("!-~")
        self.ops.append("unary" + op)
        t, e = self.sub(eff, d)
        return f"{op}({t})", e

    def top(self, eff, d=2):
        t, e = self.expr(eff, d)
        # without the outer brackets most of the time
        if t.startswith("(") and t.endswith(")") and self.r.random() < .8:
            depth = 0
            for i, c in enumerate(t):
                depth += (c == "(") - (c == ")")
                if depth == 0 and i < len(t) - 1:
                    return t
            return t[1:-1] if "," not in self.ops else t
        return t

    CTX = ["init", "assign", "return", "if", "ifnot", "opassign", "while", "for", "do", "switch", "arg", "print",
           "glob", "ternc", "ternv", "unary", "left", "right", "elseif", "nested", "loopret", "swinit", "chain",
           "condassign", "stmt", "ifelse", "globop", "twoif", "forstep", "whilechg"]

    def func(self):
        r = self.r
        self.n += 1
        ctx = self.CTX[(self.n + self.off) % len(self.CTX)]
        self.kinds, self.ops, self.ticks, self.z = [], [], 0, False
        eff = r.random() < .7
        self.noglob = eff
        name = f"f{self.n}"
        E = self.top(eff)
        B = ["    int x = a + 1;", "    int y = b - 1;", "    int z = 3;"]
        if ctx == "init":
            B += [f"    int v = {E};", "    return v + z;"]
        elif ctx == "assign":
            B += ["    int v;", f"    v = {E};", "    return v - z;"]
        elif ctx == "return":
            B += [f"    return {E};"]
        elif ctx == "if":
            B += [f"    if ({E}) return 1;", "    return z;"]
        elif ctx == "ifnot":
            B += [f"    if (!({E})) {{", "        return z;", "    }", "    return -1;"]
        elif ctx == "ifelse":
            B += [f"    if ({E}) {{", "        y = x;", "    } else {", "        y = -x;", "    }", "    return y + z;"]
        elif ctx == "opassign":
            op = r.choice(["+=", "-=", "*=", "&=", "|=", "^="])
            B += ["    int v = 6;", f"    v {op} {E};", "    return v;"]
        elif ctx == "globop":
            self.kinds, self.ops, self.ticks, self.z, self.noglob = [], [], 0, False, True
            E = self.top(False)
            op = r.choice(["+=", "-=", "|=", "^="])
            B += ["    total = total % 100;", f"    total {op} {E};", "    return total;"]
        elif ctx == "while":
            B += ["    int n = 0;", f"    while ({E}) {{", "        n++;", "        if (n > 2) break;", "    }", "    return n * 10 + z;"]
        elif ctx == "whilechg":
            B += ["    int n = 0;", f"    while (n < 4 && ({E})) {{", "        n++;", "        a = a - 1;", "        x = x + n;", "        if (x % 3 == 0) continue;", "        y--;", "    }", "    return n * 10 + z + x;"]
        elif ctx == "for":
            B += ["    int n = 0;", f"    for (int i = 0; {E}; i++) {{", "        if (i >= 2) break;", "        n += i + 1;", "    }", "    return n + z;"]
        elif ctx == "forstep":
            B += ["    int n = 0;", "    for (int i = 0; i < 3; i++) {", f"        if (i == 1 && ({E})) continue;", "        b++;", "        n = n * 2 + i;", "    }", "    return n + z + b;"]
        elif ctx == "do":
            B += ["    int n = 0;", "    do {", "        n++;", "        if (n > 3) break;", "        b--;", f"    }} while ({E});", "    return n * 10 + z;"]
        elif ctx == "switch":
            B += ["    int v = 0;", f"    switch ({E}) {{", "    case 0:", "        v = 10;", "        break;", "    case 1:", "        v = 20;", "    case -1:", "        v += 3;", "        break;", "    case 5:", "        return z;", "    default:", "        v = -7;", "    }", "    return v + z;"]
        elif ctx == "swinit":
            B += ["    int v = 0;", "    switch (a & 3) {", "    case 0:", f"        v = {E};", "        break;", "    case 2:", "        v = 4;", "    default:", "        v += b;", "        break;", "    }", "    return v + z;"]
        elif ctx == "arg":
            B += [f"    return pick({E}, {r.choice(['1', 'x', '2'])});"] if r.random() < .5 else [f"    return pick(x, {E});"]
        elif ctx == "print":
            B += [f'    printf("%d;", {E});', "    return z;"]
        elif ctx == "glob":
            B += [f"    total = {E};", "    total = total % 50;", "    return total + z;"]
        elif ctx == "ternc":
            B += [f"    return ({E}) ? x : y;"]
        elif ctx == "ternv":
            self.kinds, self.ops, self.ticks, self.z = [], [], 0, False
            E = self.top(False)
            B += [f"    int v = a > b ? {E} : {r.choice(['y', '0', '-x', 'LIM'])};" if r.random() < .5 else f"    int v = a == b ? {r.choice(['x', '1'])} : ({E});", "    return v;"]
        elif ctx == "unary":
            B += [f"    return {r.choice('-!~')}({E});"]
        elif ctx == "left":
            B += [f"    return ({E}) {r.choice(['+', '-', '&', '^', '<', '==', '|'])} {r.choice(['x', '1', 'b'])};"]
        elif ctx == "right":
            B += [f"    return {r.choice(['x', '1', 'b'])} {r.choice(['+', '-', '&', '^', '<', '==', '|'])} ({E});"]
        elif ctx == "elseif":
            B += ["    if (a > 4) {", "        x = 1;", f"    }} else if ({E}) {{", "        x = 2;", "    } else if (b > 1) {", "        x = 3;", "    } else {", "        x = 4;", "    }", "    return x * 10 + z;"]
        elif ctx == "nested":
            B += ["    int v = 0;", "    if (a < 4) {", "        for (int i = 0; i < 2; i++) {", f"            int w = {E};", "            v += w % 20;", "        }", "    }", "    return v + z;"]
        elif ctx == "loopret":
            B += ["    for (int i = 0; i < 3; i++) {", "        x = i;", f"        if ({E}) {{", "            return i + 10 * z;", "        }", "    }", "    return -5;"]
        elif ctx == "chain":
            B += ["    int v;", "    int w;", f"    v = w = {E};", "    return v + w + z;"]
        elif ctx == "condassign":
            B += ["    int v;", f"    if ((v = {E}) > 1) {{", "        return v;", "    }", "    return v + z;"]
        elif ctx == "stmt":
            B += [f"    {E};" if r.random() < .5 else f"    (void)({E});", "    return z;"]
        elif ctx == "twoif":
            B += [f"    if ({E}) if (b > 0) x = 7; else x = 8;", "    return x + z;"]
        if eff and ("tick" in "".join(B)):
            self.feats.add(f"{ctx}/traced")
        for o in self.ops:
            self.feats.add(f"{ctx}/{o}")
        return name, [f"int {name}(int a, int b) {{"] + B + ["}", ""]

    def program(self):
        r = self.r
        self.off = r.randint(0, 99)
        L = ["#include <stdio.h>", "#define LIM 6", "#define OFF 2", "enum color { RED, GREEN = 4, BLUE };", "int total = 1;", "int calls = 0;", "",
             "int tick(int id, int v) {", "    calls = calls + 1;", '    printf("<%d:%d>", id, v);', "    return v;", "}", "",
             "int pick(int p, int q) {", "    if (p > q) {", "        return p - q;", "    }", "    return q % 5;", "}", ""]
        names = []
        for _ in range(len(self.CTX)):
            n, b = self.func()
            names.append(n)
            L += b
        L.append("int main(void) {")
        for n in names:
            for a, b in [(0, 0), (1, 0), (2, 3), (5, 1), (-2, 2)]:
                if r.random() < .8:
                    L.append(f'    printf("{n} %d\\n", {n}({a}, {b}));' if r.random() < .5 else f"    total = {n}({a}, {b});")
        L += ['    printf("%d %d\\n", calls, total);', "    return 0;", "}"]
        return "\n".join(L) + "\n"


class Typed(Micro):
    """The same for values of several types: int, unsigned, double and char, kept in variables, fields,
    elements, through pointers, returned by functions and combined with each other."""
    CN = {"I": "int", "U": "unsigned int", "D": "double", "C": "char"}
    FM = {"I": ["%d", "%5d", "%-4d|", "%04d"], "U": ["%u", "%x", "%7u", "%8x", "%-6x|", "%04X", "%-6X|", "%6o", "%-7o|"], "D": ["%.3f", "%.1f", "%9.2f", "%.2f"], "C": ["%d", "%c", "%3c", "%-3c|"]}

    def leaf(self, t, mixed=False):
        """mixed: the result of a call next to a value of another type, and a character constant as an int,
        are left out (the translation does not convert them)"""
        r = self.r
        k = r.choice(["param", "param", "local", "field", "ptr", "elem"] + ([] if mixed else ["lit", "call"]))
        self.kinds.append(t + "." + k)
        if t == "I":
            return {"param": r.choice("ab"), "local": "x", "field": "s.i", "ptr": "p->i", "elem": r.choice(["ia[1]", "ia[n]", "p->v[n]"]), "lit": r.choice(["3", "0", "12", "7"]), "call": r.choice(["fi(a)", "fi(b + 1)"])}[k]
        if t == "U":
            return {"param": "u", "local": "w", "field": "s.u", "ptr": "p->u", "elem": r.choice(["ua[0]", "ua[n]"]), "lit": r.choice(["5u", "1u", "255u"]), "call": "fu(u)"}[k]
        if t == "D":
            return {"param": "d", "local": "y", "field": "s.d", "ptr": "p->d", "elem": r.choice(["da[2]", "da[n]"]), "lit": r.choice(["1.5", "0.25", "2.0", "10.0"]), "call": r.choice(["fd(d)", "fd(y)"])}[k]
        return {"param": "c", "local": "e", "field": "s.c", "ptr": "p->c", "elem": r.choice(["ca[1]", "ca[n]"]), "lit": r.choice(["'a'", "'Q'", "'0'"]), "call": "fc(c)"}[k]

    def e(self, t, d):
        r = self.r
        if t != "B" and (d <= 0 or r.random() < .2):
            return self.leaf(t)
        k = r.random()
        if t == "D":
            if k < .35:
                op = r.choice("+-*")
                self.ops.append("D" + op + "D")
                return f"({self.e('D', d - 1)} {op} {self.e('D', d - 1)})"
            if k < .5:
                op = r.choice("+-*/")
                self.ops.append("D" + op + "I")
                q = self.leaf("I", True)
                if op == "/":
                    q = r.choice(["2", "4", "8"])
                return f"({self.leaf('D', True)} {op} {q})"
            if k < .62:
                op = r.choice("+-*")
                self.ops.append("I" + op + "D")
                return f"({self.leaf('I', True)} {op} {self.leaf('D', True)})"
            if k < .75:
                op = r.choice("+-*")
                self.ops.append("U" + op + "D")
                return f"({self.leaf('U', True)} {op} {self.leaf('D', True)})" if r.random() < .5 else f"({self.leaf('D', True)} {op} {self.leaf('U', True)})"
            if k < .82:
                self.ops.append("-D")
                return f"(-{self.leaf('D')})"
            if k < .9:
                self.ops.append("(D)I")
                return f"(double){self.leaf(r.choice('IU'))}"
            self.ops.append("?D")
            return f"({self.e('B', d - 1)} ? {self.leaf('D')} : {self.leaf('D')})"
        if t == "U":
            if k < .55:
                op = r.choice(["&", "|", "^", "/", "%", "+"])
                self.ops.append("U" + op + "U")
                q = self.leaf("U")
                if op in "/%":
                    q = r.choice(["7u", "10u", "(u + 1u)"])
                return f"({self.leaf('U')} {op} {q})"
            if k < .75:
                op = r.choice([">>", "/", "%"])
                self.ops.append("U" + op + "lit")
                return f"({self.leaf('U')} {op} {r.choice(['1', '3', '5'])})"
            if k < .87:
                self.ops.append("?U")
                return f"({self.e('B', d - 1)} ? {self.leaf('U')} : {self.leaf('U')})"
            self.ops.append("(U)I")
            return f"(unsigned int)({self.leaf('I')} & 255)"
        if t == "C":
            if k < .6:
                self.ops.append("C+lit")
                return self.leaf("C")
            self.ops.append("?C")
            return f"({self.e('B', d - 1)} ? {self.leaf('C')} : {self.leaf('C')})"
        if t == "B":
            if r.random() < .25:
                # values of two arithmetic types, converted before they are compared
                q, op = r.choice("IIUL"), r.choice(CMP if r.random() < .3 else ["<", ">", "<=", ">="])
                o = self.leaf(q, True) if q != "L" else r.choice(["0", "2", "3", "-1"])
                l = self.leaf("D", True)
                if r.random() < .3:
                    l = f"({l} {r.choice('+-*')} {self.leaf('D', True)})"
                if r.random() < .6:
                    self.ops.append("D" + op + q)
                    return f"({l} {op} {o})"
                self.ops.append(q + op + "D")
                return f"({o} {op} {l})"
            q = r.choice("IUDDC")
            op = r.choice(CMP) if q != "D" else r.choice(["<", ">", "<=", ">="])
            self.ops.append(q + op + q)
            l, rr = self.e(q, d - 1), self.e(q, d - 1)
            b = f"{l} {op} {rr}"
            if r.random() < .3:
                lo = r.choice(LOGIC)
                self.ops.append(lo)
                b = f"({b}) {lo} ({self.e('B', d - 2)})" if d >= 2 else b
            return f"({b})"
        # I
        if k < .35:
            op = r.choice("+-*")
            self.ops.append("I" + op + "I")
            return f"({self.leaf('I')} {op} {self.leaf('I')})"
        if k < .5:
            self.ops.append("(I)D")
            return f"(int)({self.e('D', d - 1)})"
        if k < .6:
            self.ops.append("(I)U")
            return f"(int)({self.leaf('U')} % 1000)"
        if k < .7:
            self.ops.append("(I)C")
            return f"(int){self.leaf('C', True)}"
        if k < .82:
            self.ops.append("(I)C-lit")
            return f"((int){self.leaf('C', True)} - {r.choice(['32', 'a', '1'])})"
        if k < .9:
            self.ops.append("?I")
            return f"({self.e('B', d - 1)} ? {self.leaf('I')} : {self.leaf('I')})"
        return self.e("B", d - 1)

    def bare(self, t):
        return t[1:-1] if t.startswith("(") and t.endswith(")") and Typed.closed(t[1:-1]) and self.r.random() < .8 else t

    @staticmethod
    def closed(t):
        d = 0
        for c in t:
            d += (c == "(") - (c == ")")
            if d < 0:
                return False
        return d == 0

    CTX = ["init", "assign", "ret", "arg", "field", "ptrfield", "elem", "op", "print", "if", "while", "tern", "conv", "fieldop", "elemop", "acc", "init2", "ret2"]

    def func(self):
        r = self.r
        self.n += 1
        ctx = self.CTX[(self.n + self.off) % len(self.CTX)]
        self.kinds, self.ops = [], []
        t = r.choice("IUDDC")
        if ctx in ("op", "fieldop", "elemop", "acc") and t == "C":
            t = "I"
        T = self.CN[t]
        E = self.bare(self.e(t, 2)) if ctx != "acc" else self.e(t, 2)
        if t == "D" and ctx not in ("print",) and r.random() < .3:
            # an integer where a double is wanted
            q = r.choice("IULL")
            E = r.choice(["2", "-3", "0", "100"]) if q == "L" else self.leaf(q, True)
            if q == "I" and r.random() < .5:
                E = f"{E} {r.choice('+-*')} {self.leaf('I', True)}"
            if ctx == "acc":
                E = f"({E})"
            self.ops.append(q + "->D")
        name = f"t{self.n}"
        var = {"I": "x", "U": "w", "D": "y", "C": "e"}[t]
        lv = {"I": "i", "U": "u", "D": "d", "C": "c"}[t]
        arr = {"I": "ia", "U": "ua", "D": "da", "C": "ca"}[t]
        op = r.choice({"I": ["+=", "-="], "U": ["&=", "|=", "^=", "+="], "D": ["+=", "-=", "*="]}.get(t, ["="]))
        B = ["    int x = a + 1;", "    unsigned int w = u / 2u;", "    double y = d + 0.5;", "    char e = c;",
             "    struct rec s;", "    s.i = a;", "    s.u = u;", "    s.d = d * 2.0;", "    s.c = c;", "    s.v[0] = 1;", "    s.v[1] = a;", "    s.v[2] = b;",
             "    int ia[3] = {4, 5, 6};", "    unsigned int ua[3] = {9, 8, 7};", "    double da[3] = {0.5, 1.5, 2.5};" if r.random() < .7 else "    double da[3] = {1, 1.5, -2};", "    char ca[3] = {'p', 'q', 'r'};"]
        R = "    return v;"
        if ctx in ("init", "init2"):
            B += [f"    {T} v = {E};", R]
        elif ctx == "assign":
            B += [f"    {T} v;", f"    v = {E};", R]
        elif ctx in ("ret", "ret2"):
            B += [f"    return {E};"]
        elif ctx == "arg":
            f = {"I": "fi", "U": "fu", "D": "fd", "C": "fc"}[t]
            B += [f"    return {f}({E});"]
        elif ctx == "field":
            B += [f"    s.{lv} = {E};", f"    return s.{lv};"]
        elif ctx == "ptrfield":
            B += [f"    p->{lv} = {E};", f"    return p->{lv};"]
        elif ctx == "elem":
            k = r.choice(["n", "1", "n - 1"])
            B += [f"    {arr}[{k}] = {E};", f"    return {arr}[{k}];"]
        elif ctx == "op":
            B += [f"    {var} {op} {E};", f"    return {var};"]
        elif ctx == "fieldop":
            o = r.choice(["s.", "p->"])
            B += [f"    {o}{lv} {op} {E};", f"    return {o}{lv};"]
        elif ctx == "elemop":
            B += [f"    {arr}[n] {op} {E};", f"    return {arr}[n];"]
        elif ctx == "acc":
            B += [f"    {T} v = {'0.0' if t == 'D' and r.random() < .6 else '0'};", "    for (int k = 0; k < 3; k++) {", f"        v = v {r.choice(['+', '+', '|'] if t != 'D' else ['+', '-'])} {E};", "        n = k % 3;", "    }", R]
        elif ctx == "print":
            B += [f'    printf("{r.choice(self.FM[t])};", {E});', f"    return {var};"]
        elif ctx == "if":
            B += [f"    if ({self.bare(self.e('B', 2))}) {{", f"        return {E};", "    }", f"    return {var};"]
        elif ctx == "while":
            B += ["    int k = 0;", f"    while (k < 3 && {self.e('B', 2)}) {{", "        k++;", "        d = d + 1.0;", "        a--;", "        u = u / 2u;", "    }", f"    return {var};" if r.random() < .3 else f"    {var} = {E};", f"    return {var};"]
            if B[-2] == B[-1]:
                B.pop()
        elif ctx == "tern":
            B += [f"    {T} v = {self.e('B', 2)} ? {self.leaf(t)} : {self.leaf(t)};", R]
        elif ctx == "conv":
            f, to = r.choice([("I", "D"), ("U", "D"), ("C", "I"), ("D", "I")])
            t, T = to, self.CN[to]
            q = self.leaf(f, True)
            self.ops.append(f + "->" + to)
            B += [f"    {T} v = {'(int)' if f == 'D' else ''}{q};", R]
        for o in self.ops:
            self.feats.add(f"typed.{ctx}/{o}")
        for o in self.kinds:
            self.feats.add(f"typed.{ctx}/{o}")
        return (name, t), [f"{T} {name}(int a, int b, unsigned int u, double d, char c, struct rec *p, int n) {{"] + B + ["}", ""]

    def program(self):
        r = self.r
        self.off = r.randint(0, 99)
        L = ["#include <stdio.h>", "struct rec {", "    int i;", "    unsigned int u;", "    double d;", "    char c;", "    int v[3];", "};", "",
             "int fi(int q) {", "    return q * 2 - 1;", "}", "", "unsigned int fu(unsigned int q) {", "    return q / 3u;", "}", "",
             "double fd(double q) {", "    return q * 0.5;", "}", "", "char fc(char q) {", "    if (q == 'a') {", "        return 'z';", "    }", "    return q;", "}", ""]
        fs = []
        for _ in range(12):
            n, b = self.func()
            fs.append(n)
            L += b
        L += ["int main(void) {", "    struct rec z;", "    z.v[0] = 3;", "    z.v[1] = 4;", "    z.v[2] = 5;"]
        k = 0
        for name, t in fs:
            for _ in range(3):
                k += 1
                u = r.choice(["0", "1", "77", "70000", "3000000000", "4000000000", "2147483648"]) + "u"
                L += [f"    z.i = {r.randint(-20, 20)};", f"    z.u = {r.choice(['5u', '900u', '3500000000u'])};", f"    z.d = {r.randint(-9, 9)}.5;", f"    z.c = {r.choice(['65', '97'])};" if False else f"    z.c = '{r.choice('aBz9')}';"]
                c = f"{name}({r.randint(-30, 30)}, {r.randint(-5, 40)}, {u}, {r.choice(['0.0', '1.25', '-3.5', '100.5'])}, '{r.choice('aAz5')}', &z, {r.randint(1, 2)})"
                L += [f"    {self.CN[t]} r{k} = {c};", f'    printf("{name} {r.choice(self.FM[t])}\\n", r{k});']
        L += ['    printf("%d %u %.2f %d\\n", z.i, z.u, z.d, z.v[1]);', "    return 0;", "}"]
        return "\n".join(L) + "\n"


if __name__ == "__main__":
    import sys
    print((Typed if len(sys.argv) > 2 else Micro)(int(sys.argv[1])).program())
