"""Random programs over structs, arrays, pointers, strings, doubles, heap memory and function pointers,
built on the integer generator (lvalues of aggregates take part in its expressions and statements)."""
import random
import re
from cgen import Gen, Eff, Out, Func


NULLCMP = re.compile(r"(\b[A-Za-z_]\w*(?:(?:->|\.)\w+)*) ([!=]=) NULL\b")


class AGen(Gen):
    def __init__(self, seed, size=6):
        super().__init__(seed, nfuncs=2, size=size)
        self.structs = []     # (name, spelled type, [(field, kind)])
        self.tops = []        # top-level text blocks
        self.mains = []       # statements of main
        self.nm = 0

    # ----- pieces
    def mk_structs(self):
        r = self.r
        for k in range(r.randint(1, 3)):
            name = self.pick(["Point", "Rect", "node_info", "Cfg", "Item"]) + str(k)
            fields = []
            for i in range(r.randint(1, 4)):
                fields.append((self.pick(["x", "y", "count", "val", "type", "w"]) + str(i) if self.chance(.8) else self.pick(["x", "y", "kind", "size", "fn", "self_"]) + "_" + str(i), "int"))
            if self.chance(.35):
                fields.append(("arr", ("arr", r.randint(2, 4))))
                self.f("struct.arrayfield")
            if self.structs and self.chance(.35):
                s = self.pick(self.structs)
                fields.append(("inner", ("struct", s)))
                self.f("struct.nested")
            td = self.chance(.4)
            tname = name if td else "struct " + name
            body = []
            for fn, kd in fields:
                if kd == "int":
                    body.append(f"    int {fn};")
                elif kd[0] == "arr":
                    body.append(f"    int {fn}[{kd[1]}];")
                else:
                    body.append(f"    {kd[1][1]} {fn};")
            if td:
                self.f("struct.typedef")
                self.tops.append("typedef struct " + (name + " " if self.chance(.5) else "") + "{\n" + "\n".join(body) + f"\n}} {name};")
            else:
                self.tops.append(f"struct {name} {{\n" + "\n".join(body) + "\n};")
            self.structs.append((name, tname, fields))

    def lvals(self, base, st, arrow=False):
        out = []
        sep = "->" if arrow else "."
        for fn, kd in st[2]:
            if kd == "int":
                out.append(f"{base}{sep}{fn}")
            elif kd[0] == "arr":
                out.append(f"{base}{sep}{fn}[{self.r.randrange(kd[1])}]")
            else:
                out += self.lvals(f"{base}{sep}{fn}", kd[1])
        return out

    def init_stmts(self, base, st):
        return [f"    {l} = {self.r.randint(-20, 60)};" for l in self.all_lvals(base, st)]

    def all_lvals(self, base, st, sep="."):
        out = []
        for fn, kd in st[2]:
            if kd == "int":
                out.append(f"{base}{sep}{fn}")
            elif kd[0] == "arr":
                out += [f"{base}{sep}{fn}[{i}]" for i in range(kd[1])]
            else:
                out += self.all_lvals(f"{base}{sep}{fn}", kd[1])
        return out

    def env(self, vars_, assign, ret="int", pure=False):
        return {"vars": list(vars_), "assignable": list(assign), "counters": set(), "ret": ret, "pure": pure,
                "globals_ok": not pure, "reserved": ()}

    def show(self, tag, exprs):
        out = []
        for i in range(0, len(exprs), 4):
            part = exprs[i:i + 4]
            out.append(f'    printf("{tag} {" ".join(["%d"] * len(part))}\\n", {", ".join(part)});')
        return out

    def m(self):
        self.nm += 1
        return self.nm

    def flat(self):
        """Structs without struct fields (the initializer of a global of the others does not compile: see known-findings)."""
        return [s for s in self.structs if all(k == "int" or k[0] != "struct" for _, k in s[2])]

    # ----- scenarios: each appends a function (or several) and calls in main
    def sc_struct_value(self):
        st = self.pick(self.structs)
        n = self.m()
        self.f("struct.byvalue")
        lv = self.lvals("p", st)
        body = self.stmts(self.env(lv + ["k"], ["k"] + (lv if self.chance(.4) else [])), self.r.randint(1, 4), 2)
        e = self.env(lv + ["k"], ["k"])
        self.tops.append(f"int sv{n}({st[1]} p, int k) {{\n" + "\n".join(body) + f"\n    return {self.bound(self.expr(e, 3, Eff(False)))};\n}}")
        self.mains += [f"    {st[1]} a{n};"] + self.init_stmts(f"a{n}", st)
        self.mains += [f"    int r{n} = sv{n}(a{n}, {self.r.randint(-5, 9)});", f'    printf("sv{n} %d\\n", r{n});']
        self.mains += self.show(f"a{n}", self.all_lvals(f"a{n}", st))

    def sc_struct_ptr(self):
        st = self.pick(self.structs)
        n = self.m()
        self.f("struct.byptr")
        lv = self.lvals("p", st, True)
        body = self.stmts(self.env(lv + ["k"], lv + ["k"], "void"), self.r.randint(2, 5), 2)
        self.tops.append(f"void sp{n}({st[1]} *p, int k) {{\n" + "\n".join(body) + f"\n    {self.pick(lv)} = k;\n}}")
        self.mains += [f"    {st[1]} b{n};"] + self.init_stmts(f"b{n}", st)
        for _ in range(self.r.randint(1, 2)):
            self.mains += [f"    sp{n}(&b{n}, {self.r.randint(-5, 20)});"]
        self.mains += self.show(f"b{n}", self.all_lvals(f"b{n}", st))

    def sc_struct_ret(self):
        st = self.pick(self.structs)
        n = self.m()
        self.f("struct.return")
        ls = self.all_lvals("q", st)
        e = self.env(["x", "y"], ["x", "y"])
        body = [f"    {l} = {self.bound(self.expr(e, 2, Eff(False)))};" for l in ls]
        self.tops.append(f"{st[1]} mk{n}(int x, int y) {{\n    {st[1]} q;\n" + "\n".join(body) + "\n    return q;\n}")
        self.mains += [f"    {st[1]} c{n} = mk{n}({self.r.randint(0, 9)}, {self.r.randint(-9, 9)});"]
        self.mains += self.show(f"c{n}", self.all_lvals(f"c{n}", st))
        if self.chance(.5):
            self.f("struct.copy")
            l = self.all_lvals(f"d{n}", st)[0]
            self.mains += [f"    {st[1]} d{n} = c{n};", f"    {l} = {l} + 5;"]
            self.mains += self.show(f"cd{n}", [l, self.all_lvals(f"c{n}", st)[0]])

    def sc_struct_array(self):
        st = self.pick(self.structs)
        n = self.m()
        self.f("struct.array")
        k = self.r.randint(2, 4)
        ints = [f for f, kd in st[2] if kd == "int"]
        fl = self.pick(ints)
        self.mains += [f"    {st[1]} e{n}[{k}];", f"    for (int i{n} = 0; i{n} < {k}; i{n}++) {{"]
        self.mains += [f"        e{n}[i{n}].{f} = i{n} * {self.r.randint(1, 9)} - {self.r.randint(0, 9)};" for f in ints]
        self.mains += ["    }"]
        self.mains += [f"    int s{n} = 0;", f"    for (int j{n} = 0; j{n} < {k}; j{n}++) {{", f"        s{n} += e{n}[j{n}].{fl} * (j{n} + 1);", "    }"]
        self.mains += [f'    printf("e{n} %d %d\\n", s{n}, e{n}[{self.r.randrange(k)}].{fl});']

    def sc_array(self):
        n = self.m()
        k = self.r.randint(2, 6)
        self.f("array.local")
        ini = [str(self.r.randint(-30, 90)) for _ in range(self.r.choice([0, 1, k, k, max(1, k - 1)]))]
        form = self.r.choice([f"int arr{n}[{k}] = {{{', '.join(ini)}}};" if ini else f"int arr{n}[{k}] = {{0}};"])
        els = [f"arr{n}[{i}]" for i in range(k)]
        e = self.env(els + ["z"], els + ["z"])
        if self.chance(.5) and k in (2, 4):
            e["vars"].append(f"arr{n}[z & {k - 1}]")
            e["assignable"].append(f"arr{n}[z & {k - 1}]")
            self.f("array.dynindex")
        body = [f"    {form}"] + self.stmts(e, self.r.randint(2, 6), 2)
        body += self.show(f"arr{n}", els)
        self.tops.append(f"int la{n}(int z) {{\n" + "\n".join(body) + f"\n    return arr{n}[{self.r.randrange(k)}];\n}}")
        self.mains += [f"    int w{n} = la{n}({self.r.randint(-4, 12)});", f'    printf("la{n} %d\\n", w{n});']

    def sc_array_param(self):
        n = self.m()
        k = self.r.randint(2, 6)
        self.f("array.param")
        sized = self.pick(["", str(k)])
        kind = self.pick(["sum", "max", "fill", "rev", "count", "bubble"])
        self.f("array.param." + kind)
        A = f"int a[{sized}], int n"
        c = self.r.randint(1, 9)
        if kind == "sum":
            t = f"int ap{n}({A}) {{\n    int s = {c};\n    for (int i = 0; i < n; i++) {{\n        s {self.pick(['+=', '-=', '^=', '|='])} a[i]{self.pick([' * i', '', ' + i', ' % 7'])};\n    }}\n    return s;\n}}"
        elif kind == "max":
            t = f"int ap{n}({A}) {{\n    int m = a[0];\n    int i = 1;\n    while (i < n) {{\n        if (a[i] {self.pick(['>', '<', '>=', '<='])} m) m = a[i];\n        i++;\n    }}\n    return m;\n}}"
        elif kind == "fill":
            t = f"int ap{n}({A}) {{\n    int i;\n    for (i = 0; i < n; i++) {{\n        a[i] {self.pick(['=', '+=', '-='])} i * {c};\n    }}\n    return i;\n}}"
        elif kind == "rev":
            t = f"int ap{n}({A}) {{\n    int i = 0;\n    int j = n - 1;\n    while (i < j) {{\n        int t = a[i];\n        a[i] = a[j];\n        a[j] = t;\n        i++;\n        j--;\n    }}\n    return j;\n}}"
        elif kind == "count":
            t = f"int ap{n}({A}) {{\n    int k = 0;\n    for (int i = n - 1; i >= 0; i--) {{\n        if (a[i] % {c + 1} == 0 {self.pick(['||', '&&'])} a[i] > {c * 3}) k++;\n        else if (a[i] < 0) continue;\n        else k += 2;\n    }}\n    return k;\n}}"
        else:
            t = f"int ap{n}({A}) {{\n    int sw = 0;\n    for (int i = 0; i < n - 1; i++) {{\n        for (int j = 0; j < n - 1 - i; j++) {{\n            if (a[j] > a[j + 1]) {{\n                int t = a[j];\n                a[j] = a[j + 1];\n                a[j + 1] = t;\n                sw++;\n            }}\n        }}\n    }}\n    return sw;\n}}"
        self.tops.append(t)
        vals = ", ".join(str(self.r.randint(-40, 99)) for _ in range(k))
        self.mains += [f"    int x{n}[{k}] = {{{vals}}};", f"    int y{n} = ap{n}(x{n}, {k});", f'    printf("ap{n} %d\\n", y{n});']
        self.mains += self.show(f"x{n}", [f"x{n}[{i}]" for i in range(k)])

    def sc_array2d(self):
        n = self.m()
        a, b = self.r.randint(2, 3), self.r.randint(2, 3)
        self.f("array.2d")
        c = self.r.randint(1, 9)
        L = [f"    int g2{n}[{a}][{b}];"] if self.chance(.5) else [f"    int g2{n}[{a}][{b}] = {{" + ", ".join("{" + ", ".join(str(self.r.randint(-9, 9)) for _ in range(b)) + "}" for _ in range(a)) + "};"]
        L += [f"    for (int i{n} = 0; i{n} < {a}; i{n}++) {{", f"        for (int j{n} = 0; j{n} < {b}; j{n}++) {{",
              f"            g2{n}[i{n}][j{n}] {'=' if len(L[0]) < 30 else self.pick(['=', '+='])} i{n} * {c} + j{n};", "        }", "    }"]
        self.mains += L + self.show(f"g2{n}", [f"g2{n}[{i}][{j}]" for i in range(a) for j in range(b)])

    def sc_ptr(self):
        n = self.m()
        self.f("pointer.int")
        kind = self.pick(["swap", "out", "inc", "minmax"])
        self.f("pointer." + kind)
        c = self.r.randint(1, 9)
        e = self.env(["a", "b"], [], pure=True)
        if kind == "swap":
            t = f"void pt{n}(int *a, int *b) {{\n    int t = *a;\n    *a = *b;\n    *b = t{self.pick(['', ' + 1', ' - 2'])};\n}}"
            self.mains += [f"    int pa{n} = {c}, pb{n} = {c * 3 + 1};", f"    pt{n}(&pa{n}, &pb{n});", f'    printf("pt{n} %d %d\\n", pa{n}, pb{n});']
        elif kind == "out":
            t = f"int pt{n}(int a, int b, int *res) {{\n    if (b == 0) return -1;\n    *res = {self.bound(self.expr(e, 3, Eff(False)))};\n    return 0;\n}}"
            self.mains += [f"    int po{n} = 77;", f"    int pr{n} = pt{n}({self.r.randint(-9, 20)}, {self.r.randint(0, 3)}, &po{n});", f'    printf("pt{n} %d %d\\n", pr{n}, po{n});']
        elif kind == "inc":
            op = self.pick([f"*p = *p + {c};", f"*p += {c};", f"*p *= 2;", f"*p -= {c}; *p = *p * *p;", "(*p)++;"])
            t = f"void pt{n}(int *p) {{\n    {op}\n    if (*p > 50) *p = 0;\n}}"
            self.mains += [f"    int pi{n} = {c};"] + [f"    pt{n}(&pi{n});"] * self.r.randint(1, 4) + [f'    printf("pt{n} %d\\n", pi{n});']
        else:
            t = f"void pt{n}(int a, int b, int *lo, int *hi) {{\n    if (a < b) {{\n        *lo = a;\n        *hi = b;\n    }} else {{\n        *lo = b;\n        *hi = a;\n    }}\n}}"
            self.mains += [f"    int pl{n}, ph{n};", f"    pt{n}({self.r.randint(-9, 9)}, {self.r.randint(-9, 9)}, &pl{n}, &ph{n});", f'    printf("pt{n} %d %d\\n", pl{n}, ph{n});']
        self.tops.append(t)

    def sc_heap(self):
        n = self.m()
        self.f("heap.array")
        k = self.r.randint(2, 8)
        c = self.r.randint(1, 9)
        al = self.pick([f"(int*)malloc({k} * sizeof(int))", f"malloc(sizeof(int) * {k})", f"(int*)calloc({k}, sizeof(int))"])
        t = f"int hp{n}(int z) {{\n    int *h = {al};\n    for (int i = 0; i < {k}; i++) {{\n        h[i] = i * {c} + z;\n    }}\n    int s = 0;\n    for (int i2 = 0; i2 < {k}; i2++) {{\n        s {self.pick(['+=', '-=', '^='])} h[i2];\n    }}\n    free(h);\n    return s;\n}}"
        self.tops.append(t)
        self.mains += [f"    int hr{n} = hp{n}({self.r.randint(-9, 20)});", f'    printf("hp{n} %d\\n", hr{n});']

    def sc_heap_struct(self):
        n = self.m()
        st = self.pick(self.structs)
        self.f("heap.struct")
        ls = self.all_lvals("h", st, "->")
        L = [f"int hs{n}(int z) {{", f"    {st[1]} *h = ({st[1]}*)malloc(sizeof({st[1]}));"]
        L += [f"    {l} = z + {self.r.randint(0, 30)};" for l in ls]
        L += [f"    int q = {' + '.join(ls[:3])};", "    free(h);", "    return q;", "}"]
        self.tops.append("\n".join(L))
        self.mains += [f"    int hq{n} = hs{n}({self.r.randint(-9, 20)});", f'    printf("hs{n} %d\\n", hq{n});']

    def dlit(self):
        k = self.r.randint(1, 9)
        return self.pick([f"{k}.{self.r.choice([0, 5, 25, 125])}"] * 3 + [f".{self.r.choice(['5', '25', '125'])}", f"{k}.", f"{k}e1", f"{k}.5e-1", f"{k}E0", f"{k}.e+1"])

    def sc_double(self):
        n = self.m()
        self.f("double")
        ops = [self.pick("+-*") for _ in range(3)]
        t = f"double db{n}(double x, double y) {{\n    double t = x {ops[0]} y {ops[1]} {self.dlit()};\n    if (t {self.pick(['>', '<', '>=', '<='])} {self.r.randint(-9, 30)}.0) {{\n        t = t / {self.pick(['2.0', '4.0', '8.0', '(y * y + 1.0)'])};\n    }}\n    return t {ops[2]} x;\n}}"
        self.tops.append(t)
        self.mains += [f"    double dr{n} = db{n}({self.r.randint(-9, 9)}.{self.r.choice([0, 5, 75])}, {self.r.randint(0, 9)}.25);",
                       f'    printf("db{n} {self.pick(["%.2f", "%.3f", "%8.3f", "%.1f"])}\\n", dr{n});']
        if self.chance(.4):
            self.f("double.cast")
            self.mains += [f"    int di{n} = (int)dr{n};", f'    printf("di{n} %d\\n", di{n});',
                           f"    double dd{n} = (double)di{n} / {self.r.randint(2, 8)};", f'    printf("dd{n} %.3f\\n", dd{n});']

    def lit_text(self, k, fmt=False):
        """The inside of a string literal, with escapes; several literals in a row now and then."""
        esc = ['\\"', "\\\\", "\\t", "\\x41", "\\101", "\\a", "\\'", "\\?", "'", "{", "}", "é", "%%" if fmt else "%"]
        t = "".join(self.pick(esc) if self.chance(.25) else self.pick("xyzUVW 019-_") for _ in range(k))
        t = t.replace("\\x41", "\\x41" + self.pick("xyz-")).replace("\\101", "\\101" + self.pick("xyz-"))
        if self.chance(.3):
            self.f("string.adjacent")
            t += '"' + self.pick([" ", "\n        ", ""]) + '"' + self.pick(['x', '\\"', '', ' y '])
        return t

    def sc_string_escapes(self):
        n = self.m()
        self.f("string.escapes")
        k = self.r.randint(0, 7)
        kind = self.pick(["arg", "var", "format", "const"])
        if kind == "arg":
            self.mains += [f'    printf("se{n} %s|%d\\n", "{self.lit_text(k)}", {self.r.randint(0, 9)});']
        elif kind == "format":
            self.mains += [f'    printf("se{n} {self.lit_text(k, True)}%d{self.lit_text(k, True)}\\n", {self.r.randint(0, 9)});', f'    printf("{self.lit_text(k, True)}");', '    printf("\\n");']
        else:
            self.mains += [f'    {"const " if kind == "const" else ""}char *se{n} = "{self.lit_text(k)}";', f'    printf("se{n} [%s]\\n", se{n});']

    def sc_string(self):
        n = self.m()
        s = "".join(self.pick("abcXYZ 019-_") for _ in range(self.r.randint(1, 9)))
        k = self.pick(["print", "len", "count", "arr"])
        self.f("string." + k)
        if k == "print":
            self.mains += [f'    printf("st{n} {self.sfm()}|%d\\n", "{s}", {self.r.randint(0, 99)});']
        elif k == "len":
            self.mains += [f'    char *sl{n} = "{s}";', f'    printf("st{n} [{self.sfm()}]\\n", sl{n});']
        elif k == "count":
            ch = self.pick(list(s))
            self.tops.append(f"int cc{n}(char c) {{\n    if (c == '{ch}') return 1;\n    if (c >= 'a' && c <= 'z') return 2;\n    if (c >= '0' && c <= '9') return 3;\n    return 0;\n}}")
            self.mains += [f"    int cr{n} = cc{n}('{self.pick(list('abc09XZ'))}');", f'    printf("st{n} %d\\n", cr{n});']
        else:
            self.mains += [f'    char sa{n}[{len(s) + 1}] = "{s}";', f'    printf("st{n} %s\\n", sa{n});']

    def sc_fnptr(self):
        n = self.m()
        self.f("fnptr")
        e = self.env(["x"], [], pure=True)
        self.tops.append(f"int fa{n}(int x) {{\n    return {self.bound(self.expr(e, 2, Eff(False)))};\n}}")
        self.tops.append(f"int fb{n}(int x) {{\n    return {self.bound(self.expr(e, 2, Eff(False)))};\n}}")
        self.tops.append(f"int ap_{n}(int (*f)(int), int v) {{\n    return f(v) + {self.r.randint(0, 9)};\n}}")
        self.mains += [f"    int fr{n} = ap_{n}(fa{n}, {self.r.randint(-9, 30)});", f"    int fs{n} = ap_{n}(fb{n}, {self.r.randint(-9, 30)});", f'    printf("fp{n} %d %d\\n", fr{n}, fs{n});']

    def sc_enum(self):
        n = self.m()
        self.f("enum.switch")
        names = [f"K{n}_{x}" for x in ("RED", "GREEN", "BLUE")][: self.r.randint(2, 3)]
        vals = [""] * len(names)
        if self.chance(.5):
            vals[self.r.randrange(len(names))] = f" = {self.r.randint(1, 9)}"
        td = self.chance(.5)
        ty = f"Kind{n}" if td else f"enum Kind{n}"
        decl = ", ".join(a + b for a, b in zip(names, vals))
        vals_ok = True
        self.tops.append(f"typedef enum {{ {decl} }} Kind{n};" if td else f"enum Kind{n} {{ {decl} }};")
        cases = "".join(f"    case {nm}:\n        return {self.r.randint(0, 99)};\n" for nm in names)
        self.tops.append(f"int en{n}({ty} k) {{\n    switch (k) {{\n{cases}    default:\n        return -1;\n    }}\n}}")
        self.mains += [f"    int er{n} = en{n}({self.pick(names)});", f'    printf("en{n} %d\\n", er{n});']

    def sfm(self):
        return self.pick(["%s", "%s", "%-8s", f"%.{self.r.randint(0, 4)}s", f"%6.{self.r.randint(0, 4)}s", f"%-6.{self.r.randint(0, 4)}s"])

    def sc_unsigned(self):
        n = self.m()
        self.f("unsigned")
        t = f"unsigned int un{n}(unsigned int a, unsigned int b) {{\n    unsigned int r = a {self.pick(['&', '|', '^', '+'])} b;\n    r = r {self.pick(['>> 3', '/ 7', '% 1000', '<< 1'])};\n    if (r > {self.r.randint(1, 200)}) r {self.pick(['&=', '|=', '^=', '%='])} {self.r.randint(1, 99)};\n    return r;\n}}"
        self.tops.append(t)
        self.mains += [f"    unsigned int ur{n} = un{n}({self.r.randint(0, 500)}, {self.r.randint(0, 500)});", f'    printf("un{n} {self.pick(["%u", "%x", "%X", "%o", "%5u", "%-6u|", "%8x", "%-6x|", "%04X", "%9o"])}\\n", ur{n});']

    def sc_global_array(self):
        n = self.m()
        k = self.r.randint(2, 5)
        self.f("global.array")
        self.tops.append(f"int ga{n}[{k}] = {{{', '.join(str(self.r.randint(-9, 50)) for _ in range(k))}}};")
        self.tops.append(f"int gf{n}(int i, int v) {{\n    ga{n}[i] {self.pick(['=', '+=', '-='])} v;\n    return ga{n}[{self.r.randrange(k)}];\n}}")
        self.mains += [f"    int gr{n} = gf{n}({self.r.randrange(k)}, {self.r.randint(-9, 50)});", f'    printf("gf{n} %d\\n", gr{n});']
        self.mains += [f"    for (int gi{n} = 0; gi{n} < {k}; gi{n}++) {{", f'        printf("ga{n} %d\\n", ga{n}[gi{n}]);', "    }"]

    def sc_list(self):
        if "list" in self.feats:
            return
        self.f("list")
        n = self.m()
        self.tops.append(f"""struct LNode{n} {{
    int data;
    struct LNode{n} *next;
}};

int ls{n}(struct LNode{n} *head) {{
    int s = 0;
    while (head != 0) {{
        s = s * 3 + head->data;
        head = head->next;
    }}
    return s;
}}""")
        k = self.r.randint(1, 3)
        self.mains += [f"    struct LNode{n} l{n}_{i};" for i in range(k)]
        for i in range(k):
            self.mains += [f"    l{n}_{i}.data = {self.r.randint(0, 30)};", f"    l{n}_{i}.next = " + (f"&l{n}_{i + 1};" if i + 1 < k else "0;")]
        self.mains += [f"    int lr{n} = ls{n}(&l{n}_0);", f'    printf("ls{n} %d\\n", lr{n});']

    def sc_heap_list(self):
        n = self.m()
        self.f("list.heap")
        N = f"HN{n}"
        c, d = self.r.randint(1, 9), self.r.randint(0, 30)
        nul = self.pick(["NULL", "0", "NULL"])
        self.tops.append(f"struct {N} {{\n    int v;\n    struct {N} *next;\n}};")
        ops = {
            "len": f"int hl{n}(struct {N} *h) {{\n    int k = 0;\n    while (h != {nul}) {{\n        k++;\n        h = h->next;\n    }}\n    return k;\n}}",
            "sum": f"int hl{n}(struct {N} *h) {{\n    int s = {c};\n    struct {N} *p = h;\n    while (p != {nul}) {{\n        s = s * 2 {self.pick('+-^')} p->v;\n        p = p->next;\n    }}\n    return s;\n}}",
            "rec": f"int hl{n}(struct {N} *h) {{\n    if (h == {nul}) return {c};\n    return h->v {self.pick(['+', '-', '^'])} hl{n}(h->next){self.pick(['', ' * 2', ' / 2'])};\n}}",
            "bump": f"int hl{n}(struct {N} *h) {{\n    int k = 0;\n    while (h != {nul}) {{\n        h->v {self.pick(['+=', '-=', '='])} {c};\n        k += h->v;\n        h = h->next;\n    }}\n    return k;\n}}",
            "find": f"int hl{n}(struct {N} *h) {{\n    int i = 0;\n    while (h != {nul}) {{\n        if (h->v == {d}) return i;\n        i++;\n        h = h->next;\n    }}\n    return -1;\n}}",
        }
        k = self.pick(sorted(ops))
        self.f("list." + k)
        self.tops.append(ops[k])
        cnt = self.r.randint(1, 5)
        self.mains += [f"    struct {N} *hh{n} = {nul};", f"    for (int hi{n} = 0; hi{n} < {cnt}; hi{n}++) {{",
                       f"        struct {N} *hn{n} = {self.pick([f'(struct {N}*)', ''])}malloc(sizeof(struct {N}));", f"        hn{n}->v = hi{n} * {c} + {d} - {self.r.randint(0, 9)};",
                       f"        hn{n}->next = hh{n};", f"        hh{n} = hn{n};", "    }",
                       f'    printf("hl{n} %d\\n", hl{n}(hh{n}));']
        if self.chance(.5):
            self.mains += [f"    struct {N} *hp{n} = hh{n};", f"    while (hp{n} != {nul}) {{", f'        printf("hl{n} %d\\n", hp{n}->v);', f"        hp{n} = hp{n}->next;", "    }"]
        if self.chance(.4):
            self.f("list.reverse")
            self.mains += [f"    struct {N} *hr{n} = {nul};", f"    while (hh{n} != {nul}) {{", f"        struct {N} *hx{n} = hh{n}->next;", f"        hh{n}->next = hr{n};", f"        hr{n} = hh{n};", f"        hh{n} = hx{n};", "    }",
                           f"    hh{n} = hr{n};", f'    printf("hl{n} %d\\n", hl{n}(hh{n}));']
        self.mains += [f"    while (hh{n} != {nul}) {{", f"        struct {N} *ht{n} = hh{n}->next;", f"        free(hh{n});", f"        hh{n} = ht{n};", "    }"]

    def sc_tree(self):
        n = self.m()
        self.f("tree")
        N = f"struct TN{n}"
        ops = [f"if (t == NULL) return 0;\n    return t->k {self.pick('+-^')} tr{n}(t->l) {self.pick('+-^')} tr{n}(t->r);",
               f"if (t == NULL) return 0;\n    int a = tr{n}(t->l);\n    int b = tr{n}(t->r);\n    return 1 + (a {self.pick('<>')} b ? a : b);",
               f"if (t == NULL) return {self.r.randint(0, 3)};\n    return tr{n}(t->l) * 2 + t->k % 7 + tr{n}(t->r) * 3;",
               f"if (t == NULL) return 1;\n    if (t->l == NULL && t->r == NULL) return t->k;\n    if (t->l != NULL) return tr{n}(t->l) + 1;\n    return tr{n}(t->r) * 2;",
               f"int s = t->k;\n    if (t->l != NULL) {{\n        s = s + tr{n}(t->l);\n    }}\n    if (t->r != NULL) {{\n        s = s - tr{n}(t->r);\n    }}\n    return s;"]
        self.tops.append(f"""{N} {{
    int k;
    {N} *l;
    {N} *r;
}};

{N} *tm{n}(int k) {{
    {N} *t = malloc(sizeof({N}));
    t->k = k;
    t->l = NULL;
    t->r = NULL;
    return t;
}}

int tr{n}({N} *t) {{
    {self.pick(ops)}
}}

void td{n}({N} *t) {{
    if (t == NULL) return;
    td{n}(t->l);
    td{n}(t->r);
    free(t);
}}""")
        self.mains += [f"    {N} *t{n} = tm{n}({self.r.randint(-9, 40)});"]
        nodes = [f"t{n}"]
        free = [f"t{n}->l", f"t{n}->r"]
        for _ in range(self.r.randint(0, 2)):
            f = free.pop(self.r.randrange(len(free)))
            self.mains += [f"    {f} = tm{n}({self.r.randint(-9, 40)});"]
        self.mains += [f'    printf("tr{n} %d\\n", tr{n}(t{n}));', f"    td{n}(t{n});"]

    def sc_stack(self):
        n = self.m()
        k = self.r.randint(2, 5)
        S = f"struct Stk{n}"
        T, fm, bad, lit = self.pick([("int", "%d", "-1", lambda: str(self.r.randint(-50, 99)))] * 2 + [
            ("double", "%.2f", "-1.0", lambda: f"{self.r.randint(-50, 99)}.{self.pick(['0', '5', '25'])}"),
            ("unsigned int", "%u", "0", lambda: str(self.r.randint(0, 99999)))])
        alloc = self.pick([f"malloc(sizeof({T}) * {k})", f"malloc({k} * sizeof({T}))", f"calloc({k}, sizeof({T}))", f"({T}*)malloc({k} * sizeof({T}))", f"({T}*)calloc({k}, sizeof({T}))"])
        self.f("heap.field." + T.split()[0])
        self.tops.append(f"""{S} {{
    {T} *data;
    int top;
    int cap;
}};

void ps{n}({S} *s, {T} v) {{
    if (s->top {self.pick(['<', '!='])} s->cap) {{
        s->data[s->top] = v;
        s->top{self.pick(['++', ' += 1', ' = s->top + 1'])};
    }}
}}

{T} pp{n}({S} *s) {{
    if (s->top {self.pick(['== 0', '<= 0', '< 1'])}) return {bad};
    s->top{self.pick(['--', ' -= 1', ' = s->top - 1'])};
    return s->data[s->top];
}}""")
        self.mains += [f"    {S} sk{n};", f"    sk{n}.data = {alloc};", f"    sk{n}.top = 0;", f"    sk{n}.cap = {k};"]
        for _ in range(self.r.randint(2, 8)):
            self.mains += [f"    ps{n}(&sk{n}, {lit()});"] if self.chance(.6) else [f'    printf("pp{n} {fm}\\n", pp{n}(&sk{n}));']
        self.mains += [f'    printf("sk{n} %d\\n", sk{n}.top);']
        if self.chance(.5):
            # the local struct's array, filled to the end
            self.f("heap.field.local")
            self.mains += [f"    for (int q{n} = 0; q{n} < {k}; q{n}++) {{", f"        sk{n}.data[q{n}] = {'q%d * 1.5' % n if T == 'double' else 'q%d' % n if T == 'int' else '7'};", "    }",
                           f'    printf("sk{n} {fm}\\n", sk{n}.data[{k - 1}]);']
        self.mains += [f"    free(sk{n}.data);"]

    def sc_ptrwalk(self):
        n = self.m()
        self.f("pointer.walk")
        k = self.r.randint(2, 6)
        vals = ", ".join(str(self.r.randint(-30, 90)) for _ in range(k))
        kind = self.pick(["local", "end", "index"])
        self.f("pointer.walk." + kind)
        op = self.pick(["+=", "-=", "^="])
        if kind == "local":
            t = f"int pw{n}(int z) {{\n    int a[{k}] = {{{vals}}};\n    int *p = a;\n    int s = z;\n    for (int i = 0; i < {k}; i++) {{\n        s {op} *p;\n        p++;\n    }}\n    return s;\n}}"
            self.mains += [f'    printf("pw{n} %d\\n", pw{n}({self.r.randint(-9, 9)}));']
        elif kind == "end":
            t = f"int pw{n}(const int *a, int n) {{\n    int s = {self.r.randint(0, 9)};\n    const int *e = a + n;\n    while (a < e) {{\n        s {op} *a;\n        a++;\n    }}\n    return s;\n}}"
            self.mains += [f"    int wa{n}[{k}] = {{{vals}}};", f'    printf("pw{n} %d\\n", pw{n}(wa{n}, {self.pick([k, k, k - 1, 0])}));']
        else:
            i = self.r.randrange(k)
            t = f"int pw{n}(int z) {{\n    int a[{k}] = {{{vals}}};\n    int *p = a;\n    p[{i}] = z;\n    p[{self.r.randrange(k)}] += 3;\n    return a[{i}] * 2 + p[{self.r.randrange(k)}];\n}}"
            self.mains += [f'    printf("pw{n} %d\\n", pw{n}({self.r.randint(-9, 9)}));']
        self.tops.append(t)

    def sc_ptrptr(self):
        n = self.m()
        self.f("pointer.pointer")
        self.tops.append(f"void sq{n}(int **p, int *q) {{\n    *p = q;\n}}")
        self.mains += [f"    int qa{n} = {self.r.randint(-9, 99)};", f"    int qb{n} = {self.r.randint(-9, 99)};", f"    int *qp{n} = NULL;", f"    sq{n}(&qp{n}, &qa{n});", f'    printf("sq{n} %d\\n", *qp{n});',
                       f"    sq{n}(&qp{n}, &qb{n});", f'    printf("sq{n} %d\\n", *qp{n});']

    def text(self):
        return "".join(self.pick("abcXYZ 019-_.,:") for _ in range(self.r.randint(0, 9)))

    def sc_strfn(self):
        n = self.m()
        kind = self.pick(["len", "lenfn", "puts", "table", "name", "pick", "atoi", "chars"])
        self.f("string." + kind)
        if kind == "len":
            self.mains += [f'    const char *sx{n} = "{self.text()}";', f"    int sn{n} = (int)strlen(sx{n});", f'    printf("sn{n} %d %s\\n", sn{n}, sx{n});']
        elif kind == "lenfn":
            self.tops.append(f"int sn{n}(const char *s) {{\n    return (int)strlen(s) {self.pick('+-*')} {self.r.randint(1, 9)};\n}}")
            self.mains += [f'    printf("sn{n} %d\\n", sn{n}("{self.text()}"));']
        elif kind == "puts":
            self.mains += [f'    puts("{self.text()}");']
        elif kind == "table":
            k = self.r.randint(1, 4)
            self.mains += [f"    const char *sx{n}[{k}] = {{" + ", ".join(f'"{self.text()}"' for _ in range(k)) + "};", f"    for (int si{n} = 0; si{n} < {k}; si{n}++) {{", f'        printf("sx{n} %d %s\\n", si{n}, sx{n}[si{n}]);', "    }"]
        elif kind == "name":
            k = self.r.randint(2, 4)
            cs = "".join(f'    case {i}:\n        return "{self.text()}";\n' for i in range(k))
            self.tops.append(f'const char *sn{n}(int k) {{\n    switch (k) {{\n{cs}    default:\n        return "{self.text()}";\n    }}\n}}')
            self.mains += [f'    printf("sn{n} %s %s\\n", sn{n}({self.r.randint(-1, k)}), sn{n}({self.r.randint(0, k)}));']
        elif kind == "pick":
            self.mains += [f"    int sk{n} = {self.r.randint(-5, 5)};", f'    printf("sk{n} %s\\n", sk{n} {self.pick(["<", ">", "==", "!=", "<=", ">="])} {self.r.randint(-2, 2)} ? "{self.text()}" : "{self.text()}");']
        elif kind == "atoi":
            self.mains += [f'    int sa{n} = atoi("{self.r.randint(-999, 999)}");', f'    printf("sa{n} %d\\n", sa{n});']
        else:
            c = self.pick("aeijxz")
            self.mains += [f"    char ch{n} = '{c}';", f'    printf("ch{n} %c %d\\n", ch{n}, ch{n} {self.pick(["==", "!=", "<", ">="])} \'{self.pick("aeijxz")}\');', f"    ch{n} = '{self.pick('AZ09')}';", f"    int ci{n} = ch{n};", f'    printf("ch{n} %c %d\\n", ch{n}, ci{n});']

    def sc_exit(self):
        n = self.m()
        self.f("exit")
        self.tops.append(f'void ex{n}(int a) {{\n    if (a {self.pick([">", ">=", "=="])} {self.r.randint(0, 5)}) {{\n        printf("ex{n}\\n");\n        exit(a);\n    }}\n    printf("go{n} %d\\n", a);\n}}')
        self.mains += [f"    ex{n}({self.r.randint(0, 6)});"]

    def sc_abs(self):
        n = self.m()
        self.f("abs")
        self.tops.append(f"int ab{n}(int a, int b) {{\n    return abs(a {self.pick('+-*')} b) {self.pick('+-')} abs(b);\n}}")
        self.mains += [f'    printf("ab{n} %d\\n", ab{n}({self.r.randint(-99, 99)}, {self.r.randint(-99, 99)}));']

    def sc_global_struct(self):
        n = self.m()
        st = self.pick(self.flat())
        self.f("global.struct")
        ls = self.all_lvals(f"gs{n}", st)
        self.tops.append(f"{st[1]} gs{n};")
        self.tops.append(f"int gt{n}(int v) {{\n" + "".join(f"    {l} {self.pick(['=', '+=', '-='])} v + {i};\n" for i, l in enumerate(ls)) + f"    return {self.pick(ls)};\n}}")
        self.mains += [f"    int gv{n} = gt{n}({self.r.randint(-9, 50)});", f'    printf("gt{n} %d\\n", gv{n});'] + self.show(f"gs{n}", ls)

    def sc_darray(self):
        n = self.m()
        k = self.r.randint(2, 5)
        self.f("double.array")
        self.mains += [f"    double da{n}[{k}] = {{{', '.join(f'{self.r.randint(-9, 30)}.{self.r.choice([0, 5, 25])}' for _ in range(k))}}};", f"    double ds{n} = 0.0;",
                       f"    for (int dj{n} = 0; dj{n} < {k}; dj{n}++) {{", f"        ds{n} {self.pick(['+=', '-='])} da{n}[dj{n}]{self.pick(['', ' * 2.0', ' / 4.0'])};", "    }", f'    printf("da{n} %.3f\\n", ds{n});']

    def sc_fntable(self):
        n = self.m()
        self.f("fnptr.var")
        self.tops.append(f"int fc{n}(int x, int y) {{\n    return x {self.pick('+-*')} y;\n}}")
        self.tops.append(f"int fd{n}(int x, int y) {{\n    return x {self.pick('&|^')} y;\n}}")
        self.mains += [f"    int (*fv{n})(int, int) = fc{n};", f'    printf("fv{n} %d\\n", fv{n}({self.r.randint(-9, 30)}, {self.r.randint(-9, 30)}));', f"    fv{n} = fd{n};", f'    printf("fv{n} %d\\n", fv{n}({self.r.randint(-9, 30)}, {self.r.randint(-9, 30)}));']

    def sc_struct_in_ptr(self):
        n = self.m()
        st = self.pick(self.structs)
        self.f("struct.compare")
        f = [x for x, kd in st[2] if kd == "int"]
        a, b = self.pick(f), self.pick(f)
        self.tops.append(f"int sc{n}(const {st[1]} *a, const {st[1]} *b) {{\n    if (a->{a} != b->{b}) return a->{a} < b->{b} ? -1 : 1;\n    return a->{b} - b->{a};\n}}")
        self.mains += [f"    {st[1]} u{n};"] + self.init_stmts(f"u{n}", st) + [f"    {st[1]} v{n};"] + self.init_stmts(f"v{n}", st)
        self.mains += [f'    printf("sc{n} %d %d\\n", sc{n}(&u{n}, &v{n}), sc{n}(&v{n}, &u{n}));']

    def sc_bst(self):
        n = self.m()
        self.f("tree.search")
        N = f"struct BN{n}"
        self.tops.append(f"""{N} {{
    int k;
    {N} *l;
    {N} *r;
}};

{N} *bi{n}({N} *t, int k) {{
    if (t == NULL) {{
        {N} *n = {self.pick([f'({N}*)', ''])}malloc(sizeof({N}));
        n->k = k;
        n->l = NULL;
        n->r = NULL;
        return n;
    }}
    if (k {self.pick(['<', '<=', '>', '>='])} t->k) t->l = bi{n}(t->l, k);
    else t->r = bi{n}(t->r, k);
    return t;
}}

void bw{n}({N} *t) {{
    if (t == NULL) return;
    {self.pick([f'bw{n}(t->l);{chr(10)}    printf("bw{n} %d{chr(92)}n", t->k);', f'printf("bw{n} %d{chr(92)}n", t->k);{chr(10)}    bw{n}(t->l);'])}
    bw{n}(t->r);
}}

void bd{n}({N} *t) {{
    if (t == NULL) return;
    bd{n}(t->l);
    bd{n}(t->r);
    free(t);
}}""")
        self.mains += [f"    {N} *bt{n} = NULL;"] + [f"    bt{n} = bi{n}(bt{n}, {self.r.randint(-20, 40)});" for _ in range(self.r.randint(1, 6))] + [f"    bw{n}(bt{n});", f"    bd{n}(bt{n});"]

    def sc_list_body(self):
        n = self.m()
        self.f("list.body")
        N = f"struct LB{n}"
        lv = ["h->v", "h->w"]
        body = self.stmts(self.env(lv + ["k"], lv + ["k"]), self.r.randint(1, 4), 2, ind=2)
        self.tops.append(f"{N} {{\n    int v;\n    int w;\n    {N} *next;\n}};")
        self.tops.append(f"int lb{n}({N} *h, int k) {{\n    while (h != NULL) {{\n" + "\n".join(body) + f"\n        h = h->next;\n    }}\n    return k;\n}}")
        self.tops.append(f"int ll{n}({N} *h) {{\n    int c = 1;\n    while (h->next != NULL) {{\n        h = h->next;\n        c++;\n    }}\n    return h->v * 10 + c;\n}}")
        k = self.r.randint(1, 3)
        self.mains += [f"    {N} lb{n}_{i};" for i in range(k)]
        for i in range(k):
            self.mains += [f"    lb{n}_{i}.v = {self.r.randint(-9, 30)};", f"    lb{n}_{i}.w = {self.r.randint(-9, 30)};", f"    lb{n}_{i}.next = " + (f"&lb{n}_{i + 1};" if i + 1 < k else "NULL;")]
        self.mains += [f'    printf("ll{n} %d\\n", ll{n}(&lb{n}_0));']
        self.mains += [f'    printf("lb{n} %d\\n", lb{n}(&lb{n}_0, {self.r.randint(-5, 9)}));']
        self.mains += self.show(f"lb{n}", [f"lb{n}_{i}.{f}" for i in range(k) for f in "vw"])

    def sc_ptrops(self):
        n = self.m()
        self.f("pointer.ops")
        k = 6
        L = [f"    int a[{k}] = {{{', '.join(str(self.r.randint(-9, 60)) for _ in range(k))}}};", "    int *p = a;", "    int x = z;", "    int s = 0;"]
        pos = 0
        for _ in range(self.r.randint(3, 9)):
            o = self.pick(["read", "write", "add", "fwd", "back", "jump", "addr", "idx", "x"])
            if o == "read" and pos is not None:
                L.append("    s = s * 3 + *p;")
            elif o == "write":
                L.append(f"    *p = {self.pick(['s', 'z', 'x'])} + {self.r.randint(-9, 9)};")
            elif o == "add":
                L.append(f"    *p {self.pick(['+=', '-=', '^='])} {self.r.randint(1, 9)};")
            elif o == "fwd" and pos is not None and pos < k - 1:
                d = self.r.randint(1, k - 1 - pos)
                pos += d
                L.append("    p++;" if d == 1 and self.chance(.5) else f"    p += {d};" if self.chance(.5) else f"    p = p + {d};")
            elif o == "back" and pos:
                d = self.r.randint(1, pos)
                pos -= d
                L.append("    p--;" if d == 1 and self.chance(.5) else f"    p -= {d};" if self.chance(.5) else f"    p = p - {d};")
            elif o == "jump":
                pos = self.r.randrange(k)
                L.append(f"    p = &a[{pos}];")
            elif o == "addr":
                pos = None
                L.append("    p = &x;")
            elif o == "idx" and pos is not None:
                L.append(f"    s += p[{self.r.randrange(k - pos)}];")
            elif o == "x":
                L.append(f"    x {self.pick(['+=', '-='])} {self.r.randint(1, 9)};")
        L += self.show(f"po{n}", ["s", "x", "*p"] + [f"a[{i}]" for i in range(k)])
        self.tops.append(f"int po{n}(int z) {{\n" + "\n".join(L) + "\n    return s;\n}")
        self.mains += [f'    printf("po{n} %d\\n", po{n}({self.r.randint(-9, 9)}));']

    def sc_matrix(self):
        n = self.m()
        self.f("array.2dparam")
        a, b = self.r.randint(2, 3), self.r.randint(2, 3)
        self.tops.append(f"int mx{n}(int m[{a}][{b}], int z) {{\n    int s = z;\n    for (int i = 0; i < {a}; i++) {{\n        for (int j = 0; j < {b}; j++) {{\n            s {self.pick(['+=', '-=', '^='])} m[i][j]{self.pick(['', ' * i', ' * (j + 1)', ' - j'])};\n        }}\n    }}\n    return s;\n}}")
        self.mains += [f"    int mm{n}[{a}][{b}] = {{" + ", ".join("{" + ", ".join(str(self.r.randint(-9, 9)) for _ in range(b)) + "}" for _ in range(a)) + "};", f'    printf("mx{n} %d\\n", mx{n}(mm{n}, {self.r.randint(-9, 9)}));']

    def sc_char(self):
        n = self.m()
        kind = self.pick(["loop", "offset", "upper", "array", "class"])
        self.f("char." + kind)
        if kind == "loop":
            a = self.r.randint(97, 115)
            self.mains += [f"    char cv{n};", f"    for (cv{n} = '{chr(a)}'; cv{n} {self.pick(['<=', '<'])} '{chr(a + self.r.randint(0, 6))}'; cv{n}++) printf(\"%c\", cv{n});", '    printf("\\n");']
        elif kind == "offset":
            self.mains += [f"    for (int co{n} = 0; co{n} < {self.r.randint(1, 6)}; co{n}++) printf(\"%c\", '{self.pick('aA0')}' + co{n});", '    printf("\\n");']
        elif kind == "upper":
            self.tops.append(f"int cu{n}(int c) {{\n    if (c >= 'a' && c <= 'z') return c - 'a' + 'A';\n    if (c == '{self.pick('AZ0')}') return {self.r.randint(65, 90)};\n    return c;\n}}")
            self.mains += [f'    printf("cu{n} %c%c%d\\n", cu{n}(\'{self.pick("aqz")}\'), cu{n}(\'{self.pick("AZ0")}\'), cu{n}({self.r.randint(40, 120)}));']
        elif kind == "array":
            s = "".join(self.pick("abcXYZ019") for _ in range(self.r.randint(1, 5)))
            self.mains += [f"    char ca{n}[{len(s) + 1}];"] + [f"    ca{n}[{i}] = '{c}';" for i, c in enumerate(s)] + [f"    ca{n}[{len(s)}] = 0;", f'    printf("ca{n} %c%c\\n", ca{n}[0], ca{n}[{len(s) - 1}]);']
        else:
            self.tops.append(f"int ck{n}(char c) {{\n    switch (c) {{\n    case '{self.pick('abc')}':\n        return 1;\n    case '{self.pick('def')}':\n    case '{self.pick('ghi')}':\n        return 2;\n    default:\n        return c {self.pick(['<', '>', '=='])} 'm';\n    }}\n}}")
            self.mains += [f'    printf("ck{n} %d %d\\n", ck{n}(\'{self.pick("abcdefghi")}\'), ck{n}(\'{self.pick("adgmnz")}\'));']

    def sc_struct_init(self):
        n = self.m()
        self.f("struct.init")
        self.tops.append(f"struct SI{n} {{\n    int x;\n    int y;\n    int z;\n}};")
        self.tops.append(f"struct SI{n} mi{n}(int a) {{\n    struct SI{n} p = {{a, a {self.pick('+-*')} {self.r.randint(1, 9)}, {self.r.randint(-9, 9)}}};\n    return p;\n}}")
        v = [self.r.randint(-9, 60) for _ in range(3)]
        self.mains += [f"    struct SI{n} ia{n} = {{{v[0]}, {v[1]}, {v[2]}}};", f"    struct SI{n} ib{n} = {{0}};", f"    ib{n} = ia{n};", f"    ib{n}.{self.pick('xyz')} += {self.r.randint(1, 9)};",
                       f'    printf("ia{n} %d %d %d\\n", ia{n}.x, ia{n}.y, ia{n}.z);', f'    printf("ib{n} %d %d %d\\n", ib{n}.x, ib{n}.y, ib{n}.z);', f'    printf("mi{n} %d\\n", mi{n}({self.r.randint(-9, 9)}).{self.pick("xyz")});']

    def sc_struct_arrparam(self):
        n = self.m()
        self.f("struct.arrayparam")
        k = self.r.randint(1, 4)
        self.tops.append(f"struct SA{n} {{\n    int x;\n    int y;\n}};")
        self.tops.append(f"int sa_{n}(struct SA{n} a[], int n) {{\n    int s = {self.r.randint(0, 9)};\n    for (int i = 0; i < n; i++) {{\n        s {self.pick(['+=', '-=', '^='])} a[i].x {self.pick('+-*')} a[i].y;\n    }}\n    return s;\n}}")
        self.mains += [f"    struct SA{n} sb{n}[{k}] = {{" + ", ".join(f"{{{self.r.randint(-9, 30)}, {self.r.randint(-9, 30)}}}" for _ in range(k)) + "};", f'    printf("sa{n} %d\\n", sa_{n}(sb{n}, {k}));']

    def sc_heap2d(self):
        n = self.m()
        self.f("heap.2d")
        a, b = self.r.randint(1, 3), self.r.randint(1, 3)
        self.tops.append(f"""int h2{n}(int z) {{
    int **m = malloc({a} * sizeof(int*));
    int s = 0;
    for (int i = 0; i < {a}; i++) {{
        m[i] = malloc({b} * sizeof(int));
        for (int j = 0; j < {b}; j++) {{
            m[i][j] = i {self.pick('+-*')} z {self.pick('+-')} j;
        }}
    }}
    for (int i = 0; i < {a}; i++) {{
        for (int j = 0; j < {b}; j++) {{
            s = s * 3 + m[i][j];
        }}
        free(m[i]);
    }}
    free(m);
    return s;
}}""")
        self.mains += [f'    printf("h2{n} %d\\n", h2{n}({self.r.randint(-9, 9)}));']

    def sc_fntypedef(self):
        n = self.m()
        self.f("fnptr.typedef")
        self.tops.append(f"typedef int (*op{n}_t)(int, int);")
        self.tops.append(f"int oa{n}(int x, int y) {{\n    return x {self.pick('+-*')} y;\n}}")
        self.tops.append(f"int ob{n}(int x, int y) {{\n    return x {self.pick(['<', '>', '=='])} y ? x : y;\n}}")
        self.tops.append(f"int oc{n}(op{n}_t f, int a, int b) {{\n    return f(a, b) {self.pick('+-')} f(b, a);\n}}")
        self.mains += [f'    printf("oc{n} %d %d\\n", oc{n}(oa{n}, {self.r.randint(-9, 9)}, {self.r.randint(-9, 9)}), oc{n}(ob{n}, {self.r.randint(-9, 9)}, {self.r.randint(-9, 9)}));']

    def sc_enum_index(self):
        n = self.m()
        self.f("enum.index")
        k = self.r.randint(2, 4)
        nm = [f"E{n}_{c}" for c in "ABCD"[:k]]
        self.tops.append(f"enum Ix{n} {{ {', '.join(nm)} }};")
        self.mains += [f"    int ei{n}[{k}] = {{0}};"] + [f"    ei{n}[{self.pick(nm)}] {self.pick(['=', '+=', '-='])} {self.r.randint(1, 9)};" for _ in range(self.r.randint(1, 5))] + [f"    ei{n}[{self.pick(nm)}]++;"] + self.show(f"ei{n}", [f"ei{n}[{x}]" for x in nm])

    def sc_define(self):
        n = self.m()
        self.f("define.array")
        k = self.r.randint(2, 6)
        self.tops.append(f"#define LIM{n} {k}")
        self.tops.append(f"int df{n}(int z) {{\n    int a[LIM{n}];\n    for (int i = 0; i < LIM{n}; i++) a[i] = i {self.pick('+-*')} z;\n    return a[LIM{n} - 1] {self.pick('+-*')} LIM{n};\n}}")
        self.mains += [f'    printf("df{n} %d\\n", df{n}({self.r.randint(-9, 9)}));']

    def sc_size(self):
        n = self.m()
        self.f("size_t")
        k = self.r.randint(1, 6)
        self.mains += [f"    size_t zn{n} = {k};", f"    int zs{n} = 0;", f"    for (size_t zi{n} = 0; zi{n} < zn{n}; zi{n}++) zs{n} += (int)zi{n} * {self.r.randint(1, 9)};", f'    printf("zs{n} %d\\n", zs{n});']

    def sc_mixed(self):
        n = self.m()
        self.f("double.mixed")
        self.mains += [f"    int mi_{n} = {self.r.randint(-40, 40)};", f"    double md{n} = mi_{n} {self.pick('+-*/')} {self.r.randint(1, 8)}.{self.r.choice([0, 5, 25])};", f'    printf("md{n} %.3f\\n", md{n});', f"    md{n} = mi_{n};", f'    printf("md{n} %.1f\\n", md{n} {self.pick("+-*")} {self.r.randint(1, 9)});',
                       f'    if (md{n} {self.pick(["<", ">", "<=", ">="])} {self.r.randint(-9, 9)}.5) printf("yes{n}\\n");']

    ALL = ["struct_value", "struct_ptr", "struct_ret", "struct_array", "array", "array_param", "array2d", "ptr", "heap",
           "heap_struct", "double", "string", "fnptr", "enum", "unsigned", "global_array", "list",
           "heap_list", "tree", "stack", "ptrwalk", "ptrptr", "strfn", "strfn", "exit", "abs", "global_struct", "darray", "fntable", "struct_in_ptr",
           "bst", "list_body", "ptrops", "matrix", "char", "struct_init", "struct_arrparam", "heap2d", "fntypedef", "enum_index", "define", "size", "mixed", "nested_use", "nested_use", "string_escapes",
           "records", "records", "charbuf", "negidx"]

    def nest(self, lines, depth):
        """The lines inside `depth` nested control structures; the outer ones may leave them out."""
        r = self.r
        for _ in range(depth):
            n = self.m()
            k = self.pick(["if", "else", "while", "for", "switch", "default", "do", "elseif"])
            self.f("nest." + k)
            c = r.randint(-3, 9)
            ind = ["    " + l for l in lines]
            ind2 = ["        " + l for l in lines]
            if k == "if":
                lines = [f"if (k >= {c}) {{"] + ind + ["}"]
            elif k == "else":
                lines = [f"if (k == {c}) {{", f"    s += {r.randint(1, 9)};", "} else {"] + ind + ["}"]
            elif k == "elseif":
                lines = [f"if (k == {c}) {{", f"    s += {r.randint(1, 9)};", f"}} else if (k > {c}) {{"] + ind + ["} else {", "    s -= 1;", "}"]
            elif k == "while":
                lines = [f"int w{n} = {r.randint(0, 2)};", f"while (w{n} > 0) {{", f"    w{n}--;"] + ind + ["}"]
            elif k == "do":
                lines = [f"int w{n} = {r.randint(1, 2)};", "do {", f"    w{n}--;"] + ind + [f"}} while (w{n} > 0);"]
            elif k == "for":
                lines = [f"for (int i{n} = 0; i{n} < {r.randint(0, 2)}; i{n}++) {{"] + ind + ["}"]
            elif k == "switch":
                lines = ["switch (k) {", f"    case {c}:", f"        s += {r.randint(1, 5)};", "        break;", f"    case {c + 1}:"] + ind2 + ["        break;", "    default:", "        s += 1;"] + ["}"]
            else:
                lines = ["switch (k) {", f"    case {c}:", f"        s += {r.randint(1, 5)};", "        break;", "    default:"] + ind2 + ["        break;", "}"]
        return lines

    def sc_nested_use(self):
        """A parameter whose only write, step or field access lies deep inside control structures."""
        r = self.r
        n = self.m()
        kind = self.pick(["write", "step", "field", "element", "local"])
        self.f("nested." + kind)
        d = r.randint(1, 3)
        ks = [r.randint(-3, 10) for _ in range(3)]
        body = lambda ls: "\n".join("    " + l for l in self.nest(ls, d))
        if kind == "write":
            t = f"int nu{n}(int *p, int k) {{\n    int s = *p;\n" + body([f"*p = s + k * {r.randint(1, 4)};"]) + "\n    return s + *p;\n}"
            self.mains += [f"    int nv{n} = {r.randint(-9, 30)};"] + [f'    printf("nu{n} %d\\n", nu{n}(&nv{n}, {k}));' for k in ks] + [f'    printf("nv{n} %d\\n", nv{n});']
        elif kind == "step":
            k9 = ", ".join(str(r.randint(-30, 90)) for _ in range(10))
            t = f"int nu{n}(int *p, int k) {{\n    int s = 0;\n" + body(["s += *p;", self.pick(["p++;", "p = p + 1;"])]) + "\n    return s * 3 + *p;\n}"
            self.mains += [f"    int na{n}[10] = {{{k9}}};"] + [f'    printf("nu{n} %d\\n", nu{n}(na{n}, {k}));' for k in ks]
        elif kind == "field":
            st = self.pick(self.structs)
            lv = self.lvals("p", st, True)
            t = f"int nu{n}({st[1]} *p, int k) {{\n    int s = k;\n" + body([f"{self.pick(lv)} {self.pick(['=', '+=', '-='])} {self.pick(['k', 's', str(r.randint(1, 9))])};"]) + f"\n    return s + {self.pick(lv)};\n}}"
            self.mains += [f"    {st[1]} nb{n};"] + self.init_stmts(f"nb{n}", st) + [f'    printf("nu{n} %d\\n", nu{n}(&nb{n}, {k}));' for k in ks] + self.show(f"nb{n}", self.all_lvals(f"nb{n}", st))
        elif kind == "element":
            w = r.randint(2, 5)
            t = f"int nu{n}(int a[{w}], int k) {{\n    int s = a[{r.randrange(w)}];\n" + body([f"a[{r.randrange(w)}] {self.pick(['=', '+=', '-='])} {self.pick(['k', 's'])};"]) + f"\n    return s + a[{r.randrange(w)}];\n}}"
            self.mains += [f"    int na{n}[{w}] = {{{', '.join(str(r.randint(-9, 30)) for _ in range(w))}}};"] + [f'    printf("nu{n} %d\\n", nu{n}(na{n}, {k}));' for k in ks]
            self.mains += self.show(f"na{n}", [f"na{n}[{i}]" for i in range(w)])
        else:
            t = f"int nu{n}(int k) {{\n    int s = {r.randint(0, 9)};\n    int v = k;\n" + body([f"int *q{n} = &v;", f"*q{n} += {r.randint(1, 9)};", "s += v;"]) + "\n    return s * 2 + v;\n}"
            self.mains += [f'    printf("nu{n} %d\\n", nu{n}({k}));' for k in ks]
        self.tops.append(t)

    def sc_records(self):
        """Structs of every scalar kind, arrays of sizes around Rust's trait limits, nested structs and arrays of structs;
        filled, copied, changed through pointers and values, and printed."""
        r = self.r
        n = self.m()
        recs = []
        for k in range(r.randint(1, 3)):
            fs = []
            for i in range(r.randint(1, 5)):
                kind = self.pick(["int", "int", "unsigned", "double", "arr", "arr", "darr", "arr2", "rec", "recs", "carr"])
                if kind in ("rec", "recs") and not recs:
                    kind = "arr"
                size = self.pick([1, 2, 3, 5, 8, 16, 31, 32, 33, 40, 64])
                if kind == "arr2":
                    size = (self.pick([1, 2, 3, 4]), self.pick([1, 2, 3, 33]))
                if kind == "recs":
                    size = r.randint(1, 3)
                fs.append((f"f{i}", kind, size, self.pick(recs) if kind in ("rec", "recs") else None))
                self.f("record." + kind)
            name = f"Rec{n}_{k}"
            lines = []
            for f, kind, size, sub in fs:
                lines.append("    " + {"int": f"int {f};", "unsigned": f"unsigned int {f};", "double": f"double {f};", "arr": f"int {f}[{size}];", "darr": f"double {f}[{size}];",
                                       "carr": f"char {f}[{size}];",
                                       "arr2": f"int {f}[{size[0]}][{size[1]}];" if kind == "arr2" else "", "rec": f"{sub[1]} {f};" if sub else "", "recs": f"{sub[1]} {f}[{size}];" if sub else ""}[kind])
            if self.chance(.5):
                self.tops.append(f"typedef struct {{\n" + "\n".join(lines) + f"\n}} {name};")
                recs.append((name, name, fs))
            else:
                self.tops.append(f"struct {name} {{\n" + "\n".join(lines) + "\n};")
                recs.append((name, f"struct {name}", fs))
        st = recs[-1]

        def places(base, fs, sep="."):
            out = []
            for f, kind, size, sub in fs:
                b = base + sep + f
                ends = lambda m: sorted({0, m - 1, r.randrange(m)})
                if kind in ("int", "unsigned", "double"):
                    out.append((b, kind))
                elif kind in ("arr", "darr", "carr"):
                    out += [(f"{b}[{i}]", {"arr": "int", "darr": "double", "carr": "char"}[kind]) for i in ends(size)]
                elif kind == "arr2":
                    out += [(f"{b}[{i}][{j}]", "int") for i in ends(size[0]) for j in ends(size[1])]
                elif kind == "rec":
                    out += places(b, sub[2])
                else:
                    out += [p for i in ends(size) for p in places(f"{b}[{i}]", sub[2])]
            return out

        def val(kind):
            return {"int": str(r.randint(-40, 90)), "unsigned": str(r.randint(0, 90)), "double": f"{r.randint(-9, 9)}.{self.pick([0, 5, 25])}", "char": f"'{self.pick('abcXYZ019')}'"}[kind]

        def show(tag, ps):
            return [f'    printf("{tag} {" ".join({"int": "%d", "unsigned": "%u", "double": "%.2f", "char": "%c"}[k] for _, k in ps[i:i + 5])}\\n", {", ".join(p for p, _ in ps[i:i + 5])});' for i in range(0, len(ps), 5)]
        ps = places(f"ra{n}", st[2])
        r.shuffle(ps)
        ps = ps[:14]
        re = lambda q, b, sep=".": (b + sep + q[0].split(".", 1)[1], q[1])
        L = [f"    {st[1]} ra{n};"] + [f"    {p} = {val(k)};" for p, k in ps]
        if self.chance(.7):
            self.f("record.copy")
            ch = r.sample(ps, min(len(ps), 3))
            if self.chance(.5):
                L += [f"    {st[1]} rb{n} = ra{n};"]
            else:
                L += [f"    {st[1]} rb{n};", f"    rb{n} = ra{n};"]
            L += [f"    {re(p, f'rb{n}')[0]} = {val(p[1])};" for p in ch]
            L += show(f"rb{n}", [re(p, f"rb{n}") for p in ps])
        if self.chance(.6):
            self.f("record.bypointer")
            ch = [re(p, "p", "->") for p in r.sample(ps, min(len(ps), 3))]
            self.tops.append(f"void rp{n}({st[1]} *p) {{\n" + "\n".join(f"    {p} {self.pick(['=', '=', '+=']) if k in ('int', 'double') else '='} {val(k)};" for p, k in ch) + "\n}")
            L += [f"    rp{n}(&ra{n});"]
        if self.chance(.6):
            self.f("record.byvalue")
            ch = [re(p, "p") for p in r.sample(ps, min(len(ps), 2))]
            q = self.pick([re(p, "p") for p in ps])
            T = {"int": "int", "unsigned": "unsigned int", "double": "double", "char": "char"}[q[1]]
            self.tops.append(f"{T} rv{n}({st[1]} p) {{\n" + "\n".join(f"    {p} = {val(k)};" for p, k in ch) + f"\n    return {q[0]};\n}}")
            L += [f"    {T} rr{n} = rv{n}(ra{n});"] + show(f"rr{n}", [(f"rr{n}", q[1])])
        if self.chance(.4):
            self.f("record.array")
            m = r.randint(2, 4)
            L += [f"    {st[1]} rs{n}[{m}];", f"    for (int i{n} = 0; i{n} < {m}; i{n}++) {{", f"        rs{n}[i{n}] = ra{n};", "    }"]
            w, q = self.pick(ps), self.pick(ps)
            L += [f"    {re(w, f'rs{n}[{r.randrange(m)}]')[0]} = {val(w[1])};"] + [x for i in range(m) for x in show(f"rs{n}", [re(w, f"rs{n}[{i}]"), re(q, f"rs{n}[{i}]")])]
        L += show(f"ra{n}", ps)
        self.mains += L

    def sc_charbuf(self):
        n = self.m()
        r = self.r
        s = "".join(self.pick("abcXYZ 019-_") for _ in range(r.randint(0, 12)))
        k = len(s) + 1 + self.pick([0, 0, 1, 2, 7, 20, 40])
        self.f("charbuf.slack" if k > len(s) + 1 else "charbuf.exact")
        L = [f'    char cb{n}[{k}] = "{s}";', f'    printf("cb{n} %s\\n", cb{n});']
        if s:
            i = r.randrange(len(s))
            L += [f"    cb{n}[{i}] = '{self.pick('QRS')}';", f'    printf("cb{n} %s %c\\n", cb{n}, cb{n}[{r.randrange(len(s))}]);']
        if k > len(s) + 2 and self.chance(.6):
            L += [f"    cb{n}[{len(s)}] = '!';", f"    cb{n}[{len(s) + 1}] = '\\0';", f'    printf("cb{n} %s\\n", cb{n});']
        if self.chance(.6):
            self.f("charbuf.loop")
            L += [f"    int cn{n} = 0;", f"    while (cb{n}[cn{n}] != '\\0') {{", f"        cn{n}++;", "    }", f'    printf("cn{n} %d\\n", cn{n});']
        self.mains += L

    def sc_negidx(self):
        n = self.m()
        r = self.r
        w = r.randint(4, 8)
        mid = r.randint(1, w - 2)
        self.f("pointer.negative")
        acts = [self.pick([f"s {self.pick(['+=', '-=', '^='])} q[-1];", f"s += q[1] - q[-{r.randint(1, mid)}];", "q[-1] = s;", f"q[-{r.randint(1, mid)}] += {r.randint(1, 9)};", "s += q[j];", "q[j] = s + 1;", "q[j] -= 2;", "q[0] += q[-1];"]) for _ in range(r.randint(2, 5))]
        self.tops.append(f"int ng{n}(int j) {{\n    int a[{w}] = {{{', '.join(str(r.randint(-9, 40)) for _ in range(w))}}};\n    int *q = &a[{mid}];\n    int s = 0;\n    " + "\n    ".join(acts) + "\n" + "\n".join(self.show(f"ng{n}", [f"a[{i}]" for i in range(w)])) + "\n    return s;\n}")
        self.mains += [f'    printf("ng{n} %d\\n", ng{n}({r.randint(-mid, w - 1 - mid)}));' for _ in range(2)]

    def program(self, only=None, wrap=False, scenarios=None):
        self.mk_structs()
        for _ in range(self.r.randint(4, 7)):
            getattr(self, "sc_" + (only or self.pick(scenarios or self.ALL)))()
        L = ["#include <stdio.h>", "#include <stdlib.h>", "#include <string.h>", ""]
        for t in self.tops:
            L += [t, ""]
        end = [f"    return {self.r.choice([0, 0, self.r.randint(1, 99)])};", "}"]
        if wrap:
            # everything in a function of its own: its frame is gone when the program ends
            L += ["int body(void) {"] + self.mains + end + ["", "int main(void) {", "    int rc = body();", "    return rc;", "}"]
        else:
            L += ["int main(void) {"] + self.mains + end
        return NULLCMP.sub(self.null_form, "\n".join(L) + "\n")

    def null_form(self, m):
        """A comparison with NULL in one of the ways people write it."""
        x, op = m.group(1), m.group(2)
        return self.r.choice([f"{x} {op} NULL", f"NULL {op} {x}", f"{x} {op} 0", f"0 {op} {x}"])


if __name__ == "__main__":
    import sys
    g = AGen(int(sys.argv[1]))
    print(g.program(sys.argv[2] if len(sys.argv) > 2 else None))
