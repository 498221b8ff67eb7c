"""C++ classes, namespaces and CUDA files with, for each, a driver in C++ and the same driver in Rust."""
import random


class Body:
    """Statements over int variables: readable and writable names, kept small so that nothing overflows."""

    def __init__(self, rng, reads, writes, arrays, calls):
        self.r, self.reads, self.writes, self.arrays, self.calls = rng, list(reads), list(writes), dict(arrays), list(calls)
        self.n = 0
        self.hide = []

    def leaf(self):
        r = self.r
        k = r.random()
        if k < 0.3 or not self.reads:
            return str(r.choice([0, 1, 2, 3, 5, 7, 10, 42, 100, 255]))
        if k < 0.42 and self.arrays:
            a, n = r.choice(sorted(self.arrays.items()))
            return f"{a}[{r.choice(self.reads)} & {n - 1}]" if r.random() < 0.6 else f"{a}[{r.randrange(n)}]"
        return r.choice(self.reads)

    def expr(self, d=2):
        r = self.r
        if d == 0 or r.random() < 0.2:
            return self.leaf()
        k = r.randrange(12)
        a, b = self.expr(d - 1), self.expr(d - 1)
        if k < 3:
            return f"{a} {r.choice('+-')} {b}" if r.random() < 0.4 else f"({a} {r.choice('+-')} {b})"
        if k == 3:
            return f"((({a}) % {r.choice([7, 11, 100])}) * (({b}) % {r.choice([3, 13, 50])}))"
        if k == 4:
            return f"({a}) / {r.choice([2, 3, 7, 10])}" if r.random() < 0.4 else f"(({a}) / {r.choice([2, 3, 7, 10])})"
        if k == 5:
            return f"(({a}) {r.choice('&|^')} ({b}))"
        if k == 6:
            return f"((({a}) & 255) {r.choice(['<<', '>>'])} {r.randrange(1, 4)})"
        if k == 7:
            return f"-({a})" if r.random() < 0.6 else f"~({a})"
        if k == 8:
            return f"({self.cond(1)} ? {a} : {b})"
        if k == 9 and self.calls:
            f, n = r.choice(self.calls)
            return f"{f}({', '.join(self.expr(1) for _ in range(n))})"
        return f"({a}) % {r.choice([5, 17, 1000])}"

    def cond(self, d=1):
        r = self.r
        k = r.randrange(6)
        if k < 4 or d == 0:
            return f"{self.expr(1)} {r.choice(['<', '>', '<=', '>=', '==', '!='])} {self.expr(1)}"
        if k == 4:
            return f"({self.cond(d - 1)} {r.choice(['&&', '||'])} {self.cond(d - 1)})"
        return f"!({self.cond(d - 1)})"

    def assign(self):
        r = self.r
        if not self.writes:
            return ""
        if self.warrays and r.random() < 0.3:
            a, n = r.choice(self.warrays)
            return f"{a}[{self.leaf()} & {n - 1}] = ({self.expr()}) % 1000;"
        v = r.choice(self.writes)
        k = r.randrange(5)
        if k == 0:
            return f"{v}{r.choice(['++', '--'])};" if r.random() < 0.5 else f"{r.choice(['++', '--'])}{v};"
        if k == 1:
            return f"{v} {r.choice('+-')}= ({self.expr(1)}) % 50;"
        if k == 2:
            return f"{v} {r.choice(['&', '|', '^'])}= {r.randrange(1, 255)};"
        return f"{v} = ({self.expr()}) % 1000;"

    def block(self, d, loop, ind):
        r = self.r
        keep = (list(self.reads), list(self.writes))
        out = []
        for _ in range(r.randrange(1, 4)):
            out += self.stmt(d, loop, ind)
        self.reads, self.writes = keep
        return out

    def stmt(self, d, loop, ind):
        r = self.r
        p = "    " * ind
        k = r.randrange(12) if d > 0 else r.randrange(4)
        if k == 0:
            self.n += 1
            v = self.hide.pop() if self.hide else f"t{self.n}"
            s = f"{p}int {v} = ({self.expr()}) % 1000;"
            self.reads.append(v)
            self.writes.append(v)
            return [s]
        if k < 4 or not self.writes:
            a = self.assign()
            return [p + a] if a else [f"{p}int u{self.bump()} = 0;"]
        if k < 6:
            s = [f"{p}if ({self.cond()}) {{"] + self.block(d - 1, loop, ind + 1)
            if r.random() < 0.5:
                s += [f"{p}}} else {{"] + self.block(d - 1, loop, ind + 1)
            return s + [p + "}"]
        if k == 6:
            self.n += 1
            v = f"i{self.n}"
            self.reads.append(v)
            b = self.block(d - 1, "for", ind + 1)
            self.reads.remove(v)
            return [f"{p}for (int {v} = {r.randrange(3)}; {v} < {r.randrange(1, 6)}; {v}++) {{"] + b + [p + "}"]
        if k == 7:
            v = f"w{self.bump()}"
            b = self.block(d - 1, "while", ind + 1)
            return [f"{p}int {v} = {r.randrange(1, 5)};", f"{p}while ({v} > 0) {{", f"{p}    {v}--;"] + b + [p + "}"]
        if k == 8:
            v = f"d{self.bump()}"
            b = self.block(d - 1, None, ind + 1)
            return [f"{p}int {v} = 0;", f"{p}do {{", f"{p}    {v}++;"] + b + [f"{p}}} while ({v} < {r.randrange(1, 4)});"]
        if k == 9:
            s = [f"{p}switch (({self.expr(1)}) & 3) {{"]
            for c in r.sample(range(4), r.randrange(1, 4)):
                s += [f"{p}case {c}:"] + ["    " * (ind + 1) + self.assign()] + ([f"{p}    break;"] if r.random() < 0.8 else [])
            if r.random() < 0.7:
                s += [f"{p}default:"] + ["    " * (ind + 1) + self.assign()]
                s += [f"{p}    break;"]
            elif not s[-1].strip() == "break;":
                s += [f"{p}    break;"]
            return s + [p + "}"]
        if k == 10 and loop:
            return [f"{p}if ({self.cond(0)}) {{ {r.choice(['break', 'continue'])}; }}"]
        if k == 11 and self.ret:
            return [f"{p}if ({self.cond(0)}) {{ return {self.value()}; }}"]
        return [p + self.assign()]

    def bump(self):
        self.n += 1
        return self.n

    def value(self):
        return f"({self.expr()}) % 1000" if self.ret == "int" else self.cond(1)

    def make(self, ret, warrays, size, depth, ind):
        self.ret, self.warrays = ret, list(warrays)
        out = []
        for _ in range(size):
            out += self.stmt(depth, None, ind)
        if ret:
            out.append("    " * ind + f"return {self.value()};")
        return out


class Program:
    def __init__(self, seed):
        self.r = random.Random(seed)
        self.src, self.cpp, self.rust = [], [], []
        self.events = 0

    def method(self, fields, arrays, name, ind, own):
        r = self.r
        kind = r.choice(["plain", "plain", "plain", "const", "static", "void", "bool"])
        ps = [f"{r.choice('abcxyz')}{i}" for i in range(r.randrange(0, 4))]
        this = r.random() < 0.15 and kind != "static"
        if fields and r.random() < 0.3:     # a parameter that hides a field
            ps = ps[:2] + [r.choice(fields)]
            this = kind != "static"
        fs = [] if kind == "static" else [("this->" if this else "") + f for f in fields]
        ar = {} if kind == "static" else {("this->" if this else "") + a: n for a, n in arrays.items()}
        const = kind == "const" or (kind == "bool" and r.random() < 0.5)
        b = Body(r, fs + ps, [] if const else fs, ar, [])
        if this or kind == "static":         # local variables that hide fields
            b.hide = [f for f in fields if f not in ps and r.random() < 0.4]
        ret = None if kind == "void" else "bool" if kind == "bool" else "int"
        lines = b.make(ret, [] if const else [(a, n) for a, n in sorted(ar.items()) if a.replace("this->", "") in own], r.randrange(1, 5), 2, ind + 1)
        head = f"{'static ' if kind == 'static' else ''}{ret or 'void'} {name}({', '.join('int ' + p for p in ps)}){' const' if const and kind != 'static' else ''} {{"
        p = "    " * ind
        return [p + head] + lines + [p + "}"], (name, kind, len(ps))

    def klass(self, name, ind, base=None):
        """base: (name, fields, methods, has constructor)"""
        r = self.r
        n = r.randrange(1, 5)
        lc = name.lower()
        if r.random() < 0.5:                # names of which one is the beginning or the end of another
            core = r.choice(["id", "w", "n", "total"])
            pool = [f"{core}_{lc}", f"max_{core}_{lc}", f"{core}_{lc}_max", f"{core}_{lc}_", f"m_{core}_{lc}", f"new_{core}_{lc}", f"{core}{lc}", f"{core}_{lc}2"]
            fields = r.sample(pool, n)
        else:
            fields = [f"{r.choice(['w', 'h', 'n', 'total', 'id', 'lo'])}{i}_{lc}" if r.random() < 0.7 else f"f{i}{lc}" for i in range(n)]
        arrays = {f"t{name.lower()}": r.choice([2, 4, 8])} if r.random() < 0.3 else {}
        p = "    " * ind
        out = [f"{p}class {name}{f' : public {base[0]}' if base else ''} {{", f"{p}public:"]
        decls = [f"{p}    int {f};" for f in fields] + [f"{p}    int {a}[{k}];" for a, k in arrays.items()]
        out += decls
        ctor = None
        if r.random() < (0.5 if base else 0.75):
            given = fields
            if r.random() < 0.6:      # parameters named like the fields, in any order
                params = r.sample(fields, len(fields))
                init = {f: f for f in fields}
            else:                     # other names, in the order of the fields; the last fields may get none
                given = fields[:r.randrange(1, len(fields) + 1)]
                params = [f"p{i}" for i in range(len(given))]
                init = dict(zip(given, params))
            head = f"{p}    {name}({', '.join('int ' + q for q in params)})"
            if r.random() < 0.5:
                out.append(f"{head} : {', '.join(f'{f}({init[f]})' for f in given)} {{}}")
            else:
                out.append(f"{head} {{ {' '.join(f'this->{f} = {init[f]};' for f in r.sample(given, len(given)))} }}")
            ctor = len(params)
            unset = [f for f in fields if f not in given]
        else:
            unset = list(fields)
        if base:
            unset += list(base[1])
        allf = fields + (list(base[1]) if base else [])
        alla = dict(arrays, **(base[4] if base else {}))
        methods = []
        for i in range(r.randrange(1, 5)):
            m, sig = self.method(allf, alla, f"m{i}_{name.lower()}", ind + 1, arrays)
            out += m
            methods.append(sig)
        if r.random() < 0.2:
            out.append(f"{p}    ~{name}() {{}}")
        out.append(p + "};")
        return out, (name, allf, methods + (base[2] if base else []), ctor, alla, unset)

    def drive(self, path, info, own):
        """Operations on one object."""
        r = self.r
        name, fields, methods, ctor, arrays, rest = info
        o = f"o{self.events}"
        q = f"{path}{name}"
        if ctor is not None:
            args = ", ".join(str(r.randrange(-50, 200)) for _ in range(ctor))
            self.cpp.append(f"{q} {o}({args});")
            self.rust.append(f"let mut {o} = {q}::new({args});")
        else:
            self.cpp.append(f"{q} {o};")
            self.rust.append(f"let mut {o} = {q}::default();")
        for f in rest:
            v = r.randrange(-50, 200)
            self.cpp.append(f"{o}.{f} = {v};")
            self.rust.append(f"{o}.{f} = {v};")
        for a, n in arrays.items():
            for i in range(n):
                v = r.randrange(-50, 200)
                self.cpp.append(f"{o}.{a}[{i}] = {v};")
                self.rust.append(f"{o}.{a}[{i}] = {v};")
        self.events += 1
        for step in range(r.randrange(4, 12)):
            m, kind, n = r.choice(methods)
            args = ", ".join(str(r.randrange(-30, 120)) for _ in range(n))
            st = kind == "static"
            own_class = next(c for c in self.owner if m in self.owner[c])
            call_c = f"{o}.{m}({args})" if not st else f"{path}{own_class}::{m}({args})"
            call_r = call_c
            if kind == "void":
                self.cpp.append(f"{call_c};")
                self.rust.append(f"{call_r};")
            else:
                self.cpp.append(f'printf("{m} %d\\n", (int)({call_c}));')
                self.rust.append(f'println!("{m} {{}}", {call_r} as i32);')
            self.events += 1
            if r.random() < 0.4:
                for f in fields:
                    self.cpp.append(f'printf("{f} %d\\n", {o}.{f});')
                    self.rust.append(f'println!("{f} {{}}", {o}.{f});')
                for a, k in arrays.items():
                    i = r.randrange(k)
                    self.cpp.append(f'printf("{a} %d\\n", {o}.{a}[{i}]);')
                    self.rust.append(f'println!("{a} {{}}", {o}.{a}[{i}]);')

    def function(self, name, ind, calls):
        r = self.r
        ps = [f"{r.choice('abcxyz')}{i}" for i in range(r.randrange(0, 4))]
        b = Body(r, ps, ps, {}, calls)
        lines = b.make("int", [], r.randrange(1, 5), 2, ind + 1)
        p = "    " * ind
        return [f"{p}int {name}({', '.join('int ' + q for q in ps)}) {{"] + lines + [p + "}"], (name, len(ps))

    def scope(self, path, ind, depth, tag):
        """Classes and functions of one namespace (or of the file)."""
        r = self.r
        infos = []
        base = None
        for i in range(r.randrange(1, 4)):
            name = f"K{tag}{i}"
            b = base if base and r.random() < 0.5 else None
            c, info = self.klass(name, ind, b)
            self.src += c
            self.owner[name] = [m[0] for m in info[2] if m[0].endswith("_" + name.lower())]
            infos.append(info)
            if info[3] is None:
                base = info
        funcs = []
        for i in range(r.randrange(0, 4)):
            f, sig = self.function(f"g{tag}{i}", ind, funcs)
            self.src += f
            funcs.append(sig)
        for info in infos:
            self.drive(path, info, None)
        for f, n in funcs:
            for _ in range(3):
                args = ", ".join(str(r.randrange(-30, 120)) for _ in range(n))
                self.cpp.append(f'printf("{f} %d\\n", {path}{f}({args}));')
                self.rust.append(f'println!("{f} {{}}", {path}{f}({args}));')
                self.events += 1
        if depth:
            for i in range(r.randrange(0, 3)):
                ns = f"ns{tag}{i}"
                self.src.append("    " * ind + f"namespace {ns} {{")
                self.scope(f"{path}{ns}::", ind + 1, depth - 1, f"{tag}{i}x")
                self.src.append("    " * ind + "}")

    def cplus(self):
        self.owner = {}
        self.src.append('extern "C" { void c_linkage(); }')
        self.scope("", 0, 2, "")
        text = "\n".join(self.src) + "\n"
        cpp = 'extern "C" int printf(const char *, ...);\n' + text + "int main() {\n" + "\n".join("    " + x for x in self.cpp) + "\n    return 0;\n}\n"
        rust = "\nfn main() {\n" + "\n".join("    " + x for x in self.rust) + "\n}\n"
        return text, cpp, rust

    TYPES = [("int", "i32"), ("float", "f32"), ("double", "f64"), ("unsigned", "u32"), ("unsigned int", "u32"), ("char", "u8"),
             ("int *", "*mut i32"), ("float *", "*mut f32"), ("const float *", "*mut f32"), ("double *", "*mut f64"), ("const int *", "*mut i32"), ("unsigned *", "*mut u32")]

    def cuda(self):
        """(text, expected kernels: name -> [(parameter, Rust type)], device functions, C++ driver, Rust driver)"""
        r = self.r
        kernels, device, funcs = {}, [], []
        for i in range(r.randrange(2, 7)):
            k = r.randrange(5)
            if k < 2:
                ps = []
                for j in range(r.randrange(0, 6)):
                    t = r.choice(self.TYPES)
                    nm = r.choice(["data", "arr", "buf", "n", "len", "size", "count", "out", "in_", "alpha"]) + str(j) if r.random() < 0.6 else f"q{j}"
                    if j and ps[-1][1].startswith("*") and r.random() < 0.5:
                        t, nm = ("int", "i32"), r.choice(["n", "len", "size", "count"]) + str(j)
                    ps.append((nm, t[1], t[0]))
                body = ["    int i = 0;"]
                ln = next((p[0] for p in ps if p[1] == "i32"), None)
                for nm, rt, ct in ps:
                    if rt.startswith("*") and not ct.startswith("const"):
                        x = r.randrange(3)
                        body.append(f"    *{nm} = 1;" if x == 0 else f"    {nm}[i] = {nm}[i] + 1;" if x == 1 or not ln else f"    for (i = 0; i < {ln}; i++) {{ {nm}[i] = 2; }}")
                    elif rt.startswith("*") and r.random() < 0.5:
                        body.append(f"    i += (int){nm}[0];")
                head = r.choice(["__global__ void ", "__global__ void\n", "static __global__ void ", "__global__  void "])
                self.src.append(f"{head}kern{i}({', '.join(f'{c} {n}' if not c.endswith('*') else f'{c}{n}' for n, _, c in ps)}) {{\n" + "\n".join(body) + "\n}")
                kernels[f"kern{i}"] = [(n, t) for n, t, _ in ps]
            elif k == 2:
                f, sig = self.function(f"dev{i}", 0, [])
                f[0] = r.choice(["__device__ ", "__device__\n", "static __device__ "]) + f[0]
                self.src += f
                device.append(sig[0])
            else:
                f, sig = self.function(f"host{i}", 0, funcs)
                f[0] = r.choice(["", "", "__host__ ", "__host__ __device__ ", "__device__ __host__ "]) + f[0]
                self.src += f
                funcs.append(sig)
        for f, n in funcs:
            for _ in range(3):
                args = ", ".join(str(r.randrange(-30, 120)) for _ in range(n))
                self.cpp.append(f'printf("{f} %d\\n", {f}({args}));')
                self.rust.append(f'println!("{f} {{}}", {f}({args}));')
                self.events += 1
        if not kernels and not device:
            self.src.append("__global__ void kern99() {\n}")
            kernels["kern99"] = []
        for i in range(len(self.src), -1, -1):
            if (i == len(self.src) or self.src[i][:1] not in " }") and r.random() < 0.3:
                self.src.insert(i, r.choice(["// __global__ void kernc(int n);", "/* the __device__ part (below) */", "/* __global__ void\n   kernd(int *p) */", "#define TILE 16",
                                             "#define AREA(a, b) ((a) * (b))", "", "struct Cell { int v; };", "int counter;"][:7]))
        text = "\n".join(self.src) + "\n"
        text = text.replace("struct Cell { int v; };\n", "", max(0, text.count("struct Cell") - 1))
        pre = 'extern "C" int printf(const char *, ...);\n#define __global__\n#define __device__\n#define __host__\n'
        cpp = pre + text + "int main() {\n" + "\n".join("    " + x for x in self.cpp) + "\n    return 0;\n}\n"
        rust = "\nfn main() {\n" + "\n".join("    " + x for x in self.rust) + "\n}\n"
        return text, kernels, device, cpp, rust
