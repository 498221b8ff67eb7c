//! Texts of every kind: real files, generated ones, unusual declarations, damaged copies, token soup.
use crate::rt::Rng;
use std::path::Path;

const PIECES: &[&str] = &[
    "int", "char *", "struct S", "{", "}", "(", ")", "[", "]", ";", ",", "=", "==", "+", "->", ".", "*", "&", "0", "1", "0x", "2147483647", "-2147483648", "99999999999999999999",
    "1e999", "'", "'a'", "'\\0'", "'\\xff'", "\"", "\"\\", "\"%d\"", "/*", "*/", "//", "\n", "\\\n", "#define X", "#define F(a) a", "#include \"x.h\"", "#include <stdio.h>", "#if 0", "#endif",
    "if (1)", "for (;;)", "while (", "switch (a) {", "case 1:", "default:", "break;", "return", "goto l;", "l:", "sizeof", "sizeof(int)", "typedef", "static", "const", "union U { int a; };",
    "enum { A }", "(int)", "!", "~", "?", ":", "malloc(4)", "free(p)", "NULL", "void", "double", "unsigned", "long long", "a[b]", "f()", "x", "é", "\u{feff}", "日本", "\0", "\t", "$", "@", "`",
    "printf(\"%s %d %c %x %lu %5.2f %%\\n\"", "int (*fp)(int)", "...", "__attribute__((packed))", "_Bool", "inline", "0b101", "0777", "08", "1.5f", "L'x'", "u8\"x\"", "'ab'", "\"a\" \"b\"",
];

/// Valid but unusual C, one declaration each; @ stands for a number.
const ODD: &[&str] = &[
    r###"union U@ { int i; float f; char b[4]; };"###,
    r###"struct B@ { unsigned a : 3; int b : 5; unsigned : 0; int c; };"###,
    r###"struct F@ { int n; int data[]; };"###,
    r###"struct N@ { struct { int x; int y; } in; union { int i; char c; } u; };"###,
    r###"typedef struct T@ T@; struct T@ { T@ *next; T@ **links; int (*cmp)(const T@ *, const T@ *); };"###,
    r###"typedef int (*handler@)(int, char **); handler@ table@[4];"###,
    r###"typedef unsigned long long big@; big@ v@ = 18446744073709551615ULL;"###,
    r###"static const char *names@[] = { "a", "b\n", "c\x41\101", "", 0 };"###,
    r###"int grid@[3][4] = { { 1, 2 }, { 3 }, { 0 } };"###,
    r###"struct P@ { int x, y; }; struct P@ ps@[2] = { { .y = 2, .x = 1 }, [1] = { 5, 6 } };"###,
    r###"enum E@ { A@ = -1, B@, C@ = 1 << 4, D@ = A@ + C@ };"###,
    r###"extern int ext@; extern int extf@(void);"###,
    r###"volatile int vol@; register_t_@ *nope@;"###,
    r###"static inline int sq@(const int x) { return x * x; }"###,
    r###"int var@(const char *fmt, ...) { return 0; }"###,
    r###"void empty@(void) {}"###,
    r###"void nothing@() { ; ; {} {{}} }"###,
    r###"int old@(a, b) int a; int b; { return a + b; }"###,
    r###"int gt@(int a) { if (a) goto out; a++; out: return a; }"###,
    r###"int lab@(int a) { again: a--; if (a > 0) goto again; return a; }"###,
    r###"int duff@(int n) { int c = 0; switch (n % 4) { case 0: do { c++; case 3: c++; case 2: c++; case 1: c++; } while ((n -= 4) > 0); } return c; }"###,
    r###"int sw@(int a) { switch (a) { } switch (a) { default: ; } switch (a) case 1: return 2; return 0; }"###,
    r###"int nsw@(int a, int b) { switch (a) { case 1: switch (b) { case 2: return 1; default: break; } break; case 'x': case 'y': return 3; } return 0; }"###,
    r###"int rng@(int a) { switch (a) { case 1 ... 5: return 1; } return 0; }"###,
    r###"int tern@(int a) { return a ? a > 1 ? a > 2 ? 3 : 2 : 1 : 0; }"###,
    r###"int com@(int a) { int b; b = (a++, a); return (b, a); }"###,
    r###"int sz@(void) { int a[5]; return sizeof a + sizeof(a[0]) + sizeof(struct { int z; }) + sizeof(int *) + sizeof sizeof 1; }"###,
    r###"int cast@(void *p) { return (int)(long)p + *(int *)p + ((struct { int q; } *)p)->q; }"###,
    r###"char *str@(void) { return "tri \" \\ \t \a \0 end" "joined" "\u00e9"; }"###,
    r###"int chr@(void) { return 'a' + '\'' + '\\' + '\x7f' + '\377' + '"' + '\0' + 'ab'; }"###,
    r###"double dbl@(void) { return 1. + .5 + 1e3 + 1E-3 + 0x1p3 + 1.5f + 2.0L; }"###,
    r###"long lng@(void) { return 10L + 0x7fffffffffffffffL + 077 + 0xFFu + 1ULL; }"###,
    r###"int lim@(void) { return -2147483647 - 1; }"###,
    r###"unsigned lim2@(void) { return 4294967295u; }"###,
    r###"int wide@ = (int)9223372036854775807LL;"###,
    r###"void ptrs@(int *p, int **pp, int ***ppp) { *p = **pp; **pp = ***ppp; *pp = *ppp[0]; p++; *p++ = 1; ++*p; (*p)++; p[1] = p[-1]; }"###,
    r###"void arr@(int a[], int n, char *v[]) { for (int i = 0, j = n - 1; i < j; i++, j--) { int t = a[i]; a[i] = a[j]; a[j] = t; } }"###,
    r###"int *alloc@(int n) { int *p = malloc(n * sizeof(int)); if (!p) return 0; p = realloc(p, 2 * n * sizeof *p); free(p); return calloc(n, sizeof(int)); }"###,
    r###"int chain@(void) { int a, b, c; a = b = c = 0; a += b -= c *= 2; return a; }"###,
    r###"int inc@(int i) { return i++ + ++i - i-- - --i; }"###,
    r###"int bits@(unsigned a) { return (a << 3 | a >> 29) ^ ~a & 0xff; }"###,
    r###"int logic@(int a, int b) { return !a && !!b || (a & b) == 0 != 1; }"###,
    r###"int neg@(int a) { return - - - a + + a; }"###,
    r###"int stat@(void) { static int count; static int t[3] = {1}; return ++count + t[0]; }"###,
    r###"int shadow@(int a) { { int a = 1; { char a = 2; a++; } } return a; }"###,
    r###"int loop@(void) { for (;;) { break; } while (1) { if (0) continue; break; } do ; while (0); for (int i = 0; i < 3; i++) ; return 0; }"###,
    r###"int fp@(int (*f)(int), int v) { return f(v) + (*f)(v) + (f)(v); }"###,
    r###"int comp@(void) { int *p = (int[]){ 1, 2 }; struct { int a; } s = { 3 }; return p[0] + s.a; }"###,
    r###"int stm@(int a) { return ({ int t = a; t + 1; }); }"###,
    r###"void asm@(void) { __asm__("nop"); }"###,
    r###"_Bool flag@(int a) { return a; }"###,
    r###"short sh@(short a, signed char b, unsigned char c, unsigned short d, long long e, float f) { return a + b + c + d + e + f; }"###,
    r###"int io@(void) { int n; char buf[10]; scanf("%d %9s", &n, buf); printf("%d %s %c %5d %-5d %05d %x %X %o %u %ld %lld %f %.2f %e %g %p %%\n", n, buf, 'c', 1, 2, 3, 4, 5, 6, 7u, 8L, 9LL, 1.0, 2.0, 3.0, 4.0, (void *)buf); printf("no args\n"); printf("%"); printf(""); puts(buf); return 0; }"###,
    r###"int lib@(char *a, const char *b) { strcpy(a, b); strcat(a, "x"); memset(a, 0, 3); memcpy(a, b, 2); return strlen(a) + strcmp(a, b) + atoi(b) + abs(-1); }"###,
    r###"struct Empty@ {}; struct Empty@ e@;"###,
    r###"struct Self@ { struct Self@ *me; struct Other@ *o; }; struct Other@ { struct Self@ s; };"###,
    r###"int match@ = 1; int type@ = 2; int fn@(int in@, int self@) { return in@ + self@; }"###,
    r###"int main@(int argc, char **argv) { return argc > 1 ? argv[1][0] : 0; }"###,
    r###"const int *const cp@ = 0; int *restrict_@;"###,
    r###"int deep@(int a) { return ((((((((((((((((a)))))))))))))))); }"###,
    r###"int many@(int a, int b, int c, int d, int e, int f, int g, int h, int i, int j) { return a+b*c/d%e-f<<g>>h&i|j; }"###,
    r###"#define SQ@(x) ((x) * (x))"###,
    r###"#define EMPTY@"###,
    r###"#define STR@ "text""###,
    r###"#define NEG@ (-1)"###,
    r###"#define MAX@(a, b) ((a) > (b) ? (a) : (b))"###,
    r###"int usem@(int a) { return SQ@(a) + MAX@(a, 2) + NEG@; }"###,
    r###"int multi@[2][2][2]; int getm@(int i) { return multi@[i][i][i] = i; }"###,
    r###"struct V@ { int *p; int n; }; void freev@(struct V@ *v) { free(v->p); v->p = NULL; free(v); }"###,
    r###"int cmpp@(int *a, int *b) { return a == b || a < b || a - b || a == NULL || !a; }"###,
    r###"int pth@(void) { pthread_mutex_lock(&m@); g@ = 1; pthread_mutex_unlock(&m@); return 0; } "###,
    r###"void rec@(int n) { if (n) rec@(n - 1); }"###,
    r###"unsigned char uc@(char c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }"###,
];

/// The same for C++ and CUDA texts.
const ODD_CPP: &[&str] = &[
    "class A@ { public: int x; A@(int v); ~A@(); int get() const; static int make(int a, double b); virtual void go(); private: double y; };",
    "class B@ : public Base@ { public: void go(); int m[3]; };",
    "class Base@ { public: Base@(); virtual ~Base@(); };",
    "struct V@ { int x; int y; V@ operator+(const V@& o) const; bool operator==(const V@& o) const; };",
    "namespace n@ { int f(int a) { return a + 1; } struct P { int q; }; class Q { public: int z; }; namespace in { int g(); } }",
    "template <typename T> T max@(T a, T b) { return a > b ? a : b; }",
    "int use@(int *p) { int *q = new int(3); int *r = new int[4]; delete q; delete[] r; return *p; }",
    "int ref@(int &a, const int &b) { a += b; return a; }",
    "bool flag@ = true; void *null@ = nullptr; bool notf@(bool a) { return !a || false; }",
    "enum class E@ { X, Y = 4, Z }; typedef struct { int a; } An@;",
    "auto lam@ = [](int a) { return a * 2; };",
    "__global__ void kern@(float *a, int n) { int i = n; if (i < n) { a[i] = 1.0f; } }",
    "__device__ int dev@(int a) { return a; }",
    "__host__ __device__ int both@(int a) { return a - 1; }",
    "__host__ void host@(void) { __shared__ int s[4]; s[0] = 1; }",
    "int over@(int a) { return a; } double over@(double a) { return a; }",
    "int def@(int a = 3, int b = 4) { for (int i : {1, 2}) { a += i; } return a + b; }",
    "void thr@() { try { throw 1; } catch (int e) { } }",
    "static_assert(sizeof(int) == 4, \"int\"); constexpr int k@ = 5; using alias@ = int;",
];

fn odd_cpp(r: &mut Rng) -> String {
    let mut s = String::from("extern \"C\" { int cc(void); }\n");
    for i in 0..1 + r.below(7) { s += &r.pick(ODD_CPP).replace('@', &i.to_string()); s.push('\n') }
    if r.chance(0.3) { s += &odd(r) }
    s
}

fn odd(r: &mut Rng) -> String {
    let n = 1 + r.below(9);
    let k = r.below(3);
    let mut s = String::from(*r.pick(&["", "#include <stdio.h>\n#include <stdlib.h>\n#include <string.h>\n", "#include <stdint.h>\n"]));
    for i in 0..n { s += &r.pick(ODD).replace('@', &if k == 0 { String::new() } else { i.to_string() }); s.push('\n') }
    s
}

fn floor(s: &str, mut i: usize) -> usize {
    i = i.min(s.len());
    while !s.is_char_boundary(i) { i -= 1 }
    i
}

/// A damaged copy of a source.
fn mutate(r: &mut Rng, src: &str, other: &str) -> String {
    let mut s = src.to_string();
    for _ in 0..1 + r.below(6) {
        let i = floor(&s, r.below(s.len() + 1));
        match r.below(9) {
            0 => s.insert_str(i, *r.pick(PIECES)),
            1 => { let j = floor(&s, i + 1 + r.below(12)); s.replace_range(i..j.max(i), "") }
            2 => { let j = floor(&s, i + 1 + r.below(60)); let t = s[i..j.max(i)].to_string(); s.insert_str(i, &t) }
            3 => s.truncate(i),
            4 => { let j = floor(other, r.below(other.len() + 1)); let k = floor(other, j + r.below(80)); s.insert_str(i, &other[j..k.max(j)]) }
            5 => { // drop or double a line
                let lines: Vec<&str> = s.lines().collect();
                if lines.is_empty() { continue }
                let k = r.below(lines.len());
                let twice = r.chance(0.5);
                s = lines.iter().enumerate().flat_map(|(n, l)| vec![*l; if n == k { if twice { 2 } else { 0 } } else { 1 }]).collect::<Vec<_>>().join("\n");
            }
            6 => { // swap one token for another
                let j = floor(&s, i + 1);
                s.replace_range(i..j.max(i), *r.pick(PIECES));
            }
            7 => { let old = *r.pick(&["int", "(", ")", "{", "}", ";", "=", "*", "0", "1", "+", "<"]); let new = *r.pick(PIECES); s = s.replacen(old, new, 1 + r.below(3)) }
            _ => { let n = 1 + r.below(40); let p = *r.pick(&["(", "{", "[", "*", "!", "-", "if (1) ", "x + (", "a ? b : "]); s.insert_str(i, &p.repeat(n)) }
        }
        if s.len() > 40_000 { let k = floor(&s, 40_000); s.truncate(k) }
    }
    s
}

fn soup(r: &mut Rng) -> String {
    (0..r.below(80)).map(|_| *r.pick(PIECES)).collect::<Vec<_>>().join(*r.pick(&["", " ", "\n"]))
}

/// Deep or long but regular text.
fn large(r: &mut Rng) -> String {
    let n = *r.pick(&[10, 60, 120, 200, 250]);
    match r.below(8) {
        0 => format!("int f(int a) {{ return {}a{}; }}", "(".repeat(n), ")".repeat(n)),
        1 => format!("int f(int a) {{ {} return a; {} }}", "if (a) {".repeat(n), "}".repeat(n)),
        2 => format!("int f(int a) {{ return a{}; }}", " + a".repeat(n * 4)),
        3 => (0..n).map(|k| format!("int f{k}(int a) {{ return a + {k}; }}\n")).collect(),
        4 => format!("int {}p;", "*".repeat(n)),
        5 => format!("int a{};", "[2]".repeat(n / 4)),
        6 => format!("int f(int a) {{ return {}a; }}", "-".repeat(1) + &"!".repeat(n)),
        _ => (0..n).map(|k| format!("struct S{k} {{ {} int x; }};\n", if k > 0 { format!("struct S{} in;", k - 1) } else { String::new() })).collect(),
    }
}

pub fn corpus(dir: &Path) -> Vec<String> {
    let mut v: Vec<_> = std::fs::read_dir(dir).unwrap().map(|e| e.unwrap().path()).collect();
    v.sort();
    v.iter().filter_map(|p| std::fs::read_to_string(p).ok()).collect()
}

pub fn any(r: &mut Rng, corpus: &[String]) -> String {
    let s = plain(r, corpus);
    if r.chance(0.35) { decorate(r, &s) } else { s }
}

fn plain(r: &mut Rng, corpus: &[String]) -> String {
    match r.below(16) {
        11 => { let a = odd_cpp(r); if r.chance(0.3) { let b = odd(r); mutate(r, &a, &b) } else { a } }
        12..=14 => odd(r),
        15 => { let a = odd(r); let b = odd(r); mutate(r, &a, &b) }
        0 => soup(r),
        1 => large(r),
        2 => crate::parse::random_source(r),
        3 | 4 => { let a = crate::parse::random_source(r); let b = r.pick(corpus).clone(); mutate(r, &a, &b) }
        5 => r.pick(corpus).clone(),
        _ => { let a = r.pick(corpus).clone(); let b = r.pick(corpus).clone(); mutate(r, &a, &b) }
    }
}

const KEEP: &[&str] = &[
    "auto", "break", "case", "char", "const", "continue", "default", "do", "double", "else", "enum", "extern", "float", "for", "goto", "if", "inline", "int", "long", "register", "return",
    "short", "signed", "sizeof", "static", "struct", "switch", "typedef", "union", "unsigned", "void", "volatile", "while", "define", "include", "ifdef", "ifndef", "endif", "undef", "defined",
    "main", "printf", "malloc", "calloc", "realloc", "free", "NULL", "strlen", "strcmp", "strcpy", "h", "stdio", "stdlib", "string", "stdint", "size_t", "uint8_t", "uint32_t", "int32_t", "n", "d", "s", "c", "x", "f", "u", "lu", "ld",
];

/// Long text of letters that take several bytes each, so that every byte offset is inside one now and then.
fn wide(r: &mut Rng, n: usize) -> String {
    (0..n).map(|_| *r.pick(&["é", "ß", "ü", "ж", "日", "本", "ñ", "x"])).collect()
}

fn is_word(c: char) -> bool { c.is_alphanumeric() || c == '_' }

/// The words of the text that are names, in order of appearance.
fn names(s: &str) -> Vec<String> {
    let mut v: Vec<String> = vec![];
    for w in s.split(|c| !is_word(c)) {
        if !w.is_empty() && !w.starts_with(|c: char| c.is_ascii_digit()) && !KEEP.contains(&w) && !v.iter().any(|x| x == w) { v.push(w.to_string()) }
    }
    v
}

fn rename(s: &str, from: &str, to: &str) -> String {
    let mut out = String::with_capacity(s.len());
    let mut rest = s;
    let mut before = ' ';
    while let Some(i) = rest.find(from) {
        let prev = rest[..i].chars().next_back().unwrap_or(before);
        let next = rest[i + from.len()..].chars().next().unwrap_or(' ');
        out += &rest[..i];
        out += if is_word(prev) || is_word(next) || prev == '%' || prev == '\\' { from } else { to };
        before = from.chars().next_back().unwrap();
        rest = &rest[i + from.len()..];
    }
    out + rest
}

/// The same program under other names and with other things around it: names that differ only in case,
/// long ones, ones with letters of several bytes, words of Rust; comments, includes and directives; line ends.
pub fn decorate(r: &mut Rng, src: &str) -> String {
    let mut s = src.to_string();
    for _ in 0..r.below(5) {
        let ns = names(&s);
        if ns.len() < 2 { break }
        let (a, b) = (r.pick(&ns).clone(), r.pick(&ns).clone());
        let to = match r.below(9) {
            0..=3 => match r.below(4) { // like another name, in other letters
                0 => b.to_uppercase(),
                1 => b.to_lowercase(),
                2 => b.chars().map(|c| if c.is_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect(),
                _ => { let mut c = b.chars(); let f = c.next().unwrap(); f.to_uppercase().chain(c).collect() }
            },
            4 => format!("{b}_{}", "long_name_".repeat(1 + r.below(12))),
            5 => { let n = 1 + r.below(50); format!("{a}{}", wide(r, n)) }
            6 => r.pick(&["type", "match", "fn", "self", "impl", "mod", "let", "mut", "ref", "loop", "move", "where", "use", "crate", "dyn", "async", "await", "Box", "Vec", "Option", "String", "Self", "str", "u8", "i32", "f64", "vec", "print", "main2"]).to_string(),
            7 => format!("_{b}"),
            _ => format!("{b}{}", r.below(100)),
        };
        if a != to && !ns.contains(&to) { s = rename(&s, &a, &to) }
    }
    for _ in 0..r.below(4) {
        let (k, m) = (1 + r.below(60), 1 + r.below(30));
        let w = wide(r, k);
        let line = match r.below(16) {
            0 => format!("#include <{w}.h>"),
            1 => format!("#include <{}/{w}.h>", "dir".repeat(m)),
            2 => format!("// {w}"),
            3 => format!("/* {w}\n {w} */"),
            4 => "#pragma once".into(),
            5 => format!("#pragma {w}"),
            6 => format!("#define {w} {k}"),
            7 => format!("#define M{k} \"{w}\""),
            8 => format!("static const char *text{k} = \"{w}\";"),
            9 => format!("int name_{w};"),
            10 => format!("int fun_{w}(int {w}) {{ return {w} + 1; }}"),
            11 => format!("struct s_{w} {{ int {w}; struct s_{w} *next_{w}; }};"),
            12 => format!("enum e_{w} {{ A_{w}, B_{w} = {m} }};"),
            13 => format!("void say{k}(void) {{ printf(\"{w} %d {w}\\n\", {m}); }}"),
            14 => format!("#include <{}>", *r.pick(&["", "stdio.h", "sys/types.h", "stdio.h> // twice", " math.h ", "../stdlib.h", "a\\b.h", "x"])),
            _ => format!("#ifdef {w}\nint off{k};\n#else\nint on{k};\n#endif"),
        };
        s = if r.chance(0.5) { format!("{line}\n{s}") } else { format!("{s}\n{line}\n") };
    }
    match r.below(12) {
        0 => s.replace('\n', "\r\n"),
        1 => s.trim_end().to_string(),
        2 => s.replace("    ", "\t"),
        3 => format!("\u{feff}{s}"),
        _ => s,
    }
}
