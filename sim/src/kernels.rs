//! Small schemas, one per construct, each in several variants that use the same rule
//! names and share their documents but decide them differently; and schemas that
//! cannot be compiled.

use crate::corpus;
use crate::doc::Doc;
use crate::rng::Rng;

/// (variants, start rule, documents), in the notation of the corpus.
const KERNELS: &[(&[&str], &str, &str)] = &[
    (&["t = tstr .regexp \"[a-z]+\"", "t = tstr .regexp \"[a-z]+[0-9]\"", "t = tstr .regexp \"[0-9]+\"", "t = tstr .regexp \"^[a-z]{3}$\""], "t", "\"abc\"|\"abc1\"|\"12\"|5|\"\""),
    (&["t = tstr .regexp \"\\\\w{1,6}\"", "t = tstr .regexp \"[a-z]{1,20}\\\\w+\"", "t = tstr .regexp \"[\\\\p{L}]{3}\"", "t = tstr .regexp \"(\\\\w|\\\\d){2,4}\"", "t = tstr .regexp \"\\\\p{Lu}+\""], "t", "\"abc\"|\"abc1\"|\"ABC\"|\"\"|\"a b\""),
    (&["t = [* r]|r = tstr .regexp \"x[a-z]*\"", "t = [* r]|r = tstr .regexp \"y[a-z]*\"", "t = [* r]|r = tstr"], "t", "[\"x\",\"xa\"]|[\"x\",\"y\"]|[\"y\",\"ya\"]|[\"z\"]"),
    (&["t = {* k => any}|k = tstr .regexp \"x.*\"", "t = {* k => any}|k = tstr .regexp \"y.*\""], "t", "{\"x1\":1}|{\"y1\":1}|{\"x1\":1,\"y1\":2}|{}"),
    (&["t = tstr .size 3", "t = tstr .size 4", "t = tstr .size (1..2)", "t = tstr .size (3..9)"], "t", "\"abc\"|\"abcd\"|\"a\"|\"\""),
    (&["t = tstr .size n|n = 3", "t = tstr .size n|n = 4", "t = tstr .size n|n = m|m = 1", "t = tstr .size (m .. n)|m = 3|n = 4"], "t", "\"abc\"|\"abcd\"|\"a\"|\"abcde\""),
    (&["t = uint .size 1", "t = uint .size 2", "t = uint .size n|n = 3"], "t", "255|256|65535|65536|16777216"),
    (&["t = bstr .size 2", "t = bstr .size n|n = 3", "t = bytes .size (1..2)"], "t", "h\"0102\"|h\"010203\"|h\"01\"|h\"\""),
    (&["t = int .lt n|n = 5", "t = int .lt n|n = 6", "t = int .le n|n = 5", "t = int .gt n|n = 5", "t = int .ge n|n = 5"], "t", "4|5|6|\"x\""),
    (&["t = uint .lt 5", "t = uint .le 5", "t = uint .gt 4", "t = uint .ge 6", "t = nint .lt 5"], "t", "4|5|6|-1"),
    (&["t = 0..5", "t = 0...5", "t = 1..6", "t = -3..0"], "t", "0|5|6|-1|2.5"),
    (&["t = lo .. hi|lo = 0|hi = 5", "t = lo .. hi|lo = 0|hi = 6", "t = lo ... hi|lo = 1|hi = 6", "t = lo .. hi|lo = lo2|lo2 = 5|hi = 9"], "t", "0|5|6|1"),
    (&["t = 0.5..2.5", "t = 0.5...2.5", "t = 1.0..9.0"], "t", "0.5|2.5|7.25|1"),
    (&["t = bstr .cbor u|u = int", "t = bstr .cbor u|u = tstr", "t = bstr .cbor u|u = [* int]", "t = bstr .cbor u|u = any"], "t", "E1|E\"x\"|E[1,2]|h\"ff\"|1"),
    (&["t = bstr .cbor [* u]|u = bstr .cbor v|v = int", "t = bstr .cbor [* u]|u = bstr .cbor v|v = tstr"], "t", "E[E1,E2]|E[E\"x\"]|E[]|E[1]"),
    (&["t = a / b|a = int|b = tstr", "t = a / b|a = bool|b = tstr", "t = a / b|a = int|b = nil", "t = a / b|a = b2|b2 = [int]|b = {}"], "t", "1|\"x\"|true|null|[1]"),
    (&["t = a / b / c / d|a = 1|b = 2|c = 3|d = 4", "t = a / b / c / d|a = 5|b = 6|c = 7|d = 1"], "t", "1|2|4|7|8"),
    (&["t = &c|c = (a: 1, b: 2)", "t = &c|c = (a: 1, b: 3)", "t = &c|c = (a: tstr, 7)", "t = &c|c = (d, b: 2)|d = (3, \"x\")"], "t", "1|2|3|\"x\"|7"),
    (&["t = &(1, 2)", "t = &(1, x: 3)", "t = &(d, 2)|d = (3, 4)"], "t", "1|2|3|4"),
    (&["t = [~p, int]|p = [tstr, tstr]", "t = [~p, int]|p = [tstr]", "t = [~p, int]|p = [int, ? tstr]", "t = [~p, int]|p = [* tstr]"], "t", "[\"a\",\"b\",1]|[\"a\",1]|[1,\"a\",1]|[1]"),
    (&["t = {~p, z: int}|p = {a: int}", "t = {~p, z: int}|p = {? a: int, b: tstr}", "t = {~p, z: int}|p = {* tstr => int}"], "t", "{\"a\":1,\"z\":2}|{\"b\":\"x\",\"z\":2}|{\"z\":2}|{\"a\":1}"),
    (&["t = g<int>|g<T> = [T]", "t = g<tstr>|g<T> = [T]", "t = g<int>|g<T> = [T, T]", "t = g<int>|g<T> = [* T]", "t = g<int>|g<T> = T / [T]"], "t", "[1]|[\"x\"]|[1,1]|[]|1"),
    (&["t = p<int, p<tstr, bool>>|p<A, B> = [A, B]", "t = p<int, p<tstr, bool>>|p<A, B> = [B, A]", "t = p<int, p<bool, tstr>>|p<A, B> = [A, B]"], "t", "[1,[\"x\",true]]|[[true,\"x\"],1]|[1,[true,\"x\"]]"),
    (&["t = g<int>|g<s> = [s, u]|s = tstr|u = s", "t = g<int>|g<T> = [T, u]|s = tstr|u = s", "t = g<s>|g<s> = [s, u]|s = tstr|u = int"], "t", "[1,\"x\"]|[1,1]|[\"x\",1]|[\"x\",\"x\"]"),
    (&["t = g<k>|g<T> = {* T => v}|k = tstr .regexp \"a.*\"|v = int", "t = g<k>|g<T> = {* T => v}|k = tstr|v = k"], "t", "{\"ab\":1}|{\"b\":1}|{\"b\":\"x\"}|{}"),
    (&["t = f<int>|f<T> = g<T>|g<U> = h<U, T>|h<A, B> = [A, B]|T = tstr", "t = f<int>|f<T> = g<[T]>|g<U> = h<U, T>|h<A, B> = [A, B]|T = bool"], "t", "[1,\"x\"]|[1,1]|[[1],true]|[[1],[1]]"),
    (&["t = {a: int, ? b: tstr}", "t = {a: tstr, ? b: int}", "t = {a: int, b: tstr}", "t = {? a: int, * tstr => any}"], "t", "{\"a\":1}|{\"a\":1,\"b\":\"x\"}|{\"a\":\"x\",\"b\":1}|{\"c\":1}"),
    (&["t = {* k => v}|k = \"a\" / \"b\"|v = int", "t = {* k => v}|k = \"c\" / \"b\"|v = int", "t = {1*2 k => v}|k = tstr|v = any"], "t", "{\"a\":1}|{\"c\":1}|{\"b\":1,\"a\":2}|{}"),
    (&["t = {\"a\" ^ => int, * tstr => tstr}", "t = {\"a\" => int, * tstr => tstr}", "t = {? \"a\" ^ => int, * tstr => tstr}", "t = {? \"a\" => int, * tstr => tstr}"], "t", "{\"a\":\"x\"}|{\"a\":1,\"b\":\"y\"}|{\"b\":\"y\"}"),
    (&["t = {1: int, 2: tstr}", "t = {1: tstr, 2: int}", "t = {* int => tstr}"], "t", "{1:5,2:\"x\"}|{1:\"x\",2:5}|{7:\"x\"}|{}"),
    (&["t = [2*3 int]", "t = [1*2 int]", "t = [* int]", "t = [+ int]", "t = [? int]", "t = [int]"], "t", "[]|[1]|[1,2]|[1,2,3]|[1,2,3,4]"),
    (&["t = [* p]|p = (int, tstr)", "t = [* p]|p = (int, ? tstr)", "t = [* p]|p = (tstr, int)", "t = [1*2 p, * any]|p = (int // tstr)"], "t", "[1,\"x\"]|[1,2]|[\"x\",1]|[]|[1,\"x\",2,\"y\"]"),
    (&["t = [(a // b)]|a = (int, tstr)|b = (tstr)", "t = [(a // b)]|a = (int)|b = (tstr, int)", "t = [* (a // b)]|a = (1, x)|b = (2, x, x)|x = int"], "t", "[1,\"x\"]|[\"x\"]|[\"x\",1]|[1,5,2,5,5]"),
    (&["t = {(a // b)}|a = (x: int, y: int)|b = (x: tstr)", "t = {(a // b)}|a = (x: tstr)|b = (x: int)", "t = {(a // b)}|a = (y: int)|b = (* tstr => int)"], "t", "{\"x\":1,\"y\":2}|{\"x\":\"q\"}|{\"x\":1}|{\"y\":1}"),
    (&["t = {? &(a: int, b: int), * tstr => any}", "t = {&(a: int, b: tstr)}", "t = {&c}|c = (a: int, b: int)"], "t", "{\"a\":1}|{\"b\":2}|{\"b\":\"x\"}|{}"),
    (&["t = \"abc\"", "t = \"abd\"", "t = 'abc'", "t = h'616263'"], "t", "\"abc\"|\"abd\"|h\"616263\"|1"),
    (&["t = 1", "t = 2", "t = 1.0", "t = -1", "t = 0x10"], "t", "1|2|1.0|-1|16"),
    (&["t = int", "t = uint", "t = nint", "t = float", "t = tstr", "t = bool", "t = any", "t = nil"], "t", "1|-1|0.5|\"x\"|true|null"),
    (&["t = [tstr, * t]", "t = [int, * t]", "t = [? tstr, ? t]"], "t", "[\"a\",[\"b\"],[\"c\",[\"d\"]]]|[1,[2,[3]]]|[\"a\",[\"b\",[]]]|[]"),
    (&["t = {v: int, ? l: t}", "t = {v: any, ? l: t}", "t = {? v: int, ? l: t}"], "t", "{\"v\":1,\"l\":{\"v\":2,\"l\":{\"v\":3}}}|{\"v\":1,\"l\":{\"v\":\"x\"}}|{\"l\":{\"l\":{}}}"),
    (&["t = int / gone", "t = int / gone|gone = tstr", "t = gone / int|gone = bool"], "t", "1|\"x\"|true"),
    (&["t = [? gone, int]", "t = [? gone, int]|gone = tstr", "t = [* gone]|gone = int / tstr"], "t", "[1]|[\"x\",1]|[]"),
    (&["a = b|b = c|c = d|d = int", "a = b|b = c|c = d|d = tstr", "a = b|b = c|c = d|d = a"], "a", "1|\"x\""),
    (&["t = a / b|a = [b]|b = {x: c}|c = int", "t = a / b|a = [b]|b = {x: c}|c = tstr", "t = a / b|a = [? b]|b = {? x: a}"], "t", "[{\"x\":1}]|{\"x\":\"q\"}|{\"x\":1}|[]|{\"x\":[]}"),
    (&["$s = int|t = [* $s]", "$s = tstr|t = [* $s]"], "t", "[1]|[\"x\"]|[]"),
    (&["t = [int, tstr, bool, ? nil]", "t = [int, tstr, ? bool, * any]", "t = [any, any]"], "t", "[1,\"x\",true]|[1,\"x\"]|[1,\"x\",true,null]|[1,\"x\",5]"),
    (&["t = (int / tstr) / (bool / nil)", "t = (int / (float / bool)) / nil"], "t", "1|\"x\"|true|null|0.5"),
    (&["t = [~p, ? int]|p = int", "t = [~p, ? int]|p = {a: int}", "t = [~p, ? int]|p = (int, int)", "t = [~p, ? int]|p = [int]"], "t", "[1]|[1,2]|[{\"a\":1}]|[]"),
    (&["t = {~p, ? b: int}|p = int", "t = {~p, ? b: int}|p = [int]", "t = {~p, ? b: int}|p = (a: int)", "t = {~p, ? b: int}|p = {a: int}"], "t", "{\"a\":1}|{\"a\":1,\"b\":2}|{\"b\":1}|{}"),
    (&["t = &c|c = int", "t = &c|c = [1, 2]", "t = &c|c = {a: 1}", "t = &c|c = d|d = (1, 2)", "t = &c|c = 1 / 2"], "t", "1|2|[1,2]|{\"a\":1}"),
    (&["t = {&c}|c = int", "t = {&c}|c = [a: 1]", "t = {&c}|c = (1, 2)", "t = {&c}|c = d|d = (a: 1, b: 2)"], "t", "{\"a\":1}|{\"b\":2}|{}"),
    (&["t = lo .. 5|lo = tstr", "t = lo .. 5|lo = \"x\"", "t = lo .. 5|lo = 0.5", "t = lo .. 5|lo = 1", "t = lo .. 5|lo = [1]"], "t", "1|5|\"x\"|0.7"),
    (&["t = tstr .size n|n = tstr", "t = tstr .size n|n = 1.5", "t = tstr .size n|n = (1, 2)", "t = tstr .size n|n = 1..2", "t = n .size 2|n = int", "t = n .size 2|n = bstr"], "t", "\"ab\"|\"\"|2|h\"0102\""),
    (&["t = int .lt n|n = tstr", "t = int .lt n|n = 1.5", "t = n .lt 5|n = tstr", "t = n .lt 5|n = float", "t = n .lt 5|n = uint", "t = int .ge n|n = [3]"], "t", "1|7|\"x\"|0.5"),
    (&["t = {p, ? b: int}|p = int", "t = {p, ? b: int}|p = [int]", "t = {p, ? b: int}|p = {a: int}", "t = {p, ? b: int}|p = 5", "t = {p, ? b: int}|p = 1..5", "t = {p, ? b: int}|p = tstr .size 1", "t = {p, ? b: int}|p = (a: int)"], "t", "{\"a\":1}|{\"b\":1}|{}"),
    (&["t = (int, tstr)", "t = g|g = (int, tstr)", "t = g / int|g = (tstr, bool)", "t = g / tstr|g = (int)", "t = {a: g}|g = (int, int)"], "t", "1|\"x\"|[1,\"x\"]|{\"a\":1}"),
    (&["t = g|g<T> = [T]", "t = g<int>|g = [int]", "t = g<int, int>|g<T> = [T]", "t = g<int>|g<T, U> = [T]", "t = [* g]|g<T> = T", "t = g<int>|g<T> = [T]"], "t", "[1]|[]|[[1]]|1"),
    (&["t = [~g<int>, tstr]|g<T> = [T, T]", "t = [~g<tstr>, tstr]|g<T> = [T]", "t = [~g, tstr]|g<T> = [T]", "t = [~g<[int]>, tstr]|g<T> = [* T]"], "t", "[1,1,\"x\"]|[\"a\",\"x\"]|[[1],\"x\"]|[\"x\"]"),
    (&["t = &g<1>|g<T> = (T, 2)", "t = &g<3>|g<T> = (T, 4)", "t = {&g<int>}|g<T> = (a: T, b: tstr)", "t = &g|g<T> = (T)"], "t", "1|3|{\"a\":1}|{\"b\":\"x\"}"),
    (&["t = T<1> .. 5|T<x> = x", "t = int .lt g<5>|g<T> = T", "t = tstr .size g<3>|g<T> = T", "t = g<tstr> .size 3|g<T> = T", "t = bstr .cbor g<int>|g<T> = [T]"], "t", "1|4|\"abc\"|E[1]"),
    (&["t = [* [* [* int]]]", "t = [* [+ [* int]]]", "t = [* [* [+ int]]]"], "t", "[[[1]]]|[[]]|[[[]]]|[]|[[1]]"),
];

pub struct Kernel {
    pub variants: Vec<Vec<String>>,
    pub rule: String,
    pub docs: Vec<Doc>,
}

/// A kernel with at most `n` of its variants, in any order.
pub fn kernel(r: &mut Rng, n: usize) -> Kernel {
    let (v, rule, docs) = KERNELS[r.us(KERNELS.len())];
    let mut variants: Vec<Vec<String>> = v.iter().map(|x| corpus::split(x)).collect();
    while variants.len() > n {
        let i = r.us(variants.len());
        variants.remove(i);
    }
    if variants.len() > 1 && r.pct(50) {
        let i = 1 + r.us(variants.len() - 1);
        variants.swap(0, i);
    }
    Kernel { variants, rule: rule.into(), docs: corpus::docs(docs) }
}

/// Texts that are refused, at each of the places where a text can be refused.
pub const INVALID: &[&str] = &[
    "t = int .frob 3",
    "t = tstr .within tstr",
    "t = uint .bits 3",
    "t = int .default 3",
    "t = tstr .regexp \"[\"",
    "t = tstr .regexp \"\\\\w{200}\"",
    "t = tstr .regexp 3",
    "t = tstr .regexp \"(a\" / int",
    "t = tstr .size \"x\"",
    "t = int .lt \"x\"",
    "t = #6.24(tstr)",
    "t = #7.25",
    "t = #",
    "t = #1.5",
    "t = h'0'",
    "t = h'zz'",
    "t = b64'*'",
    "t = b64'YQ='",
    "t = \"abc",
    "t = \"\\q\"",
    "t = 'abc",
    "t = 99999999999999999999999999",
    "t = -99999999999999999999999999",
    "t = 0x",
    "t = 0b2",
    "t = 1.5.5",
    "t = 1e",
    "t = [1, 2",
    "t = {a: int",
    "t = (int, tstr",
    "t = [* * int]",
    "t = [1*2*3 int]",
    "t = 99999999999999999999*3 int",
    "t = g<",
    "t = g<>",
    "g<> = int",
    "g<T = int",
    "t<1> = int",
    "t = int /",
    "t = / int",
    "t /= int",
    "t //= (int)",
    "t = ~int",
    "t = ~5",
    "t = &5",
    "t = &int",
    "t = &[int]",
    "t = 1..",
    "t = ..1",
    "t = 1..\"x\"",
    "t = int..tstr",
    "t = 1....5",
    "t",
    "= int",
    "1 = int",
    "t == int",
    "",
    ";",
    "t = int t2 =",
    "t = int )",
    "t = int ]",
    "t = \u{e9}",
    "t = a\u{0}b",
    "t = {\"a\" ^ int}",
    "t = {^ => int}",
    "t = {a => }",
    "t = {int: }",
    "t = int .",
    "t = int ..",
    "t = (",
    "t = ()",
    "t = [()]",
    "t = int\nt = tstr",
    "t = (int // tstr)\nu = t / t",
    "t = bstr .cborseq [* int]",
    "t = int .eq 5",
    "t = int .ne 5",
    "t = bstr .cbor",
    "t = tstr .pcre \"a\"",
    "t = undefined",
    "t = cbor-any",
    "t = tstr .size (5..1)",
    "t = tstr .size -1",
    "t = uint .size 300",
];

/// Texts that are understood but mean something the library refuses: one for each place.
pub const MEANINGLESS: &[&str] = &[
    "t = int .frob 3",
    "t = tstr .size \"x\"",
    "t = tstr .size tstr",
    "t = int .lt \"x\"",
    "t = int .lt 5.5",
    "t = int .le [1]",
    "t = int .le tstr",
    "t = int .gt {a: 1}",
    "t = int .gt \"y\"",
    "t = int .ge 'z'",
    "t = int .ge bool",
    "t = int .regexp \"a\"",
    "t = tstr .regexp 3",
    "t = tstr .regexp \"[\"",
    "t = tstr .regexp \"\\\\w{200}\"",
    "t = tstr .cbor int",
    "t = [1..2] .cbor int",
    "t = [1] .. 5",
    "t = 1 .. [5]",
    "t = int .. 5",
    "t = undefined",
    "t = cbor-any",
    "t = [* tdate]",
    "t = {a: eb16}",
    "t = [int<tstr>]",
    "t = tstr<int> / int",
    "t = ~int",
    "t = &int",
    "t = [~tstr]",
];

/// What surrounds the rest of a document.
#[derive(Clone, Copy)]
pub enum Wrap {
    No,
    Arr,
    Map,
    Emb,
}

impl Wrap {
    pub fn put(self, d: Doc) -> Doc {
        match self {
            Wrap::No => d,
            Wrap::Arr => Doc::A(vec![d]),
            Wrap::Map => Doc::M(vec![(Doc::S("k".into()), d)]),
            Wrap::Emb => Doc::E(Box::new(d)),
        }
    }
}

/// Ways to refer to a rule X that match at most one element: chains of them take a
/// number of steps that is polynomial in their length.
pub const LINKS: [(&str, Wrap); 42] = [
    ("X", Wrap::No),
    ("X / nil", Wrap::No),
    ("nil / X", Wrap::No),
    ("int / X", Wrap::No),
    ("X / tstr / nil", Wrap::No),
    ("(X)", Wrap::No),
    ("(X / nil)", Wrap::No),
    ("((X) / (nil))", Wrap::No),
    ("&(a: X, nil)", Wrap::No),
    ("&(a: X, b: nil)", Wrap::No),
    ("&(nil, a: X)", Wrap::No),
    ("g1<X>", Wrap::No),
    ("g2<X, nil>", Wrap::No),
    ("[X]", Wrap::Arr),
    ("[? X]", Wrap::Arr),
    ("[* X]", Wrap::Arr),
    ("[+ X]", Wrap::Arr),
    ("[1*3 X]", Wrap::Arr),
    ("[(X)]", Wrap::Arr),
    ("[(X // nil)]", Wrap::Arr),
    ("[(nil // X)]", Wrap::Arr),
    ("[X // nil]", Wrap::Arr),
    ("[? (X, nil)]", Wrap::Arr),
    ("[* (X)]", Wrap::Arr),
    ("[? X, any]", Wrap::Arr),
    ("[X / nil]", Wrap::Arr),
    ("[k: X]", Wrap::Arr),
    ("[&(a: X, nil)]", Wrap::Arr),
    ("[] / [X]", Wrap::Arr),
    ("[g1<X>]", Wrap::Arr),
    ("{k: X}", Wrap::Map),
    ("{? k: X}", Wrap::Map),
    ("{\"k\" => X}", Wrap::Map),
    ("{? \"k\" => X}", Wrap::Map),
    ("{* tstr => X}", Wrap::Map),
    ("{+ tstr => X}", Wrap::Map),
    ("{(k: X)}", Wrap::Map),
    ("{(k: X // j: X)}", Wrap::Map),
    ("{? (k: X, j: nil)}", Wrap::Map),
    ("{? &(k: X)}", Wrap::Map),
    ("{k: X / nil}", Wrap::Map),
    ("bstr .cbor X", Wrap::Emb),
];

/// More ways to refer to a rule, each with the rules it needs (# is a number).
pub const SITES: &[(&str, Wrap)] = &[
    ("[X] / X", Wrap::Arr),
    ("X / [X]", Wrap::No),
    ("{k: X} / X", Wrap::Map),
    ("[(X, nil) // X]", Wrap::Arr),
    ("[(int, X) // (X)]", Wrap::Arr),
    ("[* int, X, * any]", Wrap::Arr),
    ("[* X, * any]", Wrap::Arr),
    ("[? X, * any]", Wrap::Arr),
    ("[0*2 X, * any]", Wrap::Arr),
    ("[? p#, * any]|p# = (X, X)", Wrap::Arr),
    ("[? p#, * any]|p# = (* X, bool)", Wrap::Arr),
    ("[(p# // q#)]|p# = (X, nil)|q# = (any)", Wrap::Arr),
    ("[? ~p#, * any]|p# = [X, nil]", Wrap::Arr),
    ("[~p#]|p# = [X]", Wrap::Arr),
    ("[* ~p#]|p# = [X]", Wrap::Arr),
    ("[p#<X>] / any|p#<T> = (T)", Wrap::Arr),
    ("[? p#<X>, * any]|p#<T> = (T, nil)", Wrap::Arr),
    ("&p#|p# = (a: nil, b: X, c: any)", Wrap::No),
    ("&p#|p# = (q#, b: any)|q# = (a: nil, b: X)", Wrap::No),
    ("&p#|p# = (q#, any)|q# = (b: X, nil)", Wrap::No),
    ("&(q#, any)|q# = (b: X, nil)", Wrap::No),
    ("&(q#, any)|q# = (b: X)", Wrap::No),
    ("{? &p#, * tstr => any}|p# = (a: q#, b: r#)|q# = (k: X)|r# = (j: any)", Wrap::Map),
    ("{? &p#, * tstr => any}|p# = (q#, r#, b: u#)|q# = (x: v#, y: w#)|r# = (z: x#)|u# = (k: any)|v# = (k: X)|w# = (j: X)|x# = (i: X)", Wrap::Map),
    ("{? &p#, * tstr => any}|p# = (q#, (k: any))|q# = ((k: X), (j: X))", Wrap::Map),
    ("{&p#}|p# = (q#, b: r#)|q# = (x: y#)|r# = (k: any)|y# = (k: X)", Wrap::Map),
    ("{&(p#, (k: any))}|p# = (k: X)", Wrap::Map),
    ("{? &(p#, k: any)}|p# = (k: X)", Wrap::Map),
    ("{? p#, * any => any}|p# = (k: X, j: int)", Wrap::Map),
    ("{? p#, * any => any}|p# = (\"k\" => X, j: int)", Wrap::Map),
    ("{* p#, * any => any}|p# = (\"k\" => X)", Wrap::Map),
    ("{(p# // q#)}|p# = (k: X, j: int)|q# = (* any => any)", Wrap::Map),
    ("{? ~p#, * any => any}|p# = {\"k\" => X, j: int}", Wrap::Map),
    ("{~p#}|p# = {k: X}", Wrap::Map),
    ("{* tstr => X, * any => any}", Wrap::Map),
    ("{? \"k\" => X, * any => any}", Wrap::Map),
    ("{? \"k\" ^ => X, * any => any}", Wrap::Map),
    ("{* p# => X, * any => any}|p# = tstr .regexp \"[a-z]\"", Wrap::Map),
    ("{* (tstr / X) => any}", Wrap::Map),
    ("{* (X / tstr) => any}", Wrap::Map),
    ("{* X => any, * any => any}", Wrap::Map),
    ("{? X => any, k: any}", Wrap::Map),
    ("{+ X => any} / any", Wrap::Map),
    ("{p#<X>}|p#<T> = (k: T)", Wrap::Map),
    ("p#<X, nil>|p#<T, U> = U / T / any", Wrap::No),
    ("p#<[X]>|p#<T> = q#<T>|q#<U> = U / any", Wrap::Arr),
    ("p#<p#<X>>|p#<T> = T / nil", Wrap::No),
    ("p#<&(a: X, any)>|p#<T> = T", Wrap::No),
    ("p#<{k: X}>|p#<T> = T / any", Wrap::Map),
    ("bstr .cbor X / any", Wrap::Emb),
    ("bstr .cbor [X] / bstr", Wrap::No),
    ("[* (bstr .cbor X), * any]", Wrap::Arr),
    ("{* (bstr .cbor X) => any, * any => any}", Wrap::Map),
    ("(X) / any", Wrap::No),
    ("X / any", Wrap::No),
    ("nil / X / any", Wrap::No),
];

/// Where a chain of references ends: the rules (t# is the first), and documents.
pub const ENDS: &[(&str, &str)] = &[
    ("e# = 77", "77|1|\"k\""),
    ("e# = int", "77|\"k\""),
    ("e# = tstr", "\"k\"|5"),
    ("e# = any", "5|null"),
    ("e# = l# .. h#|l# = 1|h# = 5", "1|7|\"x\"|2.5"),
    ("e# = l# ... h#|l# = m#|m# = 0.5|h# = 1.5", "1.0|1.5|1"),
    ("e# = 1 .. h#|h# = 9", "9|10|null"),
    ("e# = l# .. 9|l# = 1", "1|0"),
    ("e# = i# .lt l#|i# = int|l# = m#|m# = 5", "1|5|\"x\""),
    ("e# = int .le l#|l# = 5", "5|6"),
    ("e# = u# .gt l#|u# = uint|l# = 5", "6|5"),
    ("e# = nint .ge l#|l# = -5", "-5|-6"),
    ("e# = y# .size l#|y# = tstr|l# = 1", "\"k\"|\"kk\"|1"),
    ("e# = b# .size l#|b# = bstr|l# = (1..2)", "h\"01\"|h\"010203\""),
    ("e# = u# .size l#|u# = v#|v# = uint|l# = 1", "255|256"),
    ("e# = bstr .cbor l#|l# = int", "E1|E\"x\"|h\"ff\"|1"),
    ("e# = tstr .regexp \"k+\"", "\"k\"|\"x\"|1"),
    ("e# = &g#|g# = (a: 1, b: l#)|l# = 2", "1|2|3"),
    ("e# = &g#|g# = h#|h# = (1, i#)|i# = (2, 3)", "1|3|4"),
    ("e# = &(a: l#, b: 3)|l# = 2", "2|3|4"),
    ("e# = [a#, * b#]|a# = int|b# = tstr", "[1]|[1,\"x\"]|[\"x\"]|1"),
    ("e# = [? a#, b#]|a# = (int, int)|b# = int", "[1]|[1,2,3]|[1,2]|[]"),
    ("e# = [2*2 a#]|a# = int / b#|b# = tstr", "[1,\"x\"]|[1]|[1,2,3]"),
    ("e# = [~a#, b#]|a# = [int, ? c#]|b# = nil|c# = tstr", "[1,null]|[1,\"x\",null]|[1]"),
    ("e# = {a# => b#}|a# = \"k\"|b# = int", "{\"k\":1}|{\"k\":null}|{}"),
    ("e# = {* a# => b#}|a# = tstr|b# = int / c#|c# = nil", "{\"k\":1,\"j\":null}|{\"k\":true}|{}"),
    ("e# = {? k: a#, ~b#}|a# = int|b# = {? j: c#}|c# = int", "{\"k\":1,\"j\":2}|{\"j\":\"x\"}|{}"),
    ("e# = g#<int, a#>|g#<T, U> = [T, U]|a# = tstr", "[1,\"x\"]|[1,2]|[]"),
    ("e# = g#<a#>|g#<T> = h#<[T]>|h#<U> = U / nil|a# = int", "[1]|null|[null]"),
    ("e# = g#<a#>|g#<T> = {k: T, * T => any}|a# = tstr", "{\"k\":\"x\"}|{\"k\":1}"),
    ("e# = a# / b# / c#|a# = 1|b# = 2|c# = d#|d# = 3", "1|2|3|4"),
];
