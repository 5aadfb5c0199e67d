//! Hand-written schemas and documents: real-world shapes and the corners of the
//! supported language, next to what the generator makes up.

use crate::doc::Doc;

/// (rules separated by '|', start rule, documents separated by blank lines in the
/// notation of `parse`).
pub const CORPUS: &[(&str, &str, &str)] = &[
    ("person = { name: tstr, ? age: uint, * tstr => any }", "person", "{\"name\":\"Bob\",\"age\":43}|{\"name\":\"Bob\",\"age\":-1}|{\"age\":43}|{\"name\":\"Bob\",\"x\":[1,2]}"),
    (
        "reputation-object = { application: text, reputons: [* reputon] }|reputon = { rater: text, assertion: text, rated: text, rating: float16, ? confidence: float16, ? normal-rating: float16, ? sample-size: uint, ? generated: uint, ? expires: uint, * text => any }",
        "reputation-object",
        "{\"application\":\"a\",\"reputons\":[]}|{\"application\":\"a\",\"reputons\":[{\"rater\":\"r\",\"assertion\":\"s\",\"rated\":\"q\",\"rating\":0.5,\"zz\":null}]}|{\"application\":\"a\",\"reputons\":[{\"rater\":\"r\",\"assertion\":\"s\",\"rated\":\"q\",\"rating\":1}]}",
    ),
    ("tree = [tstr, * tree]", "tree", "[\"a\",[\"b\"],[\"c\",[\"d\"]]]|[\"a\",[\"b\"],[\"c\",[7]]]|[]"),
    ("tree<T> = { v: T, ? l: tree<T>, ? r: tree<T> }|t = tree<(int / tstr)>", "t", "{\"v\":1,\"l\":{\"v\":\"x\"},\"r\":{\"v\":2,\"l\":{\"v\":3}}}|{\"v\":1,\"l\":{\"v\":null}}"),
    ("message<t, v> = {type: t, value: v}|messages = message<\"reboot\", \"now\"> / message<\"sleep\", 1..100>", "messages", "{\"type\":\"reboot\",\"value\":\"now\"}|{\"type\":\"sleep\",\"value\":77}|{\"type\":\"sleep\",\"value\":101}"),
    ("t = &basecolors|basecolors = ( black: 0, red: 1, green: 2, yellow: 3, blue: 4 )", "t", "0|4|5|\"red\""),
    ("extended = &( orange: 8, extra, brown: tstr )|extra = ( pink: 9, more )|more = (11, 12)", "extended", "8|9|12|\"x\"|10"),
    ("a = {? &( (x: int), (y: tstr, z: int) ), * tstr => any}", "a", "{\"x\":1}|{\"y\":\"q\",\"z\":2}|{\"y\":1}|{}"),
    ("t = { pick }|pick = ( (x: int, y: int) // (x: tstr) )", "t", "{\"x\":1,\"y\":2}|{\"x\":\"q\"}|{\"x\":1}"),
    ("header = [version: uint, flags]|packet = [~header, body: bstr / tstr]|flags = 0..maxflag|maxflag = 255", "packet", "[1,255,\"b\"]|[1,256,\"b\"]|[1,2,h\"01\"]"),
    ("base = { a: int, b: int }|ext = { ~base, c: int }|t = [ext, ? ext]", "t", "[{\"a\":1,\"b\":2,\"c\":3}]|[{\"a\":1,\"b\":2}]|[{\"a\":1,\"b\":2,\"c\":3},{\"a\":1,\"b\":2,\"c\":3}]"),
    ("t = [ + (tstr, int) ]", "t", "[\"a\",1,\"b\",2]|[\"a\",1,\"b\"]|[]"),
    ("t = [ * (int, int), ? int ]", "t", "[1,2,3]|[1,2]|[1]|[1,2,\"x\"]"),
    ("t = [ 2*3 (int // tstr), * any ]", "t", "[1,\"x\"]|[1]|[1,2,3,4]"),
    ("t = { 1*2 k => v }|k = \"a\" / \"b\" / \"c\"|v = int .le lim|lim = 10", "t", "{\"a\":1}|{\"a\":1,\"b\":11}|{\"a\":1,\"b\":2,\"c\":3}|{}"),
    ("t = { * tstr .regexp \"[a-z]{1,3}[0-9]?\" => tstr .size (1..n) }|n = 4", "t", "{\"ab1\":\"xyz\"}|{\"ab11\":\"xyz\"}|{\"a\":\"xyzwv\"}"),
    ("t = { * kk => any }|kk = tstr .regexp \"(foo|bar)[a-z]*\"", "t", "{\"foox\":1}|{\"bar\":2,\"foo\":3}|{\"zfoo\":1}"),
    ("t = tstr .regexp \"^([a-z0-9_.+-]+)@([a-z0-9-]+[.])+[a-z]{2,}$\"", "t", "\"me@example.com\"|\"me@example\"|5"),
    ("t = bstr .cbor inner|inner = { 1: int, ? 2: [* tstr] }", "t", "E{1:5}|E{1:5,2:[\"x\"]}|E{1:\"x\"}|h\"ff\"|h\"a101\""),
    ("cose = [protected: bstr .cbor hmap, unprotected: hmap, payload: bstr / nil]|hmap = { ? 1 => int / tstr, ? 4 => bstr, * label => any }|label = int / tstr", "cose", "[E{1:-7},{4:h\"3131\"},h\"00\"]|[E{1:null},{},null]|[h\"\",{},null]"),
    ("t = { a => int, ? b => tstr }|a = \"x\" / \"y\"|b = tstr", "t", "{\"x\":1,\"zz\":\"q\"}|{\"x\":\"q\"}|{\"y\":2}"),
    ("t = { \"a\" ^ => int, * tstr => tstr }", "t", "{\"a\":1,\"b\":\"x\"}|{\"a\":\"x\"}"),
    ("t = { ? \"a\" => int, * tstr => tstr }", "t", "{\"a\":1,\"b\":\"x\"}|{\"a\":\"x\"}"),
    ("t = [ * (a // b) ]|a = (1, x)|b = (2, y, ? z)|x = int|y = tstr|z = bool", "t", "[1,5,2,\"q\",true,1,6]|[1,5,2,true]|[2,\"q\",1]"),
    ("t = int / tstr / [* t] / { * tstr => t }", "t", "[1,\"x\",{\"k\":[2,{\"q\":3}]}]|[1,null]|{\"k\":true}"),
    ("json = null / bool / numb / tstr / [* json] / { * tstr => json }|numb = int / float", "json", "{\"a\":[1,2.5,null,{\"b\":true}]}|h\"00\"|[[[[[]]]]]"),
    ("r = lo .. hi|lo = -5|hi = lo2|lo2 = 10|t = [* r]", "t", "[-5,0,10]|[11]|[-6]"),
    ("u = uint .size w|w = 2|t = [u, bstr .size w, tstr .size w]", "t", "[65535,h\"0102\",\"ab\"]|[65536,h\"0102\",\"ab\"]|[1,h\"01\",\"ab\"]"),
    ("t = {a: t1 / t2}|t1 = int .gt big|t2 = int .lt small|big = 100|small = -100", "t", "{\"a\":101}|{\"a\":0}|{\"a\":-101}"),
    ("opt<X> = X / nil|pair<A, B> = [A, B]|t = pair<opt<int>, opt<pair<tstr, opt<bool>>>>", "t", "[1,[\"x\",null]]|[null,null]|[1,[\"x\",5]]"),
    ("t<T> = [T]|a = t<int> / t<t<tstr>> / t<b>|b = t<bool>", "a", "[1]|[[\"x\"]]|[[true]]|[[1]]"),
    ("start = one / missing1|one = 1", "start", "1|2"),
    ("t = { ? a: missing, * tstr => any }", "t", "{\"a\":1}|{\"b\":1}|{}"),
    ("t = { * missing => any }", "t", "{\"a\":1}|{}"),
    ("t = [ * missing ]|u = [ ? ~missing, int ]", "t", "[1]|[]"),
    ("t = [ ? ~gone, int ]", "t", "[1]|[]"),
    ("t = [ (&gone // int) ]", "t", "[1]"),
    ("t = { ? &gone, a: int }", "t", "{\"a\":1}"),
    ("t = (0..gone) / int", "t", "1|\"x\""),
    ("t = (int .lt gone) / int", "t", "1|\"x\""),
    ("t = (tstr .size gone) / tstr", "t", "1|\"x\""),
    ("t = g<gone> / any|g<T> = [T]", "t", "[1]|1"),
    ("t = (bstr .cbor gone) / any", "t", "E1|1"),
    ("t = [ ((gone, int) // any) ]", "t", "[1]"),
    ("t = g<int, int> / any|g<T> = T", "t", "1"),
    ("t = g / any|g<T> = T", "t", "1"),
    ("t = (1..\"x\") / any", "t", "1"),
    ("t = (lo .. hi) / any|lo = 1|hi = 2.5", "t", "1"),
    ("t = grp / any|grp = (int, int)", "t", "1"),
    ("t = &grp2 / any|grp2 = int", "t", "1"),
    ("t = { (int // a: int) } / any", "t", "{\"a\":1}"),
    ("t = t / int", "t", "1"),
    ("a = b|b = [? c]|c = a / int", "a", "[[[1]]]|[[[]]]|1"),
    ("t = { k: t } / nil", "t", "{\"k\":{\"k\":{\"k\":null}}}|{\"k\":1}"),
];

/// JSON extended with h"0102" byte strings, E<value> embedded CBOR and non-text keys.
pub fn parse(s: &str) -> Doc {
    let b = s.as_bytes();
    let (d, i) = val(b, 0);
    assert_eq!(i, b.len(), "{s}");
    d
}

fn val(b: &[u8], mut i: usize) -> (Doc, usize) {
    match b[i] {
        b'n' => (Doc::N, i + 4),
        b't' => (Doc::B(true), i + 4),
        b'f' => (Doc::B(false), i + 5),
        b'E' => {
            let (d, j) = val(b, i + 1);
            (Doc::E(Box::new(d)), j)
        }
        b'h' => {
            let (d, j) = val(b, i + 1);
            let Doc::S(h) = d else { panic!() };
            (Doc::Y((0..h.len() / 2).map(|k| u8::from_str_radix(&h[2 * k..2 * k + 2], 16).unwrap()).collect()), j)
        }
        b'"' => {
            let e = i + 1 + b[i + 1..].iter().position(|c| *c == b'"').unwrap();
            (Doc::S(String::from_utf8(b[i + 1..e].to_vec()).unwrap()), e + 1)
        }
        b'[' => {
            let mut v = Vec::new();
            i += 1;
            while b[i] != b']' {
                let (d, j) = val(b, i);
                v.push(d);
                i = j + (b[j] == b',') as usize;
            }
            (Doc::A(v), i + 1)
        }
        b'{' => {
            let mut v = Vec::new();
            i += 1;
            while b[i] != b'}' {
                let (k, j) = val(b, i);
                let (d, j) = val(b, j + 1);
                v.push((k, d));
                i = j + (b[j] == b',') as usize;
            }
            (Doc::M(v), i + 1)
        }
        _ => {
            let e = b[i..].iter().position(|c| !b"+-.0123456789e".contains(c)).map_or(b.len(), |n| i + n);
            let t = std::str::from_utf8(&b[i..e]).unwrap();
            (if t.contains('.') { Doc::F(t.parse().unwrap()) } else { Doc::I(t.parse().unwrap()) }, e)
        }
    }
}

pub struct Case {
    pub rules: Vec<String>,
    pub rule: String,
    pub docs: Vec<Doc>,
}

pub fn case(i: usize) -> Case {
    let (s, r, d) = CORPUS[i % CORPUS.len()];
    Case {
        rules: split(s),
        rule: r.into(),
        docs: d.split('|').map(parse).collect(),
    }
}

/// Splits at '|' outside string literals.
pub fn split(s: &str) -> Vec<String> {
    let mut v = vec![String::new()];
    let mut q = false;
    for c in s.chars() {
        if c == '"' {
            q = !q;
        }
        if c == '|' && !q {
            v.push(String::new());
        } else {
            v.last_mut().unwrap().push(c);
        }
    }
    v
}

pub fn docs(d: &str) -> Vec<Doc> {
    d.split('|').map(parse).collect()
}
