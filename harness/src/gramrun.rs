//! Runs sampled sentences and values through the real codecs and records the outcome.
use std::collections::HashSet;

use arbitrary::{Arbitrary, Unstructured};
use imap_codec::imap_types::{
    auth::AuthenticateData,
    command::Command,
    extensions::idle::IdleDone,
    response::{Greeting, Response},
};
use serde_json::{json, Value};

use crate::{gram::*, msg::*, util::*};

/// sizes around which buffers, counters and limits tend to change their behaviour
const SIZES: &[usize] = &[31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 199, 200, 201, 254, 255, 256, 257, 258, 300, 500, 511, 512, 513, 600, 768, 1000, 1001, 1023, 1024, 1025];

const LENGTHS: &[u64] = &[0, 1, 2, 9, 10, 99, 100, 127, 128, 255, 256, 257, 999, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 5000, 9999, 10000, 32767, 32768, 65535, 65536, 65537, 99999, 100000, 1000000, 16777215, 16777216, 2147483647, 2147483648, 4294967294, 4294967295, 4294967296, 4294967297, 10000000000, 18446744073709551615];
const VAST: &[usize] = &[2047, 2048, 2049, 4095, 4096, 4097, 8000, 8191, 8192, 8193, 10000, 16384, 32767, 32768, 65535, 65536, 65537];

pub fn style(rng: &mut Rng) -> Style {
    Style {
        case: rng.chance(1, 2),
        deep: rng.chance(1, 12),
        edge: rng.chance(1, 2),
        fuel: *rng.pick(&[8, 20, 40, 80, 120]),
    }
}

fn weight(kind: &str) -> usize {
    match kind {
        "cmd" => 100,
        "resp" => 120,
        "gre" => 30,
        "auth" => 12,
        _ => 4,
    }
}

pub struct Params {
    pub mode: String,
    pub kinds: Vec<String>,
    pub seed: u64,
    pub scale: usize,
    pub dir: String,
    pub shards: usize,
    pub grammar: String,
    pub prop: String,
}

fn suffix(rng: &mut Rng) -> &'static [u8] {
    *rng.pick(&[&b"x"[..], b"\r\n", b"\n", b" ", b"* OK x\r\n", b"a NOOP\r\n", b"\x00", b"\xff\xfe", b")", b"{5}\r\n", b"\"", b"+", b"DONE\r\n"])
}

/// Deeply nested sentences around the limits.
pub fn nested(kind: &str, rng: &mut Rng) -> Option<Vec<u8>> {
    let n = 1 + rng.below(14);
    let rep = |s: &str, n: usize| s.repeat(n);
    Some(match kind {
        "cmd" => match rng.below(4) {
            0 => format!("a SEARCH {}ALL{}\r\n", rep("(", n), rep(")", n)),
            1 => format!("a UID SEARCH {}SEEN\r\n", rep("NOT ", n)),
            2 => format!("a SEARCH {}ALL{}\r\n", rep("OR ALL ", n), ""),
            _ => format!("a SORT (DATE) UTF-8 {}1{}\r\n", rep("(NOT ", n / 2 + 1), rep(")", n / 2 + 1)),
        },
        "resp" => {
            let f = r#"NIL NIL NIL "7BIT" 3"#;
            let env = "(NIL NIL NIL NIL NIL NIL NIL NIL NIL NIL)";
            match rng.below(5) {
                0 => format!("* THREAD {}1 2{}\r\n", rep("(", 1), rep(")", 1)),
                1 => {
                    let mut s = "(1)(2)".to_string();
                    for _ in 0..n {
                        s = format!("(3 {s})(4)")
                    }
                    format!("* THREAD {s}\r\n")
                }
                2 => {
                    let mut s = format!(r#"("TEXT" "PLAIN" {f} 1)"#);
                    for _ in 0..n {
                        s = format!(r#"({s} "MIXED")"#)
                    }
                    format!("* 1 FETCH (BODYSTRUCTURE {s})\r\n")
                }
                3 => {
                    let mut s = format!(r#"("IMAGE" "PNG" {f})"#);
                    for _ in 0..n {
                        s = format!(r#"("MESSAGE" "RFC822" {f} {env} {s} 5)"#)
                    }
                    format!("* 1 FETCH (BODY {s})\r\n")
                }
                _ => {
                    let e = format!("{}1{}", rep("(", n), rep(")", n));
                    format!("* 1 FETCH (BODYSTRUCTURE (\"IMAGE\" \"PNG\" {f} NIL NIL NIL NIL {e}))\r\n")
                }
            }
        }
        _ => return None,
    }
    .into_bytes())
}

fn arb(kind: &str, rng: &mut Rng) -> Option<Msg> {
    let n = 20 + rng.below(400);
    let data: Vec<u8> = (0..n).map(|_| if rng.chance(1, 3) { rng.below(256) as u8 } else { rng.below(128) as u8 }).collect();
    let mut u = Unstructured::new(&data);
    use bounded_static::ToBoundedStatic as _;
    guarded(|| {
        Some(match kind {
            "cmd" => Msg::Cmd(Command::arbitrary(&mut u).ok()?.to_static()),
            "auth" => Msg::Auth(AuthenticateData::arbitrary(&mut u).ok()?.to_static()),
            "idle" => Msg::Idle(IdleDone::arbitrary(&mut u).ok()?),
            "gre" => Msg::Gre(Greeting::arbitrary(&mut u).ok()?.to_static()),
            _ => Msg::Resp(Response::arbitrary(&mut u).ok()?.to_static()),
        })
    })
    .ok()
    .flatten()
}

/// Change one leaf of a JSON value.
pub fn jmutate(v: &mut Value, rng: &mut Rng) {
    // collect paths
    fn count(v: &Value) -> usize {
        1 + match v {
            Value::Array(a) => a.iter().map(count).sum(),
            Value::Object(o) => o.values().map(count).sum(),
            _ => 0,
        }
    }
    fn at<'a>(v: &'a mut Value, mut k: usize) -> &'a mut Value {
        if k == 0 {
            return v;
        }
        k -= 1;
        match v {
            Value::Array(a) => {
                for x in a.iter_mut() {
                    let c = count(x);
                    if k < c {
                        return at(x, k);
                    }
                    k -= c
                }
            }
            Value::Object(o) => {
                for x in o.values_mut() {
                    let c = count(x);
                    if k < c {
                        return at(x, k);
                    }
                    k -= c
                }
            }
            _ => {}
        }
        unreachable!()
    }
    let n = count(v);
    let x = at(v, rng.below(n));
    if x.as_str().map(|s| s.len() >= 10 && s.as_bytes()[4] == b'-' && s.as_bytes()[7] == b'-').unwrap_or(false) {
        return;
    }
    match x {
        Value::String(s) => {
            *s = match rng.below(14) {
                0 => String::new(),
                1 => "inbox".into(),
                2 => "NIL".into(),
                3 => format!("{s}]"),
                4 => format!("{s} x"),
                5 => format!("{s}\r\n"),
                6 => format!("{s}\""),
                7 => format!("{s}\u{0}"),
                8 => format!("{s}é"),
                9 => format!("{s}%"),
                10 => s.to_lowercase(),
                11 => s.to_uppercase(),
                12 => format!("{s}+"),
                _ => s.chars().take(1).collect(),
            }
        }
        Value::Number(k) => {
            let k0 = k.as_u64().unwrap_or(0);
            *x = json!(*rng.pick(&[0u64, 1, 4294967295, 4294967296, u64::MAX, k0.wrapping_add(1), k0 % 10, 255, 256]))
        }
        Value::Bool(b) => *b = !*b,
        Value::Array(a) => match rng.below(4) {
            0 => a.clear(),
            1 if !a.is_empty() => {
                let i = rng.below(a.len());
                a.remove(i);
            }
            2 if !a.is_empty() => {
                let e = rng.pick(a).clone();
                a.push(e)
            }
            _ => a.reverse(),
        },
        Value::Null => {}
        Value::Object(_) => {}
    }
}

/// Values outside the reach of the encode/decode property: codes without a parser, and UTF-8 quoted strings that
/// are plain quoted strings or contain line breaks (dedicated records exhibit those).
fn odd(v: &Value) -> bool {
    match v {
        Value::Array(a) => a.iter().any(odd),
        Value::Object(o) => {
            let t = o.get("type").and_then(|t| t.as_str()).unwrap_or("");
            let c = o.get("content");
            if t == "Referral" {
                return true;
            }
            // `\Recent` is a flag of its own among fetched flags, but not among flags
            if let (true, Some(Value::String(s))) = (t == "Extension", c) {
                if s.eq_ignore_ascii_case("recent") {
                    return true;
                }
            }
            if let (true, Some(Value::String(s))) = (t == "QuotedUtf8", c) {
                if s.is_ascii() || s.contains(['\r', '\n', '\0']) {
                    return true;
                }
            }
            o.values().any(odd)
        }
        _ => false,
    }
}

/// Further documents outside the reach of C13: response codes kept as raw bytes have no checked constructor, and a free
/// text may start with a bracket although the wire form then reads differently.
fn odd_doc(v: &Value) -> bool {
    match v {
        Value::Array(a) => a.iter().any(odd_doc),
        Value::Object(o) => {
            if o.get("type").and_then(|t| t.as_str()) == Some("Other") && o.get("content").map(|c| c.is_array()).unwrap_or(false) {
                return true;
            }
            if o.get("code") == Some(&Value::Null) && o.get("text").and_then(|t| t.as_str()).unwrap_or("").starts_with('[') {
                return true;
            }
            o.values().any(odd_doc)
        }
        _ => false,
    }
}

fn prop() -> String {
    let a: Vec<String> = std::env::args().collect();
    a.iter().position(|x| x == "--prop").map(|i| a[i + 1].clone()).unwrap_or_default()
}

pub fn enc_rec(src: &str, m: &Msg) -> Value {
    let r = guarded(|| {
        let e = enc_ints(m.encode());
        let d = m.encode().dump();
        // what is left after taking some fragments
        let n = m.encode().count();
        let ds: Vec<Vec<u8>> = if n > 1 && prop() == "C09" {
            (1..=n.min(12))
                .map(|j| {
                    let mut e = m.encode();
                    for _ in 0..j {
                        e.next();
                    }
                    if j % 2 == 0 { e.clone().dump() } else { e.dump() }
                })
                .collect()
        } else {
            vec![]
        };
        let dec = decode(m.kind(), &d);
        let _ = format!("{m:?}");
        let r = match &dec {
            Dec::Ok(c, x) if x == m => json!({"k":"ok","c":c,"same":true,"e2":enc_ints(x.encode())==e,"v":[]}),
            Dec::Ok(c, x) => json!({"k":"ok","c":c,"same":false,"e2":enc_ints(x.encode())==e,"v":lex(&x.json())}),
            o => o.rec(false),
        };
        json!({"k":"enc","p":prop(),"src":src,"m":m.kind(),"v":lex(&m.json()),"e":e,"d":d,"ds":ds,"r":r})
    });
    r.unwrap_or_else(|p| json!({"k":"panic","m":m.kind(),"v":m.json(),"s":p}))
}

/// Give an unknown item (`Other`, `Extension`) of a document a known name.
fn jrename(v: &mut Value, names: &[Vec<u8>], rng: &mut Rng) -> bool {
    fn spots<'a>(v: &'a mut Value, out: &mut Vec<&'a mut Value>) {
        match v {
            Value::Array(a) => a.iter_mut().for_each(|x| spots(x, out)),
            Value::Object(o) => {
                let other = matches!(o.get("type").and_then(|t| t.as_str()), Some("Other" | "Extension"));
                for (k, x) in o.iter_mut() {
                    if other && k == "content" && x.is_string() {
                        out.push(x)
                    } else {
                        spots(x, out)
                    }
                }
            }
            _ => {}
        }
    }
    let mut xs = vec![];
    spots(v, &mut xs);
    if xs.is_empty() {
        return false;
    }
    let i = rng.below(xs.len());
    let mut n = rng.pick(names).clone();
    if rng.chance(1, 2) {
        n.iter_mut().for_each(|b| {
            if rng.chance(1, 2) {
                *b = b.to_ascii_lowercase()
            }
        })
    }
    *xs[i] = json!(String::from_utf8_lossy(&n));
    true
}

/// Put one suspicious thing into one leaf.
pub fn jinject(v: &mut Value, rng: &mut Rng) {
    fn leaves<'a>(v: &'a mut Value, out: &mut Vec<&'a mut Value>, key: &str) {
        let leaf = match v {
            Value::Array(a) => a.iter().all(|x| x.is_number()),
            Value::Object(_) => false,
            _ => true,
        };
        if leaf {
            if !(v.is_string() && key == "type") {
                out.push(v)
            }
            return;
        }
        match v {
            Value::Array(a) => a.iter_mut().for_each(|x| leaves(x, out, key)),
            Value::Object(o) => o.iter_mut().for_each(|(k, x)| leaves(x, out, k)),
            _ => {}
        }
    }
    let mut ls = vec![];
    leaves(v, &mut ls, "");
    if ls.is_empty() {
        return;
    }
    let i = rng.below(ls.len());
    match &mut *ls[i] {
        Value::String(s) if s.len() >= 10 && s.as_bytes()[4] == b'-' && s.as_bytes()[7] == b'-' && s.as_bytes()[..4].iter().all(|c| c.is_ascii_digit()) => {
            *s = if s.len() == 10 {
                *rng.pick(&["+10000-01-01", "-0001-01-01", "2021-02-29", "2020-13-01", "2020-00-10", "9999-12-31", "0000-01-01", "x", ""])
            } else {
                *rng.pick(&["2020-01-01T00:00:00.5Z", "2020-01-01T00:00:00.000000001Z", "+10000-01-01T00:00:00Z", "-0001-01-01T00:00:00Z", "2020-01-01T00:00:60Z",
                    "2020-01-01T24:00:00Z", "2020-01-01T00:00:00+24:00", "9999-12-31T23:59:59Z", "0000-01-01T00:00:00Z", "2020-01-01T00:00:00+23:59", "2020-01-01", ""])
            }
            .to_string()
        }
        Value::String(s) => {
            let mut cs: Vec<char> = s.chars().collect();
            let c = if rng.chance(2, 3) { *rng.pick(&['\0', '\r', '\n', ' ', '"', '\\', '(', ')', '{', '%', '*', ']', '+', '\u{7f}', 'é', '[']) } else { rng.below(128) as u8 as char };
            if cs.is_empty() || rng.chance(1, 2) {
                let p = rng.below(cs.len() + 1);
                cs.insert(p, c)
            } else if rng.chance(4, 5) {
                let p = rng.below(cs.len());
                cs[p] = c
            } else {
                cs.clear()
            }
            *s = cs.into_iter().collect()
        }
        Value::Array(a) => {
            // numbers: bytes of a literal, or a list of numbers
            match rng.below(4) {
                0 => a.clear(),
                1 => a.push(json!(0)),
                2 => a.insert(0, json!(*rng.pick(&[0, 13, 128, 256]))),
                _ if !a.is_empty() => {
                    let p = rng.below(a.len());
                    a[p] = json!(*rng.pick(&[0, 10, 255, 300]))
                }
                _ => a.push(json!(7)),
            }
        }
        x @ Value::Number(_) => *x = json!(*rng.pick(&[0u64, 4294967295, 4294967296, u64::MAX])),
        Value::Bool(b) => *b = !*b,
        x @ Value::Null => *x = json!(*rng.pick(&["", "x", "a b"])),
        Value::Object(_) => {}
    }
}

/// One document offered to deserialisation; `of`: the value it was made from.
/// The tokens of a document with the members of objects in the order of their names.
fn sorted(js: &str) -> Vec<String> {
    let v: Value = serde_json::from_str(js).unwrap();
    lex(&v.to_string())
}

fn serde_rec(kind: &str, js: &str, of: Option<&Msg>, odd: bool) -> Value {
    match guarded(|| Msg::from_json(kind, js)) {
        Err(s) => json!({"k":"panic","m":kind,"v":js,"s":s}),
        Ok(Err(_)) => json!({"k":"serde","m":kind,"orig":of.is_some(),"doc":lex(js),"r":"err","v":[],"e":[],"same":false,"odd":odd}),
        Ok(Ok(m)) => match guarded(|| enc_ints(m.encode())) {
            Err(s) => json!({"k":"panic","m":kind,"v":js,"s":s}),
            Ok(e) => json!({"k":"serde","m":kind,"orig":of.is_some(),"doc":sorted(js),"r":"ok","v":lex(&m.json()),"vs":sorted(&m.json()),"e":e,
                "same":of.map(|o| *o == m).unwrap_or(true),"odd":odd}),
        },
    }
}

/// Survival (C18): hostile inputs for all decoders; everything accepted is also printed and encoded.
pub fn crash(p: Params) -> Value {
    let mut g = Gram::load(&p.grammar);
    let mut out = Out::new(&p.dir, p.shards);
    let mut rng = Rng::new(p.seed);
    let cur = format!("{}/current", p.dir);
    let mut ran = 0usize;
    let mut accepted = 0usize;
    let survive = |kind: &str, b: &[u8], out: &mut Out, record: bool, accepted: &mut usize| {
        let d = decode(kind, b);
        let mut bad = None;
        match &d {
            Dec::Panic(s) => bad = Some(s.clone()),
            Dec::Ok(_, m) => {
                *accepted += 1;
                if let Err(s) = guarded(|| {
                    let _ = format!("{m:?}");
                    let _ = m.json();
                    let _ = m.encode().dump();
                    let _ = m.clone() == *m;
                }) {
                    bad = Some(s)
                }
            }
            _ => {}
        }
        if let Some(s) = bad {
            out.put(&json!({"k":"panic","m":kind,"b":&b[..b.len().min(4000)],"s":s}));
        } else if record {
            out.put(&json!({"k":"dec","m":kind,"b":b,"r":d.rec(true)}));
        }
    };
    // every string of up to two bytes, every string of three structural bytes
    for kind in KINDS {
        survive(kind, b"", &mut out, true, &mut accepted);
        for a in 0..=255u8 {
            survive(kind, &[a], &mut out, a % 16 == 0, &mut accepted);
            for b in 0..=255u8 {
                survive(kind, &[a, b], &mut out, false, &mut accepted);
                ran += 1;
            }
        }
    }
    // nesting: from the limit to far beyond it
    let forms: [(&str, &str, &str, &str, &str); 12] = [
        ("cmd", "a SEARCH ", "(", "ALL", ")"),
        ("cmd", "a SEARCH ", "NOT ", "ALL", ""),
        ("cmd", "a SEARCH ", "OR ALL ", "ALL", ""),
        ("cmd", "a SEARCH ", "OR (OR NOT ", "ALL", " ALL) SEEN"),
        ("cmd", "a UID THREAD REFERENCES UTF-8 ", "(NOT ", "1", ")"),
        ("resp", "* THREAD ", "(1 (2)", "(3)", ")"),
        ("resp", "* THREAD ", "(", "(1)(2)", "(3))"),
        ("resp", "* 1 FETCH (BODY ", "(", "(\"TEXT\" \"PLAIN\" NIL NIL NIL \"7BIT\" 1 1)", " \"MIXED\")"),
        ("resp", "* 1 FETCH (BODYSTRUCTURE ", "(", "", ""),
        ("resp", "* 1 FETCH (BODYSTRUCTURE ", "(\"MESSAGE\" \"RFC822\" NIL NIL NIL \"7BIT\" 1 (NIL NIL NIL NIL NIL NIL NIL NIL NIL NIL) ", "(\"A\" \"B\" NIL NIL NIL \"7BIT\" 1)", " 1)"),
        ("resp", "* 1 FETCH (BODYSTRUCTURE (\"A\" \"B\" NIL NIL NIL \"7BIT\" 1 NIL NIL NIL NIL ", "(", "1", ")"),
        ("resp", "* 1 FETCH (BODYSTRUCTURE ", "((\"MESSAGE\" \"RFC822\" NIL NIL NIL \"7BIT\" 1 (NIL NIL NIL NIL NIL NIL NIL NIL NIL NIL) ", "(\"A\" \"B\" NIL NIL NIL \"7BIT\" 1)", " 1) \"X\")"),
    ];
    for (kind, pre, open, mid, close) in forms {
        for n in (0..14).chain([20, 64, 300, 2000, 20000, 120000]) {
            for tail in [if open.starts_with("((") || pre.contains("FETCH") { ")\r\n" } else { "\r\n" }, ""] {
                let tail = if pre.contains("(\"A\"") && !tail.is_empty() { "))\r\n" } else { tail };
                let s = format!("{pre}{}{mid}{}{tail}", open.repeat(n), close.repeat(n));
                std::fs::write(&cur, &s.as_bytes()[..s.len().min(20000)]).unwrap();
                ran += 1;
                if n <= 20 && s.len() < 2500 {
                    survive(kind, s.as_bytes(), &mut out, true, &mut accepted);
                } else {
                    let d = decode(kind, s.as_bytes());
                    out.put(&json!({"k":"deep","m":kind,"n":n,"form":format!("{pre}{open}..."),"r":d.rec(false)["k"]}));
                }
                // unclosed
                let u = format!("{pre}{}", open.repeat(n));
                let d = decode(kind, u.as_bytes());
                if n > 20 {
                    out.put(&json!({"k":"deep","m":kind,"n":n,"form":format!("{pre}{open}... (open)"),"r":d.rec(false)["k"]}));
                }
            }
        }
    }
    let total = p.scale * 1000;
    let t0 = std::time::Instant::now();
    for it in 0..total {
        let kind = KINDS[rng.below(5)];
        let st = Style { deep: true, edge: true, ..style(&mut rng) };
        let mut s = g.sentence(kind, &mut rng, st);
        match rng.below(6) {
            0 => {}
            1 => {
                let o = g.sentence(kind, &mut rng, st);
                let (i, j) = (rng.below(s.len() + 1), rng.below(o.len() + 1));
                s.truncate(i);
                s.extend_from_slice(&o[j..]);
            }
            2 => s = (0..rng.below(60)).map(|_| rng.below(256) as u8).collect(),
            _ => {
                for _ in 0..1 + rng.below(12) {
                    s = mutate(&s, &mut rng)
                }
            }
        }
        std::fs::write(&cur, &s).unwrap();
        for k in KINDS {
            ran += 1;
            survive(k, &s, &mut out, k == kind && it % 4 == 0 && s.len() < 500, &mut accepted);
        }
    }
    let _ = std::fs::remove_file(&cur);
    json!({"records": out.finish(), "inputs": ran, "accepted": accepted, "ms": t0.elapsed().as_millis() as u64})
}

pub fn main(p: Params) -> Value {
    if p.mode == "crash" {
        return crash(p);
    }
    let mut g = Gram::load(&p.grammar);
    let names = g.names();
    let mut out = Out::new(&p.dir, p.shards);
    let mut rng = Rng::new(p.seed);
    let mut seen: HashSet<(usize, Vec<u8>)> = HashSet::new();
    let mut stats = serde_json::Map::new();
    let (mut ok, mut lit, mut inc, mut err) = (0usize, 0usize, 0usize, 0usize);
    let wsum: usize = p.kinds.iter().map(|k| weight(k)).sum();
    let total = p.scale * 1000;
    if p.mode == "enc" {
        if p.prop == "C07" {
            let js = r#"{"kind":"Ok","code":{"type":"Referral","content":"imap://example.org/"},"text":"x"}"#;
            if let Ok(m) = Msg::from_json("gre", js) {
                out.put(&enc_rec("referral", &m));
            }
        }
        if p.prop == "C09" {
            let js = r#"{"tag":"a","body":{"type":"Create","content":{"mailbox":{"type":"Other","content":{"type":"String","content":{"type":"QuotedUtf8","content":"a\r\nb"}}}}}}"#;
            if let Ok(m) = Msg::from_json("cmd", js) {
                out.put(&enc_rec("quotedutf8-crlf", &m));
            }
        }
    }
    // every spelling at every place of the grammar first, then random sentences
    let mut queue: Vec<(String, (Vec<usize>, usize))> = vec![];
    for k in &p.kinds {
        queue.extend(g.targets(k, ["dec", "conf", "wait"].contains(&&*p.mode)).into_iter().map(|t| (k.clone(), t)))
    }
    let mut long: Vec<(String, (Vec<usize>, usize))> = vec![];
    for k in &p.kinds {
        long.extend(g.sizes(k).into_iter().map(|t| (k.clone(), t)))
    }
    let places = queue.len();
    for i in (1..queue.len()).rev() {
        queue.swap(i, rng.below(i + 1))
    }
    if p.mode == "conf" && p.scale < 3 {
        long.retain(|_| rng.chance(1, 3))
    }
    let rounds = 1 + p.scale / 100;
    let (mut reached, mut accepted) = (0usize, 0usize);
    let (nq, mut nl) = (queue.len() * rounds, long.len() * rounds);
    let tokens: Vec<_> = long.iter().filter(|t| g.token(&t.1)).cloned().collect();
    // and a few far beyond
    let nx = (4 + p.scale / 8).min(60);
    let nx = if tokens.is_empty() { 0 } else { nx };
    nl += nx;
    for it in 0..total + nq + nl {
        let huge = (nq..nq + nl).contains(&it);
        let vast = huge && it >= nq + nl - nx;
        let goal = if it < nq { Some(&queue[it % queue.len()]) } else if huge { Some(if vast { rng.pick(&tokens) } else { &long[it % long.len()] }) } else { None };
        g.set_huge(if vast { *rng.pick(if p.mode == "serde" { &VAST[..10] } else { VAST }) } else { *rng.pick(SIZES) });
        let cap = |n: usize| if vast { n * 500 } else if huge { n * 20 } else { n };
        let mut w = rng.below(wsum);
        let kind = p.kinds.iter().find(|k| if w < weight(k) { true } else { w -= weight(k); false }).unwrap().clone();
        let ki = KINDS.iter().position(|k| *k == kind).unwrap();
        let mut st = style(&mut rng);
        let (kind, ki, mut s) = match goal {
            Some((k, t)) => {
                st.edge = false;
                st.deep = false;
                st.fuel = *rng.pick(&[-1, 6, 15]);
                let s = g.directed(k, t, &mut rng, st);
                if g.hit() {
                    reached += 1
                }
                if let Dec::Ok(..) = decode(k, &s) {
                    accepted += 1
                }
                (k.clone(), KINDS.iter().position(|x| x == k).unwrap(), s)
            }
            None => {
                let s = g.sentence(&kind, &mut rng, st);
                (kind, ki, s)
            }
        };
        if goal.is_none() && it % 40 == 7 {
            if let Some(n) = nested(&kind, &mut rng) {
                s = n
            }
        }
        if s.len() > cap(700) {
            continue;
        }
        match p.mode.as_str() {
            "dec" | "conf" | "wait" => {
                let mut cands = vec![];
                let r = rng.below(10);
                cands.push(s.clone());
                if r < 3 {
                    let mut x = s.clone();
                    x.extend_from_slice(suffix(&mut rng));
                    cands.push(x)
                }
                let nm = if huge { (it % 4 == 0) as usize } else if s.len() < 200 && p.mode != "conf" { 3 } else { 1 };
                for _ in 0..nm {
                    let mut x = mutate(&s, &mut rng);
                    if rng.chance(1, 5) {
                        x = mutate(&x, &mut rng)
                    }
                    cands.push(x)
                }
                if rng.chance(1, 4) {
                    cands.push(s[..rng.below(s.len() + 1)].to_vec())
                }
                if p.mode == "wait" {
                    // the line cut short, ended at once and followed by more
                    let mut x = s[..rng.below(s.len() + 1)].to_vec();
                    x.extend_from_slice(*rng.pick(&[&b"\r\n"[..], b"\r\n\r\n", b" \r\n", b")\r\n", b"\"\r\nA NOOP\r\n", b"\r\n* OK x\r\n", b"\n"]));
                    cands.push(x)
                }
                for c in cands {
                    if !seen.insert((ki, c.clone())) {
                        continue;
                    }
                    let d = decode(&kind, &c);
                    match &d {
                        Dec::Ok(..) => ok += 1,
                        Dec::Lit(..) => lit += 1,
                        Dec::Inc => inc += 1,
                        _ => err += 1,
                    }
                    match (&*p.mode, &d) {
                        ("conf", Dec::Ok(_, m)) => out.put(&json!({"k":"conf","m":kind,"b":c,"r":d.rec(true),"e":enc_ints(m.encode())})),
                        ("conf", _) => out.put(&json!({"k":"conf","m":kind,"b":c,"r":d.rec(true),"e":[]})),
                        ("wait", _) => out.put(&json!({"k":"wait","m":kind,"b":c,"r":d.rec(false)})),
                        _ => out.put(&json!({"k":"dec","m":kind,"b":c,"r":d.rec(true)})),
                    }
                }
            }
            "case" => {
                // only letter case varies: every spelling is valid and means the same
                let mut cands = vec![s.clone()];
                let up = s.to_ascii_uppercase();
                let low = s.to_ascii_lowercase();
                let toggled: Vec<u8> = s.iter().map(|c| if c.is_ascii_alphabetic() { c ^ 0x20 } else { *c }).collect();
                cands.push(match rng.below(3) {
                    0 => up,
                    1 => low,
                    _ => toggled,
                });
                if s.len() < 200 {
                    cands.push(s.iter().map(|c| if c.is_ascii_alphabetic() && rng.chance(1, 2) { c ^ 0x20 } else { *c }).collect())
                }
                for c in cands {
                    if seen.insert((ki, c.clone())) {
                        let d = decode(&kind, &c);
                        if let Dec::Ok(..) = d {
                            ok += 1
                        }
                        out.put(&json!({"k":"case","m":kind,"b":c,"r":d.rec(true),
                            "e": if let Dec::Ok(_, m) = &d { enc_ints(m.encode()) } else { vec![] }}));
                    }
                }
            }
            "ext" => {
                if s.len() > cap(300) || !seen.insert((ki, s.clone())) {
                    continue;
                }
                let base = decode(&kind, &s);
                let mut xs = vec![];
                for j in 0..7 {
                    let x: Vec<u8> = match j {
                        0..=3 => suffix(&mut rng).to_vec(),
                        4 => {
                            let st2 = style(&mut rng);
                            g.sentence(&kind, &mut rng, st2)
                        }
                        5 => s.clone(),
                        _ => (0..1 + rng.below(4)).map(|_| rng.below(256) as u8).collect(),
                    };
                    let mut b = s.clone();
                    b.extend_from_slice(&x);
                    let d = decode(&kind, &b);
                    let (c, same) = match (&d, &base) {
                        (Dec::Ok(c, m), Dec::Ok(_, m0)) => (*c as i64, m == m0),
                        (Dec::Ok(c, _), _) => (*c as i64, false),
                        (Dec::Inc, _) => (-1, false),
                        (Dec::Lit(..), _) => (-2, false),
                        (Dec::Err, _) => (-3, false),
                        (Dec::Panic(_), _) => (-4, false),
                    };
                    xs.push(json!({"x":x,"c":c,"same":same,"own":borrowed_agrees(&kind, &b)}));
                }
                if let Dec::Ok(..) = base {
                    ok += 1
                }
                out.put(&json!({"k":"ext","m":kind,"b":s,"r":base.rec(true),"xs":xs,"own":borrowed_agrees(&kind, &s)}));
                // a pipeline of messages
                if it % 3 == 0 {
                    let mut b = s.clone();
                    for _ in 0..1 + rng.below(3) {
                        let st2 = Style { edge: rng.chance(1, 6), fuel: 20, ..st };
                        let t = g.sentence(&kind, &mut rng, st2);
                        if t.len() < 200 {
                            b.extend_from_slice(&t)
                        }
                    }
                    let mut off = 0;
                    let mut ms = vec![];
                    let end = loop {
                        match decode(&kind, &b[off..]) {
                            Dec::Ok(c, m) => {
                                ms.push(json!({"c":c,"v":lex(&m.json())}));
                                off += c
                            }
                            o => break o,
                        }
                        if ms.len() > 50 {
                            break Dec::Panic("no progress".into());
                        }
                    };
                    out.put(&json!({"k":"multi","m":kind,"b":b,"ms":ms,"end":end.rec(false)["k"]}));
                }
            }
            "pre" => {
                if s.len() > if huge { 700 } else { 350 } || !seen.insert((ki, s.clone())) {
                    continue;
                }
                let mut ks = vec![];
                let mut lits = vec![];
                let mut ends = vec![];
                for n in 0..s.len() {
                    ks.push(match decode(&kind, &s[..n]) {
                        Dec::Inc => 0,
                        Dec::Lit(l, m, t) => {
                            ends.push(n);
                            lits.push(json!({"p":n,"n":digits(l as u64),"m":m.map(|m| format!("{m:?}")).unwrap_or_default(),"t":t}));
                            1
                        }
                        Dec::Err => 2,
                        Dec::Ok(..) => 3,
                        Dec::Panic(_) => 4,
                    });
                }
                ok += 1;
                out.put(&json!({"k":"pre","m":kind,"b":s,"r":ks,"l":lits}));
                // the same announcements with other lengths, in both modes, and some of the data
                for n in ends {
                    let Some(a) = s[..n].iter().rposition(|b| *b == b'{') else { continue };
                    for _ in 0..2 + p.scale / 100 {
                        let l: u64 = if rng.chance(1, 4) { rng.next() >> (31 + rng.below(32)) } else { *rng.pick(LENGTHS) };
                        let mut c = s[..a + 1].to_vec();
                        if rng.chance(1, 8) {
                            c.extend((0..1 + rng.below(12)).map(|_| b'0'))
                        }
                        c.extend_from_slice(l.to_string().as_bytes());
                        if rng.chance(1, 2) {
                            c.push(b'+')
                        }
                        c.extend_from_slice(b"}\r\n");
                        if l > 2 && rng.chance(1, 3) {
                            c.extend((0..1 + rng.below((l - 1).min(40) as usize)).map(|_| 1 + rng.below(255) as u8))
                        }
                        if seen.insert((ki, c.clone())) {
                            out.put(&json!({"k":"dec","m":kind,"b":c,"r":decode(&kind, &c).rec(true)}));
                        }
                    }
                }
            }
            "canon" => {
                if !seen.insert((ki, s.clone())) {
                    continue;
                }
                if let Dec::Ok(c, m) = decode(&kind, &s) {
                    ok += 1;
                    let mut r = enc_rec("sentence", &m);
                    r["k"] = json!("canon");
                    r["b"] = json!(&s[..c]);
                    out.put(&r);
                }
            }
            "enc" => {
                let m = match if goal.is_some() { 0 } else { rng.below(4) } {
                    0 => match decode(&kind, &s) {
                        Dec::Ok(_, m) => Some(("sentence", m)),
                        _ => None,
                    },
                    1 => match decode(&kind, &s) {
                        Dec::Ok(_, m) => {
                            let mut v: Value = serde_json::from_str(&m.json()).unwrap();
                            for _ in 0..1 + rng.below(2) {
                                jmutate(&mut v, &mut rng)
                            }
                            Msg::from_json(&kind, &v.to_string()).ok().map(|m| ("json", m))
                        }
                        _ => None,
                    },
                    _ => arb(&kind, &mut rng).map(|m| ("arbitrary", m)),
                };
                if let Some((src, m)) = m {
                    let js = m.json();
                    let v: Value = serde_json::from_str(&js).unwrap();
                    if odd(&v) || src == "json" && odd_doc(&v) {
                        continue;
                    }
                    if js.len() > cap(3000) || !seen.insert((ki, js.into_bytes())) {
                        continue;
                    }
                    ok += 1;
                    out.put(&enc_rec(src, &m));
                }
            }
            "name" => {
                if let Dec::Ok(_, Msg::Cmd(c)) = decode(&kind, &s) {
                    if s.len() < cap(400) && seen.insert((ki, s.clone())) {
                        ok += 1;
                        out.put(&json!({"k":"name","m":kind,"b":s,"n":c.name().as_bytes(),"n2":c.body.name().as_bytes()}))
                    }
                }
            }
            "own" => {
                let mut cands = vec![s.clone()];
                match rng.below(4) {
                    0 => cands.push(mutate(&s, &mut rng)),
                    1 => cands.push(s[..rng.below(s.len() + 1)].to_vec()),
                    2 => {
                        // built values, through their encoding
                        if let Some(m) = arb(&kind, &mut rng) {
                            cands.push(m.encode().dump())
                        }
                    }
                    _ => {}
                }
                for c in cands {
                    if c.len() < cap(900) && seen.insert((ki, c.clone())) {
                        let f = forms(&kind, &c);
                        if f["r"] == "ok" {
                            ok += 1
                        }
                        out.put(&f)
                    }
                }
            }
            "serde" => {
                let m = if goal.is_some() || rng.chance(1, 2) {
                    match decode(&kind, &s) {
                        Dec::Ok(_, m) => Some(m),
                        _ => None,
                    }
                } else {
                    arb(&kind, &mut rng)
                };
                let Some(m) = m else { continue };
                let js = m.json();
                let v0: Value = serde_json::from_str(&js).unwrap();
                if js.len() > cap(3000) || !seen.insert((ki, js.clone().into_bytes())) {
                    continue;
                }
                out.put(&serde_rec(&kind, &js, Some(&m), odd(&v0) || odd_doc(&v0)));
                ok += 1;
                for _ in 0..6 {
                    let mut v = v0.clone();
                    if rng.chance(1, 2) && jrename(&mut v, &names, &mut rng) {
                    } else if rng.chance(1, 3) {
                        jmutate(&mut v, &mut rng)
                    } else {
                        jinject(&mut v, &mut rng)
                    }
                    if v == v0 {
                        continue;
                    }
                    let js = v.to_string();
                    if !seen.insert((ki, js.clone().into_bytes())) {
                        continue;
                    }
                    let r = serde_rec(&kind, &js, None, odd(&v) || odd_doc(&v));
                    // rejected documents need no judgement: only count them
                    if r["r"] == "err" {
                        err += 1
                    } else {
                        inc += 1;
                        out.put(&r)
                    }
                }
            }
            _ => panic!("mode"),
        }
    }
    let (hit, all) = g.coverage();
    stats.insert("records".into(), json!(out.finish()));
    stats.insert("code_ok".into(), json!(ok));
    stats.insert("code_literal".into(), json!(lit));
    stats.insert("code_incomplete".into(), json!(inc));
    stats.insert("code_rejected".into(), json!(err));
    stats.insert("places_and_spellings".into(), json!(places));
    stats.insert("reached".into(), json!(reached));
    stats.insert("reached_accepted".into(), json!(accepted));
    stats.insert("grammar_choices_taken".into(), json!(hit));
    stats.insert("grammar_choices".into(), json!(all));
    Value::Object(stats)
}
