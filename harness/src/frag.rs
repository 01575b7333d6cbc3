//! Drives the real Fragmentizer and records what it does (C01-C04).
use std::collections::BTreeSet;

use imap_codec::{
    decode::Decoder,
    fragmentizer::{DecodeMessageError, FragmentInfo, Fragmentizer, LineEnding},
    imap_types::core::LiteralMode,
    AuthenticateDataCodec, CommandCodec, GreetingCodec, IdleDoneCodec, ResponseCodec,
};
use serde_json::{json, Value};

use crate::util::*;

pub fn jfrag(f: Option<FragmentInfo>) -> Value {
    let noann = json!({"some":false,"nonsync":false,"len":[0]});
    match f {
        None => json!({"t":"none","start":0,"end":0,"ann":noann,"crlf":false}),
        Some(FragmentInfo::Line { start, end, announcement, ending }) => {
            let ann = match announcement {
                None => noann,
                Some(a) => json!({"some":true,"nonsync":a.mode==LiteralMode::NonSync,"len":digits(a.length as u64)}),
            };
            json!({"t":"line","start":start,"end":end,"ann":ann,"crlf":ending==LineEnding::CrLf})
        }
        Some(FragmentInfo::Literal { start, end }) => {
            json!({"t":"lit","start":start,"end":end,"ann":noann,"crlf":false})
        }
    }
}

pub fn new(limit: Option<u32>) -> Fragmentizer {
    match limit {
        Some(l) => Fragmentizer::new(l),
        None => Fragmentizer::without_max_message_size(),
    }
}

const NOLIMIT: u64 = 999999999;
pub fn jlimit(limit: Option<u32>) -> u64 {
    limit.map(|l| (l as u64).min(NOLIMIT - 1)).unwrap_or(NOLIMIT)
}

/// Observed run of a stream under a schedule: list of fragments with bytes.
/// eager: 0 = progress until None after each chunk, 1 = one progress per chunk then drain at the end,
/// 2 = enqueue everything chunk by chunk, then drain; 3 = extra progress calls and empty chunks.
fn run(s: &[u8], limit: Option<u32>, cuts: &[usize], eager: u8) -> Value {
    let r = guarded(|| {
        let mut f = new(limit);
        let mut out: Vec<Value> = vec![];
        let step = |f: &mut Fragmentizer, out: &mut Vec<Value>| -> bool {
            match f.progress() {
                None => false,
                Some(fi) => {
                    out.push(json!({"f":jfrag(Some(fi)),"b":f.fragment_bytes(fi),"done":f.is_message_complete(),
                        "exc":f.is_max_message_size_exceeded(),
                        "rng":[fi.range().start, fi.range().end],
                        "msg": if f.is_message_complete() {f.message_bytes()} else {b""}}));
                    true
                }
            }
        };
        let mut p = 0;
        for c in cuts.iter().copied().chain([s.len()]) {
            if eager == 3 {
                f.enqueue_bytes(b"");
                step(&mut f, &mut out);
            }
            f.enqueue_bytes(&s[p..c]);
            p = c;
            match eager {
                0 | 3 => while step(&mut f, &mut out) {},
                1 => {
                    step(&mut f, &mut out);
                }
                _ => {}
            }
        }
        while step(&mut f, &mut out) {}
        step(&mut f, &mut out);
        json!({"frags":out,"rest":f.message_bytes(),"complete":f.is_message_complete(),
               "exc":f.is_max_message_size_exceeded(),"panic":false})
    });
    r.unwrap_or_else(|e| json!({"frags":[],"rest":[],"complete":false,"exc":false,"panic":true,"why":e}))
}

fn all_cuts(n: usize) -> Vec<Vec<usize>> {
    // all subsets of 1..n-1
    let m = n.saturating_sub(1);
    (0..(1usize << m)).map(|mask| (0..m).filter(|i| mask >> i & 1 == 1).map(|i| i + 1).collect()).collect()
}

fn stream_rec(s: &[u8], limit: Option<u32>, scheds: &[(Vec<usize>, u8)]) -> (Value, usize) {
    let mut seen = BTreeSet::new();
    let mut outs = vec![];
    let mut n = 0;
    for (cuts, eager) in scheds {
        let v = run(s, limit, cuts, *eager);
        n += 1;
        if seen.insert(v.to_string()) {
            outs.push(json!({"cuts":cuts,"eager":eager,"o":v}));
        }
    }
    (json!({"k":"stream","s":s,"limit":jlimit(limit),"outs":outs}), n)
}

const ALPHA: &[u8] = b"\n\r{1+}";

fn exhaustive(maxlen: usize) -> Vec<Vec<u8>> {
    let mut all: Vec<Vec<u8>> = vec![vec![]];
    let mut cur: Vec<Vec<u8>> = vec![vec![]];
    for _ in 0..maxlen {
        let mut nx = vec![];
        for c in &cur {
            for a in ALPHA {
                let mut d = c.clone();
                d.push(*a);
                nx.push(d);
            }
        }
        all.extend(nx.iter().cloned());
        cur = nx;
    }
    all
}

fn announcements() -> Vec<Vec<u8>> {
    let nums = [
        "0", "00", "1", "2", "3", "5", "9", "10", "12", "007", "42949672", "429496728", "429496729", "429496730",
        "2147483647", "2147483648", "4294967294", "4294967295", "4294967296", "4294967297", "4294967300", "4294967290", "5000000000",
        "9999999999", "42949672950", "42949672960", "18446744073709551615", "18446744073709551616",
        "18446744073709551621", "99999999999999999999999999", "00000000000000000000000003", "00000000004294967295", "00000000004294967296",
    ];
    let mut v: Vec<Vec<u8>> = vec![];
    for n in nums {
        for (a, b) in [("{", "}"), ("{", "+}"), ("x {", "}"), ("~{", "}"), ("~{", "+}")] {
            for e in ["\r\n", "\n", "\r\r\n", " \r\n", "}\r\n"] {
                v.push(format!("{a}{n}{b}{e}").into_bytes());
            }
        }
        for t in ["{{N}\r\n", "{N{2}\r\n", "{N+{2+}\n", "{+N}\r\n", "{N++}\r\n", "{N+}+\r\n", "{N-}\r\n", "{ N}\r\n",
                  "{N }\r\n", "{N\r}\r\n", "{N\n}\r\n", "{N}\r \n", "N}\r\n", "{N+1}\r\n", "{-N}\r\n", "{N}{\r\n", "{N}{}\r\n", "{N\0}\r\n", "{0xN}\n",
                  "{N}\r{2}\n", "{N}\r}\n", "}{N}\n", "+{N}\n", "{1}{N}\n", "{1}x{N}\r\n", "{N:}\r\n", "{N/}\r\n", "\"{N}\"\r\n"] {
            v.push(t.replace('N', n).into_bytes());
        }
    }
    for t in ["{}\r\n", "{+}\r\n", "{\r\n", "}\r\n", "{\n", "{1\r\n", "{1\n", "{1+\r\n", "{1+\n", "\r\n", "\n", "\r\r\n", "\r\n\r\n", "{1}\r", "{\r1}\n"] {
        v.push(t.as_bytes().to_vec());
    }
    v
}

fn literal_data(n: usize, r: &mut Rng) -> Vec<u8> {
    let pat: &[&[u8]] = &[b"a", b"\r\n", b"{5}\r\n", b"\n", b"a LOGIN b c\r\n", b"}", b"\x00", b"\xff", b"{1+}\r\n", b"\r", b"{", b"}\r"];
    let mut d = vec![];
    while d.len() < n {
        d.extend_from_slice(pat[r.below(pat.len())]);
    }
    d.truncate(n);
    d
}

fn imap_line(r: &mut Rng, out: &mut Vec<u8>) {
    let t: &[&[u8]] = &[b"a1 NOOP", b"* OK hi", b"", b"A LOGIN \"x{3}\" y", b"tag {", b"tag }", b"a {1}x", b"x {3} ", b"{12", b"a APPEND x {2}{",
        b"+ ok", b"a1 LOGIN {1}\ra", b"DONE", b"a1 ID (\"a\" \"{5}\")", b"b CREATE f{2}o", b"a1 select a]", b"a\x001 x", b" x", b"a1", b"\xc3\xa9 x", b"a+1 NOOP", b"a(b x", b"~{5} "];
    out.extend_from_slice(t[r.below(t.len())]);
}

fn random_stream(r: &mut Rng, big: bool) -> Vec<u8> {
    // long literals, long lines, many messages, many literals in a message
    let shape = if big { r.below(5) } else { 0 };
    let long = big && shape < 3;
    let msgs = if shape == 3 { 20 + r.below(130) } else { 1 + r.below(3) };
    stream_of(r, long, shape, msgs)
}

fn stream_of(r: &mut Rng, big: bool, shape: usize, msgs: usize) -> Vec<u8> {
    let mut s = vec![];
    for _ in 0..msgs {
        let mut lits = 0;
        loop {
            imap_line(r, &mut s);
            if shape == 2 || shape == 1 && r.chance(1, 2) {
                let n = *r.pick(&[50usize, 63, 64, 65, 127, 128, 129, 250, 255, 256, 257, 500, 511, 512, 513, 1000, 1023, 1024, 1025, 2048, 4096, 8191, 8192, 16384, 65536]);
                let n = (n + r.below(4)).saturating_sub(r.below(4));
                let c = *r.pick(&[&b"x"[..], b" ", b"{", b"}", b"1", b"{1", b"1}", b"\r", b"+", b"0", b"a {3} "]);
                let k = s.len() + n;
                while s.len() < k {
                    s.extend_from_slice(c)
                }
                match r.below(5) {
                    0 => s.push(b'}'),
                    1 => s.extend_from_slice(b"{5"),
                    _ => {}
                }
            }
            let cont = if shape == 4 { lits < 120 && r.chance(49, 50) } else { r.chance(1, 2) };
            lits += 1;
            if cont {
                let n = if big { *r.pick(&[0usize, 1, 255, 256, 1023, 4095, 4096, 4097, 8192, 65535, 65536, 70000]) } else { *r.pick(&[0usize, 1, 2, 3, 5, 7, 10, 13, 20]) };
                let n = if shape == 4 || big && shape == 2 { *r.pick(&[0usize, 1, 2, 5]) } else { n };
                let zeros = "0".repeat(if big && r.chance(1, 4) { *r.pick(&[20usize, 60, 255, 256, 300, 1000]) } else { 1 });
                let z: &str = if r.chance(1, 6) { &zeros } else { "" };
                let plus = if r.chance(1, 2) { "+" } else { "" };
                let t = if r.chance(1, 5) { "~" } else { "" };
                s.extend_from_slice(format!(" {t}{{{z}{n}{plus}}}").as_bytes());
                s.extend_from_slice(if r.chance(1, 5) { b"\n" } else { b"\r\n" });
                let d = literal_data(n, r);
                s.extend_from_slice(&d);
            } else {
                s.extend_from_slice(if r.chance(1, 5) { b"\n" } else { b"\r\n" });
                break;
            }
        }
    }
    if r.chance(1, 3) {
        let k = r.below(s.len() + 1);
        s.truncate(k);
    }
    s
}

fn random_cuts(r: &mut Rng, n: usize) -> Vec<usize> {
    let mut c = BTreeSet::new();
    let k = r.below(6) + 1;
    for _ in 0..k {
        if n > 1 {
            c.insert(1 + r.below(n - 1));
        }
    }
    c.into_iter().collect()
}

fn schedules(r: &mut Rng, s: &[u8], rich: bool) -> Vec<(Vec<usize>, u8)> {
    let n = s.len();
    let mut v: Vec<(Vec<usize>, u8)> = vec![(vec![], 0)];
    if !rich {
        return v;
    }
    if n <= 9 {
        for c in all_cuts(n) {
            for e in 0..4 {
                v.push((c.clone(), e));
            }
        }
    } else if n < 3000 {
        v.push(((1..n).collect(), 0));
        v.push(((1..n).collect(), 1));
        v.push(((1..n).collect(), 3));
        for i in 1..n.min(400) {
            v.push((vec![i], (i % 4) as u8));
        }
        for st in [2, 3, 5, 7, 16, 64] {
            v.push(((1..n).step_by(st).collect(), 0));
        }
        for e in 0..24 {
            v.push((random_cuts(r, n), (e % 4) as u8));
        }
    } else {
        v.push(((1..n).step_by(1024).collect(), 0));
        v.push(((1..n).step_by(4096).collect(), 1));
        v.push(((1..n).step_by(37).collect(), 0));
        for e in 0..6 {
            v.push((random_cuts(r, n), (e % 4) as u8));
        }
    }
    v
}

enum AnyCodec {
    G(GreetingCodec),
    C(CommandCodec),
    A(AuthenticateDataCodec),
    R(ResponseCodec),
    I(IdleDoneCodec),
}

fn decode_obs<C: Decoder>(f: &Fragmentizer, codec: &C) -> (Value, Value)
where
    for<'a> C::Message<'a>: PartialEq,
    for<'a> C::Error<'a>: PartialEq,
{
    let msg = f.message_bytes();
    let direct = codec.decode(msg);
    let cd = match &direct {
        Ok((rest, _)) => json!({"k":"ok","rest":rest.len()}),
        Err(_) => json!({"k":"err","rest":0}),
    };
    let dm = match f.decode_message(codec) {
        Ok(m) => json!({"k":"ok","b":[],"same": matches!(&direct, Ok((_, d)) if *d == m)}),
        Err(DecodeMessageError::DecodingFailure(e)) => {
            json!({"k":"fail","b":[],"same": matches!(&direct, Err(d) if *d == e)})
        }
        Err(DecodeMessageError::DecodingRemainder { message, remainder }) => {
            json!({"k":"rem","b":remainder.declassify(),"same": matches!(&direct, Ok((_, d)) if *d == message)})
        }
        Err(DecodeMessageError::MessageTooLong { initial }) => json!({"k":"long","b":initial.declassify(),"same":true}),
        Err(DecodeMessageError::MessagePoisoned { discarded }) => {
            json!({"k":"poison","b":discarded.declassify(),"same":true})
        }
    };
    (dm, cd)
}

fn obs(f: &Fragmentizer, fi: Option<FragmentInfo>, codec: &AnyCodec, full: bool) -> Value {
    let (dm, cd) = if full {
        match codec {
            AnyCodec::G(c) => decode_obs(f, c),
            AnyCodec::C(c) => decode_obs(f, c),
            AnyCodec::A(c) => decode_obs(f, c),
            AnyCodec::R(c) => decode_obs(f, c),
            AnyCodec::I(c) => decode_obs(f, c),
        }
    } else {
        (json!({"k":"skip","b":[],"same":true}), json!({"k":"err","rest":0}))
    };
    let tag = match f.decode_tag() {
        Some(t) => json!({"some":true,"tag":t.as_ref().as_bytes()}),
        None => json!({"some":false,"tag":[]}),
    };
    json!({"f":jfrag(fi),"fb":fi.map(|x| f.fragment_bytes(x).to_vec()).unwrap_or_default(),
        "complete":f.is_message_complete(),"exc":f.is_max_message_size_exceeded(),"poi":f.is_message_poisoned(),
        "msg":f.message_bytes(),"tag":tag,"dm":dm,"cd":cd})
}

/// A random history of operations with full observation after each.
fn history(r: &mut Rng, s: &[u8], limit: Option<u32>, with_ops: bool) -> Value {
    history_of(r, s, limit, with_ops, 60, 30)
}

/// A long history: many messages, or messages far longer than usual.
fn long_history(r: &mut Rng, limit: Option<u32>) -> Value {
    if r.chance(1, 2) {
        let n = 10 + r.below(60);
        let s = stream_of(r, false, 3, n);
        history_of(r, &s, limit, true, 400, 40)
    } else {
        let n = 1 + r.below(3);
        let mut s = stream_of(r, true, 2, n);
        s.truncate(3000);
        let w = s.len() / 4 + 2;
        history_of(r, &s, limit, true, 60, w)
    }
}

fn history_of(r: &mut Rng, s: &[u8], limit: Option<u32>, with_ops: bool, steps: usize, width: usize) -> Value {
    let which = r.below(5);
    let codec = match which {
        0 => AnyCodec::G(GreetingCodec::default()),
        1 | 2 => AnyCodec::C(CommandCodec::default()),
        3 => AnyCodec::R(ResponseCodec::default()),
        _ => if r.chance(1, 2) { AnyCodec::A(AuthenticateDataCodec::default()) } else { AnyCodec::I(IdleDoneCodec::default()) },
    };
    let mut ops = vec![];
    let res = guarded(|| {
        let mut f = new(limit);
        let mut p = 0;
        let mut idle = 0;
        while ops.len() < steps {
            let x = r.below(100);
            if with_ops && x < 8 {
                f.poison_message();
                ops.push(json!({"op":"poison","b":[],"o":obs(&f, None, &codec, true)}));
            } else if with_ops && x < 14 {
                f.skip_message();
                ops.push(json!({"op":"skip","b":[],"o":obs(&f, None, &codec, true)}));
            } else if x < 50 && p < s.len() {
                let w = if r.chance(1, 3) { 3 } else { width };
                let n = (1 + r.below(w)).min(s.len() - p);
                f.enqueue_bytes(&s[p..p + n]);
                ops.push(json!({"op":"enq","b":&s[p..p + n],"o":obs(&f, None, &codec, true)}));
                p += n;
                idle = 0;
            } else {
                let fi = f.progress();
                ops.push(json!({"op":"prog","b":[],"o":obs(&f, fi, &codec, true)}));
                if fi.is_none() {
                    idle += 1;
                    if p >= s.len() && idle > 2 {
                        break;
                    }
                }
            }
        }
    });
    match res {
        Ok(()) => json!({"k":"hist","limit":jlimit(limit),"ops":ops}),
        Err(e) => json!({"k":"panic","limit":jlimit(limit),"s":s,"why":e,"ops":ops}),
    }
}

pub fn main(prop: &str, seed: u64, scale: usize, dir: &str, shards: usize) -> Value {
    let mut r = Rng::new(seed.wrapping_mul(31).wrapping_add(prop.bytes().map(u64::from).sum()));
    let mut out = Out::new(dir, shards);
    let mut runs = 0usize;
    let ann = announcements();
    let mut emit = |out: &mut Out, s: &[u8], limit: Option<u32>, scheds: Vec<(Vec<usize>, u8)>| {
        let (v, n) = stream_rec(s, limit, &scheds);
        runs += n;
        out.put(&v);
    };
    let mut hists = 0;
    match prop {
        "C01" => {
            for s in exhaustive(5) {
                emit(&mut out, &s, None, vec![(vec![], 0)]);
            }
            for a in &ann {
                for tail in [b"".as_slice(), b"ab\ncd\r\n{1}\nx\r\n", b"{1}\r\n\n\n"] {
                    let mut s = a.clone();
                    s.extend_from_slice(tail);
                    emit(&mut out, &s, None, vec![(vec![], 0)]);
                    let mut s = b"{1}\r\n\r".to_vec();
                    s.extend_from_slice(a);
                    s.extend_from_slice(tail);
                    emit(&mut out, &s, None, vec![(vec![], 0)]);
                }
            }
            // every byte right inside / before / after an announcement
            for b in 0..=255u8 {
                for t in ["{1X}\r\nab\r\n", "X{1}\r\nab\r\n", "{1}X\r\nab\r\n", "{1}\rX\nab\r\n", "{X1}\r\nab\r\n", "{1+X}\nab\r\n", "{1X+}\nab\r\n", "X\n", "\rX\n{1}\n\n\n", "{1}\nX\n", "{2}\r\nXX\r\n"] {
                    let s: Vec<u8> = t.bytes().flat_map(|c| if c == b'X' { vec![b] } else { vec![c] }).collect();
                    emit(&mut out, &s, None, vec![(vec![], 0)]);
                }
            }
            for _ in 0..400 * scale {
                let s = random_stream(&mut r, false);
                emit(&mut out, &s, None, vec![(vec![], 0)]);
            }
            for _ in 0..16 * scale {
                let s = random_stream(&mut r, true);
                emit(&mut out, &s, None, vec![(vec![], 0)]);
            }
            for n in (0..300).step_by(1) {
                let mut s = format!("a {{{n}}}\r\n").into_bytes();
                s.extend(literal_data(n, &mut r));
                s.extend_from_slice(b"\r\nb NOOP\r\n");
                emit(&mut out, &s, None, vec![(vec![], 0)]);
            }
        }
        "C02" => {
            for s in exhaustive(4) {
                let sc = schedules(&mut r, &s, true);
                emit(&mut out, &s, None, sc);
            }
            for pre in [b"{1}\r\n".as_slice(), b"{1+}\n{1}\r", b"x{2}\r\n\r"] {
                for s0 in exhaustive(3) {
                    let mut s = pre.to_vec();
                    s.extend_from_slice(&s0);
                    let sc = schedules(&mut r, &s, true);
                    emit(&mut out, &s, None, sc);
                }
            }
            for (i, a) in ann.iter().enumerate() {
                if scale > 1 || i % 3 == (seed % 3) as usize {
                    let mut s = a.clone();
                    s.extend_from_slice(b"ab\n{1}\nx\r\n");
                    let sc = schedules(&mut r, &s, true);
                    emit(&mut out, &s, None, sc);
                }
            }
            for _ in 0..300 * scale {
                let s = random_stream(&mut r, false);
                let lim = if r.chance(1, 3) { Some(r.below(40) as u32) } else { None };
                let sc = schedules(&mut r, &s, true);
                emit(&mut out, &s, lim, sc);
            }
            for _ in 0..16 * scale {
                let s = random_stream(&mut r, true);
                let sc = schedules(&mut r, &s, true);
                emit(&mut out, &s, None, sc);
            }
            for _ in 0..150 * scale {
                let s = random_stream(&mut r, false);
                out.put(&history(&mut r, &s, None, false));
                hists += 1;
            }
        }
        "C03" => {
            for s in exhaustive(4) {
                for l in [0, 1, 2, 3, 4] {
                    let sc = schedules(&mut r, &s, s.len() <= 4 && l > 0);
                    emit(&mut out, &s, Some(l), sc);
                }
            }
            for _ in 0..350 * scale {
                let s = random_stream(&mut r, false);
                // limits around fragment and message boundaries
                let mut marks: Vec<usize> = vec![0, 1, s.len()];
                let mut f = new(None);
                f.enqueue_bytes(&s);
                while let Some(x) = f.progress() {
                    marks.push(x.range().start);
                    marks.push(x.range().end);
                }
                let m = *r.pick(&marks);
                for l in [m.saturating_sub(1), m, m + 1] {
                    let mut sc = schedules(&mut r, &s, false);
                    for e in 0..6u8 {
                        sc.push((random_cuts(&mut r, s.len()), e % 4));
                    }
                    sc.push(((1..s.len()).collect(), 0));
                    // cut exactly at / around the limit
                    for c in [l.saturating_sub(1), l, l + 1] {
                        if c > 0 && c < s.len() {
                            sc.push((vec![c], 0));
                        }
                    }
                    emit(&mut out, &s, Some(l as u32), sc);
                }
            }
            for _ in 0..10 * scale {
                let s = random_stream(&mut r, true);
                let l = *r.pick(&[1u32, 4096, 4097, 65535, 65536, 70000, 10, 64, 255, 256, 1000, 1024, u32::MAX]);
                let sc = schedules(&mut r, &s, true);
                emit(&mut out, &s, Some(l), sc);
            }
            for _ in 0..3 * scale {
                let l = *r.pick(&[5u32, 60, 200, 255, 256, 257, 1000, 1024]);
                out.put(&long_history(&mut r, Some(l)));
                hists += 1;
            }
            for _ in 0..200 * scale {
                let s = random_stream(&mut r, false);
                let l = if r.chance(1, 2) { r.below(50) as u32 } else { r.below(s.len() + 2) as u32 };
                let with_ops = r.chance(2, 3);
                out.put(&history(&mut r, &s, Some(l), with_ops));
                hists += 1;
            }
        }
        "C04" => {
            for _ in 0..600 * scale {
                let s = random_stream(&mut r, false);
                let l = if r.chance(1, 3) { Some(r.below(60) as u32) } else { None };
                out.put(&history(&mut r, &s, l, true));
                hists += 1;
            }
            for _ in 0..6 * scale {
                let l = if r.chance(1, 3) { Some(*r.pick(&[5u32, 60, 200, 255, 256, 257, 1000, 1024])) } else { None };
                out.put(&long_history(&mut r, l));
                hists += 1;
            }
            // messages that decode, with and without trailing data, under each codec
            let msgs: &[&[u8]] = &[b"a1 NOOP\r\n", b"* OK hi\r\n", b"DONE\r\n", b"YWI=\r\n", b"*\r\n", b"+ ok\r\n", b"* 1 EXISTS\r\n",
                b"a1 LOGIN {1}\r\nx {1+}\r\ny\r\n", b"a1 LOGIN {1}\r\nx {2}\r\ny\r\n", b"a1 NOOP\n", b"a1 NO x\r\n", b"a1 NOOP \r\n", b"* BYE\r\n",
                b"a1 NOOP\r\na {1}\r\nb\r\n", b"* 1 FETCH (BODY[] {3}\r\na\r\n)\r\n", b"DONE\r\nDONE\r\n", b"a]1 NOOP\r\n", b"a+ NOOP\r\n", b"a1\r\n", b"a1 \r\n", b" \r\n", b"\r\n", b"\0 \r\n",
                b"a1 APPEND x {5}\r\n\r\nYY \r\n"];
            for m in msgs {
                for n in msgs {
                    for _ in 0..2 * scale {
                        let mut s = m.to_vec();
                        s.extend_from_slice(n);
                        let l = if r.chance(1, 4) { Some((s.len() + r.below(3)).saturating_sub(r.below(12)) as u32) } else { None };
                        out.put(&history(&mut r, &s, l, true));
                        hists += 1;
                    }
                }
            }
            // tag recovery: every byte at each position
            for b in 0..=255u8 {
                for t in ["X1 NOOP\r\n", "aX NOOP\r\n", "aXb NOOP\r\n", "aX", "X"] {
                    let s: Vec<u8> = t.bytes().flat_map(|c| if c == b'X' { vec![b] } else { vec![c] }).collect();
                    let mut f = new(None);
                    f.enqueue_bytes(&s);
                    let o0 = obs(&f, None, &AnyCodec::C(CommandCodec::default()), true);
                    let fi = f.progress();
                    let o1 = obs(&f, fi, &AnyCodec::C(CommandCodec::default()), true);
                    out.put(&json!({"k":"hist","limit":NOLIMIT,"ops":[{"op":"enq","b":s,"o":o0},{"op":"prog","b":[],"o":o1}]}));
                    hists += 1;
                }
            }
        }
        _ => panic!(),
    }
    let records = out.finish();
    json!({"records":records,"runs":runs,"histories":hists})
}
