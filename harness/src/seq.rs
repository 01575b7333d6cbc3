//! Sequence sets (C15).
use std::num::NonZeroU32;

use imap_codec::{
    encode::Encoder,
    imap_types::{
        command::{Command, CommandBody},
        core::{Tag, Vec1},
        sequence::{SeqOrUid, Sequence, SequenceSet},
    },
    CommandCodec,
};
use serde_json::{json, Value};

use crate::util::*;

fn id(x: &SeqOrUid) -> Value {
    match x {
        SeqOrUid::Value(n) => json!(digits(n.get() as u64)),
        SeqOrUid::Asterisk => json!([]),
    }
}
fn el(s: &Sequence) -> Value {
    match s {
        Sequence::Single(a) => json!([id(a)]),
        Sequence::Range(a, b) => json!([id(a), id(b)]),
    }
}
fn set(s: &SequenceSet) -> Value {
    Value::Array(s.0.as_ref().iter().map(el).collect())
}
fn ok<T, E>(r: Result<T, E>, f: impl Fn(&T) -> Value) -> Value {
    match r {
        Ok(x) => json!({"ok":true,"v":f(&x)}),
        Err(_) => json!({"ok":false,"v":[]}),
    }
}
fn nz(n: u32) -> NonZeroU32 {
    NonZeroU32::new(n).unwrap()
}
fn elv(s: &Sequence) -> Value {
    json!([el(s)])
}
fn idv(s: &SeqOrUid) -> Value {
    json!([[id(s)]])
}

const CAP: usize = 24;
const WIDE: u32 = 77777;

fn use_set(s: &SequenceSet, ls: &[u32], out: &mut Out) {
    let r = guarded(|| {
        for l in ls {
            let l = nz(*l);
            // all of a longer list of numbers; the beginning of what would not end
            let cap = if s.0.as_ref().len() > 7 || ls == [WIDE] { 300 } else { CAP };
            let it: Vec<Value> = s.iter(l).take(cap).map(|n| json!(digits(n.get() as u64))).collect();
            let nv: Vec<Value> = s.iter_naive(l).take(cap).map(|n| json!(digits(n.get() as u64))).collect();
            out.put(&json!({"k":"it","set":set(s),"L":digits(l.get() as u64),"iter":it,"naive":nv,"cap":cap}));
        }
        let mut n = s.clone();
        n.normalize();
        let mut again = n.clone();
        again.normalize();
        let elnorm: Vec<Value> = s
            .0
            .as_ref()
            .iter()
            .map(|e| {
                let mut e = e.clone();
                e.normalize();
                el(&e)
            })
            .collect();
        let c = Command { tag: Tag::try_from("a").unwrap(), body: CommandBody::Fetch { sequence_set: s.clone(), macro_or_item_names: imap_codec::imap_types::fetch::Macro::All.into(), modifiers: vec![], uid: false } };
        let d = CommandCodec::default().encode(&c).dump();
        let txt = d.strip_prefix(b"a FETCH ").and_then(|d| d.strip_suffix(b" ALL\r\n")).unwrap_or(b"?").to_vec();
        out.put(&json!({"k":"norm","set":set(s),"norm":set(&n),"again":set(&again),"elnorm":elnorm,"txt":txt}));
    });
    if let Err(e) = r {
        out.put(&json!({"k":"panic","set":set(s),"s":e}));
    }
}

macro_rules! num_convs {
    ($out:ident, $rng:ident, $t:ty, $scale:ident) => {{
        let mut vals: Vec<$t> = vec![];
        for c in [0i128, 1, 2, 3, 100, 126, 127, 128, 254, 255, 256, 32767, 32768, 65535, 65536, 2147483647, 2147483648, 4294967294, 4294967295, 4294967296, 4294967297,
            9223372036854775807, 18446744073709551615, -1, -2, -128, -129, -32768, -2147483648, -9223372036854775808]
        {
            if let Ok(v) = <$t>::try_from(c) {
                vals.push(v)
            }
        }
        for _ in 0..4 * $scale {
            vals.push($rng.next() as $t)
        }
        let sg = |v: $t| {
            let v = v as i128;
            json!({"neg": v < 0, "d": digits(v.unsigned_abs() as u64)})
        };
        let zero = json!({"neg":false,"d":[0]});
        let ty = stringify!($t);
        for &a in &vals {
            $out.put(&json!({"k":"conv","form":"num","ty":ty,"nz":false,"a":sg(a),"b":zero,"rs":[
                ok(SequenceSet::try_from(a), set), ok(Sequence::try_from(a), elv), ok(SeqOrUid::try_from(a), idv)]}));
            $out.put(&json!({"k":"conv","form":"from","ty":ty,"nz":false,"a":sg(a),"b":zero,"rs":[
                ok(SequenceSet::try_from(a..), set), ok(Sequence::try_from(a..), elv)]}));
            $out.put(&json!({"k":"conv","form":"to","ty":ty,"nz":false,"a":zero,"b":sg(a),"rs":[
                ok(SequenceSet::try_from(..a), set), ok(Sequence::try_from(..a), elv)]}));
            $out.put(&json!({"k":"conv","form":"toincl","ty":ty,"nz":false,"a":zero,"b":sg(a),"rs":[
                ok(SequenceSet::try_from(..=a), set), ok(Sequence::try_from(..=a), elv)]}));
            for &b in &vals {
                $out.put(&json!({"k":"conv","form":"range","ty":ty,"nz":false,"a":sg(a),"b":sg(b),"rs":[
                    ok(SequenceSet::try_from(a..b), set), ok(Sequence::try_from(a..b), elv)]}));
                $out.put(&json!({"k":"conv","form":"incl","ty":ty,"nz":false,"a":sg(a),"b":sg(b),"rs":[
                    ok(SequenceSet::try_from(a..=b), set), ok(Sequence::try_from(a..=b), elv)]}));
            }
        }
        for _ in 0..8 * $scale {
            let v: Vec<$t> = (0..$rng.below(4)).map(|_| *$rng.pick(&vals)).collect();
            $out.put(&json!({"k":"list","nz":false,"ns":v.iter().map(|x| sg(*x)).collect::<Vec<_>>(),"rs":[ok(SequenceSet::try_from(&v[..]), set)]}));
        }
    }};
}

pub fn main(_prop: &str, seed: u64, scale: usize, dir: &str, shards: usize) -> Value {
    let mut out = Out::new(dir, shards);
    let mut rng = Rng::new(seed);
    let small: Vec<SeqOrUid> = [1u32, 2, 3, 5].iter().map(|n| SeqOrUid::Value(nz(*n))).chain([SeqOrUid::Asterisk]).collect();
    let edge: Vec<SeqOrUid> = [1u32, 2, 4294967293, 4294967294, 4294967295].iter().map(|n| SeqOrUid::Value(nz(*n))).chain([SeqOrUid::Asterisk]).collect();
    let elems = |ns: &[SeqOrUid]| {
        let mut v = vec![];
        for a in ns {
            v.push(Sequence::Single(*a));
            for b in ns {
                v.push(Sequence::Range(*a, *b))
            }
        }
        v
    };
    let (se, ee) = (elems(&small), elems(&edge));
    let mk = |v: Vec<Sequence>| SequenceSet(Vec1::try_from(v).unwrap());
    let ls_small = [1u32, 2, 3, 4, 6, 9];
    let ls_edge = [1u32, 3, 4294967292, 4294967294, 4294967295];
    for a in &se {
        use_set(&mk(vec![a.clone()]), &ls_small, &mut out);
        for b in &se {
            use_set(&mk(vec![a.clone(), b.clone()]), &ls_small[..if scale == 1 { 4 } else { 6 }], &mut out);
        }
    }
    for a in &ee {
        use_set(&mk(vec![a.clone()]), &ls_edge, &mut out);
        for b in &ee {
            let l = [*rng.pick(&ls_edge), *rng.pick(&ls_edge)];
            use_set(&mk(vec![a.clone(), b.clone()]), &l, &mut out);
        }
    }
    for i in 0..600 * scale {
        let n = if i % 60 == 7 { *rng.pick(&[8usize, 15, 16, 17, 31, 32, 33, 60, 64, 65, 99, 100, 101, 127, 128, 129, 200, 255, 256, 257]) } else { 1 + rng.below(7) };
        let pool = match i % 4 {
            0 => &se,
            1 => &ee,
            _ => &vec![],
        };
        let v: Vec<Sequence> = (0..n)
            .map(|_| {
                if pool.is_empty() {
                    let m = if n > 7 { 30 * n } else if i % 8 < 4 { 14 } else { 60 };
                    let mut x = || if rng.chance(1, 9) { SeqOrUid::Asterisk } else { SeqOrUid::Value(nz(1 + rng.below(m) as u32)) };
                    let (a, b) = (x(), x());
                    if rng.chance(1, 3) { Sequence::Single(a) } else { Sequence::Range(a, b) }
                } else {
                    rng.pick(pool).clone()
                }
            })
            .collect();
        let l = [1 + rng.below(20) as u32, *rng.pick(&ls_edge)];
        use_set(&mk(v), &l, &mut out);
        if i % 60 == 8 {
            // ranges over a few hundred numbers, in both directions, side by side
            let v = (0..1 + rng.below(3))
                .map(|_| {
                    let a = (1usize << rng.below(17)) + rng.below(40);
                    let b = a.saturating_sub(20) + rng.below(220);
                    let (a, b) = (SeqOrUid::Value(nz(a as u32)), SeqOrUid::Value(nz(b.max(1) as u32)));
                    if rng.chance(1, 2) { Sequence::Range(a, b) } else { Sequence::Range(b, a) }
                })
                .collect();
            use_set(&mk(v), &[WIDE], &mut out);
        }
    }
    // order, expansion
    for a in se.iter().chain(&ee) {
        for b in se.iter().chain(&ee).filter(|_| scale > 1 || rng.chance(1, 3)).collect::<Vec<_>>() {
            let r = match a.partial_cmp(b) {
                Some(std::cmp::Ordering::Less) => "lt",
                Some(std::cmp::Ordering::Greater) => "gt",
                Some(std::cmp::Ordering::Equal) => "eq",
                None => "none",
            };
            out.put(&json!({"k":"ord","a":el(a),"b":el(b),"r":r}));
        }
    }
    for x in small.iter().chain(&edge) {
        for l in ls_small.iter().chain(&ls_edge) {
            out.put(&json!({"k":"exp","x":id(x),"L":digits(*l as u64),"r":digits(x.expand(nz(*l)).get() as u64),"n":digits(x.to_non_zero_u32().get() as u64)}));
        }
        for y in small.iter().chain(&edge) {
            let r = match x.cmp(y) {
                std::cmp::Ordering::Less => "lt",
                std::cmp::Ordering::Greater => "gt",
                _ => "eq",
            };
            out.put(&json!({"k":"ord","a":[id(x)],"b":[id(y)],"r":r}));
        }
    }
    // text
    let mut texts: std::collections::BTreeSet<String> = ["", "0", "1", "01", "+1", "-1", " 1", "1 ", "*", "**", "1:", ":1", ":", "1:2:3", "1,", ",1", ",", "1,,2", "1:*", "*:1", "*:*", "4294967295",
        "4294967296", "4294967295:1", "99999999999999999999", "1:0", "0:1", "1:+2", "1,2:03", "1;2", "1.2", "1-2", "٣", "1\r\n", "1\0", "0x1", "1_000", "1,*", "*,*"]
        .iter()
        .map(|s| s.to_string())
        .collect();
    for a in "01*+:,- ".chars() {
        for b in "01*+:,- ".chars() {
            for c in ["", "1", "*", ":", ",", "0"] {
                texts.insert(format!("{a}{b}{c}"));
            }
        }
    }
    for _ in 0..400 * scale {
        let n = 1 + rng.below(9);
        texts.insert((0..n).map(|_| *rng.pick(&['0', '1', '2', '9', '*', ':', ',', ':', ',', '1', '4'])).collect());
    }
    for t in &texts {
        let s: &str = t;
        let r = guarded(|| {
            json!({"k":"txt","b":s.as_bytes(),"set":ok(SequenceSet::try_from(s), set),"el":ok(Sequence::try_from(s), elv),"num":ok(SeqOrUid::try_from(s), idv)})
        });
        out.put(&r.unwrap_or_else(|e| json!({"k":"panic","s":e,"b":s.as_bytes()})));
        let r = guarded(|| json!({"k":"txt","b":s.as_bytes(),"set":ok(s.parse::<SequenceSet>(), set),"el":ok(s.parse::<Sequence>(), elv),"num":ok(s.parse::<SeqOrUid>(), idv)}));
        out.put(&r.unwrap_or_else(|e| json!({"k":"panic","s":e,"b":s.as_bytes()})));
    }
    // numbers and ranges
    num_convs!(out, rng, i8, scale);
    num_convs!(out, rng, i16, scale);
    num_convs!(out, rng, i32, scale);
    num_convs!(out, rng, i64, scale);
    num_convs!(out, rng, isize, scale);
    num_convs!(out, rng, u8, scale);
    num_convs!(out, rng, u16, scale);
    num_convs!(out, rng, u32, scale);
    num_convs!(out, rng, u64, scale);
    num_convs!(out, rng, usize, scale);
    let zero = json!({"neg":false,"d":[0]});
    let sg = |v: NonZeroU32| json!({"neg":false,"d":digits(v.get() as u64)});
    let mut vals: Vec<NonZeroU32> = [1u32, 2, 3, 7, 2147483647, 4294967293, 4294967294, 4294967295].iter().map(|n| nz(*n)).collect();
    for _ in 0..4 * scale {
        vals.push(nz((rng.next() as u32).max(1)))
    }
    let sure = |s: SequenceSet| json!({"ok":true,"v":set(&s)});
    let sure1 = |s: Sequence| json!({"ok":true,"v":elv(&s)});
    out.put(&json!({"k":"conv","form":"full","ty":"nz","nz":true,"a":zero,"b":zero,"rs":[sure((..).into()), sure1((..).into())]}));
    for &a in &vals {
        out.put(&json!({"k":"conv","form":"num","ty":"nz","nz":true,"a":sg(a),"b":zero,"rs":[sure(a.into()), sure1(a.into()), json!({"ok":true,"v":idv(&a.into())})]}));
        out.put(&json!({"k":"conv","form":"from","ty":"nz","nz":true,"a":sg(a),"b":zero,"rs":[sure((a..).into()), sure1((a..).into())]}));
        out.put(&json!({"k":"conv","form":"toincl","ty":"nz","nz":true,"a":zero,"b":sg(a),"rs":[sure((..=a).into()), sure1((..=a).into())]}));
        out.put(&json!({"k":"conv","form":"to","ty":"nz","nz":true,"a":zero,"b":sg(a),"rs":[ok(SequenceSet::try_from(..a), set), ok(Sequence::try_from(..a), elv)]}));
        for &b in &vals {
            out.put(&json!({"k":"conv","form":"range","ty":"nz","nz":true,"a":sg(a),"b":sg(b),"rs":[ok(SequenceSet::try_from(a..b), set), ok(Sequence::try_from(a..b), elv)]}));
            out.put(&json!({"k":"conv","form":"incl","ty":"nz","nz":true,"a":sg(a),"b":sg(b),"rs":[sure((a..=b).into()), sure1((a..=b).into())]}));
        }
    }
    for _ in 0..30 * scale {
        let v: Vec<NonZeroU32> = (0..rng.below(4)).map(|_| *rng.pick(&vals)).collect();
        out.put(&json!({"k":"list","nz":true,"ns":v.iter().map(|x| sg(*x)).collect::<Vec<_>>(),"rs":[ok(SequenceSet::try_from(&v[..]), set), ok(SequenceSet::try_from(v.clone()), set)]}));
    }
    for n in 0..4 {
        let v: Vec<Sequence> = (0..n).map(|_| rng.pick(&se).clone()).collect();
        let ns = v.clone();
        let r = SequenceSet::try_from(v);
        if r.is_ok() != (n > 0) || r.as_ref().map(|r| r.0.as_ref() != &ns[..]).unwrap_or(false) {
            out.put(&json!({"k":"panic","s":"SequenceSet from a list of sequences","b":[]}));
        }
    }
    json!({"records": out.finish(), "texts": texts.len()})
}
