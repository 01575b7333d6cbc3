//! Checked constructors, conversions, names and representations (C12, C13, C14, C16).
use std::{borrow::Cow, str::FromStr};

use imap_codec::imap_types::{
    auth::AuthMechanism,
    core::*,
    datetime::{DateTime, NaiveDate},
    extensions::{
        compress::CompressionAlgorithm, condstore_qresync::AttributeFlag, enable::CapabilityEnable, quota::Resource, sort::SortAlgorithm,
        thread::ThreadingAlgorithm,
    },
    flag::{Flag, FlagNameAttribute},
    mailbox::{ListCharString, ListMailbox, Mailbox, MailboxOther},
    response::{Capability, Code, CommandContinuationRequest, Data},
};
use serde_json::{json, Value};

use crate::{msg::lex, util::*};

type Out1 = Option<(Vec<String>, Vec<u8>)>;

fn group(t: &str, b: &[u8], rs: Vec<(&'static str, Result<Out1, String>)>) -> Value {
    let mut groups: Vec<(Value, Vec<&'static str>)> = vec![];
    for (via, r) in rs {
        let v = match r {
            Ok(Some((v, c))) => json!({"k":"ok","v":v,"c":c}),
            Ok(None) => json!({"k":"err"}),
            Err(s) => json!({"k":"panic","s":s}),
        };
        match groups.iter_mut().find(|g| g.0 == v) {
            Some(g) => g.1.push(via),
            None => groups.push((v, vec![via])),
        }
    }
    let rs: Vec<Value> = groups
        .into_iter()
        .map(|(mut v, vias)| {
            v["via"] = json!(vias);
            v
        })
        .collect();
    json!({"k":"ctor","t":t,"b":b,"utf8":std::str::from_utf8(b).is_ok(),"rs":rs})
}

fn js<T: serde::Serialize>(x: &T) -> Vec<String> {
    lex(&serde_json::to_string(x).unwrap())
}

macro_rules! bytes_vias {
    ($rs:ident, $b:ident, $t:ty, $c:expr) => {{
        let b: &[u8] = $b;
        $rs.push(("bytes", guarded(|| <$t>::try_from(b).ok().map(|x| (js(&x), $c(&x))))));
        $rs.push(("vec", guarded(|| <$t>::try_from(b.to_vec()).ok().map(|x| (js(&x), $c(&x))))));
    }};
}
macro_rules! str_via {
    ($rs:ident, $b:ident, $t:ty, $c:expr) => {{
        if let Ok(s) = std::str::from_utf8($b) {
            $rs.push(("str", guarded(|| <$t>::try_from(s).ok().map(|x| (js(&x), $c(&x))))));
        }
    }};
}
macro_rules! string_via {
    ($rs:ident, $b:ident, $t:ty, $c:expr) => {{
        if let Ok(s) = std::str::from_utf8($b) {
            $rs.push(("string", guarded(|| <$t>::try_from(s.to_string()).ok().map(|x| (js(&x), $c(&x))))));
        }
    }};
}
macro_rules! serde_via {
    ($rs:ident, $b:ident, $t:ty, $c:expr) => {{
        if let Ok(s) = std::str::from_utf8($b) {
            let doc = serde_json::to_string(s).unwrap();
            $rs.push(("serde", guarded(|| serde_json::from_str::<$t>(&doc).ok().map(|x| (js(&x), $c(&x))))));
        }
    }};
}
macro_rules! validate_via {
    ($rs:ident, $b:ident, $t:ty) => {{
        // validate + unvalidated is the documented way to split checking and building
        let b: &[u8] = $b;
        $rs.push(("validate", guarded(|| <$t>::validate(b).ok().map(|_| {
            let x = <$t>::unvalidated(std::str::from_utf8(b).unwrap().to_string());
            (js(&x), x.inner().as_bytes().to_vec())
        }))));
    }};
}
macro_rules! textual {
    ($out:ident, $name:expr, $b:ident, $t:ty) => {{
        let c = |x: &$t| {
            let a = AsRef::<str>::as_ref(x).as_bytes().to_vec();
            if a == x.inner().as_bytes() { a } else { b"inner() differs".to_vec() }
        };
        let mut rs = vec![];
        bytes_vias!(rs, $b, $t, c);
        str_via!(rs, $b, $t, c);
        string_via!(rs, $b, $t, c);
        serde_via!(rs, $b, $t, c);
        validate_via!(rs, $b, $t);
        $out.put(&group($name, $b, rs));
    }};
}

pub fn ctor(t: &str, b: &[u8], out: &mut Out) {
    match t {
        "tag" => textual!(out, "tag", b, Tag),
        "atom" => {
            textual!(out, "atom", b, Atom);
            if let Ok(s) = std::str::from_utf8(b) {
                let mut rs = vec![];
                rs.push(("cow", guarded(|| Atom::try_from(Cow::Borrowed(s)).ok().map(|x| (js(&x), x.to_string().into_bytes())))));
                out.put(&group("atom", b, rs));
            }
        }
        "atomext" => textual!(out, "atomext", b, AtomExt),
        "quoted" => textual!(out, "quoted", b, Quoted),
        "text" => textual!(out, "text", b, Text),
        "literal" => {
            let c = |x: &Literal| {
                let d = x.data().to_vec();
                if x.as_ref() == &d[..] && x.clone().into_inner().as_ref() == &d[..] && x.mode() == LiteralMode::Sync && x.clone().into_non_sync().mode() == LiteralMode::NonSync && x.clone().into_non_sync().data() == &d[..] && x.clone().into_non_sync().into_sync() == *x {
                    d
                } else {
                    b"accessors differ".to_vec()
                }
            };
            let mut rs = vec![];
            bytes_vias!(rs, b, Literal, c);
            str_via!(rs, b, Literal, c);
            string_via!(rs, b, Literal, c);
            let doc = json!({"data": b, "mode": "Sync"}).to_string();
            rs.push(("serde", guarded(|| serde_json::from_str::<Literal>(&doc).ok().map(|x| (js(&x), c(&x))))));
            rs.push(("validate", guarded(|| Literal::validate(b).ok().map(|_| {
                let x = Literal::unvalidated(b.to_vec());
                (js(&x), c(&x))
            }))));
            out.put(&group(t, b, rs));
        }
        "listchar" => {
            let c = |x: &ListCharString| AsRef::<[u8]>::as_ref(x).to_vec();
            let mut rs = vec![];
            str_via!(rs, b, ListCharString, c);
            string_via!(rs, b, ListCharString, c);
            serde_via!(rs, b, ListCharString, c);
            rs.push(("validate", guarded(|| ListCharString::validate(b).ok().map(|_| {
                let x = ListCharString::unvalidated(std::str::from_utf8(b).unwrap().to_string());
                (js(&x), c(&x))
            }))));
            out.put(&group(t, b, rs));
        }
        "istring" => {
            let c = |x: &IString| {
                let a = AsRef::<[u8]>::as_ref(x).to_vec();
                if x.clone().into_inner().as_ref() == &a[..] { a } else { b"accessors differ".to_vec() }
            };
            let mut rs = vec![];
            bytes_vias!(rs, b, IString, c);
            str_via!(rs, b, IString, c);
            string_via!(rs, b, IString, c);
            out.put(&group(t, b, rs));
            // NString::into_option
            let mut rs = vec![];
            rs.push(("nstring", guarded(|| IString::try_from(b).ok().map(|x| (js(&x), NString(Some(x)).into_option().unwrap().to_vec())))));
            out.put(&group(t, b, rs));
        }
        "astring" => {
            let c = |x: &AString| AsRef::<[u8]>::as_ref(x).to_vec();
            let mut rs = vec![];
            bytes_vias!(rs, b, AString, c);
            str_via!(rs, b, AString, c);
            string_via!(rs, b, AString, c);
            out.put(&group(t, b, rs));
        }
        "listmailbox" => {
            let c = |x: &ListMailbox| match x {
                ListMailbox::Token(t) => AsRef::<[u8]>::as_ref(t).to_vec(),
                ListMailbox::String(s) => AsRef::<[u8]>::as_ref(s).to_vec(),
            };
            let mut rs = vec![];
            str_via!(rs, b, ListMailbox, c);
            string_via!(rs, b, ListMailbox, c);
            out.put(&group(t, b, rs));
        }
        "charset" => {
            let c = |x: &Charset| AsRef::<str>::as_ref(x).as_bytes().to_vec();
            let mut rs = vec![];
            bytes_vias!(rs, b, Charset, c);
            str_via!(rs, b, Charset, c);
            string_via!(rs, b, Charset, c);
            out.put(&group(t, b, rs));
        }
        "mailbox" => {
            let c = |x: &Mailbox| match x {
                Mailbox::Inbox => b"INBOX".to_vec(),
                Mailbox::Other(o) => {
                    let a = AsRef::<[u8]>::as_ref(o).to_vec();
                    if AsRef::<[u8]>::as_ref(o.inner()) == &a[..] { a } else { b"accessors differ".to_vec() }
                }
            };
            let mut rs = vec![];
            bytes_vias!(rs, b, Mailbox, c);
            str_via!(rs, b, Mailbox, c);
            string_via!(rs, b, Mailbox, c);
            out.put(&group(t, b, rs));
            // through every representation of the string
            let mut reps: Vec<(&str, AString)> = vec![];
            if let Ok(a) = AtomExt::try_from(b) {
                reps.push(("atomext", a.into()))
            }
            if let Ok(a) = Atom::try_from(b) {
                reps.push(("atom", a.into()))
            }
            if let Ok(a) = Quoted::try_from(b) {
                reps.push(("quoted", a.clone().into()));
                reps.push(("quoted-istring", AString::String(IString::from(a))))
            }
            if let Ok(a) = Literal::try_from(b) {
                reps.push(("literal", a.clone().into()));
                reps.push(("literal+", a.into_non_sync().into()))
            }
            if let Ok(s) = std::str::from_utf8(b) {
                reps.push(("utf8", AString::String(IString::QuotedUtf8(imap_codec::imap_types::extensions::utf8::QuotedUtf8(s.to_string().into())))))
            }
            for (rep, a) in reps {
                let av = js(&a);
                let m = Mailbox::from(a.clone());
                let o = MailboxOther::try_from(a.clone());
                let od = serde_json::from_str::<MailboxOther>(&serde_json::to_string(&a).unwrap());
                out.put(&json!({"k":"mbox","rep":rep,"b":b,"a":av,"ab":AsRef::<[u8]>::as_ref(&a),"v":js(&m),"c":c(&m),
                    "other": o.is_ok(), "otherv": o.as_ref().map(|o| js(o)).unwrap_or_default(),
                    "serde": od.is_ok(), "serdev": od.as_ref().map(|o| js(o)).unwrap_or_default()}));
            }
        }
        "auth" => {
            let c = |x: &AuthMechanism| {
                let a = x.to_string();
                if AsRef::<str>::as_ref(x) == a { a.into_bytes() } else { b"as_ref differs".to_vec() }
            };
            let mut rs = vec![];
            bytes_vias!(rs, b, AuthMechanism, c);
            str_via!(rs, b, AuthMechanism, c);
            string_via!(rs, b, AuthMechanism, c);
            if let Ok(s) = std::str::from_utf8(b) {
                rs.push(("cow", guarded(|| AuthMechanism::try_from(Cow::Borrowed(s)).ok().map(|x| (js(&x), c(&x))))));
                rs.push(("fromstr", guarded(|| AuthMechanism::from_str(s).ok().map(|x| (js(&x), c(&x))))));
            }
            if let Ok(a) = Atom::try_from(b) {
                rs.push(("atom", guarded(|| Some(AuthMechanism::from(a)).map(|x| (js(&x), c(&x))))));
            }
            out.put(&group(t, b, rs));
        }
        "cap" => {
            let c = |x: &Capability| x.to_string().into_bytes();
            let mut rs = vec![];
            bytes_vias!(rs, b, Capability, c);
            str_via!(rs, b, Capability, c);
            string_via!(rs, b, Capability, c);
            if let Ok(a) = Atom::try_from(b) {
                rs.push(("atom", guarded(|| Some(Capability::from(a)).map(|x| (js(&x), c(&x))))));
            }
            out.put(&group(t, b, rs));
        }
        "resource" => {
            let c = |x: &Resource| x.to_string().into_bytes();
            let mut rs = vec![];
            bytes_vias!(rs, b, Resource, c);
            str_via!(rs, b, Resource, c);
            string_via!(rs, b, Resource, c);
            if let Ok(a) = Atom::try_from(b) {
                rs.push(("atom", guarded(|| Some(Resource::from(a)).map(|x| (js(&x), c(&x))))));
            }
            out.put(&group(t, b, rs));
        }
        "enable" => {
            let c = |x: &CapabilityEnable| x.to_string().into_bytes();
            let mut rs = vec![];
            str_via!(rs, b, CapabilityEnable, c);
            if let Ok(a) = Atom::try_from(b) {
                rs.push(("atom", guarded(|| Some(CapabilityEnable::from(a)).map(|x| (js(&x), c(&x))))));
            }
            out.put(&group(t, b, rs));
        }
        "sort" | "thread" | "nameattr" => {
            if let Ok(a) = Atom::try_from(b) {
                let r = guarded(|| {
                    Some(match t {
                        "sort" => {
                            let x = SortAlgorithm::from(a);
                            (js(&x), x.to_string().into_bytes())
                        }
                        "thread" => {
                            let x = ThreadingAlgorithm::from(a);
                            (js(&x), x.to_string().into_bytes())
                        }
                        _ => {
                            let x = FlagNameAttribute::from(a);
                            (js(&x), x.to_string().into_bytes())
                        }
                    })
                });
                out.put(&group(t, b, vec![("atom", r)]));
            }
        }
        "compress" => {
            let c = |x: &CompressionAlgorithm| {
                let a = x.to_string();
                if AsRef::<str>::as_ref(x) == a { a.into_bytes() } else { b"as_ref differs".to_vec() }
            };
            let mut rs = vec![];
            rs.push(("bytes", guarded(|| CompressionAlgorithm::try_from(b).ok().map(|x| (js(&x), c(&x))))));
            str_via!(rs, b, CompressionAlgorithm, c);
            if let Ok(a) = Atom::try_from(b) {
                rs.push(("atom", guarded(|| CompressionAlgorithm::try_from(a).ok().map(|x| (js(&x), c(&x))))));
            }
            out.put(&group(t, b, rs));
        }
        "flag" => {
            let mut rs = vec![];
            let c = |x: &Flag| x.to_string().into_bytes();
            str_via!(rs, b, Flag, c);
            if let (Some(b'\\'), Ok(a)) = (b.first(), Atom::try_from(b.get(1..).unwrap_or(b""))) {
                rs.push(("system", guarded(|| Some(Flag::system(a)).map(|x| (js(&x), c(&x))))));
            }
            if let Ok(a) = Atom::try_from(b) {
                rs.push(("keyword", guarded(|| Some(Flag::keyword(a)).map(|x| (js(&x), c(&x))))));
            }
            out.put(&group(t, b, rs));
        }
        "attrflag" => {
            let mut rs = vec![];
            let c = |x: &AttributeFlag| x.to_string().into_bytes();
            str_via!(rs, b, AttributeFlag, c);
            out.put(&group(t, b, rs));
        }
        _ => panic!("type {t}"),
    }
}

fn other(out: &mut Out, rng: &mut Rng, scale: usize) {
    // characters
    let chars = (0u32..=300).chain([0x2028, 0x2029, 0xd7ff, 0xe000, 0xffff, 0x1f600, 0x10ffff]);
    for ch in chars.filter_map(char::from_u32) {
        let mut buf = [0u8; 4];
        let u = ch.encode_utf8(&mut buf).as_bytes().to_vec();
        let r = guarded(|| QuotedChar::try_from(ch).ok().map(|x| (js(&x), vec![x.inner() as u32])));
        let s = guarded(|| serde_json::from_str::<QuotedChar>(&serde_json::to_string(&ch).unwrap()).ok().map(|x| (js(&x), vec![x.inner() as u32])));
        let f = |r: Result<Option<(Vec<String>, Vec<u32>)>, String>| match r {
            Ok(Some((v, c))) => json!({"k":"ok","v":v,"c":c}),
            Ok(None) => json!({"k":"err"}),
            Err(_) => json!({"k":"panic"}),
        };
        out.put(&json!({"k":"char","b":u,"cp":ch as u32,"r":f(r),"s":f(s),"val":QuotedChar::validate(ch).is_ok()}));
    }
    // lists with a minimum
    for n in 0..6usize {
        let v: Vec<u32> = (0..n as u32).collect();
        let r1 = Vec1::try_from(v.clone());
        let r2 = Vec2::try_from(v.clone());
        let doc = json!(v).to_string();
        let d1 = serde_json::from_str::<Vec1<u32>>(&doc);
        let d2 = serde_json::from_str::<Vec2<u32>>(&doc);
        let e = |x: &[u32]| x.to_vec();
        out.put(&json!({"k":"vecn","items":v,
            "r":[{"n":1,"ok":r1.is_ok(),"v":r1.as_ref().map(|x|e(x.as_ref())).unwrap_or_default()},
                 {"n":2,"ok":r2.is_ok(),"v":r2.as_ref().map(|x|e(x.as_ref())).unwrap_or_default()},
                 {"n":1,"ok":d1.is_ok(),"v":d1.as_ref().map(|x|e(x.as_ref())).unwrap_or_default()},
                 {"n":2,"ok":d2.is_ok(),"v":d2.map(|x|x.into_inner()).unwrap_or_default()},
                 {"n":1,"ok":Vec1::<u32>::validate(&v).is_ok(),"v":v},
                 {"n":2,"ok":Vec2::<u32>::validate(&v).is_ok(),"v":v}]}));
    }
    let v1: Vec1<u32> = Vec1::from(7);
    let v2: Vec2<u32> = Vec2::from((7, 8));
    out.put(&json!({"k":"vecfrom","v1":v1.into_inner(),"v2":v2.into_inner()}));
    // dates
    for i in 0..200 * scale {
        let y: i32 = match rng.below(6) {
            0 => *rng.pick(&[-1, 0, 1, 9999, 10000, -9999, 99999]),
            1 => rng.below(30000) as i32 - 10000,
            _ => rng.below(10000) as i32,
        };
        let (m, d) = (1 + rng.below(12) as u32, 1 + rng.below(31) as u32);
        let Some(nd) = chrono::NaiveDate::from_ymd_opt(y, m, d) else { continue };
        let r = NaiveDate::try_from(nd);
        let doc = serde_json::to_string(&nd).unwrap();
        let s = serde_json::from_str::<NaiveDate>(&doc);
        out.put(&json!({"k":"date","y":y,"m":m,"d":d,"ok":r.is_ok(),"v":r.as_ref().map(js).unwrap_or_default(),
            "back": r.map(|x| *x.as_ref() == nd).unwrap_or(true),
            "sok":s.is_ok(),"sv":s.as_ref().map(js).unwrap_or_default(),"val":NaiveDate::validate(&nd).is_ok()}));
        let (hh, mi, ss) = (rng.below(24) as u32, rng.below(60) as u32, rng.below(60) as u32);
        let nanos = *rng.pick(&[0, 0, 0, 1, 999_999_999, 500_000_000, 1_000_000, 1_999_999_999, 1_000_000_000]);
        let off: i32 = match i % 4 {
            0 => *rng.pick(&[0, 60, -60, 86340, -86340, 1, -1, 59, 61, 3599, -3601, 86399]),
            _ => (rng.below(2 * 1439) as i32 - 1439) * 60 + if rng.chance(1, 5) { rng.below(60) as i32 } else { 0 },
        };
        let (Some(t), Some(fo)) = (chrono::NaiveTime::from_hms_nano_opt(hh, mi, ss, nanos), chrono::FixedOffset::east_opt(off)) else { continue };
        let Some(dt) = chrono::NaiveDateTime::new(nd, t).and_local_timezone(fo).single() else { continue };
        let r = DateTime::try_from(dt);
        let doc = serde_json::to_string(&dt).unwrap();
        let s = guarded(|| serde_json::from_str::<DateTime>(&doc).ok().map(|x| js(&x)));
        out.put(&json!({"k":"datetime","y":y,"m":m,"d":d,"hh":hh,"mi":mi,"ss":ss,"nanos":nanos,"off":off,"ok":r.is_ok(),
            "v":r.as_ref().map(js).unwrap_or_default(),"back": r.map(|x| *x.as_ref() == dt).unwrap_or(true),
            "sok":matches!(s, Ok(Some(_))),"sv":s.ok().flatten().unwrap_or_default(),"val":DateTime::validate(&dt).is_ok()}));
    }
    // numbers
    for n in [0u32, 1, 2, u32::MAX, u32::MAX - 1] {
        let f = |v: Option<Vec<String>>| json!({"ok":v.is_some(),"v":v.unwrap_or_default()});
        out.put(&json!({"k":"nz","n":digits(n as u64),
            "uidnext":f(Code::uidnext(n).ok().map(|x| js(&x))),"uidvalidity":f(Code::uidvalidity(n).ok().map(|x| js(&x))),
            "unseen":f(Code::unseen(n).ok().map(|x| js(&x))),"expunge":f(Data::expunge(n).ok().map(|x| js(&x)))}));
    }
    // continuation requests
    let texts: Vec<String> = {
        let mut t: Vec<String> = ["", "x", "abcd", "YQ==", "YWI=", "YWJj", "YWJ", "[", "[x", "[ALERT] x", "...", "a b", "=", "====", "YQ=", "YQ", "é", "a\r", "a\nb", "\0", " YQ==", "YR==", "YWJ=", "AAAA", "AAA A", "Y[==", "]", "ab[cd"].iter().map(|s| s.to_string()).collect();
        for _ in 0..100 * scale {
            let d: Vec<u8> = (0..rng.below(7)).map(|_| rng.below(256) as u8).collect();
            let mut s = crate::gram::b64(&d);
            if rng.chance(1, 2) && !s.is_empty() {
                let i = rng.below(s.len());
                s.replace_range(i..i + 1, *rng.pick(&["[", "A", "=", " ", "-", "_", ""]))
            }
            t.push(s)
        }
        t
    };
    for s in &texts {
        for code in [false, true] {
            let r = guarded(|| CommandContinuationRequest::basic(if code { Some(Code::Alert) } else { None }, s.as_str()).ok().map(|x| js(&x)));
            let mut doc = json!({"type":"Basic","content":{"code":null,"text":s}});
            if code {
                doc["content"]["code"] = json!({"type":"Alert"})
            }
            let d = guarded(|| serde_json::from_str::<CommandContinuationRequest>(&doc.to_string()).ok().map(|x| js(&x)));
            let f = |r: &Result<Option<Vec<String>>, String>| match r {
                Ok(Some(v)) => json!({"k":"ok","v":v}),
                Ok(None) => json!({"k":"err"}),
                Err(_) => json!({"k":"panic"}),
            };
            out.put(&json!({"k":"cont","code":code,"b":s.as_bytes(),"r":f(&r),"d":f(&d)}));
        }
    }
}

const ALPHA: &[u8] = b"aZ0 \"\\(){}%*[]+~\r\n\x00\x7f\x80\xc3\xa9&!-.";
const NAMES: &[&str] = &[
    "PLAIN", "LOGIN", "OAUTHBEARER", "XOAUTH2", "SCRAM-SHA-1", "SCRAM-SHA-1-PLUS", "SCRAM-SHA-256", "SCRAM-SHA-256-PLUS", "SCRAM-SHA3-512",
    "SCRAM-SHA3-512-PLUS", "ORDEREDSUBJECT", "REFERENCES", "DISPLAY", "STORAGE", "MESSAGE", "MAILBOX", "ANNOTATION-STORAGE", "Answered", "Deleted",
    "Draft", "Flagged", "Seen", "Recent", "Noinferiors", "Noselect", "Marked", "Unmarked", "IMAP4REV1", "LOGINDISABLED", "STARTTLS", "IDLE",
    "MAILBOX-REFERRALS", "LOGIN-REFERRALS", "SASL-IR", "ENABLE", "QUOTA", "QUOTASET", "LITERAL+", "LITERAL-", "MOVE", "ID", "SORT", "METADATA",
    "METADATA-SERVER", "BINARY", "UNSELECT", "CONDSTORE", "QRESYNC", "UIDPLUS", "NAMESPACE", "UTF8=ACCEPT", "UTF8=ONLY", "AUTH=PLAIN",
    "AUTH=X", "AUTH=SCRAM-SHA3-512", "COMPRESS=DEFLATE", "COMPRESS=X", "DEFLATE", "QUOTA=RES-STORAGE", "QUOTA=RES-X", "QUOTA=RES-ANNOTATION-STORAGE", "SORT=DISPLAY",
    "SORT=X", "THREAD=REFERENCES", "THREAD=ORDEREDSUBJECT", "THREAD=X", "INBOX", "NIL", "AUTH=", "THREAD=", "SORT=", "COMPRESS=", "QUOTA=RES-", "QUOTA=", "UTF8=", "UTF8=X", "AUTH", "THREAD", "\\Seen", "\\*", "\\Recent",
];

pub fn main(prop: &str, seed: u64, scale: usize, dir: &str, shards: usize) -> Value {
    let mut out = Out::new(dir, shards);
    let mut rng = Rng::new(seed);
    let types: &[&str] = match prop {
        "C14" => &["istring", "astring", "listmailbox", "charset", "mailbox"],
        "C16" => &["auth", "cap", "resource", "enable", "sort", "thread", "nameattr", "compress", "flag", "attrflag", "mailbox"],
        _ => &[
            "tag", "atom", "atomext", "quoted", "text", "literal", "listchar", "istring", "astring", "listmailbox", "charset", "mailbox", "auth", "cap",
            "resource", "enable", "compress", "flag", "attrflag",
        ],
    };
    let mut inputs: std::collections::BTreeSet<Vec<u8>> = Default::default();
    inputs.insert(vec![]);
    for a in 0..=255u8 {
        inputs.insert(vec![a]);
        if scale > 1 || a % 3 == 0 || ALPHA.contains(&a) {
            inputs.insert(vec![b'a', a]);
            inputs.insert(vec![a, b'b']);
            inputs.insert(vec![b'a', a, b'b']);
        }
    }
    for a in ALPHA {
        for b in ALPHA {
            inputs.insert(vec![*a, *b]);
        }
    }
    for n in NAMES {
        inputs.insert(n.as_bytes().to_vec());
        inputs.insert(n.to_lowercase().into_bytes());
        inputs.insert(n.to_uppercase().into_bytes());
        for _ in 0..2 * scale {
            let mut v = n.as_bytes().to_vec();
            for c in v.iter_mut() {
                if rng.chance(1, 2) {
                    *c = if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }
                }
            }
            inputs.insert(v.clone());
            match rng.below(4) {
                0 => {
                    v.pop();
                }
                1 => v.push(*rng.pick(b"X1-= ")),
                2 => {
                    let i = rng.below(v.len());
                    v[i] = *rng.pick(b"X1-=_k")
                }
                _ => v.insert(0, *rng.pick(b"\\Xa1")),
            }
            inputs.insert(v);
        }
    }
    // all near misses of every name: C16
    if prop == "C16" {
        for n in NAMES {
            let v = n.as_bytes();
            let mut more: Vec<Vec<u8>> = vec![];
            for i in 0..v.len() {
                more.push([&v[..i], &v[i + 1..]].concat());
                more.push(v[..i].to_vec());
                more.push(v[i..].to_vec());
                if i + 1 < v.len() {
                    let mut w = v.to_vec();
                    w.swap(i, i + 1);
                    more.push(w);
                }
                for c in [b'x', b'-', b'_', b'0', v[i].wrapping_add(1), v[i] ^ 0x80] {
                    let mut w = v.to_vec();
                    w[i] = c;
                    more.push(w);
                }
                for c in [b'-', b'=', v[i]] {
                    more.push([&v[..i], &[c], &v[i..]].concat());
                }
            }
            for c in b"-_.=+/\\x1!#$&',:;<>?@[^`|}~ " {
                more.push([&[*c], v].concat());
                more.push([v, &[*c]].concat());
                more.push([&[*c], v, &[*c]].concat());
                more.push([b"X", &[*c][..], v].concat());
                more.push([v, &[*c], b"X"].concat());
            }
            for m in NAMES {
                if rng.chance(1, 6) {
                    more.push([v, m.as_bytes()].concat());
                    more.push([v, b"-", m.as_bytes()].concat());
                }
            }
            for w in more {
                if rng.chance(1, 3) {
                    inputs.insert(w.to_ascii_lowercase());
                }
                inputs.insert(w);
            }
        }
    }
    for n in ["\\\\Seen", "\\\\seen", "\\\\X", "\\\\", "\\", "\\\\ ", "Junk", "$Forwarded"] {
        inputs.insert(n.as_bytes().to_vec());
    }
    for _ in 0..300 * scale {
        let n = rng.below(14);
        let special = rng.chance(1, 2);
        inputs.insert((0..n).map(|_| if special && rng.chance(1, 4) { *rng.pick(ALPHA) } else if rng.chance(1, 12) { rng.below(256) as u8 } else { *rng.pick(b"abcdefINBOX0123") }).collect());
        let s: String = (0..rng.below(6)).map(|_| *rng.pick(&['a', 'é', '€', ' ', '"', '\\', '😀', ']', '%', '\u{7f}', '\u{80}'])).collect();
        inputs.insert(s.into_bytes());
    }
    // long ones: all of a kind, or with one other character somewhere
    let lens: &[usize] = &[31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 254, 255, 256, 257, 300, 511, 512, 513, 1000, 1023, 1024, 1025, 4096];
    for n in lens.iter().filter(|n| prop != "C16" || **n < 300) {
        for fill in ["a", " ", "\\", "\"", "]", "%", "é", "\r\n", "0"] {
            let mut v = fill.repeat(n / fill.len() + 1).into_bytes();
            v.truncate(*n / fill.len() * fill.len());
            if fill == "a" || rng.chance(1, 3) {
                inputs.insert(v.clone());
            }
            if fill == "a" || rng.chance(1, 6) {
                for _ in 0..3 {
                    let i = *rng.pick(&[0, v.len() / 2, v.len() - 1]);
                    let mut w = v.clone();
                    w[i] = *rng.pick(b" \"\\]{%*()\r\n\0\x7f\xc3+\x01");
                    inputs.insert(w);
                }
            }
        }
    }
    for (i, b) in inputs.iter().enumerate() {
        for (j, t) in types.iter().enumerate() {
            // wide types on every input; the others too, unless we are in a hurry
            if scale == 1 && b.len() == 2 && (i + j) % 2 == 0 {
                continue;
            }
            ctor(t, b, &mut out);
        }
    }
    if prop == "C12" {
        other(&mut out, &mut rng, scale);
    }
    let n = inputs.len();
    json!({"records": out.finish(), "inputs": n, "types": types.len()})
}
