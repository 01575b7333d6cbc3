//! Builders of commands and responses, macros, and the text helpers (C22).
use std::num::NonZeroU32;

use arbitrary::{Arbitrary, Unstructured};
use bounded_static::{IntoBoundedStatic, ToBoundedStatic};
use imap_codec::imap_types::{
    auth::{AuthMechanism, AuthenticateData},
    command::{error::*, Command, CommandBody},
    core::*,
    datetime::DateTime,
    extensions::{
        compress::CompressionAlgorithm,
        condstore_qresync::AttributeFlag,
        enable::CapabilityEnable,
        metadata::Entry,
        namespace::Namespace,
        quota::{
            error::{QuotaError, QuotaRootError, SetQuotaError},
            QuotaGet, QuotaSet, Resource,
        },
        r#move::error::MoveError,
    },
    fetch::{Macro, MessageDataItem, MessageDataItemName},
    flag::{Flag, FlagFetch, FlagNameAttribute, FlagPerm, StoreResponse, StoreType},
    response::{error::FetchError, Capability, Code, CommandContinuationRequest, Data, Greeting, GreetingKind, Status, StatusKind},
    search::SearchKey,
    sequence::SequenceSet,
    status::StatusDataItemName,
    utils::{escape_byte_string, escape_quoted, indicators, unescape_quoted},
};
use serde_json::{json, Value};

use crate::{msg::lex, util::*};

fn js<T: serde::Serialize>(x: &T) -> Vec<String> {
    lex(&serde_json::to_string(x).unwrap())
}

struct G<'a> {
    r: &'a mut Rng,
}
impl G<'_> {
    fn arb<T>(&mut self) -> T::Static
    where
        T: Arbitrary<'static> + IntoBoundedStatic,
    {
        loop {
            let n = 10 + self.r.below(60);
            let data: &'static [u8] = Box::leak((0..n).map(|_| self.r.below(256) as u8).collect());
            if let Ok(Ok(x)) = guarded(|| T::arbitrary(&mut Unstructured::new(data)).map(|x| x.into_static())) {
                return x;
            }
        }
    }
    fn list<T>(&mut self, min: usize) -> Vec<T::Static>
    where
        T: Arbitrary<'static> + IntoBoundedStatic,
    {
        let n = min + self.r.below(3);
        (0..n).map(|_| self.arb::<T>()).collect()
    }
    fn bytes(&mut self) -> Vec<u8> {
        match self.r.below(12) {
            0 => vec![],
            1 => {
                let mut v = b"inbox".to_vec();
                v.iter_mut().for_each(|c| {
                    if self.r.chance(1, 2) {
                        *c = c.to_ascii_uppercase()
                    }
                });
                v
            }
            2 => (0..self.r.below(6)).map(|_| self.r.below(256) as u8).collect(),
            3 => b"a b".to_vec(),
            4 => [b"a\0", &b"b"[..self.r.below(2)]].concat(),
            5 => b"\xc3\xa9".to_vec(),
            _ => (0..1 + self.r.below(6)).map(|_| *self.r.pick(b"abcXYZ019./-%*+]\"\\ ")).collect(),
        }
    }
    fn nat(&mut self) -> u32 {
        *self.r.pick(&[0, 0, 1, 2, 10, 255, 65536, u32::MAX - 1, u32::MAX])
    }
    fn code(&mut self) -> Option<Code<'static>> {
        if self.r.chance(1, 3) {
            None
        } else {
            Some(self.arb::<Code>())
        }
    }
    fn date(&mut self) -> DateTime {
        let s = format!(
            "\"{:04}-{:02}-{:02}T{:02}:{:02}:{:02}{}{:02}:{:02}\"",
            self.r.below(10000),
            1 + self.r.below(12),
            1 + self.r.below(28),
            self.r.below(24),
            self.r.below(60),
            self.r.below(60),
            self.r.pick(&["+", "-"]),
            self.r.below(15),
            self.r.below(60)
        );
        serde_json::from_str(&s).unwrap()
    }
    fn seqset(&mut self) -> SequenceSet {
        self.arb::<SequenceSet>()
    }
}

fn val<T: serde::Serialize>(x: &T) -> Value {
    json!({"t":"val","v":js(x)})
}
fn text(t: &str, b: &[u8]) -> Value {
    json!({"t":t,"b":b})
}
fn list1<T: serde::Serialize>(x: &Vec<T>) -> Value {
    json!({"t":"list1","v":js(x),"n":x.len()})
}
fn nz(n: u32) -> Value {
    json!({"t":"nz","d":digits(n as u64)})
}

type Built = Result<Vec<String>, &'static str>;
fn put(out: &mut Out, n: &str, args: Vec<Value>, f: impl FnOnce() -> Built) {
    put_acc(out, n, args, || (f(), vec![]))
}
fn put_acc(out: &mut Out, n: &str, args: Vec<Value>, f: impl FnOnce() -> (Built, Vec<Value>)) {
    let (r, acc) = match guarded(f) {
        Ok((Ok(v), acc)) => (json!({"k":"ok","v":v}), acc),
        Ok((Err(e), acc)) => (json!({"k":"err","e":e}), acc),
        Err(_) => (json!({"k":"panic"}), vec![]),
    };
    out.put(&json!({"k":"build","n":n,"as":args,"r":r,"acc":acc}));
}

fn any<T: serde::Serialize, E>(r: Result<T, E>) -> Built {
    r.map(|x| js(&x)).map_err(|_| "")
}

fn one(g: &mut G, out: &mut Out) {
    let (b, c) = (g.bytes(), g.bytes());
    let (bv, cv) = (|| b.clone(), || c.clone());
    let uid = g.r.chance(1, 2);

    // commands
    let body = g.arb::<CommandBody>();
    let tag_s = String::from_utf8_lossy(&b).into_owned();
    put(out, "command_new", vec![text("tag", tag_s.as_bytes()), val(&body)], || any(Command::new(tag_s.as_str(), body.clone())));
    put(out, "tag", vec![val(&body), text("tag", tag_s.as_bytes())], || any(body.clone().tag(tag_s.as_str())));
    let mech = g.arb::<AuthMechanism>();
    put(out, "authenticate", vec![val(&mech)], || Ok(js(&CommandBody::authenticate(mech.clone()))));
    put(out, "authenticate_with_ir", vec![val(&mech), text("bytes", &b)], || Ok(js(&CommandBody::authenticate_with_ir(mech.clone(), bv()))));
    put(out, "login", vec![text("astring", &b), text("astring", &c)], || {
        CommandBody::login(bv(), cv()).map(|x| js(&x)).map_err(|e| match e {
            LoginError::Username(_) => "Username",
            LoginError::Password(_) => "Password",
        })
    });
    put(out, "select", vec![text("mailbox", &b)], || any(CommandBody::select(bv())));
    put(out, "examine", vec![text("mailbox", &b)], || any(CommandBody::examine(bv())));
    put(out, "create", vec![text("mailbox", &b)], || any(CommandBody::create(bv())));
    put(out, "delete", vec![text("mailbox", &b)], || any(CommandBody::delete(bv())));
    put(out, "rename", vec![text("mailbox", &b), text("mailbox", &c)], || {
        CommandBody::rename(bv(), cv()).map(|x| js(&x)).map_err(|e| match e {
            RenameError::From(_) => "From",
            RenameError::To(_) => "To",
        })
    });
    put(out, "subscribe", vec![text("mailbox", &b)], || any(CommandBody::subscribe(bv())));
    put(out, "unsubscribe", vec![text("mailbox", &b)], || any(CommandBody::unsubscribe(bv())));
    let cs = String::from_utf8_lossy(&c).into_owned();
    fn le<A, B>(e: ListError<A, B>) -> &'static str {
        match e {
            ListError::Reference(_) => "Reference",
            ListError::Mailbox(_) => "Mailbox",
        }
    }
    put(out, "list", vec![text("mailbox", &b), text("listmailbox", cs.as_bytes())], || CommandBody::list(bv(), cs.as_str()).map(|x| js(&x)).map_err(le));
    put(out, "lsub", vec![text("mailbox", &b), text("listmailbox", cs.as_bytes())], || CommandBody::lsub(bv(), cs.as_str()).map(|x| js(&x)).map_err(le));
    let items = g.list::<StatusDataItemName>(0);
    put(out, "status", vec![text("mailbox", &b), val(&items)], || any(CommandBody::status(bv(), items.clone())));
    let flags = g.list::<Flag>(0);
    let date = if g.r.chance(1, 2) { Some(g.date()) } else { None };
    put(out, "append", vec![text("mailbox", &b), val(&flags), val(&date), text("literal", &c)], || {
        CommandBody::append(bv(), flags.clone(), date.clone(), cv()).map(|x| js(&x)).map_err(|e| match e {
            AppendError::Mailbox(_) => "Mailbox",
            AppendError::Data(_) => "Data",
        })
    });
    let charset = if g.r.chance(1, 2) { Some(g.arb::<Charset>()) } else { None };
    let keys = g.list::<SearchKey>(1);
    put(out, "search", vec![val(&charset), val(&keys), val(&uid)], || {
        Ok(js(&CommandBody::search(charset.clone(), Vec1::try_from(keys.clone()).unwrap(), uid)))
    });
    let set = g.seqset();
    let m = g.arb::<Macro>();
    put(out, "fetch_macro", vec![val(&set), val(&m), val(&uid)], || any(CommandBody::fetch(set.clone(), m.clone(), uid)));
    let atts = g.list::<MessageDataItemName>(0);
    put(out, "fetch_items", vec![val(&set), val(&atts), val(&uid)], || any(CommandBody::fetch(set.clone(), atts.clone(), uid)));
    let (kind, resp) = (g.arb::<StoreType>(), g.arb::<StoreResponse>());
    put(out, "store", vec![val(&set), val(&kind), val(&resp), val(&flags), val(&uid)], || any(CommandBody::store(set.clone(), kind, resp, flags.clone(), uid)));
    // a sequence set that cannot be converted: the blamed argument counts
    let bad_set = g.r.chance(1, 4);
    let sarg = if bad_set { list1(&Vec::<u32>::new()) } else { val(&set) };
    let sset = || -> &'static str { Box::leak(if bad_set { "0".into() } else { SetText(&set).text().into_boxed_str() }) };
    put(out, "copy", vec![sarg.clone(), text("mailbox", &b), val(&uid)], || {
        CommandBody::copy(sset(), bv(), uid).map(|x| js(&x)).map_err(|e| match e {
            CopyError::Sequence(_) => "Sequence",
            CopyError::Mailbox(_) => "Mailbox",
        })
    });
    put(out, "move", vec![sarg, text("mailbox", &b), val(&uid)], || {
        CommandBody::r#move(sset(), bv(), uid).map(|x| js(&x)).map_err(|e| match e {
            MoveError::Sequence(_) => "Sequence",
            MoveError::Mailbox(_) => "Mailbox",
        })
    });
    let alg = CompressionAlgorithm::Deflate;
    put(out, "compress", vec![val(&alg)], || Ok(js(&CommandBody::compress(alg))));
    let ecaps = g.list::<CapabilityEnable>(0);
    put(out, "enable", vec![list1(&ecaps)], || any(CommandBody::enable(ecaps.clone())));
    put(out, "namespace", vec![], || Ok(js(&CommandBody::namespace())));
    put(out, "unselect", vec![], || Ok(js(&CommandBody::unselect())));
    put(out, "get_quota", vec![text("astring", &b)], || any(CommandBody::get_quota(bv())));
    put(out, "get_quota_root", vec![text("mailbox", &b)], || any(CommandBody::get_quota_root(bv())));
    let qs = g.list::<QuotaSet>(0);
    put(out, "set_quota", vec![text("astring", &b), val(&qs)], || {
        CommandBody::set_quota(bv(), qs.clone()).map(|x| js(&x)).map_err(|e| match e {
            SetQuotaError::Root(_) => "Root",
            SetQuotaError::QuotaSet(_) => "QuotaSet",
        })
    });
    let res = g.arb::<Resource>();
    let (u, l) = (g.r.next(), g.nat() as u64);
    put(out, "quota_set_new", vec![val(&res), val(&u)], || Ok(js(&QuotaSet::new(res.clone(), u))));
    put(out, "quota_get_new", vec![val(&res), val(&u), val(&l)], || Ok(js(&QuotaGet::new(res.clone(), u, l))));
    let (pre, del) = (g.arb::<IString>(), if g.r.chance(1, 2) { Some(g.arb::<QuotedChar>()) } else { None });
    put(out, "namespace_new", vec![val(&pre), val(&del)], || Ok(js(&Namespace::new(pre.clone(), del))));
    put(out, "continue", vec![text("bytes", &b)], || Ok(js(&AuthenticateData::r#continue(bv()))));

    // responses
    let code = g.code();
    let ts = String::from_utf8_lossy(&b).into_owned();
    let tx = || text("text", ts.as_bytes());
    let gk = g.arb::<GreetingKind>();
    if let Ok(t) = Text::try_from(ts.clone()) {
        put(out, "greeting_new", vec![val(&gk), val(&code), val(&t)], || any(Greeting::new(gk, code.clone(), ts.as_str())));
    }
    put(out, "greeting_ok", vec![val(&code), tx()], || any(Greeting::ok(code.clone(), ts.as_str())));
    put(out, "greeting_preauth", vec![val(&code), tx()], || any(Greeting::preauth(code.clone(), ts.as_str())));
    put(out, "greeting_bye", vec![val(&code), tx()], || any(Greeting::bye(code.clone(), ts.as_str())));
    let tag = g.arb::<Tag>();
    let sk = g.arb::<StatusKind>();
    fn acc<E>(s: Result<Status, E>, tag: usize, code: usize) -> (Built, Vec<Value>) {
        match s {
            Err(_) => (Err(""), vec![]),
            Ok(s) => {
                let mut a = vec![json!([code, js(&s.code())]), json!([code + 1, js(&s.text())])];
                if tag > 0 {
                    a.push(json!([tag, js(&s.tag())]))
                } else if s.tag().is_some() {
                    return (Err("tag"), vec![]);
                }
                (Ok(js(&s)), a)
            }
        }
    }
    put_acc(out, "status_tagged_new", vec![val(&tag), val(&sk), val(&code), tx()], || acc(Status::new(Some(tag.clone()), sk, code.clone(), ts.as_str()), 1, 3));
    put_acc(out, "status_untagged_new", vec![val(&sk), val(&code), tx()], || acc(Status::new(None, sk, code.clone(), ts.as_str()), 0, 2));
    put_acc(out, "status_tagged_ok", vec![val(&tag), val(&code), tx()], || acc(Status::ok(Some(tag.clone()), code.clone(), ts.as_str()), 1, 2));
    put_acc(out, "status_tagged_no", vec![val(&tag), val(&code), tx()], || acc(Status::no(Some(tag.clone()), code.clone(), ts.as_str()), 1, 2));
    put_acc(out, "status_tagged_bad", vec![val(&tag), val(&code), tx()], || acc(Status::bad(Some(tag.clone()), code.clone(), ts.as_str()), 1, 2));
    put_acc(out, "status_untagged_ok", vec![val(&code), tx()], || acc(Status::ok(None, code.clone(), ts.as_str()), 0, 1));
    put_acc(out, "status_untagged_no", vec![val(&code), tx()], || acc(Status::no(None, code.clone(), ts.as_str()), 0, 1));
    put_acc(out, "status_untagged_bad", vec![val(&code), tx()], || acc(Status::bad(None, code.clone(), ts.as_str()), 0, 1));
    put_acc(out, "status_bye", vec![val(&code), tx()], || acc(Status::bye(code.clone(), ts.as_str()), 0, 1));
    let caps = g.list::<Capability>(0);
    put(out, "data_capability", vec![list1(&caps)], || any(Data::capability(caps.clone())));
    put(out, "code_capability", vec![list1(&caps)], || any(Code::capability(caps.clone())));
    let n = g.nat();
    put(out, "data_expunge", vec![nz(n)], || any(Data::expunge(n)));
    put(out, "code_uidnext", vec![nz(n)], || any(Code::uidnext(n)));
    put(out, "code_uidvalidity", vec![nz(n)], || any(Code::uidvalidity(n)));
    put(out, "code_unseen", vec![nz(n)], || any(Code::unseen(n)));
    let mi = g.list::<MessageDataItem>(0);
    put(out, "data_fetch", vec![nz(n), list1(&mi)], || {
        Data::fetch(n, mi.clone()).map(|x| js(&x)).map_err(|e| match e {
            FetchError::SeqOrUid(_) => "SeqOrUid",
            FetchError::InvalidItems(_) => "InvalidItems",
        })
    });
    let _ = NonZeroU32::MIN;
    let (n1, n2, n3) = (g.list::<Namespace>(0), g.list::<Namespace>(0), g.list::<Namespace>(0));
    put(out, "data_namespace", vec![val(&n1), val(&n2), val(&n3)], || any(Data::namespace(n1.clone(), n2.clone(), n3.clone())));
    let qg = g.list::<QuotaGet>(0);
    put(out, "data_quota", vec![text("astring", &b), list1(&qg)], || {
        Data::quota(bv(), qg.clone()).map(|x| js(&x)).map_err(|e| match e {
            QuotaError::Root(_) => "Root",
            QuotaError::Quotas(_) => "Quotas",
        })
    });
    let roots = g.list::<AString>(0);
    put(out, "data_quota_root", vec![text("mailbox", &b), val(&roots)], || {
        Data::quota_root(bv(), roots.clone()).map(|x| js(&x)).map_err(|e| match e {
            QuotaRootError::Mailbox(_) => "Mailbox",
            QuotaRootError::Roots(_) => "Roots",
        })
    });
    put(out, "ccr_base64", vec![text("bytes", &b)], || Ok(js(&CommandContinuationRequest::base64(bv()))));
    let chs = g.list::<Charset>(0);
    put(out, "code_badcharset", vec![val(&chs)], || Ok(js(&Code::badcharset(chs.clone()))));
    let fp = g.list::<FlagPerm>(0);
    put(out, "code_permanentflags", vec![val(&fp)], || Ok(js(&Code::permanentflags(fp.clone()))));
    put(out, "searchkey_uid", vec![val(&set)], || Ok(js(&SearchKey::uid(set.clone()))));
    let fl = g.arb::<Flag>();
    put(out, "flag_fetch", vec![val(&fl)], || Ok(js(&FlagFetch::from(fl.clone()))));
    put(out, "flag_perm", vec![val(&fl)], || Ok(js(&FlagPerm::from(fl.clone()))));
    let at = g.arb::<Atom>();
    put(out, "flag_keyword", vec![val(&at)], || Ok(js(&Flag::keyword(at.clone()))));
    put(out, "attrflag_keyword", vec![val(&at)], || Ok(js(&AttributeFlag::keyword(at.clone()))));
    let a = g.arb::<AString>();
    put(out, "entry", vec![val(&a)], || {
        let e = Entry::try_from(a.clone()).map_err(|_| "")?;
        if e.inner() != &a || e.as_ref() != a.as_ref() {
            return Err("inner");
        }
        Ok(js(&e))
    });
    let _ = body.to_static();
}

/// The textual form of a sequence set (as in IMAP), built from its parts.
struct SetText<'a>(&'a SequenceSet);
impl SetText<'_> {
    fn text(&self) -> String {
        use imap_codec::imap_types::sequence::{SeqOrUid, Sequence};
        fn n(x: &SeqOrUid) -> String {
            match x {
                SeqOrUid::Value(v) => v.to_string(),
                SeqOrUid::Asterisk => "*".into(),
            }
        }
        let parts: Vec<String> = self
            .0
             .0
            .as_ref()
            .iter()
            .map(|s| match s {
                Sequence::Single(x) => n(x),
                Sequence::Range(a, b) => format!("{}:{}", n(a), n(b)),
            })
            .collect();
        parts.join(",")
    }
}

fn helpers(out: &mut Out, r: &mut Rng, scale: usize) {
    for n in [
        ("char", indicators::is_char as fn(u8) -> bool),
        ("ctl", indicators::is_ctl),
        ("quoted_specials", indicators::is_quoted_specials),
        ("astring_char", indicators::is_astring_char),
        ("atom_char", indicators::is_atom_char),
        ("atom_specials", indicators::is_atom_specials),
        ("list_wildcards", indicators::is_list_wildcards),
        ("resp_specials", indicators::is_resp_specials),
        ("char8", indicators::is_char8),
        ("text_char", indicators::is_text_char),
        ("list_char", indicators::is_list_char),
    ] {
        let v: Vec<bool> = (0..=255u8).map(n.1).collect();
        out.put(&json!({"k":"ind","n":n.0,"r":v}));
    }
    for (n, m) in [("Fast", Macro::Fast), ("All", Macro::All), ("Full", Macro::Full)] {
        let items: Vec<_> = m.expand().iter().map(js).collect();
        out.put(&json!({"k":"macro","n":n,"items":items,"d":m.to_string().into_bytes()}));
    }
    for s in ["Noselect", "marked", "UNMARKED", "Noinferiors", "noSelect", "Marked", "Unmarked", "HasChildren", "Select", "Nonexistent", "x", "Unmark", "", "a b"] {
        let v = Atom::try_from(s).ok().map(FlagNameAttribute::from);
        out.put(&json!({"k":"sel","b":s.as_bytes(),"ok":v.is_some(),"r":v.map(|v| v.is_selectability()).unwrap_or(false)}));
    }
    let show = |out: &mut Out, b: &[u8]| out.put(&json!({"k":"show","b":b,"e":escape_byte_string(b).into_bytes()}));
    for b in 0..=255u8 {
        show(out, &[b]);
        show(out, &[b, b'x', b]);
    }
    let esc = |out: &mut Out, s: &str| {
        let e = escape_quoted(s).into_owned();
        let u = unescape_quoted(&e).into_owned();
        out.put(&json!({"k":"esc","b":s.as_bytes(),"e":e.as_bytes(),"u":u.as_bytes()}))
    };
    // all strings over quote, backslash and a letter up to length 7
    for n in 0..=7usize {
        for k in 0..3usize.pow(n as u32) {
            let mut x = k;
            let s: String = (0..n)
                .map(|_| {
                    let c = [b'"', b'\\', b'a'][x % 3] as char;
                    x /= 3;
                    c
                })
                .collect();
            esc(out, &s);
        }
    }
    for b in 0..128u8 {
        esc(out, &format!("{}", b as char));
        esc(out, &format!("\\{}\"", b as char));
        esc(out, &format!("\"{}\\", b as char));
    }
    for k in 0..500 * scale {
        let n = if k % 25 == 0 { *r.pick(&[31usize, 32, 33, 64, 65, 127, 128, 129, 255, 256, 257, 512, 1000, 1024, 1025]) } else { r.below(30) };
        let s: String = (0..n).map(|_| *r.pick(&['"', '\\', 'a', 'n', 't', 'é', '€', '😀', '\n', '\0', ' ', '\u{7f}'])).collect();
        esc(out, &s);
        let b: Vec<u8> = (0..if n > 30 { n } else { r.below(30) }).map(|_| r.below(256) as u8).collect();
        show(out, &b);
    }
}

pub fn main(_prop: &str, seed: u64, scale: usize, dir: &str, shards: usize) -> Value {
    let mut out = Out::new(dir, shards);
    let mut rng = Rng::new(seed ^ 0xC22);
    helpers(&mut out, &mut rng, scale);
    for _ in 0..150 * scale {
        one(&mut G { r: &mut rng }, &mut out)
    }
    json!({"records": out.finish(), "builders": 62})
}
