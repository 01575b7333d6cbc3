//! Recording of what the real decoders and encoders do with a message.
use imap_codec::{
    decode::{
        AuthenticateDataDecodeError as AE, CommandDecodeError as CE, Decoder, GreetingDecodeError as GE, IdleDoneDecodeError as IE,
        ResponseDecodeError as RE,
    },
    encode::{Encoded, Encoder, Fragment},
    imap_types::{auth::AuthenticateData, command::Command, core::LiteralMode, extensions::idle::IdleDone, response::Greeting, response::Response},
    AuthenticateDataCodec, CommandCodec, GreetingCodec, IdleDoneCodec, ResponseCodec,
};
use serde_json::{json, Value};

use crate::util::*;

pub const KINDS: [&str; 5] = ["cmd", "auth", "idle", "gre", "resp"];

/// JSON text -> tokens of the specification (see Peg.tla).
pub fn lex(js: &str) -> Vec<String> {
    let b = js.as_bytes();
    let mut out = vec![];
    let mut i = 0;
    while i < b.len() {
        match b[i] {
            b'{' | b'}' | b'[' | b']' => {
                out.push((b[i] as char).to_string());
                i += 1
            }
            b',' | b':' | b' ' => i += 1,
            b'"' => {
                let mut j = i + 1;
                while b[j] != b'"' {
                    j += if b[j] == b'\\' { 2 } else { 1 }
                }
                let s: String = serde_json::from_str(&js[i..=j]).unwrap();
                i = j + 1;
                if i < b.len() && b[i] == b':' {
                    out.push(format!("{s}:"));
                    i += 1;
                } else {
                    out.push("s(".into());
                    for c in s.bytes() {
                        if (32..127).contains(&c) {
                            out.push((c as char).to_string())
                        } else {
                            out.push(format!("#{c}"))
                        }
                    }
                    out.push(")s".into());
                }
            }
            b't' | b'f' | b'n' => {
                let mut j = i;
                while j < b.len() && b[j].is_ascii_lowercase() {
                    j += 1
                }
                out.push(js[i..j].to_string());
                i = j;
            }
            _ => {
                out.push("n".into());
                while i < b.len() && (b[i].is_ascii_digit() || b[i] == b'-') {
                    out.push((b[i] as char).to_string());
                    i += 1
                }
            }
        }
    }
    out
}

/// Fragments as integers: 256/257 open a (non-)sync literal, 258 closes it, 259 separates adjacent lines.
pub fn enc_ints(e: Encoded) -> Vec<u16> {
    let mut out = vec![];
    let mut prev_line = false;
    for f in e {
        match f {
            Fragment::Line { data } => {
                if prev_line {
                    out.push(259)
                }
                out.extend(data.iter().map(|b| *b as u16));
                prev_line = true;
            }
            Fragment::Literal { data, mode } => {
                out.push(if mode == LiteralMode::Sync { 256 } else { 257 });
                out.extend(data.iter().map(|b| *b as u16));
                out.push(258);
                prev_line = false;
            }
        }
    }
    out
}

#[derive(Clone, Debug, PartialEq)]
pub enum Msg {
    Cmd(Command<'static>),
    Auth(AuthenticateData<'static>),
    Idle(IdleDone),
    Gre(Greeting<'static>),
    Resp(Response<'static>),
}

impl Msg {
    pub fn kind(&self) -> &'static str {
        match self {
            Msg::Cmd(_) => "cmd",
            Msg::Auth(_) => "auth",
            Msg::Idle(_) => "idle",
            Msg::Gre(_) => "gre",
            Msg::Resp(_) => "resp",
        }
    }
    pub fn json(&self) -> String {
        match self {
            Msg::Cmd(x) => serde_json::to_string(x),
            Msg::Auth(x) => serde_json::to_string(x),
            Msg::Idle(x) => serde_json::to_string(x),
            Msg::Gre(x) => serde_json::to_string(x),
            Msg::Resp(x) => serde_json::to_string(x),
        }
        .unwrap()
    }
    pub fn encode(&self) -> Encoded {
        match self {
            Msg::Cmd(x) => CommandCodec::default().encode(x),
            Msg::Auth(x) => AuthenticateDataCodec::default().encode(x),
            Msg::Idle(x) => IdleDoneCodec::default().encode(x),
            Msg::Gre(x) => GreetingCodec::default().encode(x),
            Msg::Resp(x) => ResponseCodec::default().encode(x),
        }
    }
    pub fn from_json(kind: &str, js: &str) -> Result<Msg, String> {
        fn f<'a, T: serde::Deserialize<'a>>(js: &'a str) -> Result<T, String> {
            serde_json::from_str(js).map_err(|e| e.to_string())
        }
        use bounded_static::IntoBoundedStatic as _;
        Ok(match kind {
            "cmd" => Msg::Cmd(f::<Command>(js)?.into_static()),
            "auth" => Msg::Auth(f::<AuthenticateData>(js)?.into_static()),
            "idle" => Msg::Idle(f::<IdleDone>(js)?),
            "gre" => Msg::Gre(f::<Greeting>(js)?.into_static()),
            _ => Msg::Resp(f::<Response>(js)?.into_static()),
        })
    }
}

/// What a decoder said.
#[derive(Clone, Debug)]
pub enum Dec {
    Ok(usize, Msg),
    Lit(u32, Option<LiteralMode>, Vec<u8>),
    Inc,
    Err,
    Panic(String),
}

pub fn decode(kind: &str, b: &[u8]) -> Dec {
    let r = guarded(|| match kind {
        "cmd" => match CommandCodec::default().decode_static(b) {
            Ok((rem, m)) => Dec::Ok(b.len() - rem.len(), Msg::Cmd(m)),
            Err(CE::Incomplete) => Dec::Inc,
            Err(CE::LiteralFound { tag, length, mode }) => Dec::Lit(length, Some(mode), tag.as_ref().as_bytes().to_vec()),
            Err(_) => Dec::Err,
        },
        "auth" => match AuthenticateDataCodec::default().decode_static(b) {
            Ok((rem, m)) => Dec::Ok(b.len() - rem.len(), Msg::Auth(m)),
            Err(AE::Incomplete) => Dec::Inc,
            Err(_) => Dec::Err,
        },
        "idle" => match IdleDoneCodec::default().decode_static(b) {
            Ok((rem, m)) => Dec::Ok(b.len() - rem.len(), Msg::Idle(m)),
            Err(IE::Incomplete) => Dec::Inc,
            Err(_) => Dec::Err,
        },
        "gre" => match GreetingCodec::default().decode_static(b) {
            Ok((rem, m)) => Dec::Ok(b.len() - rem.len(), Msg::Gre(m)),
            Err(GE::Incomplete) => Dec::Inc,
            Err(_) => Dec::Err,
        },
        _ => match ResponseCodec::default().decode_static(b) {
            Ok((rem, m)) => Dec::Ok(b.len() - rem.len(), Msg::Resp(m)),
            Err(RE::Incomplete) => Dec::Inc,
            Err(RE::LiteralFound { length }) => Dec::Lit(length, None, vec![]),
            Err(_) => Dec::Err,
        },
    });
    r.unwrap_or_else(Dec::Panic)
}

impl Dec {
    /// value: include the value's tokens
    pub fn rec(&self, value: bool) -> Value {
        match self {
            Dec::Ok(c, m) => json!({"k":"ok","c":c,"v": if value {lex(&m.json())} else {vec![]}}),
            Dec::Lit(n, m, t) => json!({"k":"lit","n":digits(*n as u64),"m":m.map(|m|format!("{m:?}")).unwrap_or_default(),"t":t}),
            Dec::Inc => json!({"k":"inc"}),
            Dec::Err => json!({"k":"err"}),
            Dec::Panic(s) => json!({"k":"panic","s":s}),
        }
    }
}

/// Borrowed decoding gives the same message and the same rest as owned decoding.
pub fn borrowed_agrees(kind: &str, b: &[u8]) -> bool {
    use bounded_static::IntoBoundedStatic as _;
    fn same<A: PartialEq, E, F>(b: &[u8], x: Result<(&[u8], A), E>, y: Result<(&[u8], A), F>) -> bool {
        match (x, y) {
            (Ok((r1, m1)), Ok((r2, m2))) => m1 == m2 && r1 == r2 && b.ends_with(r1) && r1.as_ptr() == r2.as_ptr(),
            (Err(_), Err(_)) => true,
            _ => false,
        }
    }
    guarded(|| match kind {
        "cmd" => same(b, CommandCodec::default().decode(b).map(|(r, m)| (r, m.into_static())), CommandCodec::default().decode_static(b)),
        "auth" => same(b, AuthenticateDataCodec::default().decode(b).map(|(r, m)| (r, m.into_static())), AuthenticateDataCodec::default().decode_static(b)),
        "idle" => same(b, IdleDoneCodec::default().decode(b), IdleDoneCodec::default().decode_static(b)),
        "gre" => same(b, GreetingCodec::default().decode(b).map(|(r, m)| (r, m.into_static())), GreetingCodec::default().decode_static(b)),
        _ => same(b, ResponseCodec::default().decode(b).map(|(r, m)| (r, m.into_static())), ResponseCodec::default().decode_static(b)),
    })
    .unwrap_or(false)
}

/// Everything the owned and the borrowed forms of a decoding show: distinct values, encodings, debug texts, error texts.
#[derive(Default)]
pub struct Forms {
    pub k: String,
    pub c: usize,
    pub vs: Vec<Vec<String>>,
    pub es: Vec<Vec<u16>>,
    pub ds: Vec<String>,
    pub eqs: Vec<bool>,
}
fn add<T: PartialEq>(v: &mut Vec<T>, x: T) {
    if !v.contains(&x) {
        v.push(x)
    }
}
macro_rules! forms {
    ($codec:ty, $b:expr) => {{
        use imap_codec::imap_types::{IntoStatic as _, ToStatic as _};
        let b: &[u8] = $b;
        let mut f = Forms::default();
        // the borrowed form reads from a buffer that is overwritten afterwards
        let mut buf = b.to_vec();
        let codec = <$codec>::default();
        let owned = codec.decode_static(b);
        let kept;
        let n1;
        {
            match codec.decode(&buf) {
                Ok((rem, m)) => {
                    n1 = Some(rem.len());
                    let (t, i) = (m.to_static(), m.clone().into_static());
                    let (tt, it) = (t.to_static(), i.clone().into_static());
                    for x in [&m, &t, &i, &tt, &it] {
                        add(&mut f.vs, lex(&serde_json::to_string(x).unwrap()));
                        add(&mut f.es, enc_ints(codec.encode(x)));
                        add(&mut f.ds, format!("{x:?}"));
                    }
                    f.eqs.extend([m == t, t == m, m == i, i == t, tt == m, it == m, m.clone() == m]);
                    kept = Ok((t, i));
                }
                Err(e) => {
                    n1 = None;
                    let (t, i) = (e.clone().into_static(), e.clone().into_static().into_static());
                    for x in [&e, &t, &i] {
                        add(&mut f.ds, format!("{x:?}"));
                    }
                    f.eqs.extend([e == t, i == e]);
                    kept = Err(t);
                }
            }
        }
        for x in buf.iter_mut() {
            *x = b'#'
        }
        drop(buf);
        match (kept, owned) {
            (Ok((t, i)), Ok((rem, m))) => {
                f.k = "ok".into();
                f.c = b.len() - rem.len();
                f.eqs.extend([t == m, i == m, n1 == Some(rem.len()), b.ends_with(rem)]);
                for x in [&m, &t, &i] {
                    add(&mut f.vs, lex(&serde_json::to_string(x).unwrap()));
                    add(&mut f.es, enc_ints(codec.encode(x)));
                    add(&mut f.ds, format!("{x:?}"));
                }
            }
            (Err(t), Err(e)) => {
                f.k = "no".into();
                f.eqs.push(t == e);
                add(&mut f.ds, format!("{e:?}"));
            }
            _ => f.k = "different".into(),
        }
        f
    }};
}
pub fn forms(kind: &str, b: &[u8]) -> Value {
    let r = guarded(|| match kind {
        "cmd" => forms!(CommandCodec, b),
        "auth" => forms!(AuthenticateDataCodec, b),
        "idle" => forms!(IdleDoneCodec, b),
        "gre" => forms!(GreetingCodec, b),
        _ => forms!(ResponseCodec, b),
    });
    match r {
        Ok(f) => json!({"k":"own","m":kind,"b":b,"r":f.k,"c":f.c,"vs":f.vs,"es":f.es,"nd":f.ds.len(),"eq":f.eqs.iter().all(|x| *x)}),
        Err(s) => json!({"k":"panic","m":kind,"b":b,"s":s}),
    }
}
