//! Debug output of values that carry secrets (C17).
use std::borrow::Cow;

use bounded_static::{IntoBoundedStatic, ToBoundedStatic};
use imap_codec::{
    decode::Decoder,
    fragmentizer::Fragmentizer,
    imap_types::{
        auth::{AuthMechanism, AuthenticateData},
        command::{Command, CommandBody},
        core::{AString, Atom, IString, Literal, Quoted, Tag},
        secret::Secret,
    },
    AuthenticateDataCodec, CommandCodec, GreetingCodec, IdleDoneCodec, ResponseCodec,
};
use serde_json::{json, Value};

use crate::{gram::b64, msg::lex, util::*};

fn obs<T: std::fmt::Debug>(v: Vec<String>, x: &T) -> Value {
    json!({"v":v,"o":format!("{x:?}").into_bytes(),"p":format!("{x:#?}").into_bytes()})
}

fn js<T: serde::Serialize>(x: &T) -> Vec<String> {
    lex(&serde_json::to_string(x).unwrap())
}

fn secrets(rng: &mut Rng, n: usize) -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = ["", "x", "xyz123", "password", "p w", "p\"w\\", "NIL", "pässword", "a\r\nb", "*", "{5}", "/* REDACTED */", "Some", "inbox", "=", "None"].iter().map(|s| s.as_bytes().to_vec()).collect();
    v.push(vec![b'A'; 70]);
    v.push((0..=255).filter(|b| *b != 0).collect());
    for m in [64, 127, 128, 200, 255, 256, 300] {
        v.push((0..m).map(|_| 33 + rng.below(94) as u8).collect());
    }
    for _ in 0..n {
        let m = rng.below(20);
        v.push((0..m).map(|_| if rng.chance(1, 4) { 1 + rng.below(255) as u8 } else { 97 + rng.below(26) as u8 }).collect());
    }
    v
}

fn astrings(s: &[u8]) -> Vec<AString<'static>> {
    let mut v = vec![];
    if let Ok(a) = AString::try_from(s.to_vec()) {
        v.push(a)
    }
    if let Ok(q) = Quoted::try_from(s.to_vec()) {
        v.push(AString::String(IString::Quoted(q)))
    }
    if let Ok(l) = Literal::try_from(s.to_vec()) {
        v.push(l.clone().into());
        v.push(l.into_non_sync().into())
    }
    if let Ok(t) = String::from_utf8(s.to_vec()) {
        v.push(AString::String(IString::QuotedUtf8(imap_codec::imap_types::extensions::utf8::QuotedUtf8(t.into()))))
    }
    v
}

fn put(out: &mut Out, what: &str, xs: Vec<Value>) {
    for c in xs.chunks(60) {
        // a common reference in each record
        let mut c = c.to_vec();
        c.insert(0, xs[0].clone());
        out.put(&json!({"k":"obs","what":what,"xs":c}));
    }
}

fn derr<C: Decoder + Default + std::fmt::Debug>(what: &str, heads: &[&str], secrets: &[Vec<u8>], out: &mut Out)
where
    for<'a> C::Message<'a>: std::fmt::Debug,
    for<'a> C::Error<'a>: std::fmt::Debug,
{
    for h in heads {
        for mode in ["poison", "limit", "plain"] {
            let mut xs = vec![];
            for s in secrets {
                if s.contains(&b'\n') {
                    continue;
                }
                let mut line = h.as_bytes().to_vec();
                line.extend_from_slice(s);
                line.extend_from_slice(b"\r\n");
                let mut f = if mode == "limit" { Fragmentizer::new(h.len() as u32 + 1) } else { Fragmentizer::without_max_message_size() };
                f.enqueue_bytes(&line);
                if mode == "poison" {
                    f.poison_message()
                }
                while f.progress().is_some() && !f.is_message_complete() {}
                let c = C::default();
                let r = f.decode_message(&c);
                let v = match &r {
                    // whether the secret happens to be a valid message is no secret here: the message itself is public then
                    Ok(_) => continue,
                    Err(imap_codec::fragmentizer::DecodeMessageError::DecodingRemainder { message, .. }) => lex(&json!(format!("remainder {message:?}")).to_string()),
                    Err(imap_codec::fragmentizer::DecodeMessageError::DecodingFailure(e)) => {
                        let e = format!("{e:?}");
                        if e.contains("LiteralFound") {
                            continue;
                        }
                        lex(&json!(format!("failure {e}")).to_string())
                    }
                    Err(imap_codec::fragmentizer::DecodeMessageError::MessageTooLong { .. }) => lex("\"too long\""),
                    Err(imap_codec::fragmentizer::DecodeMessageError::MessagePoisoned { .. }) => lex("\"poisoned\""),
                };
                xs.push(obs(v, &r));
            }
            if xs.len() > 1 {
                put(out, &format!("{what} {mode}"), xs)
            }
        }
    }
}

pub fn main(_prop: &str, seed: u64, scale: usize, dir: &str, shards: usize) -> Value {
    let mut out = Out::new(dir, shards);
    let mut rng = Rng::new(seed);
    let ss = secrets(&mut rng, 12 * scale);
    // login: built, decoded, wrapped
    for user in ["alice", "xyz123", ""] {
        let (mut xs, mut ys, mut zs, mut ws) = (vec![], vec![], vec![], vec![]);
        for s in &ss {
            for pw in astrings(s) {
                let body = CommandBody::Login { username: AString::try_from(user).unwrap(), password: Secret::new(pw) };
                let cmd = Command { tag: Tag::try_from("A1").unwrap(), body: body.clone() };
                xs.push(obs(js(&body), &body));
                ys.push(obs(js(&cmd), &cmd));
                zs.push(obs(js(&cmd), &(Some(vec![Box::new(cmd.clone())]), Ok::<_, ()>(cmd.to_static()))));
                let d = imap_codec::encode::Encoder::encode(&CommandCodec::default(), &cmd).dump();
                if let Ok((_, c)) = CommandCodec::default().decode(&d) {
                    ws.push(obs(js(&c), &c));
                }
                if let Ok((_, c)) = CommandCodec::default().decode_static(&d) {
                    ws.push(obs(js(&c), &c));
                }
            }
        }
        put(&mut out, "login body", xs);
        put(&mut out, "login command", ys);
        put(&mut out, "login in containers", zs);
        put(&mut out, "login decoded", ws);
    }
    // authenticate
    for mech in [AuthMechanism::Plain, AuthMechanism::Login, AuthMechanism::XOAuth2, AuthMechanism::ScramSha256, AuthMechanism::from(Atom::try_from("X").unwrap())] {
        let (mut xs, mut ys) = (vec![], vec![]);
        let none = CommandBody::authenticate(mech.clone());
        xs.push(obs(js(&none), &none));
        for s in &ss {
            let body = CommandBody::authenticate_with_ir(mech.clone(), s.clone());
            xs.push(obs(js(&body), &body));
            let borrowed = CommandBody::authenticate_with_ir(mech.clone(), &s[..]);
            xs.push(obs(js(&borrowed), &borrowed));
            let cmd = body.tag("A1").unwrap();
            ys.push(obs(js(&cmd), &cmd));
            let line = format!("A1 AUTHENTICATE {mech} {}\r\n", if s.is_empty() { "=".to_string() } else { b64(s) });
            if let Ok((_, c)) = CommandCodec::default().decode(line.as_bytes()) {
                ys.push(obs(js(&c), &c));
                ys.push(obs(js(&c), &c.clone().into_static()));
            }
        }
        put(&mut out, "authenticate body", xs);
        put(&mut out, "authenticate command", ys);
    }
    // data lines
    let mut xs = vec![obs(js(&AuthenticateData::Cancel), &AuthenticateData::Cancel)];
    for s in &ss {
        let d = AuthenticateData::r#continue(s.clone());
        xs.push(obs(js(&d), &d));
        xs.push(obs(js(&d), &AuthenticateData::Continue(Secret::new(Cow::Borrowed(&s[..])))));
        let line = format!("{}\r\n", b64(s));
        if let Ok((_, d)) = AuthenticateDataCodec::default().decode(line.as_bytes()) {
            xs.push(obs(js(&d), &d));
            xs.push(obs(js(&d), &d.to_static()));
        }
    }
    put(&mut out, "authenticate data", xs);
    // the wrapper on other types
    let one = || vec!["s(".to_string(), ")s".into()];
    put(&mut out, "secret bytes", ss.iter().map(|s| obs(one(), &Secret::new(s.clone()))).collect());
    put(&mut out, "secret slice", ss.iter().map(|s| obs(one(), &Secret::new(&s[..]))).collect());
    put(&mut out, "secret string", ss.iter().map(|s| obs(one(), &Secret::new(String::from_utf8_lossy(s).to_string()))).collect());
    put(&mut out, "secret option", ss.iter().map(|s| obs(one(), &Secret::new(if s.len() % 2 == 0 { Some(s.len()) } else { None }))).collect());
    put(&mut out, "secret number", ss.iter().map(|s| obs(one(), &vec![Secret::from(s.len()), Secret::new(s.len() + 7)])).collect());
    put(&mut out, "secret in option", ss.iter().map(|s| obs(one(), &Some(Secret::new(s.clone())))).collect());
    put(&mut out, "secret astring", ss.iter().flat_map(|s| astrings(s)).map(|a| obs(one(), &Secret::new(a))).collect());
    // decoding errors with buffered bytes
    derr::<CommandCodec>("command error", &["A1 LOGIN alice ", "A1 AUTHENTICATE PLAIN ", "", "A1 LOGIN alice pass ", "A1 NOOP\r"], &ss, &mut out);
    derr::<AuthenticateDataCodec>("data error", &["", "YQ==", "*"], &ss, &mut out);
    derr::<IdleDoneCodec>("idle error", &["", "DONE"], &ss, &mut out);
    derr::<GreetingCodec>("greeting error", &["", "* OK [", "* XX "], &ss, &mut out);
    derr::<ResponseCodec>("response error", &["", "* XX ", "+"], &ss, &mut out);
    // comparing, cloning, unwrapping
    for a in &ss {
        for b in [rng.pick(&ss).clone(), a.clone()] {
            let (x, y) = (Secret::new(a.clone()), Secret::from(b.clone()));
            use std::hash::{DefaultHasher, Hash, Hasher};
            let h = |x: &Secret<Vec<u8>>| {
                let mut h = DefaultHasher::new();
                x.hash(&mut h);
                h.finish()
            };
            out.put(&json!({"k":"sec","a":a,"b":b,"eq":x == y,"ne":x != y,"clone":x.clone() == x,"content":x.declassify(),"cloned":x.clone().declassify(),
                "stat":x.to_static().declassify(),"heq":h(&x)==h(&y),"ser":js(&x)}));
        }
    }
    json!({"records": out.finish(), "secrets": ss.len()})
}
