//! A client and a server built from the real encoders, splitters and decoders, connected by two byte streams
//! under a random schedule; everything they do is recorded for SessionTrace (C21).
use std::collections::HashSet;

use imap_codec::{
    decode::Decoder,
    encode::Fragment,
    fragmentizer::{DecodeMessageError, Fragmentizer},
    imap_types::{
        command::CommandBody,
        core::{LiteralMode, Tag},
        response::{CommandContinuationRequest, Response, Status, StatusBody, StatusKind, Tagged},
    },
    AuthenticateDataCodec, CommandCodec, GreetingCodec, IdleDoneCodec, ResponseCodec,
};
use serde_json::{json, Value};

use crate::{frag::*, gram::*, gramrun::style, msg::*, util::*};

struct Item {
    k: &'static str,
    tag: Vec<u8>,
    src: Vec<u8>,
    frs: Vec<(Value, Vec<u8>, bool)>, // record, bytes, needs a go-ahead
}

fn frs(m: &Msg) -> Vec<(Value, Vec<u8>, bool)> {
    m.encode()
        .map(|f| match f {
            Fragment::Line { data } => (json!({"t":"line","m":"","data":data}), data, false),
            Fragment::Literal { data, mode } => (json!({"t":"lit","m":format!("{mode:?}"),"data":data}), data, mode == LiteralMode::Sync),
        })
        .collect()
}

fn item(k: &'static str, tag: &[u8], src: Vec<u8>, m: &Msg) -> Item {
    Item { k, tag: tag.to_vec(), src, frs: frs(m) }
}

/// The server's side of message decoding.
fn finish(f: &Fragmentizer, kind: &str) -> Value {
    fn go<'a, C: Decoder>(f: &'a Fragmentizer, c: &C, w: impl Fn(C::Message<'a>) -> Msg) -> Value {
        match f.decode_message(c) {
            Ok(m) => json!({"k":"ok","v":lex(&w(m).json())}),
            Err(DecodeMessageError::DecodingFailure(_)) => json!({"k":"fail"}),
            Err(DecodeMessageError::DecodingRemainder { .. }) => json!({"k":"remainder"}),
            Err(DecodeMessageError::MessageTooLong { .. }) => json!({"k":"toolong"}),
            Err(DecodeMessageError::MessagePoisoned { .. }) => json!({"k":"poisoned"}),
        }
    }
    use bounded_static::IntoBoundedStatic as _;
    match kind {
        "cmd" => go(f, &CommandCodec::default(), |m| Msg::Cmd(m.into_static())),
        "auth" => go(f, &AuthenticateDataCodec::default(), |m| Msg::Auth(m.into_static())),
        "idle" => go(f, &IdleDoneCodec::default(), Msg::Idle),
        "gre" => go(f, &GreetingCodec::default(), |m| Msg::Gre(m.into_static())),
        _ => go(f, &ResponseCodec::default(), |m| Msg::Resp(m.into_static())),
    }
}

fn jtag(t: Option<Tag>) -> Value {
    match t {
        Some(t) => json!({"some":true,"tag":t.as_ref().as_bytes()}),
        None => json!({"some":false,"tag":[]}),
    }
}

/// A sentence of the kind that the decoder takes; preferably with literals.
fn sentence(g: &mut Gram, kind: &str, rng: &mut Rng, max: usize) -> Option<(Vec<u8>, Msg)> {
    let mut best: Option<(Vec<u8>, Msg)> = None;
    for _ in 0..if rng.chance(1, 3) { 1 } else { 10 } {
        let mut st = style(rng);
        st.fuel = *rng.pick(&[6, 15, 30]);
        let s = g.sentence(kind, rng, st);
        if s.len() > max {
            continue;
        }
        let lits = |x: &[u8]| x.windows(3).filter(|w| w == b"}\r\n").count();
        if let Dec::Ok(c, m) = decode(kind, &s) {
            if c == s.len() && best.as_ref().map(|b| lits(&b.0) < lits(&s)).unwrap_or(true) {
                best = Some((s, m))
            }
        }
    }
    best
}

/// A sentence with something long in it.
fn long(g: &mut Gram, kind: &str, places: &[(Vec<usize>, usize)], rng: &mut Rng) -> Option<(Vec<u8>, Msg)> {
    for _ in 0..10 {
        let mut st = style(rng);
        (st.edge, st.deep, st.fuel) = (false, false, *rng.pick(&[-1, 6]));
        let lits: Vec<_> = places.iter().filter(|t| g.literal(t)).collect();
        let t = if rng.chance(2, 3) && !lits.is_empty() { (*rng.pick(&lits)).clone() } else { rng.pick(places).clone() };
        g.set_huge(*rng.pick(&[100, 255, 256, 1000, 1024, 2000, 4095, 4096, 4097, 5000, 8192, 9000]));
        let s = g.directed(kind, &t, rng, st);
        if let Dec::Ok(c, m) = decode(kind, &s) {
            if c == s.len() {
                return Some((s, m));
            }
        }
    }
    None
}

fn script(g: &mut Gram, rng: &mut Rng, big: &[(Vec<usize>, usize)]) -> Vec<Item> {
    let mut v = vec![];
    let at = if big.is_empty() { 9 } else { rng.below(2) };
    for n in 0..1 + rng.below(4) {
        let Some((mut s, _)) = (match rng.below(8) {
            0 => Some((b"a IDLE\r\n".to_vec(), ())),
            1 => Some((b"a AUTHENTICATE PLAIN\r\n".to_vec(), ())),
            2 => Some((b"a authenticate plain dGVzdA==\r\n".to_vec(), ())),
            _ if n == at => long(g, "cmd", big, rng).map(|(s, _)| (s, ())),
            _ => sentence(g, "cmd", rng, 300).map(|(s, _)| (s, ())),
        }) else {
            continue;
        };
        // tags are unique
        let sp = s.iter().position(|c| *c == b' ').unwrap();
        let tag = format!("{}{}", *rng.pick(&["a", "A", "tag.", "]", "x-y_", "0", "}"]), n);
        s.splice(0..sp, tag.bytes());
        let Dec::Ok(c, m) = decode("cmd", &s) else { continue };
        if c != s.len() {
            continue;
        }
        let follow = match &m {
            Msg::Cmd(c) => match &c.body {
                CommandBody::Authenticate { initial_response: None, .. } => ("auth", 1 + rng.below(2)),
                CommandBody::Authenticate { .. } => ("auth", rng.below(2)),
                CommandBody::Idle => ("idle", 1),
                _ => ("", 0),
            },
            _ => unreachable!(),
        };
        v.push(item("cmd", tag.as_bytes(), s, &m));
        for _ in 0..follow.1 {
            let Some((s, m)) = sentence(g, follow.0, rng, 200) else {
                // what has to follow is missing
                v.pop();
                break;
            };
            v.push(item(follow.0, tag.as_bytes(), s, &m));
        }
    }
    v
}

fn dump(m: &Msg) -> Vec<u8> {
    m.encode().dump()
}

struct Run<'a> {
    ms: &'a [Item],
    ci: usize,
    cf: usize,
    wait: bool,
    c2s: Vec<u8>,
    s2c: Vec<u8>,
    sv: Fragmentizer,
    cl: Fragmentizer,
    pend: Option<LiteralMode>,
    fin: bool,
    si: usize,
    greeted: bool,
    sdry: bool,
    cdry: bool,
    evs: Vec<Value>,
}

impl Run<'_> {
    fn skip(&self, mut j: usize) -> usize {
        while j < self.ms.len() && self.ms[j].k != "cmd" {
            j += 1
        }
        j
    }
    fn go(&mut self, rng: &mut Rng) -> Vec<u8> {
        let m = match rng.below(3) {
            0 => CommandContinuationRequest::base64(&b"abc"[..]),
            1 => CommandContinuationRequest::base64(&b""[..]),
            _ => CommandContinuationRequest::basic(None, "Ready.").unwrap(),
        };
        let w = dump(&Msg::Resp(Response::CommandContinuationRequest(m)));
        self.s2c.extend_from_slice(&w);
        w
    }
    fn reply(&mut self, ok: bool) -> Vec<u8> {
        let tag = Tag::try_from(self.ms[self.si].tag.clone()).unwrap();
        let st = if ok { Status::ok(Some(tag), None, "done") } else { Status::no(Some(tag), None, "refused") };
        let w = dump(&Msg::Resp(Response::Status(st.unwrap())));
        self.s2c.extend_from_slice(&w);
        w
    }
    fn send(&mut self) -> bool {
        if self.wait || self.ci >= self.ms.len() {
            return false;
        }
        let (r, b, _) = &self.ms[self.ci].frs[self.cf];
        self.c2s.extend_from_slice(b);
        self.evs.push(json!({"e":"send","f":r}));
        self.cf += 1;
        if self.cf == self.ms[self.ci].frs.len() {
            self.ci += 1;
            self.cf = 0;
        }
        self.wait = self.ci < self.ms.len() && if self.cf == 0 { self.ms[self.ci].k != "cmd" } else { self.ms[self.ci].frs[self.cf].2 };
        true
    }
    fn amount(rng: &mut Rng, n: usize) -> usize {
        match rng.below(4) {
            0 => n,
            _ if n > 1500 => 1 + rng.below(n),
            1 => 1,
            2 => 1 + rng.below(n),
            _ => 1 + rng.below(n.min(30)),
        }
    }
    fn net(&mut self, rng: &mut Rng, to_server: bool) -> bool {
        let (from, to) = if to_server { (&mut self.c2s, &mut self.sv) } else { (&mut self.s2c, &mut self.cl) };
        if from.is_empty() {
            return false;
        }
        let n = Self::amount(rng, from.len());
        let b: Vec<u8> = from.drain(..n).collect();
        to.enqueue_bytes(&b);
        if to_server {
            self.sdry = false
        } else {
            self.cdry = false
        }
        self.evs.push(json!({"e":if to_server {"dc"} else {"ds"},"n":n}));
        true
    }
    fn server(&mut self, rng: &mut Rng) -> bool {
        if let Some(mode) = self.pend {
            if self.si >= self.ms.len() {
                return false; // out of step: the judge has seen it
            }
            self.pend = None;
            let tag = jtag(self.sv.decode_tag());
            let (d, w) = match (mode, rng.chance(3, 4)) {
                (LiteralMode::NonSync, true) => ("take", vec![]),
                (LiteralMode::NonSync, false) => {
                    self.sv.poison_message();
                    ("poison", vec![])
                }
                (LiteralMode::Sync, true) => ("go", self.go(rng)),
                (LiteralMode::Sync, false) => {
                    self.sv.skip_message();
                    let w = self.reply(false);
                    self.si = self.skip(self.si + 1);
                    ("skip", w)
                }
            };
            self.sdry = false;
            self.evs.push(json!({"e":"dec","d":d,"w":w,"tag":tag}));
            return true;
        }
        if self.fin {
            if self.si >= self.ms.len() {
                return false;
            }
            self.fin = false;
            let r = finish(&self.sv, self.ms[self.si].k);
            let tag = jtag(self.sv.decode_tag());
            let follows = self.ms.get(self.si + 1).map(|m| m.k != "cmd").unwrap_or(false);
            let (a, w) = if r["k"] != "ok" {
                ("no", self.reply(false))
            } else if !follows {
                ("done", self.reply(true))
            } else if rng.chance(3, 4) {
                ("go", self.go(rng))
            } else {
                ("no", self.reply(false))
            };
            self.si = if a == "no" { self.skip(self.si + 1) } else { self.si + 1 };
            self.evs.push(json!({"e":"fin","r":r,"a":a,"w":w,"tag":tag}));
            return true;
        }
        if self.sdry {
            return false;
        }
        let f = self.sv.progress();
        let mut e = json!({"e":"sp","f":jfrag(f),"fb":[],"done":self.sv.is_message_complete(),"exc":self.sv.is_max_message_size_exceeded(),"r":{"k":"none"}});
        match f {
            None => self.sdry = true,
            Some(fi) => {
                e["fb"] = json!(self.sv.fragment_bytes(fi));
                if let imap_codec::fragmentizer::FragmentInfo::Line { announcement, .. } = fi {
                    match announcement {
                        None => self.fin = true,
                        Some(a) => {
                            self.pend = Some(a.mode);
                            let k = self.ms.get(self.si).map(|m| m.k).unwrap_or("cmd");
                            e["r"] = decode(k, self.sv.message_bytes()).rec(true);
                        }
                    }
                }
            }
        }
        self.evs.push(e);
        true
    }
    fn client(&mut self) -> bool {
        if self.cdry {
            return false;
        }
        let f = self.cl.progress();
        let done = self.cl.is_message_complete();
        let kind = if self.greeted { "resp" } else { "gre" };
        let mut e = json!({"e":"cp","f":jfrag(f),"fb":[],"done":done,"r":{"k":"none"}});
        match f {
            None => self.cdry = true,
            Some(fi) => {
                e["fb"] = json!(self.cl.fragment_bytes(fi));
                if let imap_codec::fragmentizer::FragmentInfo::Line { announcement, .. } = fi {
                    if announcement.is_some() {
                        e["r"] = decode(kind, self.cl.message_bytes()).rec(true);
                    } else {
                        e["r"] = finish(&self.cl, kind);
                        if self.greeted && self.wait {
                            match self.cl.decode_message(&ResponseCodec::default()) {
                                Ok(Response::CommandContinuationRequest(_)) => self.wait = false,
                                Ok(Response::Status(Status::Tagged(Tagged { tag, body: StatusBody { kind: StatusKind::No, .. } })))
                                    if tag.as_ref().as_bytes() == self.ms[self.ci].tag =>
                                {
                                    self.ci = self.skip(self.ci + 1);
                                    self.cf = 0;
                                    self.wait = false;
                                }
                                _ => {}
                            }
                        }
                        self.greeted = true;
                    }
                }
            }
        }
        self.evs.push(e);
        true
    }
    fn say(&mut self, m: &'static str, s: &[u8], msg: &Msg) {
        let w = dump(msg);
        self.s2c.extend_from_slice(&w);
        self.evs.push(json!({"e":"say","m":m,"b":s,"w":w}));
    }
}

/// A response line that itself ends like an announcement is read as one: not for this purpose.
fn plain_end(b: &[u8]) -> bool {
    !b.ends_with(b"}\r\n")
}

pub fn main(grammar: &str, seed: u64, scale: usize, dir: &str, shards: usize) -> Value {
    let mut g = Gram::load(grammar);
    let mut out = Out::new(dir, shards);
    let mut rng = Rng::new(seed);
    let mut seen = HashSet::new();
    let (mut events, mut skips, mut poisons, mut toolong, mut gos) = (0usize, 0usize, 0usize, 0usize, 0usize);
    let big: Vec<_> = g.sizes("cmd").into_iter().filter(|t| g.token(t)).collect();
    for it in 0..scale * 100 {
        let ms = script(&mut g, &mut rng, if it % 40 == 5 { &big } else { &[] });
        if ms.is_empty() {
            continue;
        }
        let limit = if rng.chance(1, 4) { Some(16 + if it % 40 == 5 { rng.below(9000) } else { rng.below(60) } as u32) } else { None };
        let mut r = Run {
            ms: &ms,
            ci: 0,
            cf: 0,
            wait: false,
            c2s: vec![],
            s2c: vec![],
            sv: new(limit),
            cl: new(None),
            pend: None,
            fin: false,
            si: 0,
            greeted: false,
            sdry: false,
            cdry: false,
            evs: vec![],
        };
        let gre = loop {
            if let Some(x) = sentence(&mut g, "gre", &mut rng, 150) {
                if plain_end(&x.0) {
                    break x;
                }
            }
        };
        let bias = rng.below(4);
        let res = guarded(|| {
            r.say("gre", &gre.0, &gre.1);
            let mut says = rng.below(3);
            let mut idle = 0;
            for _ in 0..3000 {
                let did = match rng.below(8) {
                    0 | 1 => (0..if bias == 1 { 5 } else { 1 }).any(|_| r.send()),
                    2 => r.net(&mut rng, true),
                    3 => r.net(&mut rng, false),
                    4 | 5 => r.server(&mut rng),
                    6 => r.client(),
                    _ => {
                        if says > 0 && rng.chance(1, 10) {
                            says -= 1;
                            if let Some((s, m)) = sentence(&mut g, "resp", &mut rng, 250) {
                                if let Msg::Resp(Response::Data(_)) = m {
                                    if plain_end(&s) && plain_end(&dump(&m)) {
                                        r.say("resp", &s, &m)
                                    }
                                }
                            }
                            true
                        } else {
                            false
                        }
                    }
                };
                idle = if did { 0 } else { idle + 1 };
                if idle > 200 {
                    break;
                }
            }
        });
        if let Err(e) = res {
            r.evs.push(json!({"e":"panic","s":e}))
        }
        for e in &r.evs {
            match (e["d"].as_str(), e["r"]["k"].as_str()) {
                (Some("skip"), _) => skips += 1,
                (Some("poison"), _) => poisons += 1,
                (Some("go"), _) => gos += 1,
                (_, Some("toolong")) => toolong += 1,
                _ => {}
            }
        }
        events += r.evs.len();
        let rec = json!({"k":"sess","msgs":ms.iter().map(|m| json!({"k":m.k,"b":m.src})).collect::<Vec<_>>(),"limit":jlimit(limit),"evs":r.evs});
        if seen.insert(rec.to_string()) {
            out.put(&rec)
        }
    }
    json!({"records":out.finish(),"events":events,"skipped":skips,"poisoned":poisons,"too_long":toolong,"go_aheads":gos})
}
