//! Samples sentences of the exported grammar (spec/ImapGrammar.tla) and damaged variants of them.
use std::collections::HashMap;

use serde_json::Value;

use crate::util::*;

#[derive(Debug)]
pub struct Row {
    n: Vec<u8>,
}
#[derive(Debug)]
pub struct Fam {
    p: Vec<u8>,
    tab: Vec<Row>,
}
#[derive(Debug)]
pub enum Node {
    Kw { b: Vec<u8>, ci: bool },
    Cls { set: String, min: usize },
    Digs { lo: usize, hi: usize },
    Num { bits: u64, nz: bool },
    Quoted { utf8: bool },
    QChar,
    Lit { lit8: bool, lf: bool },
    B64,
    Seq(Vec<usize>),
    Alt(Vec<usize>),
    Opt(usize),
    Many { x: usize, sep: Option<usize>, min: usize },
    Ref { r: usize, d: usize },
    Deep(usize),
    Map { x: usize, f: String },
    Name { tab: Vec<Row>, fam: Vec<Fam> },
    Empty,
}

pub struct Gram {
    pub nodes: Vec<Node>,
    pub rules: HashMap<String, usize>,
    rule_names: Vec<String>,
    rule_nodes: Vec<usize>,
    pub root: HashMap<String, String>,
    classes: HashMap<String, Vec<u8>>,
    cost: Vec<usize>,
    /// how often each choice (alternative, option, repetition) was taken
    pub cov: Vec<Vec<usize>>,
    /// directed sampling: nodes to visit on the way, distances to each, position, and the variant to take at the last one
    path: Vec<usize>,
    dist: HashMap<usize, Vec<u32>>,
    pos: usize,
    force: usize,
    hit: bool,
    forced: Option<usize>,
    huge: usize,
    big: Option<usize>,
}

const FAR: u32 = u32::MAX;
/// the spelling that makes a place long
const BIG: usize = usize::MAX;
const WORDS: [&[u8]; 12] = [b"NIL", b"nil", b"INBOX", b"inbox", b"Inbox", b"OK", b"UID", b"BODY", b"[]", b"]", b"[x]", b"{3}"];
const MBOX: [&str; 11] = ["INBOX", "inbox", "Inbox", "\"INBOX\"", "\"inBox\"", "{5}\r\ninbox", "{5+}\r\nINBOX", "INBOXX", "INBO", "INBOX/a", "\"INBO\\\"X\""];

fn bytes(v: &Value) -> Vec<u8> {
    v.as_array().map(|a| a.iter().map(|x| x.as_u64().unwrap() as u8).collect()).unwrap_or_default()
}
fn rows(v: &Value) -> Vec<Row> {
    v.as_array().map(|a| a.iter().map(|x| Row { n: bytes(&x["n"]) }).collect()).unwrap_or_default()
}

#[derive(Clone, Copy)]
pub struct Style {
    /// flip keyword case
    pub case: bool,
    /// allow nesting over the limit
    pub deep: bool,
    /// boundary-heavy
    pub edge: bool,
    /// 0: any; 1: prefer canonical things (upper case, plain)
    pub fuel: i64,
}

impl Gram {
    pub fn load(path: &str) -> Gram {
        let v: Value = serde_json::from_str(&std::fs::read_to_string(path).unwrap()).unwrap();
        let mut g = Gram {
            nodes: vec![],
            rules: HashMap::new(),
            rule_names: vec![],
            rule_nodes: vec![],
            root: HashMap::new(),
            classes: HashMap::new(),
            cost: vec![],
            cov: vec![],
            path: vec![],
            dist: HashMap::new(),
            pos: 0,
            force: 0,
            hit: false,
            forced: None,
            huge: 0,
            big: None,
        };
        for (k, t) in v["cls"].as_object().unwrap() {
            let set = t.as_array().unwrap().iter().enumerate().filter(|(_, x)| x.as_bool().unwrap()).map(|(i, _)| i as u8).collect();
            g.classes.insert(k.clone(), set);
        }
        for k in v["g"].as_object().unwrap().keys() {
            g.rules.insert(k.clone(), g.rule_names.len());
            g.rule_names.push(k.clone());
        }
        for k in g.rule_names.clone() {
            let n = g.add(&v["g"][&k]);
            g.rule_nodes.push(n);
        }
        for (k, r) in v["root"].as_object().unwrap() {
            g.root.insert(k.clone(), r.as_str().unwrap().into());
        }
        g.costs();
        g
    }
    fn add(&mut self, v: &Value) -> usize {
        let xs = |g: &mut Gram| -> Vec<usize> { v["xs"].as_array().unwrap().iter().map(|x| g.add(x)).collect() };
        let n = match v["k"].as_str().unwrap() {
            "kw" => Node::Kw { b: bytes(&v["b"]), ci: v["ci"].as_bool().unwrap() },
            "cls" => Node::Cls { set: v["set"].as_str().unwrap().into(), min: v["min"].as_u64().unwrap() as usize },
            "digs" => Node::Digs { lo: v["lo"].as_u64().unwrap() as usize, hi: v["hi"].as_u64().unwrap() as usize },
            "num" => Node::Num { bits: v["bits"].as_u64().unwrap(), nz: v["nz"].as_bool().unwrap() },
            "quoted" => Node::Quoted { utf8: v["utf8"].as_bool().unwrap() },
            "qchar" => Node::QChar,
            "lit" => Node::Lit { lit8: v["lit8"].as_bool().unwrap(), lf: v["lf"].as_bool().unwrap() },
            "b64" => Node::B64,
            "seq" => Node::Seq(xs(self)),
            "alt" => Node::Alt(xs(self)),
            "opt" => Node::Opt(self.add(&v["x"])),
            "many" => {
                let x = self.add(&v["x"]);
                let sep = if v["sep"]["k"] == "none" { None } else { Some(self.add(&v["sep"])) };
                Node::Many { x, sep, min: v["min"].as_u64().unwrap() as usize }
            }
            "ref" => Node::Ref { r: self.rules[v["r"].as_str().unwrap()], d: v["d"].as_u64().unwrap() as usize },
            "deep" => Node::Deep(self.add(&v["x"])),
            "as" => Node::Map { x: self.add(&v["x"]), f: "as".into() },
            "map" => Node::Map { x: self.add(&v["x"]), f: v["f"].as_str().unwrap().into() },
            "name" => Node::Name {
                tab: rows(&v["tab"]),
                fam: v["fam"].as_array().map(|a| a.iter().map(|f| Fam { p: bytes(&f["p"]), tab: rows(&f["tab"]) }).collect()).unwrap_or_default(),
            },
            _ => Node::Empty,
        };
        self.nodes.push(n);
        let n = self.nvar(self.nodes.len() - 1, true);
        self.cov.push(vec![0; n]);
        self.nodes.len() - 1
    }
    /// cheapest derivation of every node
    fn costs(&mut self) {
        let big = 1_000_000;
        self.cost = vec![big; self.nodes.len()];
        loop {
            let mut ch = false;
            for i in 0..self.nodes.len() {
                let c = match &self.nodes[i] {
                    Node::Seq(xs) => xs.iter().map(|x| self.cost[*x]).sum::<usize>(),
                    Node::Alt(xs) => xs.iter().map(|x| self.cost[*x]).min().unwrap(),
                    Node::Opt(_) => 0,
                    Node::Many { x, min, .. } => self.cost[*x] * min,
                    Node::Ref { r, .. } => self.cost[self.rule_nodes[*r]],
                    Node::Deep(x) => self.cost[*x] + 3,
                    Node::Map { x, .. } => self.cost[*x],
                    _ => 1,
                }
                .min(big);
                if c < self.cost[i] {
                    self.cost[i] = c;
                    ch = true;
                }
            }
            if !ch {
                break;
            }
        }
    }
    pub fn sentence(&mut self, kind: &str, rng: &mut Rng, st: Style) -> Vec<u8> {
        let r = self.rules[&self.root[kind]];
        let mut out = vec![];
        let mut fuel = st.fuel;
        self.gen(self.rule_nodes[r], rng, st, &mut fuel, 0, &mut out, false);
        out
    }
    /// every place that can be made long
    pub fn sizes(&self, kind: &str) -> Vec<(Vec<usize>, usize)> {
        let mut v: Vec<Vec<usize>> = self.targets(kind, true).into_iter().map(|t| t.0).collect();
        v.dedup();
        v.into_iter()
            .filter(|p| matches!(&self.nodes[*p.last().unwrap()], Node::Cls { .. } | Node::Num { .. } | Node::Quoted { .. } | Node::Lit { .. } | Node::B64 | Node::Many { .. } | Node::Name { .. }))
            .map(|p| (p, BIG))
            .collect()
    }
    /// whether a place is a single token of free length
    pub fn token(&self, t: &(Vec<usize>, usize)) -> bool {
        matches!(&self.nodes[*t.0.last().unwrap()], Node::Cls { .. } | Node::Quoted { .. } | Node::Lit { .. } | Node::B64 | Node::Name { .. })
    }
    pub fn literal(&self, t: &(Vec<usize>, usize)) -> bool {
        matches!(&self.nodes[*t.0.last().unwrap()], Node::Lit { .. })
    }
    /// the size of the thing the next directed sentence makes long (`BIG`)
    pub fn set_huge(&mut self, n: usize) {
        self.huge = n
    }
    /// how many ways of spelling this node are told apart (edge: including illegal ones)
    fn nvar(&self, node: usize, edge: bool) -> usize {
        let e = |legal: usize, more: usize| legal + if edge { more } else { 0 };
        match &self.nodes[node] {
            Node::Alt(xs) => xs.len(),
            Node::Opt(_) => 2,
            Node::Many { .. } => e(4, 3),
            // only where sought: each part left out, two parts exchanged, a part repeated, a space put in
            Node::Seq(xs) => if edge { xs.len() + 3 } else { 0 },
            // only where sought: the last character missing, the first one missing, one more
            Node::Kw { b, ci } => if *ci && b.iter().any(|c| c.is_ascii_alphabetic()) { e(3, 3) } else { e(0, 2) },
            Node::Cls { set, .. } => if set == "tag" { 4 } else { e(4, 3) },
            Node::Digs { lo, hi } => hi - lo + 1,
            Node::Num { nz, .. } => if *nz { e(9, 5) } else { e(10, 4) },
            Node::Quoted { utf8 } => if *utf8 { e(9, 1) } else { 7 },
            Node::QChar => 4,
            Node::Lit { .. } => e(10, 2),
            Node::B64 => e(6, 3),
            Node::Name { tab, fam } => tab.len() + fam.iter().map(|f| f.tab.len() + 1).sum::<usize>() + e(2, 8),
            Node::Map { f, .. } => match f.as_str() {
                "date" => e(5, 3),
                "datetime" => e(7, 4),
                "mailbox" => MBOX.len() + 4,
                _ => 0,
            },
            _ => 0,
        }
    }
    fn choose(&mut self, node: usize, n: usize, rng: &mut Rng) -> usize {
        let c = &self.cov[node];
        let k = if let Some(k) = self.forced.take().filter(|k| *k != BIG) {
            k.min(n - 1)
        } else if rng.chance(1, 2) {
            let m = (0..n).map(|i| c[i]).min().unwrap();
            let least: Vec<usize> = (0..n).filter(|i| c[*i] == m).collect();
            *rng.pick(&least)
        } else {
            rng.below(n)
        };
        self.cov[node][k] += 1;
        k
    }
    fn children(&self, node: usize) -> Vec<usize> {
        match &self.nodes[node] {
            Node::Seq(xs) | Node::Alt(xs) => xs.clone(),
            Node::Opt(x) | Node::Deep(x) | Node::Map { x, .. } => vec![*x],
            Node::Many { x, sep, .. } => sep.iter().copied().chain([*x]).collect(),
            Node::Ref { r, .. } => vec![self.rule_nodes[*r]],
            _ => vec![],
        }
    }
    fn distances(&self, target: usize) -> Vec<u32> {
        let mut d = vec![FAR; self.nodes.len()];
        d[target] = 0;
        loop {
            let mut ch = false;
            for i in 0..d.len() {
                let m = self.children(i).into_iter().map(|c| d[c]).min().unwrap_or(FAR);
                if m != FAR && m + 1 < d[i] {
                    d[i] = m + 1;
                    ch = true
                }
            }
            if !ch {
                return d;
            }
        }
    }
    /// all nodes below (within the same rule and the rules it refers to), None if recursive or large
    fn below(&self, node: usize) -> Option<Vec<usize>> {
        fn go(g: &Gram, n: usize, out: &mut Vec<usize>, stack: &mut Vec<usize>) -> bool {
            if stack.contains(&n) || out.len() > 60 {
                return false;
            }
            out.push(n);
            stack.push(n);
            let r = g.children(n).into_iter().all(|c| go(g, c, out, stack));
            stack.pop();
            r
        }
        let mut out = vec![];
        if go(self, node, &mut out, &mut vec![]) { Some(out) } else { None }
    }
    /// every (place, spelling) of a kind of message: places inside small shared rules are told apart by where they are used
    pub fn targets(&self, kind: &str, broken: bool) -> Vec<(Vec<usize>, usize)> {
        let root = self.rule_nodes[self.rules[&self.root[kind]]];
        let mut seen = vec![false; self.nodes.len()];
        let mut todo = vec![root];
        let mut out = vec![];
        let nvar = |n: usize| match &self.nodes[n] {
            Node::Seq(_) | Node::Many { .. } | Node::Kw { .. } => self.nvar(n, broken),
            _ => self.nvar(n, true),
        };
        while let Some(n) = todo.pop() {
            if std::mem::replace(&mut seen[n], true) {
                continue;
            }
            for k in 0..nvar(n) {
                out.push((vec![n], k))
            }
            if let Node::Ref { r, .. } = self.nodes[n] {
                if let Some(inner) = self.below(self.rule_nodes[r]) {
                    for i in inner {
                        for k in 0..nvar(i) {
                            out.push((vec![n, i], k))
                        }
                    }
                    // do not count the shared places again
                    continue;
                }
            }
            todo.extend(self.children(n));
        }
        out
    }
    /// a sentence that takes the given spelling at the given place
    pub fn directed(&mut self, kind: &str, t: &(Vec<usize>, usize), rng: &mut Rng, st: Style) -> Vec<u8> {
        for n in &t.0 {
            if !self.dist.contains_key(n) {
                let d = self.distances(*n);
                self.dist.insert(*n, d);
            }
        }
        self.path = t.0.clone();
        self.pos = 0;
        self.force = t.1;
        self.hit = false;
        let r = self.rules[&self.root[kind]];
        let mut out = vec![];
        let mut fuel = st.fuel;
        self.gen(self.rule_nodes[r], rng, st, &mut fuel, 0, &mut out, true);
        out
    }
    pub fn hit(&self) -> bool {
        self.hit
    }
    fn far(&self, n: usize) -> u32 {
        self.dist[&self.path[self.pos]][n]
    }
    fn class(&self, set: &str, rng: &mut Rng) -> u8 {
        let c = &self.classes[set];
        match rng.below(6) {
            0 => *rng.pick(c),
            _ => {
                for _ in 0..8 {
                    let b = *rng.pick(b"abcXYZ0129-_.&/");
                    if c.contains(&b) {
                        return b;
                    }
                }
                *rng.pick(c)
            }
        }
    }
    fn len(&self, min: usize, rng: &mut Rng) -> usize {
        min + match rng.below(10) {
            0 => 0,
            1..=6 => rng.below(4),
            7 | 8 => rng.below(9),
            _ => rng.below(20),
        }
    }
    fn gen(&mut self, node: usize, rng: &mut Rng, st: Style, fuel: &mut i64, d: usize, out: &mut Vec<u8>, seek: bool) {
        *fuel -= 1;
        self.forced = None;
        let mut seek = seek;
        let mut here = false;
        if seek && self.path[self.pos] == node {
            self.pos += 1;
            if self.pos == self.path.len() {
                seek = false;
                here = true;
                self.hit = true;
                self.forced = Some(self.force);
            }
        }
        // a node may be its own next goal (a shared rule's root)
        if seek && self.path[self.pos] == node {
            self.pos += 1;
            seek = false;
            here = true;
            self.hit = true;
            self.forced = Some(self.force);
        }
        enum Act {
            Done,
            Seq(Vec<usize>, Option<usize>),
            Sub(usize, usize),
        }
        self.big = if here && self.force == BIG { Some(self.huge) } else { None };
        if self.big.is_some() {
            self.forced = None
        }
        let edge = st.edge || here;
        let nv = self.nvar(node, edge);
        let act = match &self.nodes[node] {
            Node::Kw { b, ci } => {
                let (b, ci) = (b.clone(), *ci);
                let letters = self.nvar(node, false);
                let n = if here { nv } else { letters };
                let mut k = if n > 0 && (st.case || here) { self.choose(node, n, rng) } else { 0 };
                let mut b = b;
                if here && k >= letters {
                    match k - letters {
                        0 => {
                            b.pop();
                        }
                        1 => b.push(*rng.pick(b"X 1-=")),
                        _ => {
                            b.remove(0);
                        }
                    }
                    k = 0
                }
                for c in b {
                    out.push(match k {
                        0 => c,
                        _ if !ci => c,
                        1 => c.to_ascii_lowercase(),
                        _ if rng.chance(1, 2) => c.to_ascii_lowercase(),
                        _ => c.to_ascii_uppercase(),
                    })
                }
                Act::Done
            }
            Node::Cls { set, min } => {
                let (set, min) = (set.clone(), *min);
                if let Some(n) = self.big {
                    for _ in 0..n {
                        let b = self.class(&set, rng);
                        out.push(b)
                    }
                    return;
                }
                match self.choose(node, nv, rng) {
                    0 => {
                        for _ in 0..self.len(min, rng) {
                            let b = self.class(&set, rng);
                            out.push(b)
                        }
                    }
                    1 => {
                        for _ in 0..min.max(1) {
                            out.push(*rng.pick(&self.classes[&set]))
                        }
                    }
                    2 => {
                        for _ in 0..min {
                            let b = self.class(&set, rng);
                            out.push(b)
                        }
                    }
                    3 => {
                        for _ in 0..3 + rng.below(25) {
                            out.push(*rng.pick(&self.classes[&set]))
                        }
                    }
                    // may leave the class: the specification decides
                    4 => out.extend_from_slice(WORDS[rng.below(2)]),
                    5 => out.extend_from_slice(WORDS[2 + rng.below(6)]),
                    _ => out.extend_from_slice(WORDS[8 + rng.below(4)]),
                }
                Act::Done
            }
            Node::Digs { lo, .. } => {
                let lo = *lo;
                for _ in 0..lo + self.choose(node, nv, rng) {
                    out.push(b'0' + rng.below(10) as u8)
                }
                Act::Done
            }
            Node::Num { bits, nz } => {
                let (bits, nz) = (*bits, *nz);
                let max = (1u128 << bits) - 1;
                let k = self.choose(node, nv, rng);
                let v: u128 = match k {
                    0 => 1,
                    1 => 2 + rng.below(8) as u128,
                    2 => 10,
                    3 => rng.below(100) as u128,
                    4 => rng.below(1_000_000) as u128,
                    5 => ((rng.next() as u128) << 12 | rng.next() as u128) & max,
                    6 => max,
                    7 => max - 1 - rng.below(2) as u128,
                    8 => (1u128 << (bits / 2)) - 1 + rng.below(3) as u128 + if rng.chance(1, 2) { 1u128 << (bits - 1) } else { 0 },
                    9 => 0,
                    10 => max + 1,
                    11 => max + 2 + rng.below(2000) as u128,
                    12 => max * 10 + rng.below(10) as u128,
                    _ => rng.below(100) as u128,
                };
                let v = if nz && v == 0 && k < 9 { 1 } else { v };
                if let Some(n) = self.big {
                    // many zeros before, or many digits
                    let c = if rng.chance(1, 2) { b'0' } else { b'1' + rng.below(9) as u8 };
                    out.extend((0..n).map(|_| c))
                }
                if k >= 13 {
                    out.extend_from_slice(*rng.pick(&[&b"0"[..], b"000"]))
                }
                out.extend_from_slice(v.to_string().as_bytes());
                Act::Done
            }
            Node::Quoted { utf8 } => {
                let utf8 = *utf8;
                let k = self.choose(node, nv, rng);
                out.push(b'"');
                let n = match k {
                    0 => 0,
                    1 => 1 + rng.below(5),
                    2 | 3 => 1,
                    _ => self.len(1, rng),
                };
                let n = self.big.unwrap_or(n);
                let k = if n > 600 && k < 7 { 5 } else { k };
                if k >= 7 {
                    // at least one character outside ASCII
                    out.extend_from_slice(rng.pick(&["é", "ß", "€", "😀", "\u{80}", "\u{7ff}", "\u{ffff}", "\u{10ffff}", "\u{d7ff}"]).as_bytes())
                }
                for i in 0..n {
                    if k == 2 || k == 3 {
                        out.push(b'\\');
                        out.push(if k == 2 { b'"' } else { b'\\' });
                    } else if k == 1 {
                        out.push(*rng.pick(b"abcXYZ019"))
                    } else if k == 4 && (i == 0 || i + 1 == n) {
                        out.push(b' ')
                    } else if k == 5 {
                        out.push(*rng.pick(&self.classes["quoted"]))
                    } else if n <= 600 && rng.chance(1, if k == 6 { 2 } else { 10 }) {
                        out.push(b'\\');
                        out.push(*rng.pick(b"\"\\"));
                    } else if utf8 && rng.chance(1, 3) && k >= 7 {
                        out.extend_from_slice(rng.pick(&["é", "ß", "€", "😀", "\u{80}", "\u{7ff}", "\u{ffff}", "\u{10ffff}", "\u{d7ff}"]).as_bytes())
                    } else {
                        let mut b = self.class("quoted", rng);
                        if rng.chance(1, 8) {
                            b = b' '
                        }
                        out.push(b)
                    }
                }
                if k == 9 {
                    out.extend_from_slice(*rng.pick(&[&[0xffu8][..], &[0xc3], &[0xe0, 0x80, 0x80], &[0xed, 0xa0, 0x80], &[0xf4, 0x90, 0x80, 0x80], &[0xc0, 0x80]]))
                }
                out.push(b'"');
                Act::Done
            }
            Node::QChar => {
                out.push(b'"');
                match self.choose(node, nv, rng) {
                    0 => out.extend_from_slice(b"\\\""),
                    1 => out.extend_from_slice(b"\\\\"),
                    2 => out.push(*rng.pick(b"/.|\\^~- 0NnIi") & 0x7f),
                    _ => out.push(self.class("quoted", rng)),
                }
                out.push(b'"');
                Act::Done
            }
            Node::Lit { lit8, lf } => {
                let (lit8, lf) = (*lit8, *lf && rng.chance(1, 2));
                let k = self.choose(node, nv, rng);
                let n = match k {
                    0 | 1 => 0,
                    2 | 3 => 1,
                    4 | 5 => 1 + rng.below(6),
                    6 | 7 => 2 + rng.below(10),
                    8 => 9 + rng.below(4),
                    _ => rng.below(30),
                };
                let n = self.big.unwrap_or(n);
                if lit8 {
                    out.push(b'~')
                }
                let zeros = if k == 10 { *rng.pick(&["0", "00"]) } else { "" };
                out.extend_from_slice(format!("{{{zeros}{n}{}}}{}", if k % 2 == 1 { "+" } else { "" }, if lf { "\n" } else { "\r\n" }).as_bytes());
                let start = out.len();
                for _ in 0..n {
                    out.push(match (k, rng.below(8)) {
                        (6 | 7, 0..=4) | (_, 0) => *rng.pick(b"\r\n\"\\{}()+ ]*"),
                        (_, 1) => rng.below(256) as u8,
                        (_, 2) if lit8 => 0,
                        _ => *rng.pick(b"abcXYZ019 "),
                    });
                    if !lit8 && *out.last().unwrap() == 0 {
                        *out.last_mut().unwrap() = 1
                    }
                }
                if k == 11 && n > 0 {
                    let i = start + rng.below(n);
                    out[i] = 0
                }
                Act::Done
            }
            Node::B64 => {
                let k = self.choose(node, nv, rng);
                let n = match k {
                    0..=4 => k,
                    _ => 1 + rng.below(12),
                };
                let n = self.big.unwrap_or(n);
                let data: Vec<u8> = (0..n).map(|_| rng.below(256) as u8).collect();
                out.extend_from_slice(b64(&data).as_bytes());
                let l = out.len();
                match k {
                    6 => {
                        out.pop();
                    }
                    7 => out[l - 1] = *rng.pick(b"=A/+b"),
                    8 => out.push(b'='),
                    _ => {}
                }
                Act::Done
            }
            Node::Seq(xs) => {
                let xs = xs.clone();
                let s = if seek {
                    (0..xs.len()).filter(|i| self.far(xs[*i]) != FAR).min_by_key(|i| self.far(xs[*i]))
                } else {
                    None
                };
                let mut xs = xs;
                if here {
                    let (n, k) = (xs.len(), self.choose(node, nv, rng));
                    match k.checked_sub(n) {
                        None => {
                            xs.remove(k);
                        }
                        Some(0) if n > 1 => {
                            let i = rng.below(n - 1);
                            xs.swap(i, i + 1)
                        }
                        Some(1) => {
                            let i = rng.below(n);
                            xs.insert(i, xs[i])
                        }
                        _ => {
                            let i = rng.below(n + 1);
                            for (j, x) in xs.into_iter().enumerate() {
                                if i == j {
                                    out.push(b' ')
                                }
                                self.gen(x, rng, st, fuel, d, out, false)
                            }
                            if i == n {
                                out.push(b' ')
                            }
                            return;
                        }
                    }
                }
                Act::Seq(xs, s)
            }
            Node::Alt(xs) => {
                let xs = xs.clone();
                let k = if seek {
                    let m = xs.iter().map(|x| self.far(*x)).min().unwrap();
                    let c: Vec<usize> = (0..xs.len()).filter(|i| self.far(xs[*i]) == m).collect();
                    *rng.pick(&c)
                } else if *fuel < 0 && !here {
                    let m = xs.iter().map(|x| self.cost[*x]).min().unwrap();
                    let c: Vec<usize> = (0..xs.len()).filter(|i| self.cost[xs[*i]] <= m).collect();
                    *rng.pick(&c)
                } else {
                    self.choose(node, xs.len(), rng)
                };
                Act::Sub(xs[k], d)
            }
            Node::Opt(x) => {
                let x = *x;
                if !seek && (*fuel < 0 && !here || self.choose(node, 2, rng) == 0) {
                    Act::Done
                } else {
                    Act::Sub(x, d)
                }
            }
            Node::Many { x, sep, min } => {
                let (x, sep, min) = (*x, *sep, *min);
                let k = if *fuel < 0 && !here { 0 } else { self.choose(node, if here { nv } else { 4 }, rng) };
                let mut n = match k {
                    3 => min + rng.below(6),
                    // one too few
                    4 => min.saturating_sub(1),
                    5 | 6 => min.max(2),
                    _ => min + k,
                };
                if let Some(b) = self.big {
                    *fuel = -1;
                    n = b.min(600)
                }
                let mut s = None;
                if seek {
                    let via_sep = sep.map(|s| self.far(s) < self.far(x)).unwrap_or(false);
                    n = n.max(if via_sep { 2 } else { 1 });
                    let step = if sep.is_some() { 2 } else { 1 };
                    s = Some(if via_sep { 1 } else { step * rng.below(n) });
                }
                let mut xs = vec![];
                for i in 0..n {
                    if i > 0 {
                        xs.extend(sep)
                    }
                    xs.push(x)
                }
                match k {
                    // a separator too many, at the end or between
                    5 if sep.is_some() => xs.extend(sep),
                    6 if sep.is_some() => xs.insert(1, sep.unwrap()),
                    5 | 6 => {
                        self.gen(x, rng, st, fuel, d, out, false);
                        out.push(b' ')
                    }
                    _ => {}
                }
                Act::Seq(xs, s)
            }
            Node::Ref { r, d: nd } => Act::Sub(self.rule_nodes[*r], if *nd == 0 { d } else { *nd }),
            Node::Deep(x) => {
                let x = *x;
                if d <= 2 && !st.deep {
                    *fuel = -1
                }
                if d == 0 {
                    *fuel = -1
                }
                Act::Sub(x, d.saturating_sub(1))
            }
            Node::Map { x, f } => {
                let (x, f) = (*x, f.clone());
                match f.as_str() {
                    "date" if !seek && nv > 0 => match self.choose(node, nv, rng) {
                        k @ 0..=6 => {
                            let q = k % 2 == 0;
                            if q {
                                out.push(b'"')
                            }
                            let day = match k {
                                0 => 1 + rng.below(9),
                                1 => 10 + rng.below(19),
                                5 | 6 => rng.below(34),
                                _ => 1 + rng.below(28),
                            };
                            let m = self.month(rng, st);
                            let d = if rng.chance(1, 2) { format!("{day:02}") } else { format!("{day}") };
                            out.extend_from_slice(format!("{d}-{m}-{:04}", self.year(rng)).as_bytes());
                            if q {
                                out.push(b'"')
                            }
                            Act::Done
                        }
                        _ => Act::Sub(x, d),
                    },
                    "datetime" if !seek && nv > 0 => match self.choose(node, nv, rng) {
                        10 => Act::Sub(x, d),
                        k => {
                            let e = (k >= 7) as usize;
                            let day = if k < 2 { 1 + rng.below(9) } else { 1 + rng.below(28 + e * 4) };
                            let d = if day < 10 && k % 2 == 0 { format!(" {day}") } else { format!("{day:02}") };
                            let m = self.month(rng, st);
                            let (h, mi, s) = if k == 3 {
                                *rng.pick(&[(0, 0, 0), (23, 59, 59), (23, 0, 0), (0, 59, 0)])
                            } else {
                                (rng.below(24 + e), rng.below(60 + e), rng.below(60 + 2 * e))
                            };
                            let (zh, zm) = match k {
                                2 => (0, 0),
                                4 => (23, 59),
                                5 | 7 | 8 => (rng.below(24 + e * 3), rng.below(60 + e * 40)),
                                6 => (0, 1 + rng.below(59)),
                                _ => (rng.below(14), *rng.pick(&[0, 30, 45])),
                            };
                            let sg = *rng.pick(b"+-") as char;
                            out.extend_from_slice(format!("\"{d}-{m}-{:04} {h:02}:{mi:02}:{s:02} {sg}{zh:02}{zm:02}\"", self.year(rng)).as_bytes());
                            Act::Done
                        }
                    },
                    "mailbox" if !seek && nv > 0 => {
                        let k = if here || rng.chance(1, 4) { self.choose(node, nv, rng) } else { nv };
                        if k < MBOX.len() {
                            out.extend_from_slice(MBOX[k].as_bytes());
                            Act::Done
                        } else {
                            Act::Sub(x, d)
                        }
                    }
                    _ => Act::Sub(x, d),
                }
            }
            Node::Name { .. } => {
                let k = self.choose(node, nv, rng);
                let Node::Name { tab, fam } = &self.nodes[node] else { unreachable!() };
                let nt = tab.len();
                let famn: usize = fam.iter().map(|f| f.tab.len() + 1).sum();
                let k = if self.big.is_some() { nt + famn } else { k };
                // a known name, or a family member
                let known = |k: usize, rng: &mut Rng| -> Vec<u8> {
                    if k < nt {
                        return tab[k].n.clone();
                    }
                    let mut k = k - nt;
                    for f in fam {
                        if k <= f.tab.len() {
                            let mut s = f.p.clone();
                            if k < f.tab.len() {
                                s.extend_from_slice(&f.tab[k].n)
                            } else {
                                for _ in 0..self.len(0, rng) {
                                    s.push(self.class("atom", rng))
                                }
                            }
                            return s;
                        }
                        k -= f.tab.len() + 1
                    }
                    unreachable!()
                };
                let mut s: Vec<u8> = if k < nt + famn {
                    known(k, rng)
                } else if k < nt + famn + 2 || nt + famn == 0 {
                    let n = self.big.unwrap_or_else(|| self.len(1, rng));
                    (0..n).map(|_| self.class("atom", rng)).collect()
                } else {
                    let mut s = known(rng.below(nt + famn), rng);
                    match k - nt - famn - 2 {
                        0 => s.push(*rng.pick(b"X=-1")),
                        1 if s.len() > 1 => {
                            s.pop();
                        }
                        2 => {
                            let i = rng.below(s.len());
                            s[i] = *rng.pick(b"X1-=_")
                        }
                        3 => s.insert(0, *rng.pick(b"X-=+._1")),
                        4 if s.len() > 1 => {
                            s.remove(0);
                        }
                        5 => {
                            let i = rng.below(s.len() + 1);
                            s.insert(i, self.class("atom", rng))
                        }
                        6 => {
                            let b = self.class("atom", rng);
                            s.push(b)
                        }
                        _ if s.len() > 2 => {
                            let i = rng.below(s.len() - 1);
                            s.swap(i, i + 1)
                        }
                        _ => {}
                    }
                    s
                };
                if k < nt + famn || k >= nt + famn + 2 {
                    let mode = if st.case { rng.below(4) } else { rng.below(2) };
                    for c in s.iter_mut() {
                        *c = match mode {
                            0 => *c,
                            1 => c.to_ascii_uppercase(),
                            2 => c.to_ascii_lowercase(),
                            _ if rng.chance(1, 2) => c.to_ascii_lowercase(),
                            _ => c.to_ascii_uppercase(),
                        }
                    }
                }
                out.extend_from_slice(&s);
                Act::Done
            }
            Node::Empty => Act::Done,
        };
        self.forced = None;
        match act {
            Act::Done => {}
            Act::Seq(xs, s) => {
                for (i, x) in xs.into_iter().enumerate() {
                    self.gen(x, rng, st, fuel, d, out, Some(i) == s)
                }
            }
            Act::Sub(x, d) => self.gen(x, rng, st, fuel, d, out, seek),
        }
    }
    fn month(&self, rng: &mut Rng, st: Style) -> String {
        let m = *rng.pick(&["Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"]);
        if st.case {
            match rng.below(3) {
                0 => m.to_uppercase(),
                1 => m.to_lowercase(),
                _ => m.into(),
            }
        } else {
            m.into()
        }
    }
    fn year(&self, rng: &mut Rng) -> usize {
        match rng.below(5) {
            0 => rng.below(10000),
            1 => *rng.pick(&[0, 1, 1900, 2000, 2100, 2024, 9999, 1600]),
            _ => 1970 + rng.below(100),
        }
    }
    /// (taken choices, all choices)
    /// All known names, with their family prefixes, and unknown members of the families.
    pub fn names(&self) -> Vec<Vec<u8>> {
        let mut out = vec![];
        for n in &self.nodes {
            if let Node::Name { tab, fam } = n {
                out.extend(tab.iter().map(|r| r.n.clone()));
                for f in fam {
                    out.extend(f.tab.iter().map(|r| [&f.p[..], &r.n[..]].concat()));
                    out.push([&f.p[..], b"X"].concat());
                    out.push(f.p.clone());
                }
            }
        }
        out.sort();
        out.dedup();
        out
    }

    pub fn coverage(&self) -> (usize, usize) {
        let all = self.cov.iter().map(|c| c.len()).sum();
        let hit = self.cov.iter().map(|c| c.iter().filter(|x| **x > 0).count()).sum();
        (hit, all)
    }
}

pub fn b64(d: &[u8]) -> String {
    const T: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    let mut s = String::new();
    for c in d.chunks(3) {
        let n = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for i in 0..4 {
            if i <= c.len() {
                s.push(T[(n >> (18 - 6 * i) & 63) as usize] as char)
            } else {
                s.push('=')
            }
        }
    }
    s
}

/// One small damage.
pub fn mutate(s: &[u8], rng: &mut Rng) -> Vec<u8> {
    let mut v = s.to_vec();
    let special: &[u8] = b"\r\n\"\\{}()[]<>+-*%~ .,:=/0159NILabz\x00\x01\x7f\x80\xff";
    if v.is_empty() {
        return vec![*rng.pick(special)];
    }
    let i = rng.below(v.len());
    match rng.below(12) {
        0 | 1 => {
            v.remove(i);
        }
        2 | 3 => v.insert(i, *rng.pick(special)),
        4 | 5 => v[i] = *rng.pick(special),
        6 => v.insert(i, b' '),
        7 => {
            // duplicate a slice
            let j = i + rng.below((v.len() - i).min(12)) + 1;
            let sl = v[i..j.min(v.len())].to_vec();
            for (k, b) in sl.into_iter().enumerate() {
                v.insert(i + k, b)
            }
        }
        8 => {
            // drop a slice
            let j = (i + rng.below(8) + 1).min(v.len());
            v.drain(i..j);
        }
        9 => {
            // act on a structural byte
            let idx: Vec<usize> = (0..v.len()).filter(|j| b" ()[]{}\"\r\n.<>".contains(&v[*j])).collect();
            if !idx.is_empty() {
                let j = *rng.pick(&idx);
                match rng.below(3) {
                    0 => {
                        v.remove(j);
                    }
                    1 => {
                        let b = v[j];
                        v.insert(j, b)
                    }
                    _ => v[j] = *rng.pick(b" ()[]{}\"\r\n.<>"),
                }
            }
        }
        10 => {
            v.truncate(i);
            v.extend_from_slice(b"\r\n")
        }
        _ => {
            // case flip
            if v[i].is_ascii_alphabetic() {
                v[i] ^= 0x20
            } else {
                v[i] = v[i].wrapping_add(1)
            }
        }
    }
    v
}
