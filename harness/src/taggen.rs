//! Generated tags (C19).
use std::{
    collections::hash_map::DefaultHasher,
    hash::{Hash, Hasher},
    sync::{
        atomic::{AtomicUsize, Ordering},
        Arc, Mutex,
    },
    thread,
};

use imap_codec::imap_types::core::{Tag, TagGenerator};
use serde_json::{json, Value};

use crate::util::*;

pub fn main(_prop: &str, seed: u64, scale: usize, dir: &str, shards: usize) -> Value {
    let mut out = Out::new(dir, shards);
    let mut rng = Rng::new(seed);
    let mut all: Vec<Tag<'static>> = vec![];
    // one generator for long, several in turn
    let mut g = TagGenerator::new();
    for _ in 0..70_000 * scale {
        all.push(g.generate())
    }
    let mut gs: Vec<TagGenerator> = (0..130).map(|_| TagGenerator::new()).collect();
    for _ in 0..130 {
        for g in gs.iter_mut() {
            all.push(g.generate())
        }
    }
    for _ in 0..3000 * scale {
        let i = rng.below(gs.len());
        all.push(gs[i].generate());
        if rng.chance(1, 8) {
            gs[i] = TagGenerator::new()
        }
        if rng.chance(1, 50) {
            gs.push(TagGenerator::new())
        }
    }
    // threads that create and draw at the same moment, generators handed between threads
    let threads = thread::available_parallelism().map(|n| n.get()).unwrap_or(8).clamp(4, 16);
    let rounds = 4000 * scale;
    let arrive = Arc::new(AtomicUsize::new(0));
    let pool: Arc<Mutex<Vec<TagGenerator>>> = Arc::new(Mutex::new(vec![]));
    let hs: Vec<_> = (0..threads)
        .map(|t| {
            let (arrive, pool) = (arrive.clone(), pool.clone());
            thread::spawn(move || {
                let mut tags = vec![];
                for r in 0..rounds {
                    // spin until everybody is here
                    arrive.fetch_add(1, Ordering::SeqCst);
                    let mut spin = 0u32;
                    while arrive.load(Ordering::SeqCst) < threads * (r + 1) {
                        spin += 1;
                        if spin > 20_000 {
                            thread::yield_now()
                        } else {
                            std::hint::spin_loop()
                        }
                    }
                    let mut g = TagGenerator::new();
                    tags.push(g.generate());
                    if (r + t) % 7 == 0 {
                        tags.push(g.generate());
                        let other = {
                            let mut p = pool.lock().unwrap();
                            p.push(g);
                            if p.len() > 3 { Some(p.remove(0)) } else { None }
                        };
                        if let Some(mut o) = other {
                            tags.push(o.generate());
                            tags.push(o.generate());
                        }
                    }
                }
                tags
            })
        })
        .collect();
    for h in hs {
        all.extend(h.join().unwrap())
    }
    let n = all.len();
    // equal tags share a bucket; every bucket is one record
    let buckets = 64;
    let mut bs: Vec<Vec<String>> = vec![vec![]; buckets];
    for t in &all {
        let s = t.as_ref().to_string();
        let mut h = DefaultHasher::new();
        s.hash(&mut h);
        bs[(h.finish() % buckets as u64) as usize].push(s)
    }
    for b in bs {
        let sample: Vec<Vec<u8>> = b.iter().take(200).map(|s| s.as_bytes().to_vec()).collect();
        let legal: usize = b.iter().filter(|s| Tag::try_from(s.as_str()).is_ok()).count();
        out.put(&json!({"k":"tags","n":b.len(),"tags":b,"sample":sample,"readable":legal}));
    }
    json!({"records": out.finish(), "tags": n, "threads": threads, "rounds": rounds})
}
