//! Small helpers: PRNG, record writer, panic capture.
use std::{fs, io::Write, panic};

pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03)
    }
    pub fn next(&mut self) -> u64 {
        let mut x = self.0;
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        self.0 = x;
        x.wrapping_mul(0x2545F4914F6CDD1D) >> 11
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 {
            0
        } else {
            (self.next() % n as u64) as usize
        }
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len())]
    }
}

/// Writes one JSON record per line, round-robin over shards, and keeps counts.
pub struct Out {
    files: Vec<std::io::BufWriter<fs::File>>,
    pub n: usize,
    cost: Vec<usize>,
}
impl Out {
    pub fn new(dir: &str, shards: usize) -> Self {
        fs::create_dir_all(dir).unwrap();
        Out {
            files: (0..shards)
                .map(|i| std::io::BufWriter::new(fs::File::create(format!("{dir}/shard{i}.ndjson")).unwrap()))
                .collect(),
            n: 0,
            cost: vec![0; shards],
        }
    }
    pub fn put(&mut self, v: &serde_json::Value) {
        let s = v.to_string();
        // least loaded shard
        let i = (0..self.cost.len()).min_by_key(|i| self.cost[*i]).unwrap();
        self.cost[i] += s.len() + 50;
        self.files[i].write_all(s.as_bytes()).unwrap();
        self.files[i].write_all(b"\n").unwrap();
        self.n += 1;
    }
    pub fn finish(mut self) -> usize {
        // TLC wants every shard file to be non-empty.
        for (i, f) in self.files.iter_mut().enumerate() {
            if self.cost[i] == 0 {
                f.write_all(b"{\"k\":\"nop\"}\n").unwrap();
            }
            f.flush().unwrap();
        }
        self.n
    }
}

/// Runs f, turning a panic into Err(message).
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    panic::catch_unwind(panic::AssertUnwindSafe(f)).map_err(|e| {
        if let Some(s) = e.downcast_ref::<String>() {
            s.clone()
        } else if let Some(s) = e.downcast_ref::<&str>() {
            s.to_string()
        } else {
            "panic".into()
        }
    })
}

pub fn digits(n: u64) -> serde_json::Value {
    serde_json::Value::Array(n.to_string().bytes().map(|b| (b - b'0').into()).collect())
}
