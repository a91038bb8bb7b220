//! Small helpers: deterministic randomness, panic capture, ndjson output.
use serde_json::Value;
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64, salt: u64) -> Self {
        let mut r = Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ salt.wrapping_mul(0xD1B54A32D192ED03));
        r.next();
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 {
            0
        } else {
            (self.next() % n as u64) as usize
        }
    }
    /// Inclusive range.
    pub fn range(&mut self, a: usize, b: usize) -> usize {
        a + self.below(b - a + 1)
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i + 1);
            v.swap(i, j);
        }
    }
    pub fn bytes32(&mut self) -> [u8; 32] {
        let mut b = [0u8; 32];
        for c in b.chunks_mut(8) {
            c.copy_from_slice(&self.next().to_le_bytes());
        }
        b
    }
}

/// Outcome of a call into the code under test.
pub enum Out<T> {
    Ok(T),
    Err,
    Panic,
}

thread_local! {
    static IN_CALL: std::cell::Cell<u32> = const { std::cell::Cell::new(0) };
}

/// Panics of the code under test are data; panics of the harness are printed.
pub fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        if IN_CALL.with(|c| c.get()) == 0 || std::env::var("VH_VERBOSE").is_ok() {
            eprintln!("harness panic: {i}");
        }
    }));
}

pub fn call<T, E>(f: impl FnOnce() -> Result<T, E>) -> Out<T> {
    IN_CALL.with(|c| c.set(c.get() + 1));
    let r = catch_unwind(AssertUnwindSafe(f));
    IN_CALL.with(|c| c.set(c.get() - 1));
    match r {
        Ok(Ok(t)) => Out::Ok(t),
        Ok(Err(_)) => Out::Err,
        Err(_) => Out::Panic,
    }
}

pub const NONE: i64 = -1;
pub const ERR: i64 = -2;
pub const PANIC: i64 = -3;
pub const UNKNOWN: i64 = -9;

impl<T> Out<T> {
    pub fn code(&self) -> i64 {
        match self {
            Out::Ok(_) => 0,
            Out::Err => ERR,
            Out::Panic => PANIC,
        }
    }
    pub fn word(&self) -> &'static str {
        match self {
            Out::Ok(_) => "ok",
            Out::Err => "err",
            Out::Panic => "panic",
        }
    }
}

pub fn write_ndjson(path: &str, evs: &[Value]) {
    let mut f = std::io::BufWriter::new(std::fs::File::create(path).expect("create trace file"));
    for e in evs {
        serde_json::to_writer(&mut f, e).unwrap();
        f.write_all(b"\n").unwrap();
    }
    f.flush().unwrap();
}

pub fn nibbles(b: &[u8]) -> Vec<u8> {
    b.iter().flat_map(|x| [x >> 4, x & 15]).collect()
}
pub fn from_nibbles(n: &[u8]) -> Vec<u8> {
    n.chunks(2).map(|c| (c[0] << 4) | c.get(1).copied().unwrap_or(0)).collect()
}
pub fn common(a: &[u8], b: &[u8]) -> usize {
    a.iter().zip(b).take_while(|(x, y)| x == y).count()
}

/// A value of an ordinary or an awkward length, often one that differs from an
/// earlier value in a single place only.
pub fn value_bytes(rng: &mut Rng, earlier: &[Vec<u8>]) -> Vec<u8> {
    let near: Vec<&Vec<u8>> = earlier.iter().filter(|v| !v.is_empty()).collect();
    if !near.is_empty() && rng.chance(2, 5) {
        let mut b = (*rng.pick(&near)).clone();
        let n = b.len();
        match rng.below(7) {
            0 => b[n - 1] ^= 1 << rng.below(8),
            1 => b[0] ^= 1 << rng.below(8),
            2 => b[n / 2] ^= 1 << rng.below(8),
            3 => b.push(0),
            4 => b.push(rng.next() as u8),
            5 => b.truncate(n - 1),
            _ => b.insert(0, 0),
        }
        return b;
    }
    let len = match rng.below(20) {
        0..=3 => *rng.pick(&[1usize, 2, 3, 4, 7, 8]),
        4..=7 => rng.range(5, 40),
        8..=11 => *rng.pick(&[20usize, 31, 32, 33, 47, 48, 55, 56, 63, 64, 65]),
        12..=14 => rng.range(66, 300),
        15 | 16 => *rng.pick(&[119usize, 120, 127, 128, 129, 200, 255, 256, 257, 511, 512, 513]),
        17 => *rng.pick(&[1000usize, 1023, 1024, 1025, 2048, 4095, 4096, 4097]),
        18 if rng.chance(1, 8) => *rng.pick(&[16_384usize, 65_535, 65_536, 65_537, 100_000]),
        _ => rng.range(1, 16),
    };
    match rng.below(12) {
        0 => vec![0u8; len],
        1 => vec![0xffu8; len],
        _ => (0..len).map(|_| (rng.next() & 0xff) as u8).collect(),
    }
}
