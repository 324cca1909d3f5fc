//! Configurations, audio streams and helpers shared by all checks.

use rusty_chromaprint::{Configuration, Fingerprinter};
use std::collections::HashMap;
use std::sync::{Arc, Mutex, OnceLock};

/// Description of a configuration from which both the real one and the model parameters are built.
#[derive(Clone, Debug, PartialEq)]
pub struct Cfg {
    pub preset: u8, // 1..=5
    pub fs: Option<usize>,
    pub ov: Option<usize>,
    pub coefs: Option<Vec<f64>>,
    pub interp: Option<bool>,
    pub id: Option<u8>,
}

pub const COEFS5: [f64; 5] = [0.25, 0.75, 1.0, 0.75, 0.25];
pub const NATIVE: u32 = 11025;

pub fn preset(p: u8) -> Configuration {
    match p {
        1 => Configuration::preset_test1(),
        2 => Configuration::preset_test2(),
        3 => Configuration::preset_test3(),
        4 => Configuration::preset_test4(),
        5 => Configuration::preset_test5(),
        _ => unreachable!(),
    }
}

impl Cfg {
    pub fn preset(p: u8) -> Self {
        Cfg {
            preset: p,
            fs: None,
            ov: None,
            coefs: None,
            interp: None,
            id: None,
        }
    }
    pub fn small(p: u8, fs: usize, ov: usize) -> Self {
        Cfg {
            fs: Some(fs),
            ov: Some(ov),
            ..Cfg::preset(p)
        }
    }
    pub fn coefs(mut self, c: &[f64]) -> Self {
        self.coefs = Some(c.to_vec());
        self
    }
    pub fn interp(mut self, i: bool) -> Self {
        self.interp = Some(i);
        self
    }
    pub fn build(&self) -> Configuration {
        let mut c = preset(self.preset);
        if let Some(x) = self.fs {
            c = c.with_frame_size(x);
        }
        if let Some(x) = self.ov {
            c = c.with_frame_overlap(x);
        }
        if let Some(x) = &self.coefs {
            c = c.with_coefficients(x.clone());
        }
        if let Some(x) = self.interp {
            c = c.with_interpolation(x);
        }
        if let Some(x) = self.id {
            c = c.with_id(x);
        }
        c
    }
    // What the model says the effective parameters are.
    pub fn m_fs(&self) -> usize {
        self.fs
            .unwrap_or(if self.preset == 5 { 2048 } else { 4096 })
    }
    pub fn m_ov(&self) -> usize {
        self.ov
            .unwrap_or(if self.preset == 5 { 1024 } else { 4096 - 4096 / 3 })
    }
    pub fn m_hop(&self) -> usize {
        self.m_fs() - self.m_ov()
    }
    pub fn m_coefs(&self) -> Vec<f64> {
        self.coefs.clone().unwrap_or_else(|| COEFS5.to_vec())
    }
    pub fn m_interp(&self) -> bool {
        self.interp.unwrap_or(self.preset == 3)
    }
    pub fn m_id(&self) -> u8 {
        self.id.unwrap_or(self.preset - 1)
    }
    pub fn m_width(&self) -> usize {
        16
    }
    /// Frames needed before the first item, minus one hop.
    pub fn m_delay(&self) -> usize {
        (self.m_coefs().len() - 1 + self.m_width() - 1) * self.m_hop() + self.m_ov()
    }
    pub fn m_items(&self, n: usize) -> usize {
        if n < self.m_delay() {
            0
        } else {
            (n - self.m_delay()) / self.m_hop()
        }
    }
    pub fn label(&self) -> String {
        let mut s = format!("preset_test{}()", self.preset);
        if let Some(x) = self.fs {
            s += &format!(".with_frame_size({x})");
        }
        if let Some(x) = self.ov {
            s += &format!(".with_frame_overlap({x})");
        }
        if let Some(x) = &self.coefs {
            s += &format!(".with_coefficients(vec!{x:?})");
        }
        if let Some(x) = self.interp {
            s += &format!(".with_interpolation({x})");
        }
        if let Some(x) = self.id {
            s += &format!(".with_id({x})");
        }
        s
    }
}

/// A configuration whose items cost about a microsecond.
pub fn tiny(p: u8) -> Cfg {
    Cfg::small(p, 64, 32)
}

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

/// Deterministic test audio: a sum of two square-ish tones and noise whose pitch and level change every
/// few hundred samples; fills the 16-bit range.
pub fn audio(n: usize, seed: u64) -> Vec<i16> {
    let mut v = Vec::with_capacity(n);
    let (mut pa, mut pb) = (0u32, 0u32);
    let (mut sa, mut sb, mut lvl, mut nl) = (0u32, 0u32, 0i32, 0i32);
    for i in 0..n {
        if i % 173 == 0 {
            let r = mix(seed.wrapping_mul(1_000_003).wrapping_add((i / 173) as u64));
            sa = 20_000_000 + (r as u32 % 600_000_000);
            sb = 20_000_000 + ((r >> 32) as u32 % 600_000_000);
            lvl = [300, 3000, 9000, 15000, 15000, 9000, 12000, 15000][(r >> 13) as usize & 7];
            nl = [1, 100, 2000, 700][(r >> 40) as usize & 3];
        }
        pa = pa.wrapping_add(sa);
        pb = pb.wrapping_add(sb);
        let tri = |p: u32| -> i32 {
            let x = (p >> 16) as i32; // 0..65535
            (if x < 32768 { x } else { 65535 - x }) - 16384
        };
        let mut s = tri(pa) * lvl / 16384 + tri(pb) * lvl / 16384;
        s += (mix(seed ^ ((i as u64) << 20)) % (2 * nl as u64 + 1)) as i32 - nl;
        if i % 1009 == 77 {
            s = if i % 2 == 0 { 32767 } else { -32768 };
        }
        v.push(s.clamp(-32768, 32767) as i16);
    }
    v
}

type AudioCache = Mutex<HashMap<(usize, u64), Arc<Vec<i16>>>>;
static AUDIO: OnceLock<AudioCache> = OnceLock::new();
/// Cached `audio`.
pub fn audio_c(n: usize, seed: u64) -> Arc<Vec<i16>> {
    let m = AUDIO.get_or_init(Default::default);
    if let Some(a) = m.lock().unwrap().get(&(n, seed)) {
        return a.clone();
    }
    let a = Arc::new(audio(n, seed));
    m.lock().unwrap().insert((n, seed), a.clone());
    a
}

/// Melody of sines (for checks about musical similarity), sampled exactly at any rate.
pub fn melody(seed: u32, secs: f64, rate: f64, amp: f64) -> Vec<i16> {
    melody_from(seed, 0.0, secs, rate, amp)
}
pub fn melody_from(seed: u32, from: f64, secs: f64, rate: f64, amp: f64) -> Vec<i16> {
    const N: [f64; 8] = [220.0, 261.63, 329.63, 392.0, 523.25, 659.26, 880.0, 1046.5];
    let n = (secs * rate).round() as usize;
    // Notes last half a second; phases are continuous functions of time.
    let note = |k: u32, j: u32| -> f64 {
        let h = (k.wrapping_mul(2654435761).wrapping_add(seed.wrapping_mul(40503))) >> 7;
        N[(h >> (3 * j)) as usize & 7] * (1.0 + 0.01 * j as f64)
    };
    let total_notes = ((from + secs) / 0.5) as usize + 2;
    let mut phase0 = vec![[0.0f64; 3]; total_notes + 1];
    for k in 0..total_notes {
        for j in 0..3 {
            let p = phase0[k][j] + note(k as u32, j as u32) * 0.5;
            phase0[k + 1][j] = p - p.floor();
        }
    }
    (0..n)
        .map(|i| {
            let t = from + i as f64 / rate;
            let k = (t / 0.5) as usize;
            let dt = t - k as f64 * 0.5;
            let mut s = 0.0;
            for j in 0..3 {
                let p = phase0[k][j] + note(k as u32, j as u32) * dt;
                s += (p * std::f64::consts::TAU).sin() * [0.5, 0.3, 0.2][j];
            }
            (s * amp) as i16
        })
        .collect()
}

/// One-call execution.
pub fn fp(cfg: &Configuration, rate: u32, ch: u32, data: &[i16]) -> Vec<u32> {
    let mut p = Fingerprinter::new(cfg);
    p.start(rate, ch).expect("start with valid parameters");
    p.consume(data);
    p.finish();
    p.fingerprint().to_vec()
}

pub fn first_diff(a: &[u32], b: &[u32]) -> String {
    let n = a.len().min(b.len());
    for i in 0..n {
        if a[i] != b[i] {
            return format!(
                "lengths {} and {}, first difference at item {i}: {:08x} instead of {:08x}",
                a.len(),
                b.len(),
                a[i],
                b[i]
            );
        }
    }
    format!("lengths {} and {} (common prefix equal)", a.len(), b.len())
}

/// Lazily computed shared value keyed by an index; the computation may panic (in the code under test).
pub struct Lazy<T> {
    cells: Vec<OnceLock<Arc<T>>>,
}
impl<T> Lazy<T> {
    pub fn new(n: usize) -> Self {
        Lazy {
            cells: (0..n).map(|_| OnceLock::new()).collect(),
        }
    }
    pub fn get(&self, i: usize, f: impl FnOnce() -> T) -> Arc<T> {
        self.cells[i].get_or_init(|| Arc::new(f())).clone()
    }
}

/// Sizes worth trying as a call size: everything up to `all`, then neighbourhoods of powers of two and of
/// multiples of the buffer size.
pub fn call_sizes(all: usize, max: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (1..=all).collect();
    let mut k = 2;
    while k <= max {
        for d in [-2i64, -1, 0, 1, 2] {
            v.push((k as i64 + d) as usize);
            v.push((k as i64 * 3 / 2 + d) as usize);
        }
        k *= 2;
    }
    for m in 1..=3 {
        for d in [-3i64, -1, 0, 1, 3] {
            v.push((32768 * m + d) as usize);
        }
    }
    for x in [1000, 5000, 10000, 11025, 22050, 44100, 1152, 4608, 9216] {
        v.push(x);
    }
    v.retain(|&x| x >= 1 && x <= max);
    v.sort();
    v.dedup();
    v
}
