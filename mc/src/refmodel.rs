//! Reference model of the Chromaprint pipeline, written without sharing code with the library: whole-stream
//! processing, direct sums instead of integral images, its own Fourier transform and classifier tables.

use crate::util::Cfg;
use std::f64::consts::PI;

/// What the algorithm says about one item: its bits, and which bits depend on rounding.
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct RefItem {
    pub bits: u32,
    pub amb: u32,
}

const MARGIN: f64 = 2e-7;

// (filter, first band, height, width, thresholds)
const TABLE1: [(u8, usize, usize, usize, [f64; 3]); 16] = [
    (0, 0, 3, 15, [2.10543, 2.45354, 2.69414]),
    (1, 0, 4, 14, [-0.345922, 0.0463746, 0.446251]),
    (1, 4, 4, 11, [-0.392132, 0.0291077, 0.443391]),
    (3, 0, 4, 14, [-0.192851, 0.00583535, 0.204053]),
    (2, 8, 2, 4, [-0.0771619, -0.00991999, 0.0575406]),
    (5, 6, 2, 15, [-0.710437, -0.518954, -0.330402]),
    (1, 9, 2, 16, [-0.353724, -0.0189719, 0.289768]),
    (3, 4, 2, 10, [-0.128418, -0.0285697, 0.0591791]),
    (3, 9, 2, 16, [-0.139052, -0.0228468, 0.0879723]),
    (2, 1, 3, 6, [-0.133562, 0.00669205, 0.155012]),
    (3, 3, 6, 2, [-0.0267, 0.00804829, 0.0459773]),
    (2, 8, 1, 10, [-0.0972417, 0.0152227, 0.129003]),
    (3, 4, 4, 14, [-0.141434, 0.00374515, 0.149935]),
    (5, 4, 2, 15, [-0.64035, -0.466999, -0.285493]),
    (5, 9, 2, 3, [-0.322792, -0.254258, -0.174278]),
    (2, 1, 8, 4, [-0.0741375, -0.00590933, 0.0600357]),
];
const TABLE2: [(u8, usize, usize, usize, [f64; 3]); 16] = [
    (0, 4, 3, 15, [1.98215, 2.35817, 2.63523]),
    (4, 4, 6, 15, [-1.03809, -0.651211, -0.282167]),
    (1, 0, 4, 16, [-0.298702, 0.119262, 0.558497]),
    (3, 8, 2, 12, [-0.105439, 0.0153946, 0.135898]),
    (3, 4, 4, 8, [-0.142891, 0.0258736, 0.200632]),
    (4, 0, 3, 5, [-0.826319, -0.590612, -0.368214]),
    (1, 2, 2, 9, [-0.557409, -0.233035, 0.0534525]),
    (2, 7, 3, 4, [-0.0646826, 0.00620476, 0.0784847]),
    (2, 6, 2, 16, [-0.192387, -0.029699, 0.215855]),
    (2, 1, 3, 2, [-0.0397818, -0.00568076, 0.0292026]),
    (5, 10, 1, 15, [-0.53823, -0.369934, -0.190235]),
    (3, 6, 2, 10, [-0.124877, 0.0296483, 0.139239]),
    (2, 1, 1, 14, [-0.101475, 0.0225617, 0.231971]),
    (3, 5, 6, 4, [-0.0799915, -0.00729616, 0.063262]),
    (1, 9, 2, 12, [-0.272556, 0.019424, 0.302559]),
    (3, 4, 2, 14, [-0.164292, -0.0321188, 0.0846339]),
];

fn table(preset: u8) -> &'static [(u8, usize, usize, usize, [f64; 3]); 16] {
    match preset {
        1 => &TABLE1,
        _ => &TABLE2,
    }
}

/// Discrete Fourier power spectrum for bins 0..=n/2.
pub fn power(x: &[f64]) -> Vec<f64> {
    let n = x.len();
    if n.is_power_of_two() {
        let mut re = x.to_vec();
        let mut im = vec![0.0; n];
        let bits = n.trailing_zeros();
        for i in 0..n {
            let j = if bits == 0 { 0 } else { i.reverse_bits() >> (usize::BITS - bits) };
            if j > i {
                re.swap(i, j);
            }
        }
        let mut len = 2;
        while len <= n {
            let half = len / 2;
            for k in 0..half {
                let a = -2.0 * PI * k as f64 / len as f64;
                let (c, s) = (a.cos(), a.sin());
                let mut i = k;
                while i < n {
                    let (ur, ui) = (re[i], im[i]);
                    let (vr, vi) = (re[i + half], im[i + half]);
                    let (tr, ti) = (vr * c - vi * s, vr * s + vi * c);
                    re[i] = ur + tr;
                    im[i] = ui + ti;
                    re[i + half] = ur - tr;
                    im[i + half] = ui - ti;
                    i += len;
                }
            }
            len *= 2;
        }
        (0..=n / 2).map(|i| re[i] * re[i] + im[i] * im[i]).collect()
    } else {
        let tw: Vec<(f64, f64)> = (0..n)
            .map(|k| {
                let a = -2.0 * PI * k as f64 / n as f64;
                (a.cos(), a.sin())
            })
            .collect();
        (0..=n / 2)
            .map(|b| {
                let (mut r, mut i) = (0.0, 0.0);
                for (k, v) in x.iter().enumerate() {
                    let t = tw[(b * k) % n];
                    r += v * t.0;
                    i += v * t.1;
                }
                r * r + i * i
            })
            .collect()
    }
}

/// Chroma vector of one frame of samples in -1..1.
pub fn chroma(cfg: &Cfg, frame: &[f64]) -> [f64; 12] {
    let fs = cfg.m_fs();
    let win: Vec<f64> = frame
        .iter()
        .enumerate()
        .map(|(i, s)| s * (0.54 - 0.46 * (2.0 * PI * i as f64 / (fs as f64 - 1.0)).cos()))
        .collect();
    let p = power(&win);
    let idx = |f: f64| (fs as f64 * f / 11025.0).round() as usize;
    let lo = idx(28.0).max(1);
    let hi = idx(3520.0).min(fs / 2);
    let mut out = [0.0; 12];
    for (i, &energy) in p.iter().enumerate().take(hi).skip(lo) {
        let octave = (i as f64 * 11025.0 / fs as f64 / 27.5).log2();
        let note = 12.0 * (octave - octave.floor());
        let band = note as usize;
        let frac = note - band as f64;
        if cfg.m_interp() {
            // Share with the neighbouring band the note is closer to.
            let (other, own) = if frac < 0.5 {
                ((band + 11) % 12, 0.5 + frac)
            } else if frac > 0.5 {
                ((band + 1) % 12, 1.5 - frac)
            } else {
                (band, 1.0)
            };
            out[band] += energy * own;
            out[other] += energy * (1.0 - own);
        } else {
            out[band] += energy;
        }
    }
    out
}

/// Fingerprint of a native-rate mono stream.
pub fn reference(cfg: &Cfg, samples: &[i16]) -> Vec<RefItem> {
    let x: Vec<f64> = samples.iter().map(|&s| s as f64 / 32767.0).collect();
    reference_f(cfg, &x)
}

pub fn reference_f(cfg: &Cfg, x: &[f64]) -> Vec<RefItem> {
    let fs = cfg.m_fs();
    let hop = cfg.m_hop();
    let coefs = cfg.m_coefs();
    let mut rows = vec![];
    let mut at = 0;
    while at + fs <= x.len() {
        rows.push(chroma(cfg, &x[at..at + fs]));
        at += hop;
    }
    // Time filter and normalisation; `weird` marks rows whose norm is on the edge of being zeroed.
    let k = coefs.len();
    let mut img = vec![];
    for i in 0..(rows.len() + 1).saturating_sub(k) {
        let mut r = [0.0; 12];
        for (j, c) in coefs.iter().enumerate() {
            for b in 0..12 {
                r[b] += rows[i + j][b] * c;
            }
        }
        let norm = r.iter().map(|v| v * v).sum::<f64>().sqrt();
        let weird = (norm - 0.01).abs() < 1e-8;
        if norm < 0.01 {
            r = [0.0; 12];
        } else {
            for v in &mut r {
                *v /= norm;
            }
        }
        img.push((r, weird));
    }
    let t = table(cfg.preset);
    let width = 16;
    let mut items = vec![];
    for i in 0..(img.len() + 1).saturating_sub(width) {
        let mut it = RefItem { bits: 0, amb: 0 };
        for (kind, y, h, w, th) in t {
            let (y, h, w) = (*y, *h, *w);
            let area = |x0: usize, y0: usize, x1: usize, y1: usize| -> f64 {
                let mut s = 0.0;
                for row in &img[i + x0..i + x1] {
                    for v in &row.0[y0..y1] {
                        s += v;
                    }
                }
                s
            };
            let total = area(0, y, w, y + h);
            // The part counted positively.
            let a = match kind {
                0 => total,
                1 => area(0, y + h / 2, w, y + h),
                2 => area(w / 2, y, w, y + h),
                3 => area(0, y + h / 2, w / 2, y + h) + area(w / 2, y, w, y + h / 2),
                4 => area(0, y + h / 3, w, y + 2 * (h / 3)),
                _ => area(w / 3, y, 2 * (w / 3), y + h),
            };
            let b = if *kind == 0 { 0.0 } else { total - a };
            let v = (1.0 + a).ln() - (1.0 + b).ln();
            let level = th.iter().filter(|&&q| v >= q).count();
            let near = th.iter().any(|&q| (v - q).abs() < MARGIN)
                || img[i..i + w].iter().any(|r| r.1);
            it.bits = (it.bits << 2) | [0b00, 0b01, 0b11, 0b10][level];
            it.amb = (it.amb << 2) | if near { 3 } else { 0 };
        }
        items.push(it);
    }
    items
}

/// Compares a fingerprint with the model; returns the number of ambiguous items used.
pub fn compare(model: &[RefItem], got: &[u32]) -> Result<u64, String> {
    if model.len() != got.len() {
        return Err(format!("{} items, but the algorithm defines {}", got.len(), model.len()));
    }
    let mut used = 0;
    for (i, (m, g)) in model.iter().zip(got).enumerate() {
        if (m.bits ^ g) & !m.amb != 0 {
            return Err(format!("item {i} is {g:08x}, but the algorithm defines {:08x} (rounding-dependent bits {:08x})", m.bits, m.amb));
        }
        if m.amb != 0 {
            used += 1;
        }
    }
    Ok(used)
}
