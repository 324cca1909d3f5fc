//! Properties about what is computed: C06 (algorithm), C07 (down-mix), C08 (rates), C09 (rejected starts),
//! C16 (options).

use crate::engine::*;
use crate::ensure;
use crate::refmodel;
use crate::util::*;
use rusty_chromaprint::{Fingerprinter, ResetError};
use std::sync::Arc;

/// The block alphabet for C06: `n` samples of waveform `kind`, at absolute position `at`.
fn block(kind: usize, at: usize, n: usize, out: &mut Vec<i16>) {
    let rich = audio_c(1 << 17, 301);
    for i in at..at + n {
        let t = i as f64;
        let tone = |f: f64, a: f64| (t * f * std::f64::consts::TAU / 11025.0).sin() * a;
        let v = match kind {
            0 => 0.0,
            1 => tone(440.0, 9000.0) + tone(1318.5, 5000.0),
            2 => rich[i % (1 << 17)] as f64,
            3 => tone(130.8, 7000.0) + tone(196.0, 7000.0) + tone(2489.0, 2500.0),
            4 => (mix(i as u64) % 5) as f64 - 2.0,
            5 => tone(300.0 + (i % 9973) as f64 * 0.05, 12000.0) + (mix(i as u64 ^ 77) % 2001) as f64 - 1000.0,
            6 => {
                if i % 701 < 2 {
                    -32768.0
                } else {
                    40.0
                }
            }
            7 => tone(587.3, 3.0) + tone(740.0, 12000.0) * (0.5 + 0.5 * (t / 900.0).sin()),
            8 => (mix(i as u64 ^ 999) % 40001) as f64 - 20000.0,
            _ => {
                if (i / 17) % 2 == 0 {
                    32767.0
                } else {
                    -32768.0
                }
            }
        };
        out.push(v as i16);
    }
}

fn agree(cfg: &Cfg, data: &[i16], ex: &mut Exec, what: &dyn Fn() -> String) -> Res {
    let got = fp(&cfg.build(), NATIVE, 1, data);
    let model = refmodel::reference(cfg, data);
    ex.steps(4);
    ex.trace();
    ex.outcome(&got);
    for m in &model {
        ex.state((cfg.preset, m.bits));
    }
    match refmodel::compare(&model, &got) {
        Ok(u) => {
            ex.undecided(u);
            Ok(())
        }
        Err(e) => Err(format!("{}: {e}", what()).into()),
    }
}

pub fn c06(t: Tier) -> Vec<Family> {
    let mut fams = vec![];
    // Real presets.
    {
        let k = 7u64;
        let depth = t.pick(3, 5);
        let n = words_upto(k, depth);
        fams.push(Family::new(
            "preset-words",
            format!("presets 1..5 x all words of up to {depth} blocks over 7 waveforms, 13 items per block (after an initial block of the last letter that fills the window)"),
            n * 5,
            move |i, ex| {
                let cfg = Cfg::preset((i % 5) as u8 + 1);
                let w = word(i / 5, k, depth);
                let unit = cfg.m_hop() * 13;
                let mut data = vec![];
                block(*w.last().unwrap_or(&0), 7, cfg.m_delay().saturating_sub(unit / 2), &mut data);
                for (p, &b) in w.iter().enumerate() {
                    block(b, 100_000 * (p + 1), unit, &mut data);
                }
                ex.note(|| format!("{} blocks {w:?}, {} samples", cfg.label(), data.len()));
                agree(&cfg, &data, ex, &|| format!("{} on blocks {w:?}", cfg.label()))
            },
        ));
    }
    // Dense coverage of the classifiers: small frames make many items.
    {
        let k = 9u64;
        let depth = t.pick(4, 5);
        let n = words_upto(k, depth);
        let cfgs = vec![
            Cfg::small(1, 128, 64),
            Cfg::small(2, 128, 64),
            Cfg::small(3, 128, 96),
            Cfg::small(4, 256, 192),
            Cfg::small(5, 64, 24),
            Cfg::small(1, 512, 448).interp(true),
        ];
        let nc = cfgs.len() as u64;
        fams.push(Family::new(
            "small-frame-words",
            format!("{nc} configurations with small frames (all classifier tables, with and without interpolation) x all words of up to {depth} blocks over 9 waveforms, 24 items per block"),
            n * nc,
            move |i, ex| {
                let cfg = &cfgs[(i % nc) as usize];
                let w = word(i / nc, k, depth);
                let mut data = vec![];
                for (p, &b) in w.iter().enumerate() {
                    // The same letter at another position is another stretch of the waveform.
                    block(b, 50_000 * p + 977 * (i as usize % 83), cfg.m_hop() * 24, &mut data);
                }
                ex.note(|| format!("{} blocks {w:?}, {} samples", cfg.label(), data.len()));
                agree(cfg, &data, ex, &|| format!("{} on blocks {w:?}", cfg.label()))
            },
        ));
    }
    // A tone at every spectrum bin: which band each bin belongs to.
    {
        let step = t.pick(1usize, 1);
        let cfgs = [Cfg::preset(2), Cfg::preset(3), Cfg::preset(5), Cfg::preset(1)];
        let halves = t.pick(1u64, 2);
        let bins: Vec<usize> = (0..1500).step_by(step).collect();
        let total = bins.len() as u64 * 4 * halves;
        fams.push(Family::new(
            "every-bin",
            format!("a tone at each of the {} lowest spectrum bins (0..4 kHz, covering both band limits) against a fixed chord, presets 1, 2, 3, 5", bins.len()),
            total,
            move |i, ex| {
                let cfg = &cfgs[(i % 4) as usize];
                let b = bins[(i / 4) as usize % bins.len()];
                let half = (i / 4) as usize / bins.len();
                let f = (b as f64 + 0.5 * half as f64) * 11025.0 / cfg.m_fs() as f64;
                let n = cfg.m_delay() + 5 * cfg.m_hop();
                let data: Vec<i16> = (0..n)
                    .map(|j| {
                        let t = j as f64 / 11025.0 * std::f64::consts::TAU;
                        let swell = 0.3 + 0.7 * ((j / 9000) % 2) as f64;
                        ((t * f).cos() * 9000.0 * swell + (t * 523.25).sin() * 2500.0 + (t * 370.0).sin() * 2500.0) as i16
                    })
                    .collect();
                ex.note(|| format!("{} tone at {f:.1} Hz", cfg.label()));
                agree(cfg, &data, ex, &|| format!("{} on a tone at {f:.2} Hz with a chord", cfg.label()))
            },
        ));
    }
    // Loudness, including signals whose rows are normalised to zero.
    {
        let levels: Vec<f64> = (0..t.pick(64, 256)).map(|k| 2f64.powf(k as f64 * 15.0 / t.pick(64.0, 256.0))).collect();
        let cfgs = [Cfg::preset(2), Cfg::small(1, 128, 64), Cfg::small(3, 1024, 512), Cfg::preset(3)];
        let total = levels.len() as u64 * 4 * 3;
        fams.push(Family::new(
            "levels",
            format!("{} levels from 1 to 32767 x 3 waveforms x 4 configurations (crosses the silence limit of the normalisation)", levels.len()),
            total,
            move |i, ex| {
                let d = digits(i, &[4, 3, levels.len() as u64]);
                let cfg = &cfgs[d[0]];
                let a = levels[d[2]];
                let n = cfg.m_delay() + 8 * cfg.m_hop();
                let rich = audio_c(1 << 17, 302);
                let data: Vec<i16> = (0..n)
                    .map(|j| {
                        let t = j as f64 / 11025.0 * std::f64::consts::TAU;
                        let v = match d[1] {
                            0 => (t * 440.0).sin() * 0.6 + (t * 660.0).sin() * 0.4,
                            1 => rich[j] as f64 / 32768.0,
                            _ => (t * 880.0).sin() * (j as f64 / n as f64),
                        };
                        (v * a) as i16
                    })
                    .collect();
                ex.note(|| format!("{} waveform {} at level {a:.1}", cfg.label(), d[1]));
                agree(cfg, &data, ex, &|| format!("{} on waveform {} at level {a:.1}", cfg.label(), d[1]))
            },
        ));
    }
    // Long streams past every ring.
    {
        let cfgs = vec![Cfg::preset(1), Cfg::preset(2), Cfg::preset(3), Cfg::preset(4), Cfg::preset(5), Cfg::small(1, 64, 32), Cfg::small(3, 64, 0), Cfg::small(2, 32, 3)];
        let rows = t.pick(700usize, 3000);
        let seeds = t.pick(6u64, 24);
        fams.push(Family::new(
            "long-streams",
            format!("8 configurations x {seeds} waveforms x {rows} rows (past the 256-row image)"),
            8 * seeds,
            move |i, ex| {
                let cfg = &cfgs[(i % 8) as usize];
                let n = (cfg.m_fs() + rows * cfg.m_hop()).min(3_000_000);
                let data = audio(n, 310 + i / 8);
                ex.note(|| format!("{} waveform {} of {n} samples", cfg.label(), i / 8));
                agree(cfg, &data, ex, &|| format!("{} on waveform {} of {n} samples", cfg.label(), i / 8))
            },
        ));
    }
    fams
}

/// Mean of each frame rounded toward zero.
fn downmix(data: &[i16], ch: usize) -> Vec<i16> {
    data.chunks_exact(ch)
        .map(|f| (f.iter().map(|&x| x as i64).sum::<i64>() / ch as i64) as i16)
        .collect()
}

fn mixed(cfg: &Cfg, rate: u32, ch: usize, data: &[i16], ex: &mut Exec, what: &dyn Fn() -> String) -> Res {
    let got = fp(&cfg.build(), rate, ch as u32, data);
    let want = fp(&cfg.build(), rate, 1, &downmix(data, ch));
    ex.steps(8);
    ex.trace();
    ex.outcome(&got);
    ensure!(got == want, "{}: {} (compared with the mono mean)", what(), first_diff(&want, &got));
    Ok(())
}

pub fn c07(t: Tier) -> Vec<Family> {
    let mut fams = vec![];
    // The gain keeps one-bit signals above the silence limit, so that rounding is visible.
    let loud = Cfg::small(2, 64, 32).coefs(&[1e12]);
    let loud1 = Cfg::small(1, 64, 32).coefs(&[1e12]);
    let n = 64 + 32 * 24;
    // A fixed aperiodic 0/1 pattern.
    let pat: Arc<Vec<bool>> = Arc::new((0..4096).map(|i| mix(i as u64 / 3 + 5) & 4 != 0).collect());

    // All frames over a small alphabet, in pairs.
    for (ch, alpha, partners) in [
        (2usize, vec![-32768i16, -32767, -3, -2, -1, 0, 1, 2, 3, 32766, 32767], 0usize),
        (3, vec![-32768, -3, -2, -1, 0, 1, 2, 32767], t.pick(12, 60)),
        (4, vec![-32768, -2, -1, 0, 1, 32767], t.pick(12, 60)),
        (5, vec![-32768, -1, 0, 1, 2], t.pick(6, 40)),
        (6, vec![-32768, -1, 1, 32767], t.pick(4, 30)),
        (7, vec![-3, 0, 1], t.pick(4, 30)),
        (8, vec![-32768, -1, 32767], t.pick(2, 12)),
    ] {
        let k = alpha.len() as u64;
        let frames = k.pow(ch as u32);
        let second = if partners == 0 { frames } else { partners as u64 };
        let pat = pat.clone();
        let (a, b) = (loud.clone(), loud1.clone());
        fams.push(Family::new(
            format!("frames-{ch}"),
            format!("{ch} channels: every frame over {alpha:?} mixed in a fixed pattern with {second} other frames, alone and amid one-bit noise"),
            frames * second * 2,
            move |i, ex| {
                let noisy = i % 2 == 1;
                let i = i / 2;
                let f: Vec<i16> = digits(i % frames, &vec![k; ch]).iter().map(|&x| alpha[x]).collect();
                let gi = i / frames;
                let gi = if second == frames { gi } else { (gi * frames / second + gi) % frames };
                let g: Vec<i16> = digits(gi, &vec![k; ch]).iter().map(|&x| alpha[x]).collect();
                let mut data = Vec::with_capacity(n * ch);
                for (j, &p) in pat[..n].iter().enumerate() {
                    if noisy && mix(j as u64 + 31) % 3 == 0 {
                        data.resize(data.len() + ch, (mix(j as u64 ^ 4711) % 5) as i16 - 2);
                    } else {
                        data.extend_from_slice(if p { &f } else { &g });
                    }
                }
                ex.note(|| format!("{ch} channels, frames {f:?} and {g:?}"));
                ex.state((ch, &f));
                let cfg = if i % 2 == 0 { &a } else { &b };
                mixed(cfg, NATIVE, ch, &data, ex, &|| format!("{} with {ch} channels, frames {f:?} and {g:?} in turn", cfg.label()))
            },
        ));
    }

    // One active channel among c.
    {
        let cmax = t.pick(40u64, 150);
        let mut cases = vec![];
        for c in 1..=cmax as usize {
            for j in 0..c {
                cases.push((c, j));
            }
        }
        let amps = [0u8, 1, 2];
        let cfg = Cfg::small(2, 64, 32).coefs(&[1e6]);
        let total = (cases.len() * 3) as u64;
        fams.push(Family::new(
            "single-channel",
            format!("1..{cmax} channels x signal in one channel only (each in turn), the others silent, constant or inverted"),
            total,
            move |i, ex| {
                let (c, j) = cases[i as usize / 3];
                let kind = amps[i as usize % 3];
                let sig = audio_c(n, 401);
                let mut data = Vec::with_capacity(n * c);
                for (f, &v) in sig.iter().enumerate() {
                    for k in 0..c {
                        data.push(if k == j {
                            v
                        } else {
                            match kind {
                                0 => 0,
                                1 => -5,
                                _ => if (f / 7 + k) % 5 == 0 { -32768 } else { 3 },
                            }
                        });
                    }
                }
                ex.note(|| format!("{c} channels, signal in channel {j}, others kind {kind}"));
                ex.state((c, j, kind));
                mixed(&cfg, [NATIVE, 44100][(c + j) % 2], c, &data, ex, &|| format!("{c} channels, signal in channel {j} only (others kind {kind})"))
            },
        ));
    }
    // Different music in every channel; several lengths around the buffer.
    {
        let lens = [900usize, 32767, 32768, 32769, 66_000];
        let rates = [11025u32, 44100, 8000];
        let cmax = t.pick(10u64, 24);
        let cfg = Cfg::small(1, 64, 16);
        fams.push(Family::new(
            "rich-channels",
            format!("1..{cmax} channels of unrelated audio x lengths {lens:?} x rates {rates:?}, and presets"),
            cmax * 15 * 2,
            move |i, ex| {
                let d = digits(i, &[cmax, 5, 3, 2]);
                let ch = d[0] + 1;
                let data = audio_c(lens[d[1]] * ch, 411);
                let cfg = if d[3] == 0 { cfg.clone() } else { Cfg::preset(1 + ((d[0] + d[1]) % 5) as u8) };
                ex.note(|| format!("{} {ch} channels, {} frames at {} Hz", cfg.label(), lens[d[1]], rates[d[2]]));
                ex.state(&d);
                mixed(&cfg, rates[d[2]], ch, &data, ex, &|| format!("{} {ch} channels of unrelated audio, {} frames at {} Hz", cfg.label(), lens[d[1]], rates[d[2]]))
            },
        ));
    }
    // Extremes: sums that do not fit 16, 17, ... 32 bits.
    {
        let chans: Vec<usize> = t.pick(
            vec![2, 3, 4, 8, 9, 255, 256, 257, 1000, 32767, 32768, 65535, 65536, 65537, 65538, 70000],
            vec![2, 3, 4, 5, 6, 7, 8, 9, 16, 127, 128, 255, 256, 257, 511, 512, 1000, 4095, 32767, 32768, 32769, 65535, 65536, 65537, 65538, 70000, 100_000, 131_071, 131_072, 131_073, 140_000],
        );
        let vals = [(32767i16, 0i16), (-32768, 0), (32767, -32768), (-1, -32768)];
        let cfg = Cfg::small(2, 32, 16).coefs(&[1e6]);
        fams.push(Family::new(
            "extremes",
            format!("channel counts {chans:?} x all channels at an extreme of the 16-bit range"),
            (chans.len() * 4) as u64,
            move |i, ex| {
                let ch = chans[i as usize / 4];
                let (a, b) = vals[i as usize % 4];
                let frames = 32 + 16 * 19;
                let mut data = Vec::with_capacity(frames * ch);
                for f in 0..frames {
                    let v = if mix(f as u64 / 2 + ch as u64) & 8 == 0 { a } else { b };
                    data.resize(data.len() + ch, v);
                }
                ex.note(|| format!("{ch} channels all at {a} / {b}"));
                ex.state((ch, a, b));
                mixed(&cfg, NATIVE, ch, &data, ex, &|| format!("{ch} channels, all samples at {a} or {b}"))
            },
        ));
    }
    // Every 16-bit value in either channel; the sums stay within a few units of zero.
    {
        let group = 64u64;
        let span = t.pick(3i64, 9);
        let cfg = Cfg::small(2, 64, 48).coefs(&[1e12]);
        fams.push(Family::new(
            "every-value",
            format!("stereo: every 16-bit value in either channel with a partner that makes the sum -{span}..={span}, in groups of {group} consecutive values, 2 orders"),
            65536 / group * 4,
            move |i, ex| {
                let d = digits(i, &[2, 2, 65536 / group]);
                let base = -32768 + (d[2] as i64 * group as i64);
                let mut data = vec![];
                for k in 0..480u64 {
                    let v = base + if k < group { k } else { mix(k / 2 + d[1] as u64 * 555) % group } as i64;
                    let delta = (mix(k * 3 + d[1] as u64) % (2 * span as u64 + 1)) as i64 - span;
                    let w = (delta - v).clamp(-32768, 32767) as i16;
                    if d[0] == 0 {
                        data.extend([v as i16, w]);
                    } else {
                        data.extend([w, v as i16]);
                    }
                }
                ex.note(|| format!("values {base}..{} in channel {}, near-opposite values in the other", base + group as i64, d[0]));
                ex.state(&d);
                mixed(&cfg, NATIVE, 2, &data, ex, &|| format!("stereo with values {base}..{} in channel {} and near-opposite values in the other", base + group as i64, d[0]))
            },
        ));
    }
    fams
}

const COMMON: [u32; 16] = [
    1001, 4000, 5512, 6000, 8000, 9600, 11024, 11026, 12000, 16000, 22050, 24000, 32000, 44100, 48000, 96000,
];

/// Item counts possible for `n` frames at `rate`: every output sample but those near the very end.
fn len_bounds(cfg: &Cfg, rate: u32, n: usize) -> (usize, usize) {
    let ratio = 11025.0 / rate as f64;
    let out = n as f64 * ratio;
    let lost = (20.0 + (1.0 / ratio).ceil()) * ratio + 2.0;
    let lo = (out - lost).max(0.0) as usize;
    let hi = (out + 2.0) as usize;
    (cfg.m_items(lo), cfg.m_items(hi))
}

fn rate_case(cfg: &Cfg, rate: u32, ch: u32, n: usize, ex: &mut Exec) -> Res {
    let data = audio_c(140_000 * ch as usize, 501);
    let mut p = Fingerprinter::new(&cfg.build());
    if let Err(e) = p.start(rate, ch) {
        ensure!(false, "start({rate},{ch}) is refused: {e}");
    }
    p.consume(&data[..n * ch as usize]);
    p.finish();
    ex.steps(3);
    ex.trace();
    ex.state((rate, n, ch));
    let got = p.fingerprint().len();
    ex.outcome((rate, got));
    let (lo, hi) = len_bounds(cfg, rate, n);
    ensure!(lo <= got && got <= hi, "{} at {rate} Hz, {ch} channels: {n} frames give {got} items, expected {lo}..={hi}", cfg.label());
    Ok(())
}

pub fn c08(t: Tier) -> Vec<Family> {
    let mut fams = vec![];
    // Every sample rate.
    {
        let mut rates: Vec<u32> = match t {
            Tier::Quick => (1001..3000)
                .step_by(11)
                .chain((3000..50_000).step_by(97))
                .chain(10_900..11_150)
                .collect(),
            Tier::Thorough => (1001..=65_600).collect(),
        };
        for r in COMMON {
            rates.extend([r.max(1002) - 1, r, r + 1]);
        }
        rates.extend([65535, 65536, 88200, 96000, 176_400, 192_000, 352_800, 384_000, 1_000_000, 11_025_000, 100_000_000, 2_147_483_647, 2_147_483_648, u32::MAX]);
        rates.sort();
        rates.dedup();
        let lens = [500usize, 20_000, 32_768, 70_001];
        let cfg = Cfg::small(2, 256, 0);
        let total = rates.len() as u64 * 4;
        fams.push(Family::new(
            "every-rate",
            format!("{} sample rates from 1001 Hz ({}) to 2^32-1 x stream lengths {lens:?}", rates.len(), t.pick("steps of 11 and 97 plus all near 11025", "all up to 65600")),
            total,
            move |i, ex| {
                let (rate, n) = (rates[i as usize / 4], lens[i as usize % 4]);
                ex.note(|| format!("{} {rate} Hz, {n} frames", cfg.label()));
                rate_case(&cfg, rate, 1, n, ex)
            },
        ));
    }
    // Every tail length.
    {
        let rates: Vec<u32> = t.pick(vec![8000, 44100], vec![1001, 8000, 11024, 11026, 22050, 44100, 48000, 96000, 192_000]);
        let mut tails: Vec<usize> = (0..t.pick(700usize, 3000)).collect();
        tails.extend((t.pick(700usize, 3000)..32768).step_by(t.pick(331, 37)));
        tails.extend(32768 - t.pick(40, 300)..32768);
        let (nr, nt) = (rates.len() as u64, tails.len() as u64);
        let cfg = Cfg::small(2, 128, 64);
        fams.push(Family::new(
            "every-tail",
            format!("streams of 0, 1 and 2 full blocks plus each of {nt} tail lengths x rates {rates:?}"),
            nr * nt * 3,
            move |i, ex| {
                let d = digits(i, &[nr, 3, nt]);
                let n = 32768 * d[1] + tails[d[2]];
                ex.note(|| format!("{} {} Hz, {n} frames", cfg.label(), rates[d[0]]));
                rate_case(&cfg, rates[d[0]], 1, n, ex)
            },
        ));
    }
    // Presets: the length law to one item.
    {
        let rates: Vec<u32> = t.pick(
            vec![1001, 4000, 8000, 11024, 11026, 16000, 22050, 44100, 48000, 96000],
            vec![1001, 1500, 2000, 3000, 4000, 5512, 6000, 8000, 9600, 11000, 11024, 11026, 11050, 12000, 16000, 22050, 24000, 32000, 37800, 44100, 48000, 64000, 88200, 96000, 192_000],
        );
        let secs: Vec<f64> = (0..t.pick(14, 60)).map(|k| 2.55 + k as f64 * t.pick(0.1731, 0.0613)).collect();
        let (nr, ns) = (rates.len() as u64, secs.len() as u64);
        fams.push(Family::new(
            "preset-length",
            format!("presets 1..5 x rates {rates:?} x {ns} durations: item count within one of the native-rate law"),
            5 * nr * ns,
            move |i, ex| {
                let d = digits(i, &[5, nr, ns]);
                let cfg = Cfg::preset(d[0] as u8 + 1);
                let rate = rates[d[1]];
                let n = (secs[d[2]] * rate as f64) as usize;
                let data = audio_c(n, 502);
                ex.note(|| format!("{} {rate} Hz, {:.2} s", cfg.label(), secs[d[2]]));
                let got = fp(&cfg.build(), rate, 1, &data).len() as i64;
                let want = cfg.m_items((n as f64 * 11025.0 / rate as f64) as usize) as i64;
                ex.steps(4);
                ex.trace();
                ex.state(&d);
                ex.outcome(got);
                ensure!((got - want).abs() <= 1, "{} at {rate} Hz: {n} frames ({:.2} s) give {got} items, the same duration at the native rate gives {want}", cfg.label(), secs[d[2]]);
                Ok(())
            },
        ));
    }
    // The same melody at another rate.
    {
        let rates: Vec<u32> = t.pick(
            vec![4000, 6000, 8000, 11024, 11026, 12000, 16000, 22050, 32000, 44100, 48000, 96000],
            vec![4000, 4410, 5512, 6000, 7000, 8000, 9600, 10000, 11000, 11024, 11026, 11100, 12000, 14000, 16000, 18900, 22050, 24000, 32000, 37800, 44056, 44100, 44101, 48000, 64000, 88200, 96000, 192_000],
        );
        let secs = [7.0, 11.3, 20.0];
        let seeds = t.pick(2u64, 8);
        let nr = rates.len() as u64;
        fams.push(Family::new(
            "same-melody",
            format!("presets 1..5 x rates {rates:?} x durations {secs:?} s x {seeds} melodies (partials below 1.1 kHz), at most one differing bit per item on average"),
            5 * nr * 3 * seeds,
            move |i, ex| {
                let d = digits(i, &[5, nr, 3, seeds]);
                let cfg = Cfg::preset(d[0] as u8 + 1);
                let rate = rates[d[1]];
                let seed = 600 + d[3] as u32;
                ex.note(|| format!("{} melody {seed} at {rate} Hz, {} s", cfg.label(), secs[d[2]]));
                let a = fp(&cfg.build(), NATIVE, 1, &melody(seed, secs[d[2]], 11025.0, 20000.0));
                let b = fp(&cfg.build(), rate, 1, &melody(seed, secs[d[2]], rate as f64, 20000.0));
                ex.steps(8);
                ex.trace();
                ex.state(&d);
                ex.outcome(&b);
                let n = a.len().min(b.len());
                ensure!(a.len().abs_diff(b.len()) <= 1, "{} at {rate} Hz: {} items instead of {}", cfg.label(), b.len(), a.len());
                let per: Vec<u32> = (0..n).map(|k| (a[k] ^ b[k]).count_ones()).collect();
                let avg = per.iter().sum::<u32>() as f64 / n as f64;
                ex.note(|| format!("average difference {avg:.3} bits"));
                ensure!(avg <= 1.0, "{} at {rate} Hz: melody {seed} ({} s) differs from its native-rate fingerprint by {avg:.2} bits per item (per item {per:?})", cfg.label(), secs[d[2]]);
                Ok(())
            },
        ));
    }
    // The same small-frame stream: every item (position) is checked, the signal changes at every block boundary.
    {
        let rates: Vec<u32> = t.pick(vec![22050, 44100, 33075], vec![22050, 44100, 33075, 55125, 88200, 110_250, 165_375]);
        let tails: Vec<usize> = t.pick(vec![0, 3, 4000, 20_000], vec![0, 1, 3, 100, 1000, 4000, 9000, 16384, 20_000, 32_767]);
        let (nr, nt) = (rates.len() as u64, tails.len() as u64);
        fams.push(Family::new(
            "timeline",
            format!("rates {rates:?} (multiples of the native one) x one or two blocks plus tails {tails:?}: a full-scale click moves items at its own time only and the silence around stays silence"),
            nr * nt * 2 * 40,
            move |i, ex| {
                let d = digits(i, &[nr, nt, 2, 40]);
                let rate = rates[d[0]];
                let n = 32768 * (d[2] + 1) + tails[d[1]];
                let at = d[3] * (n - 64) / 39;
                let mut data = vec![0i16; n];
                for (k, v) in data[at..at + 64].iter_mut().enumerate() {
                    *v = if (k / 16) % 2 == 0 { 30000 } else { -30000 };
                }
                let cfg = Cfg::small(2, 256, 128).coefs(&[1e3]);
                ex.note(|| format!("{} {rate} Hz, {n} frames, click at {at}", cfg.label()));
                let silent = fp(&cfg.build(), rate, 1, &vec![0i16; n]);
                let got = fp(&cfg.build(), rate, 1, &data);
                ex.steps(8);
                ex.trace();
                ex.state(&d);
                ex.outcome(&got);
                ensure!(got.len() == silent.len(), "{rate} Hz, {n} frames: a click at {at} changes the number of items");
                let f = rate as f64 / 11025.0;
                let c = at as f64 / f; // native time of the click
                let w = (cfg.m_delay() + cfg.m_hop()) as f64;
                let mut hit = 0;
                for k in 0..got.len() {
                    let lo = k as f64 * 128.0;
                    let touched = got[k] != silent[k];
                    let may = c + 64.0 / f + 60.0 >= lo && c - 60.0 <= lo + w;
                    // Well inside the window the click is the loudest thing there is.
                    let must = c >= lo + 300.0 && c + 64.0 / f <= lo + w - 300.0;
                    ensure!(!touched || may, "{rate} Hz, {n} frames: a click at frame {at} (native {c:.0}) changes item {k} with window {lo:.0}..{:.0}", lo + w);
                    ensure!(touched || !must, "{rate} Hz, {n} frames: a click at frame {at} (native {c:.0}) leaves item {k} with window {lo:.0}..{:.0} as in silence", lo + w);
                    hit += touched as u32;
                }
                ex.note(|| format!("{hit} items touched"));
                Ok(())
            },
        ));
    }
    fams
}

pub fn c09(t: Tier) -> Vec<Family> {
    let mut fams = vec![];
    fn verdict(r: Result<(), ResetError>, rate: u32, ch: u32) -> Res {
        let bad_ch = ch == 0;
        let bad_rate = rate <= 1000;
        match r {
            Ok(()) => ensure!(!bad_ch && !bad_rate, "start({rate},{ch}) is accepted"),
            Err(ResetError::NoChannels) => ensure!(bad_ch, "start({rate},{ch}) is refused for having no channels"),
            Err(ResetError::SampleRateTooLow) => ensure!(bad_rate, "start({rate},{ch}) is refused because of the sample rate"),
            Err(e) => ensure!(false, "start({rate},{ch}) fails: {e}"),
        }
        Ok(())
    }
    // Which parameters are refused.
    {
        let rmax = t.pick(2000u64, 66_000);
        let chans = [0u32, 1, 2, 3, 6, 255, 65536, u32::MAX];
        let big: Vec<u32> = vec![65535, 65536, 96000, 192_000, 1 << 20, 1 << 24, (1 << 24) + 1, i32::MAX as u32, 1 << 31, u32::MAX];
        let total = (rmax + 1 + big.len() as u64) * 8;
        let cfg = tiny(2);
        fams.push(Family::new(
            "validation",
            format!("every sample rate 0..={rmax} and {big:?} x channels {chans:?} on a new fingerprinter: result and named cause"),
            total,
            move |i, ex| {
                let ch = chans[(i % 8) as usize];
                let r = i / 8;
                let rate = if r <= rmax { r as u32 } else { big[(r - rmax - 1) as usize] };
                ex.note(|| format!("start({rate},{ch})"));
                let mut p = Fingerprinter::new(&cfg.build());
                let res = p.start(rate, ch);
                ex.steps(1);
                ex.trace();
                ex.state((rate, ch));
                ex.outcome(format!("{:?}", res.is_ok()));
                verdict(res, rate, ch)?;
                ensure!(p.fingerprint().is_empty(), "start({rate},{ch}) on a new fingerprinter leaves items");
                Ok(())
            },
        ));
    }
    // A refused start at any point of a stream.
    {
        let bads: Vec<(u32, u32)> = vec![(0, 1), (1, 2), (999, 1), (1000, 1), (1000, 2), (1000, 0), (0, 0), (11025, 0), (44100, 0), (8000, 0), (u32::MAX, 0)];
        let streams = [(11025u32, 1u32), (44100, 1), (8000, 2), (11025, 3)];
        let feeds: Vec<Vec<usize>> = vec![vec![1500], vec![700, 900], vec![33000], vec![32768, 1], vec![20000, 20000], vec![40, 32728, 700]];
        let cfg = Cfg::small(2, 64, 16);
        // Position: before each call, after finish; one or two refused starts in a row.
        let total = product(&[11, 4, 6, 6, 2, 2]);
        fams.push(Family::new(
            "mid-stream",
            format!("refused starts {bads:?} at every point of {} streams, once or twice in a row, then the stream is continued", 4 * 6),
            total,
            move |i, ex| {
                let d = digits(i, &[11, 4, 6, 6, 2, 2]);
                let (rate, ch) = streams[d[1]];
                let c = ch as usize;
                let f = &feeds[d[2]];
                let n: usize = f.iter().sum();
                let data = audio_c(n * c, 701);
                ex.note(|| format!("start({rate},{ch}) feeds {f:?}, refused start({},{}) at point {}", bads[d[0]].0, bads[d[0]].1, d[3]));
                let run = |bad: bool, ex: &mut Exec| -> Result<Vec<Vec<u32>>, Fail> {
                    let mut p = Fingerprinter::new(&cfg.build());
                    let mut seen = vec![];
                    let mut point = 0;
                    let mut maybe = |p: &mut Fingerprinter, ex: &mut Exec| -> Res {
                        if bad && point == d[3] {
                            let before = p.fingerprint().to_vec();
                            for k in 0..=d[4] {
                                let b = bads[(d[0] + k * 3) % 11];
                                verdict(p.start(b.0, b.1), b.0, b.1)?;
                                ex.steps(1);
                                ensure!(p.fingerprint() == before.as_slice(), "the refused start({},{}) changed the fingerprint: {}", b.0, b.1, first_diff(&before, p.fingerprint()));
                            }
                        }
                        point += 1;
                        Ok(())
                    };
                    maybe(&mut p, ex)?;
                    if d[5] == 1 {
                        // An earlier finished stream with other parameters.
                        p.start(16000, 2).expect("valid start");
                        p.consume(&audio_c(8000, 702));
                        p.finish();
                        maybe(&mut p, ex)?;
                        seen.push(p.fingerprint().to_vec());
                    }
                    p.start(rate, ch).expect("valid start");
                    let mut at = 0;
                    for k in f {
                        maybe(&mut p, ex)?;
                        p.consume(&data[at * c..(at + k) * c]);
                        at += k;
                        seen.push(p.fingerprint().to_vec());
                        ex.steps(1);
                    }
                    maybe(&mut p, ex)?;
                    p.finish();
                    maybe(&mut p, ex)?;
                    seen.push(p.fingerprint().to_vec());
                    Ok(seen)
                };
                let want = run(false, ex)?;
                let got = run(true, ex)?;
                ex.trace();
                ex.state(&d);
                ex.outcome(&got);
                for (k, (w, g)) in want.iter().zip(&got).enumerate() {
                    ensure!(w == g, "start({rate},{ch}), feeds {f:?}: with refused start{:?} at point {} reading {k} changes: {}", bads[d[0]], d[3], first_diff(w, g));
                }
                Ok(())
            },
        ));
    }
    fams
}

pub fn c16(t: Tier) -> Vec<Family> {
    let mut fams = vec![];
    let coefsets: Vec<Vec<f64>> = vec![
        vec![1.0],
        vec![0.5, 1.0],
        vec![0.1, 0.9, 0.4],
        vec![1.0, 0.0, 0.5, 0.25],
        COEFS5.to_vec(),
        vec![1.0, 0.5, 0.0, 0.0, 0.0, 0.7],
        vec![0.2, 0.3, 0.4, 0.5, 0.6, 0.7, 0.8],
        vec![0.9, 0.1, 0.8, 0.2, 0.7, 0.3, 0.6, 0.4],
    ];
    // IDs and defaults.
    fams.push(Family::new(
        "ids-and-defaults",
        "presets, default configuration and with_id for all 256 values: id(), delay(), item duration, sample_rate()",
        256 + 6,
        |i, ex| {
            use rusty_chromaprint::Configuration;
            ex.steps(4);
            ex.trace();
            ex.state(i);
            if i < 256 {
                let c = preset(1 + (i % 5) as u8).with_id(i as u8);
                ex.note(|| format!("preset_test{}().with_id({i})", 1 + i % 5));
                ensure!(c.id() == i as u8, "with_id({i}) gives id() = {}", c.id());
                let p = Cfg::preset(1 + (i % 5) as u8);
                ensure!(c.delay() == p.m_delay(), "with_id changes the delay");
                return Ok(());
            }
            let (c, p, name) = match i - 256 {
                5 => (Configuration::default(), Cfg::preset(2), "Configuration::default()".to_string()),
                k => (preset(k as u8 + 1), Cfg::preset(k as u8 + 1), format!("preset_test{}()", k + 1)),
            };
            ex.note(|| name.clone());
            ex.outcome((c.id(), c.delay()));
            ensure!(c.id() == p.m_id(), "{name} has id {}, expected {}", c.id(), p.m_id());
            ensure!(c.delay() == p.m_delay(), "{name} has delay {}, expected {}", c.delay(), p.m_delay());
            ensure!(c.sample_rate() == NATIVE, "{name} has sample rate {}", c.sample_rate());
            let d = p.m_hop() as f64 / 11025.0;
            ensure!((c.item_duration_in_seconds() as f64 - d).abs() < d * 1e-6, "{name} has item duration {}, expected {d}", c.item_duration_in_seconds());
            Ok(())
        },
    ));
    // All combinations of options.
    {
        let sizes: Vec<Option<(usize, usize)>> = t.pick(
            vec![None, Some((64, 32)), Some((256, 192)), Some((100, 30)), Some((300, 0)), Some((1024, 700)), Some((4096, 1024))],
            vec![None, Some((64, 32)), Some((64, 0)), Some((256, 192)), Some((100, 30)), Some((96, 95)), Some((300, 0)), Some((441, 220)), Some((512, 100)), Some((1024, 700)), Some((2048, 1)), Some((4096, 1024)), Some((8192, 6000))],
        );
        let interps = [None, Some(false), Some(true)];
        let coefsets = coefsets.clone();
        let wave = t.pick(2u64, 6);
        let (ns, nc) = (sizes.len() as u64, coefsets.len() as u64 + 1);
        let total = product(&[5, ns, nc, 3, wave]);
        fams.push(Family::new(
            "combinations",
            format!("presets 1..5 x frame size and overlap {sizes:?} x 9 coefficient choices (1 to 8 taps) x interpolation default, off, on x {wave} waveforms, compared with the reference algorithm"),
            total,
            move |i, ex| {
                let d = digits(i, &[5, ns, nc, 3, wave]);
                let mut cfg = Cfg::preset(d[0] as u8 + 1);
                if let Some((a, b)) = sizes[d[1]] {
                    cfg.fs = Some(a);
                    cfg.ov = Some(b);
                }
                if d[2] > 0 {
                    cfg.coefs = Some(coefsets[d[2] - 1].clone());
                }
                cfg.interp = interps[d[3]];
                let n = cfg.m_delay() + 12 * cfg.m_hop();
                let data = audio_c(n, 801 + d[4] as u64);
                ex.note(|| cfg.label());
                let conf = cfg.build();
                ensure!(conf.delay() == cfg.m_delay(), "{}: delay() is {}, expected {}", cfg.label(), conf.delay(), cfg.m_delay());
                let got = fp(&conf, NATIVE, 1, &data);
                ex.steps(5);
                ex.trace();
                ex.state(&d);
                ex.outcome(&got);
                match refmodel::compare(&refmodel::reference(&cfg, &data), &got) {
                    Ok(u) => ex.undecided(u),
                    Err(e) => ensure!(false, "{}: {e}", cfg.label()),
                }
                Ok(())
            },
        ));
    }
    // Order of setters, repeated setters, clones.
    {
        // All orders of the five setters.
        let mut perms: Vec<Vec<usize>> = vec![vec![]];
        for k in 0..5 {
            perms = perms
                .into_iter()
                .flat_map(|p| {
                    (0..=p.len()).map(move |at| {
                        let mut q = p.clone();
                        q.insert(at, k);
                        q
                    })
                })
                .collect();
        }
        let coefsets = coefsets.clone();
        let np = perms.len() as u64;
        fams.push(Family::new(
            "setter-orders",
            "all 120 orders of the five setters x 8 value sets x each setter called before with another value or not x configuration cloned and the clone changed",
            np * 8 * 4,
            move |i, ex| {
                let d = digits(i, &[np, 8, 2, 2]);
                let base = 1 + (d[1] % 5) as u8;
                let (fs, ov) = [(64usize, 32usize), (128, 100), (256, 0), (64, 48), (512, 256), (96, 32), (32, 3), (1024, 1000)][d[1]];
                let coefs = coefsets[d[1]].clone();
                let interp = d[1] % 2 == 0;
                let id = 17 + d[1] as u8;
                let mut c = preset(base);
                if d[2] == 1 {
                    c = c.with_frame_size(2048).with_frame_overlap(77).with_coefficients(vec![3.0, 4.0]).with_interpolation(!interp).with_id(99);
                }
                for &s in &perms[d[0]] {
                    c = match s {
                        0 => c.with_frame_size(fs),
                        1 => c.with_frame_overlap(ov),
                        2 => c.with_coefficients(coefs.clone()),
                        3 => c.with_interpolation(interp),
                        _ => c.with_id(id),
                    };
                }
                let mut p = None;
                if d[3] == 1 {
                    p = Some(Fingerprinter::new(&c));
                    let other = c.clone().with_frame_size(32).with_frame_overlap(16).with_coefficients(vec![1.0]).with_interpolation(!interp).with_id(3);
                    let mut q = Fingerprinter::new(&other);
                    q.start(NATIVE, 1).expect("valid start");
                    q.consume(&audio_c(2000, 5));
                    ensure!(other.id() == 3 && other.delay() == 15 * 16 + 16, "the changed clone reports id {} and delay {}", other.id(), other.delay());
                }
                let cfg = Cfg { preset: base, fs: Some(fs), ov: Some(ov), coefs: Some(coefs), interp: Some(interp), id: Some(id) };
                let data = audio_c(cfg.m_delay() + 6 * cfg.m_hop(), 811);
                ex.note(|| format!("{} in order {:?}", cfg.label(), perms[d[0]]));
                let mut p = p.unwrap_or_else(|| Fingerprinter::new(&c));
                p.start(NATIVE, 1).expect("valid start");
                p.consume(&data);
                p.finish();
                ex.steps(8);
                ex.trace();
                ex.state(&d);
                ex.outcome(p.fingerprint());
                ensure!(c.id() == id, "{} set in order {:?}: id() is {}", cfg.label(), perms[d[0]], c.id());
                ensure!(c.delay() == cfg.m_delay(), "{} set in order {:?}: delay() is {}", cfg.label(), perms[d[0]], c.delay());
                if let Err(e) = refmodel::compare(&refmodel::reference(&cfg, &data), p.fingerprint()) {
                    ensure!(false, "{} set in order {:?}: {e}", cfg.label(), perms[d[0]]);
                }
                Ok(())
            },
        ));
    }
    // Silence removal.
    {
        let thresholds = [1u32, 50, 500];
        let leads = [0usize, 40, 3000, 40_000];
        let levels = [0i16, 20, 400];
        fams.push(Family::new(
            "silence-removal",
            "thresholds 1, 50, 500 and preset 4 x leading quiet audio of 0, 40, 3000, 40000 samples at level 0, 20, 400: leading audio whose average level over 55 samples does not exceed the threshold must be dropped",
            4 * 4 * 3,
            move |i, ex| {
                let d = digits(i, &[4, 4, 3]);
                let mut cfg = Cfg::preset(4);
                let (conf, thr, name) = if d[0] == 3 {
                    (cfg.build(), 50, "preset_test4()".to_string())
                } else {
                    cfg = Cfg::small(2, 64, 32);
                    (cfg.build().with_removed_silence(thresholds[d[0]]), thresholds[d[0]], format!("threshold {}", thresholds[d[0]]))
                };
                let lead = leads[d[1]];
                let lvl = levels[d[2]];
                let mut data: Vec<i16> = (0..lead).map(|k| if (k / 3) % 2 == 0 { lvl } else { -lvl }).collect();
                data.extend_from_slice(&audio_c(cfg.m_delay() + 9 * cfg.m_hop(), 821));
                ex.note(|| format!("{name}, {lead} leading samples at level {lvl}"));
                let (mut sum, mut start) = (0u64, data.len());
                for (k, v) in data.iter().enumerate() {
                    sum += v.unsigned_abs() as u64;
                    if k >= 55 {
                        sum -= data[k - 55].unsigned_abs() as u64;
                    }
                    if sum / (k + 1).min(55) as u64 > thr as u64 {
                        start = k;
                        break;
                    }
                }
                let got = fp(&conf, NATIVE, 1, &data);
                ex.steps(4);
                ex.trace();
                ex.state(&d);
                ex.outcome(&got);
                let kept = refmodel::compare(&refmodel::reference(&cfg, &data), &got);
                if start == 0 {
                    if let Err(e) = kept {
                        ensure!(false, "{name}, {lead} leading samples at level {lvl} (nothing to remove): {e}");
                    }
                    return Ok(());
                }
                match refmodel::compare(&refmodel::reference(&cfg, &data[start..]), &got) {
                    Ok(_) => Ok(()),
                    Err(_) if kept.is_ok() => ex.finding(
                        &format!("silence:{}:{lead}:{lvl}", name.replace(' ', "-")),
                        format!("{name}, {lead} leading samples at level {lvl}: the first {start} samples are not removed"),
                    ),
                    Err(e) => Err(format!("{name}, {lead} leading samples at level {lvl}: neither the fingerprint with {start} samples removed ({e}) nor that of the whole stream").into()),
                }
            },
        ));
    }
    fams
}
