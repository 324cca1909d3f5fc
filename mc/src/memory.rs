//! C24: memory held while streaming, observed through a counting allocator.

use crate::engine::*;
use crate::ensure;
use crate::matching::compress_with;
use crate::util::*;
use rusty_chromaprint::{match_fingerprints, Configuration, Fingerprinter};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

thread_local! {
    /// Bytes allocated minus bytes freed by this thread.
    static LIVE: Cell<i64> = const { Cell::new(0) };
}

pub struct Counting;

fn count(n: i64) {
    let _ = LIVE.try_with(|l| l.set(l.get() + n));
}

// Every call is passed on unchanged.
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(l);
        if !p.is_null() {
            count(l.size() as i64);
        }
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let p = System.alloc_zeroed(l);
        if !p.is_null() {
            count(l.size() as i64);
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l);
        count(-(l.size() as i64));
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let q = System.realloc(p, l, n);
        if !q.is_null() {
            count(n as i64 - l.size() as i64);
        }
        q
    }
}

fn live() -> i64 {
    LIVE.with(|l| l.get())
}

/// Growth that is certainly no growth with the stream.
const SLACK: i64 = 256;

/// Feeds `data` over and over; in every window of doubling length, the least memory held beyond the items
/// (the backing store of the items may be up to twice as long as they are, but not at all times) must not
/// exceed that of the windows before.
#[allow(clippy::too_many_arguments)]
fn stream(conf: &Configuration, rate: u32, ch: u32, calls: &[usize], data: &[i16], first: usize, windows: usize, ex: &mut Exec) -> Res {
    let before = live();
    let mut p = Fingerprinter::new(conf);
    p.start(rate, ch).expect("start with valid parameters");
    let c = ch as usize;
    let (mut at, mut total, mut k) = (0, 0usize, 0);
    let mut end = first;
    let mut least = i64::MAX;
    // Most items that appear in one call: how far the backing store may be from full when it is seen fullest.
    let mut burst = 0usize;
    let mut seen: Vec<i64> = Vec::with_capacity(windows + 1);
    while seen.len() <= windows {
        let n = calls[k % calls.len()];
        k += 1;
        if at + n * c > data.len() {
            at = 0;
        }
        let items = p.fingerprint().len();
        p.consume(&data[at..at + n * c]);
        burst = burst.max(p.fingerprint().len() - items);
        ex.steps(1);
        at += n * c;
        total += n;
        // The items, and the vector of observations above, are no growth.
        least = least.min(live() - before - 4 * p.fingerprint().len() as i64);
        if total >= end {
            seen.push(least);
            least = i64::MAX;
            end *= 2;
        }
    }
    // The first window warms up.
    let base = seen[1];
    for (w, &x) in seen.iter().enumerate().skip(2) {
        ensure!(
            x <= base + SLACK + 8 * burst as i64,
            "between {} and {} frames of audio ({} items) at least {x} bytes are held beyond the items, but only {base} between {} and {} frames",
            first << (w - 1),
            first << w,
            p.fingerprint().len(),
            first,
            first * 2
        );
    }
    ex.outcome((seen[1], p.fingerprint().len()));
    p.finish();
    ex.state((rate, ch, calls.to_vec(), seen[1]));
    ex.trace();
    Ok(())
}

pub fn c24(t: Tier) -> Vec<Family> {
    let mut out = vec![];
    // Short frames: ten thousands of items.
    {
        let rates = t.pick(vec![11025u32, 44100, 8000], vec![11025, 44100, 8000, 48000, 1001, 96_000]);
        let presets: Vec<u8> = t.pick(vec![2, 3], vec![1, 2, 3, 4, 5]);
        let chans = vec![1u32, 2, 3];
        let calls: Vec<Vec<usize>> = vec![
            vec![1000],
            vec![4096],
            vec![1, 0, 7, 30_000],
            vec![32768],
            vec![100_000],
            vec![64],
            vec![33, 32767],
        ];
        let frames = t.pick(vec![(64usize, 32usize), (128, 16)], vec![(64, 32), (128, 16), (64, 63), (256, 0), (1000, 300)]);
        let rad = [rates.len() as u64, chans.len() as u64, calls.len() as u64, frames.len() as u64, presets.len() as u64, 3];
        let windows = t.pick(3, 5);
        out.push(Family::new(
            "short-frames",
            "rate x channels x call sizes x frame size and overlap x preset x (no silence removal, removal with sound, removal with nothing but silence): memory held in windows of doubling length",
            product(&rad),
            move |i, ex| {
                let d = digits(i, &rad);
                let (rate, ch, call) = (rates[d[0]], chans[d[1]], &calls[d[2]]);
                let (fs, ov) = frames[d[3]];
                let cfg = Cfg::small(presets[d[4]], fs, ov);
                let mut conf = cfg.build();
                if d[5] > 0 {
                    conf = conf.with_removed_silence(50);
                }
                let data = audio_c(200_000 * ch as usize, 2400);
                let quiet = vec![3i16; if d[5] == 2 { data.len() } else { 0 }];
                ex.note(|| format!("{}{} at {rate} Hz, {ch} channels, calls of {call:?}", cfg.label(), ["", " with silence removal", " with silence removal on silence"][d[5]]));
                // Everything that fills up once (the 256 rows of the image among them) has done so after this.
                let first = (800 * cfg.m_hop() as u64 * rate.max(NATIVE) as u64 / NATIVE as u64) as usize + 140_000;
                stream(&conf, rate, ch, call, if d[5] == 2 { &quiet } else { &data }, first, windows, ex)
            },
        ));
    }
    // The presets as they are, for minutes of audio.
    {
        let rad = [5, 3, 2];
        let windows = t.pick(2, 4);
        out.push(Family::new(
            "presets",
            "preset x rate x call size with the presets' own frame sizes",
            product(&rad),
            move |i, ex| {
                let d = digits(i, &rad);
                let conf = preset(d[0] as u8 + 1);
                let rate = [11025u32, 44100, 8000][d[1]];
                let call = [vec![4608usize], vec![50_000]][d[2]].clone();
                let data = audio_c(400_000, 2401);
                ex.note(|| format!("preset {} at {rate} Hz, calls of {call:?}", d[0] + 1));
                stream(&conf, rate, 1, &call, &data, 800 * 1365 * (rate as usize / NATIVE as usize).max(1), windows, ex)
            },
        ));
    }
    // Sessions: every restart leaves as much as the one before.
    {
        let rates = [(11025u32, 1u32), (44100, 2), (8000, 3), (48000, 1)];
        let lens = [0usize, 1, 1000, 32_768, 50_000];
        let rad = [rates.len() as u64, rates.len() as u64, lens.len() as u64, 3];
        let rounds = t.pick(40, 300);
        out.push(Family::new(
            "sessions",
            "pairs of stream parameters x stream length x (finished, abandoned, refused start in between), alternating: memory held after every pair of sessions",
            product(&rad),
            move |i, ex| {
                let d = digits(i, &rad);
                let conf = tiny(2).build();
                let data = audio_c(160_000, 2402);
                let how = d[3];
                ex.note(|| format!("{:?} and {:?} in turn, {} frames each, {}", rates[d[0]], rates[d[1]], lens[d[2]], ["finished", "abandoned", "with a refused start"][how]));
                let before = live();
                let mut p = Fingerprinter::new(&conf);
                let mut held = [0i64; 2];
                for round in 0..rounds {
                    for (rate, ch) in [rates[d[0]], rates[d[1]]] {
                        p.start(rate, ch).expect("start with valid parameters");
                        p.consume(&data[..lens[d[2]] * ch as usize]);
                        if how == 0 {
                            p.finish();
                        }
                        if how == 2 {
                            ensure!(p.start(0, ch).is_err(), "rate 0 accepted");
                        }
                        ex.steps(3);
                    }
                    let now = live() - before;
                    // Buffers may grow to their final size in the first few rounds.
                    if round < 5 {
                        held[0] = held[0].max(now);
                    }
                    held[1] = now;
                }
                ensure!(
                    held[1] <= held[0] + SLACK,
                    "{} bytes are held after {rounds} rounds, but at most {} after the first five",
                    held[1],
                    held[0]
                );
                ex.outcome(held[0]);
                ex.state(i);
                ex.trace();
                Ok(())
            },
        ));
    }
    // Everything is released.
    {
        let rates = [(11025u32, 1u32), (44100, 2), (8000, 3)];
        let lens = [0usize, 1, 5000, 40_000];
        let rad = [rates.len() as u64, lens.len() as u64, 2, 5];
        out.push(Family::new(
            "released",
            "parameters x stream length x (finished or abandoned) x preset, then matching and compressing: a repetition leaves nothing behind once all results are dropped",
            product(&rad),
            move |i, ex| {
                let d = digits(i, &rad);
                let (rate, ch) = rates[d[0]];
                let n = lens[d[1]];
                let data = audio_c(160_000, 2403);
                ex.note(|| format!("preset {}, {rate} Hz, {ch} channels, {n} frames, {}", d[3] + 1, ["finished", "abandoned"][d[2]]));
                let round = || -> usize {
                    let conf = tiny(d[3] as u8 + 1).build();
                    let mut p = Fingerprinter::new(&conf);
                    p.start(rate, ch).expect("start with valid parameters");
                    p.consume(&data[..n * ch as usize]);
                    if d[2] == 0 {
                        p.finish();
                    }
                    let f = p.fingerprint();
                    let z = compress_with(&conf, f).len();
                    z + match_fingerprints(f, &f[f.len() / 2..], &conf).map(|s| s.len()).unwrap_or(0)
                };
                // Once for whatever is set up on first use.
                let r = [round(), round()];
                let before = live();
                for _ in 0..3 {
                    round();
                }
                let left = live() - before;
                ex.steps(20);
                ensure!(left <= 0, "three repetitions left {left} bytes behind");
                ex.outcome(r);
                ex.state(i);
                ex.trace();
                Ok(())
            },
        ));
    }
    out
}
