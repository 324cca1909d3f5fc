//! Properties about the life of one fingerprinter: C01 (splitting), C02 (restart), C03 (length), C04 (prefix),
//! C05 (locality).

use crate::engine::*;
use crate::ensure;
use crate::refmodel;
use crate::util::*;
use rusty_chromaprint::Fingerprinter;
use std::collections::HashMap;
use std::sync::{Arc, Mutex};

const RATES: [u32; 3] = [11025, 44100, 8000];

/// Feeds `data` cut at the given frame positions, reading after every piece when `read`.
fn run_cut(
    cfg: &Cfg,
    rate: u32,
    ch: u32,
    data: &[i16],
    cuts: &[usize],
    read: bool,
    ex: &mut Exec,
) -> Vec<u32> {
    let mut p = Fingerprinter::new(&cfg.build());
    p.start(rate, ch).expect("valid start");
    let c = ch as usize;
    let mut at = 0;
    for &k in cuts.iter().chain(std::iter::once(&(data.len() / c))) {
        p.consume(&data[at * c..k * c]);
        if read {
            std::hint::black_box(p.fingerprint().len());
        }
        at = k;
    }
    p.finish();
    ex.steps(cuts.len() as u64 + 3);
    p.fingerprint().to_vec()
}

pub fn c01(t: Tier) -> Vec<Family> {
    let mut fams = vec![];
    let cfg = Cfg::small(2, 64, 0);

    // Every subset of the critical cut points.
    {
        let n = 70_001usize;
        let mut pts = vec![1, 63, 65, 4097, 32767, 32768, 32769, 65535, 65536, n - 1];
        if t == Tier::Thorough {
            pts.extend([2, 64, 33000, 65537]);
        }
        pts.sort();
        let combos: Vec<(u32, u32)> = RATES
            .iter()
            .flat_map(|&r| [1, 2, 3].map(|c| (r, c)))
            .collect();
        let base: Arc<Lazy<Vec<u32>>> = Arc::new(Lazy::new(combos.len()));
        let k = pts.len() as u64;
        let cfg = cfg.clone();
        let total = (1u64 << k) * combos.len() as u64;
        fams.push(Family::new(
            "cut-subsets",
            format!("all subsets of the cut points {pts:?} of a {n}-frame stream x rates {RATES:?} x channels 1..3"),
            total,
            move |i, ex| {
                let ci = (i % combos.len() as u64) as usize;
                let mask = i / combos.len() as u64;
                let (rate, ch) = combos[ci];
                let data = audio_c(n * ch as usize, 11 + ch as u64);
                let cuts: Vec<usize> = (0..pts.len()).filter(|b| mask >> b & 1 == 1).map(|b| pts[b]).collect();
                ex.note(|| format!("{} start({rate},{ch}) {n} frames cut at {cuts:?}", cfg.label()));
                let whole = base.get(ci, || run_cut(&cfg, rate, ch, &data, &[], false, &mut dummy()));
                let got = run_cut(&cfg, rate, ch, &data, &cuts, mask.count_ones() % 2 == 1, ex);
                ex.trace();
                ex.state((ci, mask));
                ex.outcome(&got);
                ensure!(got == *whole, "{} at {rate} Hz, {ch} channels, {n} frames cut at {cuts:?}: {} (compared with one call)", cfg.label(), first_diff(&whole, &got));
                Ok(())
            },
        ));
    }

    // Uniform pieces of every size.
    {
        let n = 68_500usize;
        let sizes = call_sizes(t.pick(160, 3000), n);
        let combos: Vec<(u32, u32)> = t.pick(
            vec![(11025, 1), (44100, 2), (8000, 1), (11025, 3)],
            RATES.iter().flat_map(|&r| [1, 2, 3, 6].map(|c| (r, c))).collect(),
        );
        let base: Arc<Lazy<Vec<u32>>> = Arc::new(Lazy::new(combos.len()));
        let cfg = cfg.clone();
        let total = (sizes.len() * combos.len()) as u64;
        fams.push(Family::new(
            "uniform-pieces",
            format!("{} call sizes (all up to {}, then around powers of two and buffer multiples) x rates x channels, stream of {n} frames, empty calls and reads in between", sizes.len(), t.pick(160, 3000)),
            total,
            move |i, ex| {
                let ci = i as usize % combos.len();
                let size = sizes[i as usize / combos.len()];
                let (rate, ch) = combos[ci];
                let c = ch as usize;
                let data = audio_c(n * c, 21 + ch as u64);
                ex.note(|| format!("{} start({rate},{ch}), {n} frames in calls of {size} frames", cfg.label()));
                let whole = base.get(ci, || run_cut(&cfg, rate, ch, &data, &[], false, &mut dummy()));
                let mut p = Fingerprinter::new(&cfg.build());
                p.start(rate, ch).expect("valid start");
                for piece in data.chunks(size * c) {
                    p.consume(piece);
                    p.consume(&[]);
                    ex.steps(2);
                }
                p.finish();
                ex.trace();
                ex.state((ci, size));
                ex.outcome(p.fingerprint());
                ensure!(p.fingerprint() == whole.as_slice(), "{} at {rate} Hz, {ch} channels, {n} frames in calls of {size} frames: {}", cfg.label(), first_diff(&whole, p.fingerprint()));
                Ok(())
            },
        ));
    }

    // Words over call sizes.
    {
        let alphabet: Vec<usize> = t.pick(
            vec![0, 1, 31, 1000, 32767, 32768, 40000],
            vec![0, 1, 2, 31, 64, 1000, 4096, 32767, 32768, 32769, 40000, 65536],
        );
        let depth = t.pick(4, 4);
        let k = alphabet.len() as u64;
        let wn = words_upto(k, depth);
        let combos = [(11025u32, 1u32), (44100, 2), (8000, 1)];
        // Expected values depend on the total length only.
        let memo: Arc<Mutex<HashMap<(usize, usize), Arc<Vec<u32>>>>> = Default::default();
        let cfg = cfg.clone();
        fams.push(Family::new(
            "size-words",
            format!("all words of up to {depth} calls over sizes {alphabet:?} x 3 rate/channel pairs"),
            wn * combos.len() as u64,
            move |i, ex| {
                let ci = (i % combos.len() as u64) as usize;
                let (rate, ch) = combos[ci];
                let w = word(i / combos.len() as u64, k, depth);
                let sizes: Vec<usize> = w.iter().map(|&x| alphabet[x]).collect();
                let n: usize = sizes.iter().sum();
                let c = ch as usize;
                let data = audio_c(270_000 * c, 31);
                ex.note(|| format!("{} start({rate},{ch}), calls of {sizes:?} frames", cfg.label()));
                let mut cuts = vec![];
                let mut at = 0;
                for s in &sizes {
                    at += s;
                    cuts.push(at);
                }
                let hit = memo.lock().unwrap().get(&(ci, n)).cloned();
                let whole = match hit {
                    Some(w) => w,
                    None => {
                        let w = Arc::new(run_cut(&cfg, rate, ch, &data[..n * c], &[], false, &mut dummy()));
                        memo.lock().unwrap().insert((ci, n), w.clone());
                        w
                    }
                };
                let got = run_cut(&cfg, rate, ch, &data[..n * c], &cuts, true, ex);
                ex.trace();
                ex.state((ci, &w));
                ex.outcome(&got);
                ensure!(got == *whole, "{} at {rate} Hz, {ch} channels, calls of {sizes:?} frames: {}", cfg.label(), first_diff(&whole, &got));
                Ok(())
            },
        ));
    }

    // Every single cut position.
    {
        let n = 36_000usize;
        let step_lo = t.pick(1500, 5000);
        let mut pos: Vec<usize> = (0..=step_lo).collect();
        pos.extend(32768 - t.pick(150, 1200)..=32768 + t.pick(150, 1200));
        pos.extend(n - t.pick(100, 600)..=n);
        let combos = [(11025u32, 1u32), (11025, 2), (44100, 1), (8000, 3), (48000, 2)];
        let base: Arc<Lazy<Vec<u32>>> = Arc::new(Lazy::new(combos.len()));
        let total = (pos.len() * combos.len()) as u64;
        let cfg = Cfg::small(1, 48, 7);
        fams.push(Family::new(
            "one-cut",
            format!("a single cut at each of {} positions (all up to {step_lo}, around 32768, at the end) x 5 rate/channel pairs", pos.len()),
            total,
            move |i, ex| {
                let ci = i as usize % combos.len();
                let cut = pos[i as usize / combos.len()];
                let (rate, ch) = combos[ci];
                let data = audio_c(n * ch as usize, 41);
                ex.note(|| format!("{} start({rate},{ch}), {n} frames cut at {cut}", cfg.label()));
                let whole = base.get(ci, || run_cut(&cfg, rate, ch, &data, &[], false, &mut dummy()));
                let got = run_cut(&cfg, rate, ch, &data, &[cut], cut % 2 == 0, ex);
                ex.trace();
                ex.state((ci, cut));
                ex.outcome(&got);
                ensure!(got == *whole, "{} at {rate} Hz, {ch} channels, {n} frames cut at {cut}: {}", cfg.label(), first_diff(&whole, &got));
                Ok(())
            },
        ));
    }

    // Presets with pairs of cuts.
    {
        let n = 230_000usize;
        let pts: Vec<usize> = vec![
            1, 1365, 4095, 4096, 4097, 8000, 32767, 32768, 32769, 33000, 36863, 36864, 50000, 65535, 65536, 65537, 98303,
            98304, 98305, 196_608, 196_609, n - 1,
        ];
        let rates: Vec<u32> = t.pick(vec![11025, 44100], vec![11025, 44100, 8000, 48000, 22050, 96000]);
        let pairs: Vec<(usize, usize)> = (0..pts.len())
            .flat_map(|a| (a..pts.len()).map(move |b| (a, b)))
            .collect();
        let nr = rates.len();
        let base: Arc<Lazy<Vec<u32>>> = Arc::new(Lazy::new(5 * nr));
        let total = (pairs.len() * 5 * nr) as u64;
        fams.push(Family::new(
            "presets",
            format!("all pairs of cut points {pts:?} x presets 1..5 x rates {rates:?}, stereo, {n} frames"),
            total,
            move |i, ex| {
                let d = digits(i, &[5, nr as u64, pairs.len() as u64]);
                let cfg = Cfg::preset(d[0] as u8 + 1);
                let rate = rates[d[1]];
                let (a, b) = pairs[d[2]];
                let cuts = [pts[a], pts[b]];
                let data = audio_c(n * 2, 51);
                ex.note(|| format!("{} start({rate},2), {n} frames cut at {cuts:?}", cfg.label()));
                let whole = base.get(d[0] * nr + d[1], || run_cut(&cfg, rate, 2, &data, &[], false, &mut dummy()));
                let got = run_cut(&cfg, rate, 2, &data, &cuts, true, ex);
                ex.trace();
                ex.state(d);
                ex.outcome(&got);
                ensure!(got == *whole, "{} at {rate} Hz stereo, {n} frames cut at {cuts:?}: {}", cfg.label(), first_diff(&whole, &got));
                Ok(())
            },
        ));
    }

    // Many channels: chunks are counted in frames, the buffer in frames too.
    {
        let chans: Vec<u32> = t.pick(
            vec![1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 16, 24, 31, 32, 33, 48, 64],
            (1..=70).chain([96, 127, 128, 129, 255, 256, 257]).collect(),
        );
        let n = 33_100usize;
        let sizes = [1usize, 7, 1000, 32767, 32768, 32769, 33000];
        let total = (chans.len() * sizes.len() * 2) as u64;
        let nch = chans.len() as u64;
        fams.push(Family::new(
            "many-channels",
            format!("{nch} channel counts x call sizes {sizes:?} x rates 11025, 44100; {n} frames"),
            total,
            move |i, ex| {
                let d = digits(i, &[nch, 7, 2]);
                let ch = chans[d[0]];
                let c = ch as usize;
                let rate = [11025, 44100][d[2]];
                let size = sizes[d[1]];
                let data = audio_c(n * c, 61);
                ex.note(|| format!("{ch} channels at {rate} Hz, {n} frames in calls of {size}"));
                let whole = run_cut(&cfg, rate, ch, &data, &[], false, ex);
                let mut p = Fingerprinter::new(&cfg.build());
                p.start(rate, ch).expect("valid start");
                for piece in data.chunks(size * c) {
                    p.consume(piece);
                    ex.steps(1);
                }
                p.finish();
                ex.trace();
                ex.state(&d);
                ex.outcome(&whole);
                ensure!(p.fingerprint() == whole.as_slice(), "{ch} channels at {rate} Hz, {n} frames in calls of {size} frames: {}", first_diff(&whole, p.fingerprint()));
                Ok(())
            },
        ));
    }
    fams
}

/// A throw-away recorder for memoised expected values.
pub fn dummy() -> Exec {
    Exec::scratch()
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
struct Session {
    rate: u32,
    ch: u32,
    feeds: Vec<usize>,
    /// 0 abandon, 1 finish, 2 finish twice, 3 finish then consume, 4 rejected start afterwards,
    end: u8,
}

fn play(p: &mut Fingerprinter, s: &Session, seed: u64, ex: &mut Exec) {
    p.start(s.rate, s.ch).expect("valid start");
    let n: usize = s.feeds.iter().sum();
    let data = audio_c(n * s.ch as usize, seed);
    let mut at = 0;
    for f in &s.feeds {
        let k = f * s.ch as usize;
        p.consume(&data[at..at + k]);
        at += k;
    }
    match s.end {
        1 => p.finish(),
        2 => {
            p.finish();
            p.finish();
        }
        3 => {
            p.finish();
            p.consume(&audio_c(600 * s.ch as usize, 5)[..]);
        }
        4 => {
            let _ = p.start(1000, s.ch);
            let _ = p.start(s.rate, 0);
        }
        _ => {}
    }
    ex.steps(s.feeds.len() as u64 + 2);
}

/// Observations of a session: after start, after each feed, after finish.
fn observe(p: &mut Fingerprinter, s: &Session, seed: u64, ex: &mut Exec) -> Vec<Vec<u32>> {
    let mut o = vec![];
    p.start(s.rate, s.ch).expect("valid start");
    o.push(p.fingerprint().to_vec());
    let n: usize = s.feeds.iter().sum();
    let data = audio_c(n * s.ch as usize, seed);
    let mut at = 0;
    for f in &s.feeds {
        let k = f * s.ch as usize;
        p.consume(&data[at..at + k]);
        o.push(p.fingerprint().to_vec());
        at += k;
    }
    p.finish();
    o.push(p.fingerprint().to_vec());
    ex.steps(s.feeds.len() as u64 + 2);
    o
}

fn check_fresh(got: &[Vec<u32>], want: &[Vec<u32>], what: &dyn Fn() -> String) -> Res {
    ensure!(got[0].is_empty(), "{}: the fingerprint is not empty after start ({} items)", what(), got[0].len());
    for (k, (g, w)) in got.iter().zip(want).enumerate() {
        ensure!(g == w, "{}: observation {k} differs from a new fingerprinter's: {}", what(), first_diff(w, g));
    }
    Ok(())
}

pub fn c02(t: Tier) -> Vec<Family> {
    let mut fams = vec![];
    let cfg = Cfg::small(2, 64, 16);
    let feeds: Vec<Vec<usize>> = vec![
        vec![],
        vec![40],
        vec![1500],
        vec![32768],
        vec![33000],
        vec![32767, 2],
        vec![70000],
    ];
    let mut firsts = vec![];
    for rate in [11025u32, 44100, 8000] {
        for ch in [1u32, 2] {
            for f in &feeds {
                for end in 0..5u8 {
                    if t == Tier::Quick && end == 2 {
                        continue;
                    }
                    firsts.push(Session { rate, ch, feeds: f.clone(), end });
                }
            }
        }
    }
    let mut lasts = vec![];
    for rate in [11025u32, 44100, 8000] {
        for ch in [1u32, 2] {
            for f in [vec![3000usize], vec![32700, 700], vec![40, 40, 2000]] {
                lasts.push(Session { rate, ch, feeds: f, end: 1 });
            }
        }
    }
    let want: Arc<Lazy<Vec<Vec<u32>>>> = Arc::new(Lazy::new(lasts.len()));

    {
        let (cfg, firsts, lasts, want) = (cfg.clone(), firsts.clone(), lasts.clone(), want.clone());
        fams.push(Family::new(
            "pairs",
            format!("{} earlier sessions (rate x channels x feeds x way of ending) x {} later sessions, observed after every call", firsts.len(), lasts.len()),
            (firsts.len() * lasts.len()) as u64,
            move |i, ex| {
                let a = &firsts[i as usize / lasts.len()];
                let bi = i as usize % lasts.len();
                let b = &lasts[bi];
                ex.note(|| format!("{}: {a:?} then {b:?}", cfg.label()));
                let w = want.get(bi, || observe(&mut Fingerprinter::new(&cfg.build()), b, 72, &mut dummy()));
                let mut p = Fingerprinter::new(&cfg.build());
                play(&mut p, a, 71, ex);
                let got = observe(&mut p, b, 72, ex);
                ex.trace();
                ex.state((a, bi));
                ex.outcome(&got);
                check_fresh(&got, &w, &|| format!("{}: {a:?} then {b:?}", cfg.label()))
            },
        ));
    }

    // Longer histories over fewer sessions.
    {
        let pool: Vec<Session> = firsts
            .iter()
            .filter(|s| {
                matches!(s.feeds.first(), Some(40) | Some(33000) | None)
                    && (s.ch == 1 || s.rate == 44100)
                    && matches!(s.end, 0 | 1)
            })
            .cloned()
            .collect();
        let depth = t.pick(2, 3);
        let k = pool.len() as u64;
        let fin: Vec<usize> = (0..lasts.len()).filter(|i| lasts[*i].feeds.len() == 2 && lasts[*i].ch == 1).collect();
        let total = words_upto(k, depth) * fin.len() as u64;
        let (cfg, lasts, want) = (cfg.clone(), lasts.clone(), want.clone());
        fams.push(Family::new(
            "chains",
            format!("all chains of up to {depth} of {k} earlier sessions followed by each of {} sessions", fin.len()),
            total,
            move |i, ex| {
                let bi = fin[(i % fin.len() as u64) as usize];
                let b = &lasts[bi];
                let w = word(i / fin.len() as u64, k, depth);
                let chain: Vec<&Session> = w.iter().map(|&x| &pool[x]).collect();
                ex.note(|| format!("{}: {chain:?} then {b:?}", cfg.label()));
                let fresh = want.get(bi, || observe(&mut Fingerprinter::new(&cfg.build()), b, 72, &mut dummy()));
                let mut p = Fingerprinter::new(&cfg.build());
                for (k, s) in chain.iter().enumerate() {
                    play(&mut p, s, 80 + k as u64, ex);
                }
                let got = observe(&mut p, b, 72, ex);
                ex.trace();
                ex.state((w, bi));
                ex.outcome(&got);
                check_fresh(&got, &fresh, &|| format!("{}: {chain:?} then {b:?}", cfg.label()))
            },
        ));
    }

    // Abandoned after every possible number of frames.
    {
        let nmax = t.pick(2600usize, 12000);
        let combos = [(11025u32, 11025u32), (11025, 44100), (44100, 11025), (44100, 44100), (44100, 8000)];
        let fin = t.pick(2, 2);
        let cfg = cfg.clone();
        let memo: Arc<Lazy<Vec<Vec<u32>>>> = Arc::new(Lazy::new(5));
        fams.push(Family::new(
            "abandon-anywhere",
            format!("a stream left after each number of frames 0..={nmax} (abandoned or finished), x 5 rate changes"),
            (nmax as u64 + 1) * combos.len() as u64 * fin,
            move |i, ex| {
                let d = digits(i, &[5, fin, nmax as u64 + 1]);
                let (r1, r2) = combos[d[0]];
                let a = Session { rate: r1, ch: 1, feeds: vec![d[2]], end: d[1] as u8 };
                let b = Session { rate: r2, ch: 1, feeds: vec![2400], end: 1 };
                ex.note(|| format!("{}: {a:?} then {b:?}", cfg.label()));
                let fresh = memo.get(d[0], || observe(&mut Fingerprinter::new(&cfg.build()), &b, 92, &mut dummy()));
                let mut p = Fingerprinter::new(&cfg.build());
                p.start(r1, 1).expect("valid start");
                p.consume(&audio_c(nmax, 91)[..d[2]]);
                if d[1] == 1 {
                    p.finish();
                }
                ex.steps(2);
                let got = observe(&mut p, &b, 92, ex);
                ex.trace();
                ex.state(&d);
                ex.outcome(&got);
                check_fresh(&got, &fresh, &|| format!("{}: {a:?} then {b:?}", cfg.label()))
            },
        ));
    }

    // Very many sessions of one object.
    {
        // rates and channels in turn, feed, finished, number of sessions
        let plans: Vec<(Vec<(u32, u32)>, usize, bool, usize)> = vec![
            (vec![(11025, 1)], 300, true, t.pick(66_000, 140_000)),
            (vec![(11025, 1)], 300, false, t.pick(66_000, 140_000)),
            (vec![(11025, 1), (11025, 2), (11025, 3)], 150, true, t.pick(20_000, 70_000)),
            (vec![(44100, 1)], 300, true, t.pick(300, 2000)),
            (vec![(44100, 1)], 33_000, false, t.pick(100, 600)),
            (vec![(11025, 1), (44100, 2)], 600, true, t.pick(300, 2000)),
            (vec![(8000, 1), (44100, 2), (11025, 1), (48000, 1)], 33_000, false, t.pick(100, 600)),
            (vec![(8000, 1), (8000, 2), (0, 1)], 500, true, t.pick(300, 2000)),
        ];
        let cfg = cfg.clone();
        fams.push(Family::new(
            "many-sessions",
            "up to 66000 (thorough: 140000) sessions of one object in 8 patterns of rates, channels and endings, the fingerprint of every session compared",
            plans.len() as u64,
            move |i, ex| {
                let (params, n, finished, count) = &plans[i as usize];
                ex.note(|| format!("{}: {count} sessions with {params:?}, {n} frames, finished: {finished}", cfg.label()));
                let conf = cfg.build();
                let c = params.len();
                let data: Vec<Vec<i16>> = (0..c).map(|k| audio(n * params[k].1.max(1) as usize, 95 + k as u64)).collect();
                let run = |p: &mut Fingerprinter, k: usize| {
                    let (r, ch) = params[k];
                    if p.start(r, ch).is_err() {
                        return None;
                    }
                    let empty = p.fingerprint().is_empty();
                    p.consume(&data[k]);
                    if *finished {
                        p.finish();
                    }
                    Some((empty, p.fingerprint().to_vec()))
                };
                let fresh: Vec<_> = (0..c).map(|k| run(&mut Fingerprinter::new(&conf), k)).collect();
                let mut p = Fingerprinter::new(&conf);
                for k in 0..*count {
                    let got = run(&mut p, k % c);
                    ensure!(
                        got == fresh[k % c],
                        "{}: session {k} of {count} with {:?} and {n} frames differs from that of a new object",
                        cfg.label(),
                        params[k % c]
                    );
                }
                ex.steps(*count as u64);
                ex.state(i);
                ex.outcome(&fresh);
                ex.trace();
                Ok(())
            },
        ));
    }

    // Words over raw operations with observation after each.
    {
        #[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
        enum Op {
            Start(u32, u32),
            Feed(usize),
            Finish,
            Bad(u32, u32),
        }
        let ops: Vec<Op> = vec![
            Op::Start(11025, 1),
            Op::Start(44100, 2),
            Op::Feed(1300),
            Op::Feed(33000),
            Op::Finish,
            Op::Bad(1000, 1),
            Op::Bad(44100, 0),
            Op::Start(8000, 1),
        ];
        let k = t.pick(7, 8);
        let depth = t.pick(4, 5);
        let total = words_upto(k, depth) * 2;
        let memo: Arc<Mutex<HashMap<Vec<Op>, Arc<Vec<u32>>>>> = Default::default();
        let cfg = cfg.clone();
        fams.push(Family::new(
            "operation-words",
            format!("all words of up to {depth} operations over {:?}, after start(11025,1) or start(44100,2), fingerprint observed after every operation", &ops[..k as usize]),
            total,
            move |i, ex| {
                let mut w: Vec<Op> = vec![if i % 2 == 0 { ops[0] } else { ops[1] }];
                w.extend(word(i / 2, k, depth).iter().map(|&x| ops[x]));
                ex.note(|| format!("{}: {w:?}", cfg.label()));
                // The model state: operations since the last successful start.
                let mut since: Vec<Op> = vec![];
                let apply = |p: &mut Fingerprinter, op: Op, nth: usize, ch: u32| match op {
                    Op::Start(r, c) => p.start(r, c).expect("valid start"),
                    Op::Feed(n) => p.consume(&audio_c(n * ch as usize, 200 + nth as u64)),
                    Op::Finish => p.finish(),
                    Op::Bad(r, c) => assert!(p.start(r, c).is_err(), "start({r},{c}) was accepted"),
                };
                let mut p = Fingerprinter::new(&cfg.build());
                let mut ch = 1;
                let expect = |since: &[Op]| -> Arc<Vec<u32>> {
                    if let Some(v) = memo.lock().unwrap().get(since) {
                        return v.clone();
                    }
                    let mut p = Fingerprinter::new(&cfg.build());
                    let mut c = 1;
                    for (k, op) in since.iter().enumerate() {
                        if let Op::Start(_, cc) = op {
                            c = *cc;
                        }
                        apply(&mut p, *op, k, c);
                    }
                    let v = Arc::new(p.fingerprint().to_vec());
                    memo.lock().unwrap().insert(since.to_vec(), v.clone());
                    v
                };
                for (pos, &op) in w.iter().enumerate() {
                    match op {
                        Op::Start(_, c) => {
                            since.clear();
                            ch = c;
                            since.push(op);
                        }
                        Op::Bad(..) => {}
                        _ => since.push(op),
                    }
                    apply(&mut p, op, since.len() - 1, ch);
                    ex.steps(1);
                    ex.state(&since);
                    let want = expect(&since);
                    ensure!(p.fingerprint() == want.as_slice(), "{}: after {:?}: {} (compared with a new fingerprinter given {since:?})", cfg.label(), &w[..=pos], first_diff(&want, p.fingerprint()));
                }
                ex.outcome(p.fingerprint());
                ex.trace();
                Ok(())
            },
        ));
    }

    // Presets, including histories longer than the 256-row image.
    {
        let hist = [0usize, 2000, 20000, 40000, 120_000, 400_000];
        let starts = [(11025u32, 1u32), (44100, 2), (11025, 2)];
        let total = product(&[5, 6, 3, 3, 2]);
        fams.push(Family::new(
            "presets",
            format!("presets 1..5 x earlier stream of {hist:?} frames x start parameters before and after x finished or abandoned"),
            total,
            move |i, ex| {
                let d = digits(i, &[5, 3, 3, 2, 6]);
                let cfg = Cfg::preset(d[0] as u8 + 1);
                let a = Session { rate: starts[d[1]].0, ch: starts[d[1]].1, feeds: vec![hist[d[4]]], end: d[3] as u8 };
                let b = Session { rate: starts[d[2]].0, ch: starts[d[2]].1, feeds: vec![36000, 9000], end: 1 };
                ex.note(|| format!("{}: {a:?} then {b:?}", cfg.label()));
                let fresh = observe(&mut Fingerprinter::new(&cfg.build()), &b, 102, ex);
                let mut p = Fingerprinter::new(&cfg.build());
                play(&mut p, &a, 101, ex);
                let got = observe(&mut p, &b, 102, ex);
                ex.trace();
                ex.state(&d);
                ex.outcome(&got);
                check_fresh(&got, &fresh, &|| format!("{}: {a:?} then {b:?}", cfg.label()))
            },
        ));
    }
    // Row counts around the image's and the filter's ring sizes.
    {
        let rows_max = t.pick(560u64, 1100);
        let cfg = Cfg::small(1, 32, 0);
        let cs: Vec<usize> = vec![1, 5, 8];
        fams.push(Family::new(
            "ring-phase",
            format!("earlier streams of 0..={rows_max} feature rows (all phases of the 8-row and 256-row rings) x 3 filter lengths, later stream of 300 rows"),
            (rows_max + 1) * 3,
            move |i, ex| {
                let d = digits(i, &[3, rows_max + 1]);
                let cfg = cfg.clone().coefs(&vec![0.5; cs[d[0]]]);
                let a = Session { rate: 11025, ch: 1, feeds: vec![d[1] * 32 + 5], end: 1 };
                let b = Session { rate: 11025, ch: 1, feeds: vec![300 * 32], end: 1 };
                ex.note(|| format!("{}: {a:?} then {b:?}", cfg.label()));
                let fresh = observe(&mut Fingerprinter::new(&cfg.build()), &b, 112, ex);
                let mut p = Fingerprinter::new(&cfg.build());
                p.start(11025, 1).expect("valid start");
                p.consume(&audio_c(40_000, 111)[..a.feeds[0]]);
                p.finish();
                let got = observe(&mut p, &b, 112, ex);
                ex.trace();
                ex.state(&d);
                ex.outcome(&got);
                check_fresh(&got, &fresh, &|| format!("{}: {a:?} then {b:?}", cfg.label()))
            },
        ));
    }
    fams
}

/// Audio of one channel, the first `n` frames or more of an endless stream.
fn long_noise(n: usize) -> Arc<Vec<i16>> {
    static LAST: std::sync::Mutex<Option<Arc<Vec<i16>>>> = std::sync::Mutex::new(None);
    let mut l = LAST.lock().unwrap();
    if let Some(v) = &*l {
        if v.len() >= n {
            return v.clone();
        }
    }
    let v: Arc<Vec<i16>> = Arc::new((0..n.next_power_of_two() as u64).map(|k| ((mix(k / 7) % 8000) as i16 - 4000) + (mix(k * 3 + 1) % 900) as i16).collect());
    *l = Some(v.clone());
    v
}

fn len_check(cfg: &Cfg, ch: u32, n: usize, piece: usize, ex: &mut Exec) -> Res {
    let conf = cfg.build();
    let d = conf.delay();
    let s = (conf.item_duration_in_seconds() as f64 * 11025.0).round() as usize;
    ensure!(s > 0, "{}: the item duration is not positive", cfg.label());
    let want = if n < d { 0 } else { (n - d) / s };
    let mut p = Fingerprinter::new(&conf);
    p.start(NATIVE, ch).expect("valid start");
    let c = ch as usize;
    let data = if n > 140_000 { long_noise(n) } else if c == 1 { audio_c(140_000, 7) } else { audio_c(140_000 * c, 8) };
    let mut left = n;
    let mut at = 0;
    while left > 0 {
        let k = left.min(piece);
        p.consume(&data[at * c..(at + k) * c]);
        at += k;
        left -= k;
        ex.steps(1);
    }
    p.finish();
    ex.steps(2);
    ex.trace();
    let got = p.fingerprint().len();
    ex.outcome(got);
    ensure!(got == want, "{}: {n} frames of {ch} channels give {got} items, but delay() = {d} and the item duration of {s} samples announce {want}", cfg.label());
    ensure!(want == cfg.m_items(n), "{}: {n} frames give {want} items, but the algorithm defines {} (delay {}, hop {})", cfg.label(), cfg.m_items(n), cfg.m_delay(), cfg.m_hop());
    Ok(())
}

pub fn c03(t: Tier) -> Vec<Family> {
    let mut fams = vec![];
    // Small configurations: every length up to a few items past the delay.
    {
        let mut cfgs = vec![];
        let sizes: Vec<usize> = t.pick(
            vec![2, 3, 4, 5, 8, 12, 16, 17, 31, 32, 33, 48, 64],
            (2..=40).chain([48, 63, 64, 65, 96, 100, 127, 128]).collect(),
        );
        for &fs in &sizes {
            let ovs: Vec<usize> = if fs <= t.pick(8, 24) {
                (0..fs).collect()
            } else {
                vec![0, 1, fs / 3, fs / 2, fs - fs / 3, fs - 2, fs - 1]
            };
            for ov in ovs {
                for k in 1..=8usize {
                    if t == Tier::Quick && fs > 17 && ![1, 2, 5, 8].contains(&k) {
                        continue;
                    }
                    for preset in [1u8, 2] {
                        cfgs.push(Cfg::small(preset, fs, ov).coefs(&vec![0.5; k]));
                    }
                }
            }
        }
        fams.push(Family::new(
            "every-length",
            format!("{} configurations (frame sizes {sizes:?} x overlaps x 1..8 coefficients x classifier sets), every stream length from 0 to delay + 4 items + 2, in one call", cfgs.len()),
            cfgs.len() as u64,
            move |i, ex| {
                let cfg = &cfgs[i as usize];
                let nmax = cfg.m_delay() + 4 * cfg.m_hop() + 2;
                ex.note(|| format!("{}: N = 0..={nmax}", cfg.label()));
                for n in 0..=nmax {
                    ex.state((i, n));
                    len_check(cfg, 1, n, 1 << 20, ex)?;
                }
                Ok(())
            },
        ));
    }
    // Around the buffer size.
    {
        let cfgs: Vec<Cfg> = vec![
            Cfg::small(2, 64, 0),
            Cfg::small(2, 64, 48),
            Cfg::small(1, 1000, 1),
            Cfg::small(2, 4096, 4096 - 1365),
            Cfg::small(2, 32768, 16384),
            Cfg::small(2, 40000, 39000),
        ];
        let r = t.pick(6i64, 70);
        let chans: Vec<u32> = t.pick(vec![1, 2, 3], vec![1, 2, 3, 4, 6, 8]);
        let pieces = [1usize << 20, 4096, 32768, 777];
        let nn = (3 * (2 * r + 1)) as u64;
        let nch = chans.len() as u64;
        let total = product(&[cfgs.len() as u64, nn, nch, 4]);
        fams.push(Family::new(
            "buffer-multiples",
            format!("{} configurations x N within {r} of 1, 2, 3 times 32768 x channels {chans:?} x call sizes {pieces:?}", cfgs.len()),
            total,
            move |i, ex| {
                let d = digits(i, &[cfgs.len() as u64, nch, 4, nn]);
                let cfg = &cfgs[d[0]];
                let per = (2 * r + 1) as usize;
                let n = (32768 * (1 + d[3] / per) as i64 + (d[3] % per) as i64 - r) as usize;
                ex.note(|| format!("{} {} channels N={n} calls of {}", cfg.label(), chans[d[1]], pieces[d[2]]));
                ex.state((d[0], n, d[1]));
                len_check(cfg, chans[d[1]], n, pieces[d[2]], ex)
            },
        ));
    }
    // Frame alignment: items appear exactly one by one over a long stream.
    {
        let cfgs: Vec<Cfg> = vec![
            Cfg::small(2, 64, 33),
            Cfg::small(2, 33, 0).coefs(&[1.0]),
            Cfg::small(1, 97, 50).coefs(&[0.3; 8]),
            Cfg::small(2, 20, 3).coefs(&[0.3, 1.0, 0.3]),
        ];
        let lens: Vec<usize> = (0..t.pick(1200usize, 14000)).map(|k| 1 + k * t.pick(28, 10)).collect();
        let total = (cfgs.len() * lens.len()) as u64;
        fams.push(Family::new(
            "long-streams",
            format!("{} configurations x {} lengths up to {}", cfgs.len(), lens.len(), lens.last().unwrap()),
            total,
            move |i, ex| {
                let cfg = &cfgs[i as usize % cfgs.len()];
                let n = lens[i as usize / cfgs.len()];
                ex.note(|| format!("{} N={n}", cfg.label()));
                ex.state((i as usize % cfgs.len(), n));
                len_check(cfg, 1, n, 1 << 20, ex)
            },
        ));
    }
    // Item counts beyond every power of two up to a limit.
    {
        let cfgs: Vec<Cfg> = vec![
            Cfg::small(2, 4, 3).coefs(&[1.0]),
            Cfg::small(1, 8, 4).coefs(&[0.3; 8]),
            Cfg::small(2, 16, 8),
            Cfg::small(3, 5, 2),
        ];
        let mut counts: Vec<usize> = vec![];
        for k in 12..=t.pick(18u32, 22) {
            for e in [-1i64, 0, 1, 2] {
                counts.push(((1i64 << k) + e) as usize);
            }
        }
        let pieces = [1usize << 30, 50_000];
        let total = (cfgs.len() * counts.len() * 2) as u64;
        fams.push(Family::new(
            "item-counts",
            format!("{} configurations x item counts of every power of two from 2^12 to {}, and up to two more, x call sizes", cfgs.len(), counts.last().unwrap()),
            total,
            move |i, ex| {
                let d = digits(i, &[cfgs.len() as u64, 2, counts.len() as u64]);
                let cfg = &cfgs[d[0]];
                let n = cfg.m_delay() + counts[d[2]] * cfg.m_hop();
                ex.note(|| format!("{} N={n}, calls of {}", cfg.label(), pieces[d[1]]));
                ex.state((d[0], n));
                len_check(cfg, 1, n, pieces[d[1]], ex)
            },
        ));
    }
    // Presets.
    {
        let mut cases = vec![];
        for p in 1..=5u8 {
            let cfg = Cfg::preset(p);
            let (d, s) = (cfg.m_delay(), cfg.m_hop());
            for k in 0..t.pick(12usize, 60) {
                for e in [-1i64, 0, 1] {
                    cases.push((p, (d as i64 + (k * s) as i64 + e) as usize));
                }
            }
            for n in [0usize, 1, 2, 1000, 4095, 4096, 4097] {
                cases.push((p, n));
            }
            for m in 1..=3 {
                for e in [-1i64, 0, 1] {
                    cases.push((p, (32768 * m + e) as usize));
                }
            }
        }
        let chans = [1u32, 2, 5];
        fams.push(Family::new(
            "presets",
            format!("{} (preset, length) pairs around every multiple of the item duration, the frame size and the buffer x channels 1, 2, 5", cases.len()),
            (cases.len() * 3) as u64,
            move |i, ex| {
                let (p, n) = cases[i as usize / 3];
                let ch = chans[i as usize % 3];
                let cfg = Cfg::preset(p);
                ex.note(|| format!("{} {ch} channels N={n}", cfg.label()));
                ex.state((p, n, ch));
                len_check(&cfg, ch, n, [1 << 20, 5000, 1][i as usize % 3].max(64), ex)
            },
        ));
    }
    fams
}

pub fn c04(t: Tier) -> Vec<Family> {
    let mut fams = vec![];
    {
        let ops: Vec<usize> = t.pick(vec![0, 1, 90, 1700, 33000], vec![0, 1, 48, 90, 1700, 32768, 33000]);
        let k = ops.len() as u64 + 1; // + finish
        let depth = t.pick(5, 5);
        let combos = [(11025u32, 1u32), (44100, 2), (8000, 1)];
        let wn = words_upto(k, depth);
        let cfg = Cfg::small(2, 64, 16);
        fams.push(Family::new(
            "operation-words",
            format!("all words of up to {depth} operations over consume {ops:?} frames and finish x 3 rate/channel pairs; read after every operation, every earlier reading must be a prefix"),
            wn * 3,
            move |i, ex| {
                let (rate, ch) = combos[(i % 3) as usize];
                let w = word(i / 3, k, depth);
                let names: Vec<String> = w.iter().map(|&x| if x < ops.len() { format!("consume {}", ops[x]) } else { "finish".into() }).collect();
                ex.note(|| format!("{} start({rate},{ch}) {names:?}", cfg.label()));
                let mut p = Fingerprinter::new(&cfg.build());
                p.start(rate, ch).expect("valid start");
                let mut seen: Vec<u32> = vec![];
                let data = audio_c(170_000 * ch as usize, 121);
                let mut at = 0;
                let mut finished = false;
                for (pos, &x) in w.iter().enumerate() {
                    let fin = x == ops.len();
                    if fin {
                        p.finish();
                    } else {
                        let n = ops[x] * ch as usize;
                        p.consume(&data[at..at + n]);
                        at += n;
                    }
                    ex.steps(1);
                    let now = p.fingerprint().to_vec();
                    ensure!(now.len() >= seen.len() && now[..seen.len()] == seen[..], "{} start({rate},{ch}) {:?}: the reading after the last operation does not extend the one before: {}", cfg.label(), &names[..=pos], first_diff(&seen, &now));
                    if (fin && finished) || (!fin && ops[x] == 0) {
                        ensure!(now == seen, "{} start({rate},{ch}) {:?}: the last operation brought no audio but changed the fingerprint: {}", cfg.label(), &names[..=pos], first_diff(&seen, &now));
                    }
                    if fin {
                        finished = true;
                    } else if ops[x] > 0 {
                        finished = false;
                    }
                    seen = now;
                }
                // A closing pair of finishes.
                p.finish();
                let a = p.fingerprint().to_vec();
                ensure!(a.len() >= seen.len() && a[..seen.len()] == seen[..], "{} start({rate},{ch}) {names:?} + finish changed earlier items: {}", cfg.label(), first_diff(&seen, &a));
                p.finish();
                p.consume(&[]);
                p.finish();
                ensure!(p.fingerprint() == a.as_slice(), "{} start({rate},{ch}) {names:?} + finish: finishing again changed the fingerprint: {}", cfg.label(), first_diff(&a, p.fingerprint()));
                ex.state((i % 3, &w));
                ex.outcome(&a);
                ex.trace();
                Ok(())
            },
        ));
    }
    // Finish after every number of frames, then go on.
    {
        let nmax = t.pick(1500u64, 8000);
        let combos = [(11025u32, 1u32), (44100, 1), (8000, 2), (22050, 1)];
        let cfg = Cfg::small(1, 40, 13);
        fams.push(Family::new(
            "finish-anywhere",
            format!("finish after each number of frames 0..={nmax}, finish again, 1000 more frames, finish, finish x 4 rate/channel pairs"),
            (nmax + 1) * 4,
            move |i, ex| {
                let (rate, ch) = combos[(i % 4) as usize];
                let n = (i / 4) as usize;
                let c = ch as usize;
                ex.note(|| format!("{} start({rate},{ch}) consume {n}, finish, finish, consume 1000, finish, finish", cfg.label()));
                let data = audio_c((nmax as usize + 1000) * c, 131);
                let mut p = Fingerprinter::new(&cfg.build());
                p.start(rate, ch).expect("valid start");
                let mut seen: Vec<u32> = vec![];
                let mut step = |p: &Fingerprinter, same: bool, what: &str| -> Res {
                    let now = p.fingerprint();
                    ensure!(now.len() >= seen.len() && now[..seen.len()] == seen[..], "{} start({rate},{ch}), {n} frames: after {what} the fingerprint is not an extension of the one read before: {}", cfg.label(), first_diff(&seen, now));
                    ensure!(!same || now.len() == seen.len(), "{} start({rate},{ch}), {n} frames: {what} without new audio added items", cfg.label());
                    seen = now.to_vec();
                    Ok(())
                };
                for half in [0, n / 2] {
                    let end = if half == 0 { n / 2 } else { n };
                    p.consume(&data[half * c..end * c]);
                    step(&p, false, "consume")?;
                    if n < 2 {
                        break;
                    }
                }
                p.finish();
                step(&p, false, "the first finish")?;
                p.finish();
                step(&p, true, "the second finish")?;
                p.consume(&data[n * c..(n + 1000) * c]);
                step(&p, false, "consuming more audio")?;
                p.finish();
                step(&p, false, "the third finish")?;
                p.finish();
                step(&p, true, "the fourth finish")?;
                ex.steps(8);
                ex.state((i % 4, n));
                ex.outcome(p.fingerprint());
                ex.trace();
                Ok(())
            },
        ));
    }
    // A long stream read after every small piece.
    {
        let combos: Vec<(u8, u32, usize)> = (1..=5u8)
            .flat_map(|p| [11025u32, 44100, 48000].into_iter().flat_map(move |r| [997usize, 4096, 32768].map(move |k| (p, r, k))))
            .collect();
        let n = t.pick(200_000usize, 900_000);
        fams.push(Family::new(
            "presets-long",
            format!("presets 1..5 x rates x piece sizes, {n} frames read after every piece (past the 256-row ring)"),
            combos.len() as u64,
            move |i, ex| {
                let (pr, rate, piece) = combos[i as usize];
                let cfg = Cfg::preset(pr);
                ex.note(|| format!("{} at {rate} in pieces of {piece}", cfg.label()));
                let data = audio_c(n, 141);
                let mut p = Fingerprinter::new(&cfg.build());
                p.start(rate, 1).expect("valid start");
                let mut seen: Vec<u32> = vec![];
                for (k, d) in data.chunks(piece).enumerate() {
                    p.consume(d);
                    let now = p.fingerprint();
                    ensure!(now.len() >= seen.len() && now[..seen.len()] == seen[..], "{} at {rate} Hz: reading after piece {k} of {piece} frames: {}", cfg.label(), first_diff(&seen, now));
                    seen = now.to_vec();
                    ex.steps(1);
                    ex.state((i, k));
                }
                p.finish();
                let now = p.fingerprint();
                ensure!(now.len() >= seen.len() && now[..seen.len()] == seen[..], "{} at {rate} Hz: finish changed items: {}", cfg.label(), first_diff(&seen, now));
                ex.outcome(now);
                ex.trace();
                Ok(())
            },
        ));
    }
    fams
}

/// Compares item `k` of two fingerprints allowing bits the model calls rounding-dependent in either stream.
fn same_items(
    cfg: &Cfg,
    sa: &[i16],
    sb: &[i16],
    a: &[u32],
    b: &[u32],
    pairs: impl Iterator<Item = (usize, usize)>,
    ex: &mut Exec,
) -> Result<(), (usize, usize)> {
    let mut models: Option<(Vec<refmodel::RefItem>, Vec<refmodel::RefItem>)> = None;
    for (i, j) in pairs {
        if a[i] != b[j] {
            let (ma, mb) = models.get_or_insert_with(|| (refmodel::reference(cfg, sa), refmodel::reference(cfg, sb)));
            let free = ma.get(i).map_or(0, |m| m.amb) | mb.get(j).map_or(0, |m| m.amb);
            ex.undecided(1);
            if (a[i] ^ b[j]) & !free != 0 {
                return Err((i, j));
            }
        }
    }
    Ok(())
}

pub fn c05(t: Tier) -> Vec<Family> {
    let mut fams = vec![];
    // Replace a block anywhere; items whose window misses the block stay.
    {
        let cfgs: Vec<Cfg> = vec![
            Cfg::small(2, 64, 16),
            Cfg::small(1, 32, 0).coefs(&[0.2, 1.0, 0.7, 0.1, 0.9, 0.4, 0.3, 0.8]),
            Cfg::small(3, 128, 100),
            Cfg::small(2, 64, 16).coefs(&[1.0]),
        ];
        let n = 37_000usize;
        let step = t.pick(61usize, 13);
        let blocks = n / step;
        let lens = [1usize, 7, 64, 700];
        let kinds = 3u64;
        let total = product(&[cfgs.len() as u64, blocks as u64, 4, kinds, 2]);
        let ncf = cfgs.len() as u64;
        let base: Arc<Lazy<Vec<u32>>> = Arc::new(Lazy::new(cfgs.len() * 2));
        fams.push(Family::new(
            "native-change",
            format!("{ncf} configurations x every {step}-th position of a {n}-frame stream (more than 256 rows, across the 32768 buffer) x block lengths {lens:?} x replacement by silence, full scale and other audio x stream without or with passages of digital silence; all items whose window misses the block compared"),
            total,
            move |i, ex| {
                let d = digits(i, &[ncf, kinds, 4, blocks as u64, 2]);
                let cfg = &cfgs[d[0]];
                let at = d[3] * step;
                let end = (at + lens[d[2]]).min(n);
                let mut orig = audio_c(n, 151).to_vec();
                let other = audio_c(n, 152);
                if d[4] == 1 {
                    for (from, to) in [(5_000, 9_500), (14_000, 16_000), (19_000, 25_000), (30_000, n)] {
                        orig[from..to].fill(0);
                    }
                }
                let mut data = orig.to_vec();
                for k in at..end {
                    data[k] = match d[1] {
                        0 => 0,
                        1 => if (k / 5) % 2 == 0 { 32767 } else { -32768 },
                        _ => other[k],
                    };
                }
                ex.note(|| format!("{} frames {at}..{end} replaced (kind {}, silent passages: {})", cfg.label(), d[1], d[4]));
                let a = base.get(d[0] * 2 + d[4], || fp(&cfg.build(), NATIVE, 1, &orig));
                let b = fp(&cfg.build(), NATIVE, 1, &data);
                ex.steps(4);
                ex.trace();
                ex.state(&d);
                ex.outcome(&b);
                ensure!(a.len() == b.len(), "{}: replacing frames {at}..{end} changed the number of items from {} to {}", cfg.label(), a.len(), b.len());
                let (s, w) = (cfg.m_hop(), cfg.m_delay() + cfg.m_hop());
                let outside = (0..a.len()).filter(|k| k * s >= end || k * s + w <= at).map(|k| (k, k));
                if let Err((k, _)) = same_items(cfg, &orig, &data, &a, &b, outside, ex) {
                    ensure!(false, "{}: replacing frames {at}..{end} changed item {k}, whose window is frames {}..{} ({:08x} -> {:08x})", cfg.label(), k * s, k * s + w, a[k], b[k]);
                }
                Ok(())
            },
        ));
    }
    // Dropping the first k*S frames drops the first k items.
    {
        let cfgs: Vec<Cfg> = vec![
            Cfg::small(2, 64, 16),
            Cfg::small(1, 32, 0).coefs(&[0.2, 1.0, 0.7]),
            Cfg::small(3, 128, 100),
            Cfg::small(5, 64, 32),
        ];
        let rows = t.pick(600usize, 1500);
        let kmax = t.pick(540usize, 1400);
        let ncf = cfgs.len() as u64;
        fams.push(Family::new(
            "native-shift",
            format!("{ncf} configurations x dropping the first k items' frames for every k in 0..{kmax} of a stream of {rows} rows"),
            ncf * kmax as u64,
            move |i, ex| {
                let cfg = &cfgs[(i % ncf) as usize];
                let k = (i / ncf) as usize;
                let s = cfg.m_hop();
                let n = cfg.m_fs() + rows * s;
                let orig = audio_c(n, 161);
                let cut = &orig[k * s..];
                ex.note(|| format!("{} {n} frames, first {} dropped", cfg.label(), k * s));
                let a = fp(&cfg.build(), NATIVE, 1, &orig);
                let b = fp(&cfg.build(), NATIVE, 1, cut);
                ex.steps(8);
                ex.trace();
                ex.state((i % ncf, k));
                ex.outcome(&b);
                ensure!(a.len() == b.len() + k, "{}: dropping {} of {n} frames leaves {} of {} items", cfg.label(), k * s, b.len(), a.len());
                if let Err((x, y)) = same_items(cfg, &orig, cut, &a, &b, (0..b.len()).map(|j| (j + k, j)), ex) {
                    ensure!(false, "{}: after dropping the first {} frames item {y} is {:08x}, but item {x} of the whole stream is {:08x}", cfg.label(), k * s, b[y], a[x]);
                }
                Ok(())
            },
        ));
    }
    // The same far from the beginning.
    {
        let cfgs: Vec<Cfg> = vec![
            Cfg::small(2, 32, 24),
            Cfg::small(1, 16, 8).coefs(&[0.2, 1.0, 0.7, 0.1, 0.9, 0.4, 0.3, 0.8]),
            Cfg::small(3, 20, 12),
        ];
        let mut ks: Vec<usize> = vec![];
        for b in t.pick(vec![12u32, 15, 16, 17], (9..=20).collect()) {
            for e in [-16i64, -15, -1, 0, 1] {
                ks.push(((1i64 << b) + e) as usize);
            }
        }
        let rows = ks.last().unwrap() + 400;
        let ncf = cfgs.len() as u64;
        let base: Arc<Lazy<Vec<u32>>> = Arc::new(Lazy::new(cfgs.len()));
        fams.push(Family::new(
            "far-shift",
            format!("{ncf} configurations x dropping the first k items' frames for {} values of k around powers of two of a stream of {rows} rows; the 300 items from there on compared", ks.len()),
            ncf * ks.len() as u64,
            move |i, ex| {
                let c = (i % ncf) as usize;
                let cfg = &cfgs[c];
                let k = ks[(i / ncf) as usize];
                let s = cfg.m_hop();
                let n = cfg.m_fs() + rows * s;
                let all = long_noise(n);
                ex.note(|| format!("{} {n} frames, first {} dropped", cfg.label(), k * s));
                let a = base.get(c, || fp(&cfg.build(), NATIVE, 1, &all[..n]));
                let cut = &all[k * s..(k * s + cfg.m_delay() + 300 * s).min(n)];
                let b = fp(&cfg.build(), NATIVE, 1, cut);
                ex.steps(8);
                ex.trace();
                ex.state((c, k));
                ex.outcome(&b);
                ensure!(a.len() >= k + b.len() && b.len() >= 200, "{}: {} items of the whole stream, {} of the part from item {k} on", cfg.label(), a.len(), b.len());
                // Rounding-dependent bits are found on the part alone.
                if let Err((x, y)) = same_items(cfg, cut, cut, &a[k..k + b.len()], &b, (0..b.len()).map(|j| (j, j)), ex) {
                    ensure!(false, "{}: item {} of a stream of {n} frames is {:08x}, but {:08x} when the stream begins with item {k}", cfg.label(), k + x, a[k + x], b[y]);
                }
                Ok(())
            },
        ));
    }
    // Presets: blocks across several buffer lengths.
    {
        let n = 400_000usize;
        let step = t.pick(8000usize, 1500);
        let blocks = n / step;
        let base: Arc<Lazy<Vec<u32>>> = Arc::new(Lazy::new(10));
        fams.push(Family::new(
            "presets-change",
            format!("presets 1..5 x a 3000-frame block replaced at every {step}-th frame of {n} frames, without or with digital silence in the second half"),
            (blocks * 10) as u64,
            move |i, ex| {
                let cfg = Cfg::preset((i % 5) as u8 + 1);
                let silent = (i / 5 % 2) as usize;
                let at = (i / 10) as usize * step;
                let end = (at + 3000).min(n);
                let mut orig = audio_c(n, 171).to_vec();
                if silent == 1 {
                    orig[n / 2..].fill(0);
                }
                let mut data = orig.to_vec();
                data[at..end].copy_from_slice(&audio_c(n, 172)[at..end]);
                ex.note(|| format!("{} frames {at}..{end} replaced", cfg.label()));
                let a = base.get((i % 10) as usize, || fp(&cfg.build(), NATIVE, 1, &orig));
                let b = fp(&cfg.build(), NATIVE, 1, &data);
                ex.steps(4);
                ex.trace();
                ex.state((i % 10, at));
                ex.outcome(&b);
                ensure!(a.len() == b.len(), "{}: replacing frames {at}..{end} changed the number of items", cfg.label());
                let (s, w) = (cfg.m_hop(), cfg.m_delay() + cfg.m_hop());
                let outside = (0..a.len()).filter(|k| k * s >= end || k * s + w <= at).map(|k| (k, k));
                if let Err((k, _)) = same_items(&cfg, &orig, &data, &a, &b, outside, ex) {
                    ensure!(false, "{}: replacing frames {at}..{end} changed item {k}, whose window is frames {}..{} ({:08x} -> {:08x})", cfg.label(), k * s, k * s + w, a[k], b[k]);
                }
                Ok(())
            },
        ));
    }
    // Resampled streams: a burst of other audio must stay within its scaled window.
    {
        let rates: Vec<u32> = t.pick(vec![8000, 16000, 22050, 44100, 48000], vec![8000, 11000, 12000, 16000, 22050, 24000, 32000, 44100, 48000, 88200, 96000, 192000]);
        let tails: Vec<usize> = t.pick(vec![0, 1, 10, 400, 5000, 30000], vec![0, 1, 2, 5, 10, 20, 50, 100, 400, 1000, 5000, 16384, 30000, 32767]);
        let fulls = [1usize, 2];
        let spots = t.pick(24u64, 90);
        let cfg = Cfg::small(2, 64, 16);
        let total = product(&[rates.len() as u64, tails.len() as u64, 2, spots]);
        let (nr, nt) = (rates.len() as u64, tails.len() as u64);
        let memo: Arc<Mutex<HashMap<(u32, usize), Arc<Vec<u32>>>>> = Default::default();
        fams.push(Family::new(
            "resampled-burst",
            format!("rates {rates:?} x streams of 1 or 2 full blocks plus a tail of {tails:?} frames x a 300-frame burst at {spots} positions each; items outside the scaled window (5 ms slack) unchanged"),
            total,
            move |i, ex| {
                let d = digits(i, &[nr, nt, 2, spots]);
                let rate = rates[d[0]];
                let n = 32768 * fulls[d[2]] + tails[d[1]];
                // Positions: evenly spread, plus dense ones at the last block boundary.
                let half = spots as usize / 2;
                let at = if d[3] < half {
                    d[3] * n / half
                } else {
                    (32768 * fulls[d[2]]).saturating_sub((spots as usize - d[3]) * 37)
                };
                let end = (at + 300).min(n);
                let orig = audio_c(140_000, 181);
                let orig = &orig[..n];
                let mut data = orig.to_vec();
                for (k, v) in data[at..end].iter_mut().enumerate() {
                    *v = if (k / 9) % 2 == 0 { 30000 } else { -30000 };
                }
                ex.note(|| format!("{} {rate} Hz, {n} frames, burst at {at}..{end}", cfg.label()));
                let hit = memo.lock().unwrap().get(&(rate, n)).cloned();
                let a = match hit {
                    Some(a) => a,
                    None => {
                        let a = Arc::new(fp(&cfg.build(), rate, 1, orig));
                        memo.lock().unwrap().insert((rate, n), a.clone());
                        a
                    }
                };
                let b = fp(&cfg.build(), rate, 1, &data);
                ex.steps(4);
                ex.trace();
                ex.state(&d);
                ex.outcome(&b);
                ensure!(a.len() == b.len(), "{rate} Hz: replacing frames {at}..{end} of {n} changed the number of items from {} to {}", a.len(), b.len());
                let f = rate as f64 / 11025.0;
                let slack = 0.005 * rate as f64;
                let (s, w) = (cfg.m_hop() as f64 * f, (cfg.m_delay() + cfg.m_hop()) as f64 * f);
                for k in 0..a.len() {
                    let (lo, hi) = (k as f64 * s - slack, k as f64 * s + w + slack);
                    if lo >= end as f64 || hi <= at as f64 {
                        ensure!(a[k] == b[k], "{} at {rate} Hz, {n} frames: replacing frames {at}..{end} changed item {k} of {}, whose window is frames {lo:.0}..{hi:.0} ({:08x} -> {:08x})", cfg.label(), a.len(), a[k], b[k]);
                    }
                }
                Ok(())
            },
        ));
    }
    fams
}

// ---------------------------------------------------------------- C27

pub fn c27(t: Tier) -> Vec<Family> {
    let mut fams = vec![];
    let cfg = Cfg::small(2, 64, 16);
    // Words over valid operations and misuse.
    {
        #[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
        enum Op {
            Start(u32, u32),
            Bad(u32, u32),
            /// Whole frames.
            Feed(usize),
            /// Frames and a piece of one.
            Piece(usize),
            Finish,
        }
        use Op::*;
        let ops: Vec<Op> = vec![Start(11025, 2), Feed(1700), Piece(40), Finish, Piece(33_000), Feed(33_000), Start(44100, 3), Bad(1000, 2), Start(11025, 1)];
        let k = t.pick(8, 9);
        let depth = t.pick(4, 5);
        let memo: Arc<Mutex<HashMap<Vec<Op>, Arc<Vec<u32>>>>> = Default::default();
        let cfg = cfg.clone();
        fams.push(Family::new(
            "operation-words",
            format!("all words of up to {depth} operations over {:?} on a new fingerprinter: audio before any start and incomplete frames must be refused, everything else shows what it shows without the refused calls", &ops[..k as usize]),
            words_upto(k, depth),
            move |i, ex| {
                let w: Vec<Op> = word(i, k, depth).iter().map(|&x| ops[x]).collect();
                ex.note(|| format!("{}: {w:?}", cfg.label()));
                // The model state: the accepted operations since the last accepted start.
                let mut since: Vec<Op> = vec![];
                let mut ch = 0u32;
                let apply = |p: &mut Fingerprinter, op: Op, nth: usize, ch: u32| {
                    let c = ch.max(1) as usize;
                    match op {
                        Start(r, c) => p.start(r, c).expect("valid start"),
                        Feed(n) => p.consume(&audio_c(n * c, 400 + nth as u64)),
                        Piece(n) => p.consume(&audio_c(n * c + 1, 400 + nth as u64)),
                        Finish => p.finish(),
                        Bad(r, c) => assert!(p.start(r, c).is_err(), "start({r},{c}) was accepted"),
                    }
                };
                let expect = |since: &[Op]| -> Arc<Vec<u32>> {
                    if let Some(v) = memo.lock().unwrap().get(since) {
                        return v.clone();
                    }
                    let mut p = Fingerprinter::new(&cfg.build());
                    let mut c = 0;
                    for (k, op) in since.iter().enumerate() {
                        if let Start(_, cc) = op {
                            c = *cc;
                        }
                        apply(&mut p, *op, k, c);
                    }
                    let v = Arc::new(p.fingerprint().to_vec());
                    memo.lock().unwrap().insert(since.to_vec(), v.clone());
                    v
                };
                let mut p = Fingerprinter::new(&cfg.build());
                for (pos, &op) in w.iter().enumerate() {
                    let refuse = match op {
                        Feed(_) => ch == 0,
                        Piece(_) => ch != 1,
                        _ => false,
                    };
                    match op {
                        Start(_, c) => {
                            since = vec![op];
                            ch = c;
                        }
                        Bad(..) => {}
                        _ if refuse => {}
                        _ => since.push(op),
                    }
                    let nth = if refuse { 90 } else { since.len().saturating_sub(1) };
                    let r = guarded(|| apply(&mut p, op, nth, ch));
                    ex.steps(1);
                    ex.state((&since, refuse));
                    match (refuse, r) {
                        (true, Ok(())) => ensure!(false, "{}: after {:?} {op:?} with {ch} channels was accepted", cfg.label(), &w[..pos]),
                        (false, Err((loc, m))) => ensure!(false, "{}: after {:?} {op:?} with {ch} channels panicked at {loc}: {m}", cfg.label(), &w[..pos]),
                        _ => {}
                    }
                    let want = expect(&since);
                    ensure!(p.fingerprint() == want.as_slice(), "{}: after {:?}: {} (compared with the accepted calls {since:?} alone)", cfg.label(), &w[..=pos], first_diff(&want, p.fingerprint()));
                }
                ex.outcome(p.fingerprint());
                ex.trace();
                Ok(())
            },
        ));
    }
    // Every piece of a frame at every critical fill level.
    {
        let cmax = t.pick(10u64, 24);
        let mut chans: Vec<u32> = (2..=cmax as u32).collect();
        chans.extend(t.pick(vec![255, 256, 257], vec![63, 64, 65, 255, 256, 257, 65535]));
        let before = [0usize, 1, 700, 32767, 32768];
        let frames = [0usize, 1, 63, 32767, 32768, 33_000];
        let rates = [11025u32, 44100];
        let mut cases: Vec<(u32, usize)> = vec![];
        for &c in &chans {
            for r in 1..c as usize {
                if c <= cmax as u32 || [1, 2, c as usize / 2, c as usize - 1].contains(&r) {
                    cases.push((c, r));
                }
            }
        }
        let rad = [cases.len() as u64, before.len() as u64, frames.len() as u64, rates.len() as u64];
        let cfg = cfg.clone();
        fams.push(Family::new(
            "every-piece",
            format!("{} (channels, samples too many) pairs x frames given before {before:?} x whole frames in the refused call {frames:?} x rates {rates:?}; then the stream continues", cases.len()),
            product(&rad),
            move |i, ex| {
                let d = digits(i, &[rad[2], rad[1], rad[3], rad[0]]);
                let (ch, r) = cases[d[3]];
                let c = ch as usize;
                let (n0, n1, rate) = (before[d[1]], frames[d[0]], rates[d[2]]);
                if c > 300 && n0 + n1 > 2000 {
                    return Ok(());
                }
                let first = audio_c(n0 * c, 411);
                let bad = audio_c(n1 * c + r, 412);
                let rest = audio_c(2500 * c, 413);
                ex.note(|| format!("{} {rate} Hz, {ch} channels: {n0} frames, {n1} frames and {r} samples", cfg.label()));
                ex.state(&d);
                let mut p = Fingerprinter::new(&cfg.build());
                p.start(rate, ch).expect("valid start");
                p.consume(&first);
                let shown = p.fingerprint().to_vec();
                ensure!(guarded(|| p.consume(&bad)).is_err(), "{}: {n1} frames of {ch} channels and {r} samples at {rate} Hz, after {n0} frames, were accepted", cfg.label());
                ensure!(p.fingerprint() == shown.as_slice(), "{}: a refused call ({n1} frames of {ch} channels and {r} samples at {rate} Hz, after {n0} frames) changed the fingerprint", cfg.label());
                p.consume(&rest);
                p.finish();
                let mut q = Fingerprinter::new(&cfg.build());
                q.start(rate, ch).expect("valid start");
                q.consume(&first);
                q.consume(&rest);
                q.finish();
                ex.steps(9);
                ex.trace();
                ex.outcome(q.fingerprint());
                ensure!(p.fingerprint() == q.fingerprint(), "{}: a refused call ({n1} frames of {ch} channels and {r} samples at {rate} Hz, after {n0} frames) changed the rest of the stream: {}", cfg.label(), first_diff(q.fingerprint(), p.fingerprint()));
                Ok(())
            },
        ));
    }
    fams
}
