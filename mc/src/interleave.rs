//! C17: independence of instances under every interleaving of their operations.

use crate::engine::*;
use crate::ensure;
use crate::matching::compress_with;
use crate::util::*;
use rusty_chromaprint::{match_fingerprints, Fingerprinter};
use std::sync::mpsc::{channel, Receiver, Sender};
use std::sync::Arc;

#[derive(Clone, Debug, PartialEq)]
enum Op {
    New(u16),
    Start(u32, u32),
    Feed(usize),
    Finish,
    Match,
    Compress,
    BadStart,
    Drop,
}

type Obs = Vec<u64>;

/// The configuration with a number: the units are the preset, the tens a variation of it.
fn config(n: u16) -> Cfg {
    if n as usize >= NEIGHBOURS {
        return neighbours(Tier::Thorough).swap_remove(n as usize - NEIGHBOURS);
    }
    let p = (n % 10) as u8;
    match n / 10 {
        1 => Cfg::small(p, 128, 80),
        2 => Cfg::small(p, 64, 16).coefs(&[1.0, 0.5]),
        3 => Cfg::small(p, 64, 16).interp(p != 3),
        4 => Cfg::small(p, 64, 40),
        5 => Cfg { id: Some(77), ..Cfg::small(p, 64, 16) },
        6 => Cfg::small(p, 64, 16).coefs(&[0.25, 0.75, 1.0, 0.5, 0.25]),
        _ => Cfg::small(p, 64, 16),
    }
}

struct Actor {
    cfg: Cfg,
    seed: u64,
    p: Option<Fingerprinter>,
    ch: u32,
    fed: usize,
    preset: u16,
}

impl Actor {
    fn new(preset: u16, seed: u64) -> Self {
        Actor {
            cfg: config(preset),
            seed,
            p: None,
            ch: 1,
            fed: 0,
            preset,
        }
    }
    /// Executes one operation and returns what the caller can see afterwards.
    fn step(&mut self, op: &Op) -> Obs {
        let other: Vec<u32> = (0..80).map(|k| mix(k * 3 + self.seed) as u32 & 0xFF0F_FFFF).collect();
        match op {
            Op::New(p) => {
                self.preset = *p;
                self.cfg = config(*p);
                self.p = Some(Fingerprinter::new(&self.cfg.build()));
            }
            Op::Start(r, c) => {
                self.ch = *c;
                self.p.as_mut().unwrap().start(*r, *c).expect("valid start");
            }
            Op::BadStart => {
                let e = self.p.as_mut().unwrap().start(900, 1).is_err();
                return vec![e as u64];
            }
            Op::Feed(n) => {
                let n = n * self.ch as usize;
                let data = audio_c(80_000, self.seed);
                self.p.as_mut().unwrap().consume(&data[self.fed..self.fed + n]);
                self.fed += n;
            }
            Op::Finish => self.p.as_mut().unwrap().finish(),
            Op::Match => {
                let f = self.p.as_ref().map(|p| p.fingerprint().to_vec()).unwrap_or_default();
                let mut g = f[f.len() / 3..].to_vec();
                g.extend(&other);
                let s = match_fingerprints(&f, &g, &self.cfg.build()).expect("short fingerprints");
                return s.iter().flat_map(|s| [s.offset1 as u64, s.offset2 as u64, s.items_count as u64, s.score.to_bits()]).collect();
            }
            Op::Compress => {
                let f = self.p.as_ref().map(|p| p.fingerprint().to_vec()).unwrap_or_else(|| other.clone());
                return compress_with(&self.cfg.build(), &f).into_iter().map(|b| b as u64).collect();
            }
            Op::Drop => self.p = None,
        }
        match &self.p {
            Some(p) => p.fingerprint().iter().map(|&x| x as u64).collect(),
            None => vec![],
        }
    }
}

/// The i-th way of interleaving sequences of the given lengths, as the actor to step each time.
fn schedule(mut i: u64, lens: &[usize]) -> Vec<usize> {
    fn ways(l: &[usize]) -> u64 {
        let mut n = 1u64;
        let mut tot = 0u64;
        for &k in l {
            for j in 1..=k as u64 {
                tot += 1;
                n = n * tot / j;
            }
        }
        n
    }
    let mut left = lens.to_vec();
    let mut out = vec![];
    while left.iter().any(|&x| x > 0) {
        for a in 0..left.len() {
            if left[a] == 0 {
                continue;
            }
            left[a] -= 1;
            let w = ways(&left);
            if i < w {
                out.push(a);
                break;
            }
            i -= w;
            left[a] += 1;
        }
    }
    out
}

fn count(lens: &[usize]) -> u64 {
    let mut n = 1u64;
    let mut tot = 0u64;
    for &k in lens {
        for j in 1..=k as u64 {
            tot += 1;
            n = n * tot / j;
        }
    }
    n
}

fn scripts() -> Vec<Vec<Op>> {
    use Op::*;
    vec![
        vec![New(2), Start(11025, 1), Feed(1400), Feed(33000), Finish],
        vec![New(1), Start(44100, 2), Feed(9000), Finish, Compress],
        vec![New(2), Start(11025, 1), Feed(2100), Finish, Match],
        vec![New(3), Start(8000, 1), Feed(3000), BadStart, Finish],
        vec![New(2), Start(44100, 1), Feed(33000), Start(11025, 1), Feed(1500)],
        vec![New(1), Start(11025, 2), Feed(1800), Drop, New(2)],
        vec![Compress, New(5), Start(11025, 1), Feed(2000), Match],
        vec![New(2), Start(44100, 1), Feed(20000), Finish, Finish],
    ]
}

/// More scripts, with many configurations, for the histories of fresh processes.
fn more_scripts() -> Vec<Vec<Op>> {
    use Op::*;
    let mut v = scripts();
    for p in [1u16, 3, 5, 12, 22, 31, 33, 42, 52, 62] {
        v.push(vec![New(p), Start(11025, 1), Feed(1900), Finish, Compress]);
    }
    for (r, c) in [(22050u32, 1u32), (44100, 2), (48000, 1), (8000, 3), (44101, 1)] {
        v.push(vec![New(2), Start(r, c), Feed(9000), Finish, Match]);
    }
    v
}

/// Configurations that differ little from each other.
fn neighbours(t: Tier) -> Vec<Cfg> {
    let mut v: Vec<Cfg> = (t.pick(60usize, 40)..=t.pick(69, 100)).map(|f| Cfg::small(2, f, 10)).collect();
    for o in t.pick(vec![8usize, 9, 11, 12], vec![0, 5, 8, 9, 11, 12, 15, 20, 30, 40, 50, 60, 63]) {
        v.push(Cfg::small(2, 64, o));
    }
    for c in [&[1.0][..], &[1.0, 0.5], &[1.0, 0.25], &[1.0, 0.5, 0.0], &[0.5, 1.0]] {
        v.push(Cfg::small(2, 64, 10).coefs(c));
    }
    for p in [1, 3, 4, 5] {
        v.push(Cfg::small(p, 64, 10));
    }
    v
}

/// The first number of the scripts made of [`neighbours`] (of the thorough tier, a superset).
const NEIGHBOURS: usize = 1000;

fn neighbour_script(n: usize) -> Vec<Op> {
    vec![Op::New(n as u16), Op::Start(11025, 1), Op::Feed(20_000), Op::Finish, Op::Compress]
}

/// Runs scripts one after the other and prints what each shows (entry point of the fresh processes).
pub fn child(list: &str) {
    let sc = more_scripts();
    for w in list.split(',') {
        let (k, actor) = w.split_once(':').expect("script:actor");
        let k: usize = k.parse().expect("number");
        let mut a = Actor::new(1, 2000 + actor.parse::<u64>().expect("number"));
        let ops = if k >= NEIGHBOURS { neighbour_script(k) } else { sc[k].clone() };
        for o in &ops {
            let l: Vec<String> = a.step(o).iter().map(|x| format!("{x:x}")).collect();
            println!("{}", l.join(" "));
        }
    }
}

/// The same, in a new process.
fn fresh(list: &[(usize, usize)]) -> Result<Vec<Vec<Obs>>, String> {
    let arg: Vec<String> = list.iter().map(|(k, a)| format!("{k}:{a}")).collect();
    let exe = std::env::current_exe().expect("own path");
    let o = std::process::Command::new(exe)
        .args(["--scripts", &arg.join(",")])
        .output()
        .expect("start own program");
    if !o.status.success() {
        return Err(format!("scripts {list:?} in a new process: {} {}", o.status, String::from_utf8_lossy(&o.stderr).trim()));
    }
    let text = String::from_utf8(o.stdout).expect("plain text");
    let mut lines = text.lines();
    Ok(list
        .iter()
        .map(|_| {
            (0..5)
                .map(|_| {
                    let l = lines.next().expect("a line per operation");
                    l.split_whitespace().map(|x| u64::from_str_radix(x, 16).expect("number")).collect()
                })
                .collect()
        })
        .collect())
}

/// What a script shows when nothing else has ever happened in the process.
fn alone(k: usize, actor: usize) -> Result<Vec<Obs>, String> {
    fresh(&[(k, actor)]).map(|mut v| v.remove(0))
}

type Alone = Arc<Result<Vec<Obs>, String>>;

fn compare(seqs: &[&Vec<Op>], sched: &[usize], got: &[Vec<Obs>], how: &str, want: &[Alone]) -> Res {
    for (k, (g, w)) in got.iter().zip(want).enumerate() {
        let w = (**w).as_ref().map_err(|e| Fail::from(e.clone()))?;
        for (s, (x, y)) in g.iter().zip(w.iter()).enumerate() {
            ensure!(x == y, "{how}: {seqs:?} in order {sched:?}: operation {s} of instance {k} shows {} values instead of what it shows alone ({} values, first difference at {:?})", x.len(), y.len(), x.iter().zip(y).position(|(a, b)| a != b));
        }
    }
    Ok(())
}

pub fn c17(t: Tier) -> Vec<Family> {
    let mut fams = vec![];
    let sc = scripts();
    let n = sc.len() as u64;
    let per = count(&[5, 5]);
    let want: Arc<Lazy<Result<Vec<Obs>, String>>> = Arc::new(Lazy::new(sc.len() * 3));
    {
        let (sc, want) = (sc.clone(), want.clone());
        fams.push(Family::new(
            "two-instances",
            format!("all {per} interleavings of every ordered pair of {n} five-operation scripts (create, start, feed, finish, match, compress, restart, drop) on one thread"),
            per * n * n,
            move |i, ex| {
                let d = digits(i, &[n, n, per]);
                let seqs = [&sc[d[0]], &sc[d[1]]];
                let sched = schedule(d[2] as u64, &[5, 5]);
                ex.note(|| format!("{seqs:?} in order {sched:?}"));
                let w = [0, 1].map(|k| want.get(d[k] * 3 + k, || alone(d[k], k)));
                let mut actors = [Actor::new(1, 2000), Actor::new(1, 2001)];
                let mut at = [0, 0];
                let mut got = vec![vec![], vec![]];
                for &a in &sched {
                    got[a].push(actors[a].step(&seqs[a][at[a]]));
                    at[a] += 1;
                    ex.state((d[0], d[1], at));
                }
                ex.steps(10);
                ex.trace();
                ex.outcome(&got);
                compare(&seqs, &sched, &got, "one thread", &w)
            },
        ));
    }
    {
        let cut = t.pick(3usize, 4);
        let lens = [cut, cut, cut];
        let per3 = count(&lens);
        let (sc, want) = (sc.clone(), want.clone());
        let m = t.pick(5u64, 8);
        fams.push(Family::new(
            "three-instances",
            format!("all {per3} interleavings of the first {cut} operations of every triple of {m} scripts on one thread"),
            per3 * m * m * m / t.pick(1, 4),
            move |i, ex| {
                let i = i * t.pick(1, 4);
                let d = digits(i, &[per3, m, m, m]);
                let seqs = [&sc[d[1]], &sc[d[2]], &sc[d[3]]];
                let sched = schedule(d[0] as u64, &lens);
                ex.note(|| format!("{seqs:?} in order {sched:?}"));
                let w = [0, 1, 2].map(|k| want.get(d[k + 1] * 3 + k, || alone(d[k + 1], k)));
                let mut actors = [Actor::new(1, 2000), Actor::new(1, 2001), Actor::new(1, 2002)];
                let mut at = [0; 3];
                let mut got = vec![vec![]; 3];
                for &a in &sched {
                    got[a].push(actors[a].step(&seqs[a][at[a]]));
                    at[a] += 1;
                    ex.state((d[1], d[2], d[3], at));
                }
                ex.steps(sched.len() as u64);
                ex.trace();
                ex.outcome(&got);
                compare(&seqs, &sched, &got, "one thread", &w)
            },
        ));
    }
    // Two threads, one operation at a time in the order of the schedule.
    {
        let (sc, want) = (sc.clone(), want.clone());
        let pairs: Vec<(usize, usize)> = (0..sc.len()).flat_map(|a| (a..sc.len()).map(move |b| (a, b))).collect();
        let np = pairs.len() as u64;
        fams.push(Family::new(
            "two-threads",
            format!("all {per} interleavings of {np} pairs of scripts, each instance on its own thread, operations handed out one at a time by a controlling scheduler"),
            per * np,
            move |i, ex| {
                let (a, b) = pairs[(i / per) as usize];
                let seqs = [sc[a].clone(), sc[b].clone()];
                let refs = [&sc[a], &sc[b]];
                let sched = schedule(i % per, &[5, 5]);
                ex.note(|| format!("{seqs:?} on two threads in order {sched:?}"));
                let w = [0, 1].map(|k| want.get([a, b][k] * 3 + k, || alone([a, b][k], k)));
                let mut go: Vec<Sender<Op>> = vec![];
                let mut back: Vec<Receiver<Result<Obs, (String, String)>>> = vec![];
                let mut threads = vec![];
                for k in 0..2u64 {
                    let (tx, rx) = channel::<Op>();
                    let (rtx, rrx) = channel();
                    threads.push(std::thread::spawn(move || {
                        let mut actor = Actor::new(1, 2000 + k);
                        for op in rx {
                            let r = guarded(|| actor.step(&op));
                            let bad = r.is_err();
                            if rtx.send(r).is_err() || bad {
                                return;
                            }
                        }
                    }));
                    go.push(tx);
                    back.push(rrx);
                }
                let mut at = [0, 0];
                let mut got = vec![vec![], vec![]];
                let mut err = None;
                for &x in &sched {
                    go[x].send(seqs[x][at[x]].clone()).expect("worker thread");
                    match back[x].recv().expect("worker thread") {
                        Ok(o) => got[x].push(o),
                        Err((loc, m)) => {
                            err = Some(format!("{seqs:?} on two threads in order {sched:?}: panic at {loc}: {m}"));
                            break;
                        }
                    }
                    at[x] += 1;
                    ex.state((a, b, at, 2));
                }
                drop(go);
                for t in threads {
                    let _ = t.join();
                }
                if let Some(e) = err {
                    return Err(e.into());
                }
                ex.steps(10);
                ex.trace();
                ex.outcome(&got);
                compare(&refs, &sched, &got, "two threads", &w)
            },
        ));
    }
    // What a process has done before does not matter.
    {
        let all = more_scripts().len() as u64;
        let want: Arc<Lazy<Result<Vec<Obs>, String>>> = Arc::new(Lazy::new(all as usize));
        let depth = t.pick(2u32, 3);
        fams.push(Family::new(
            "fresh-processes",
            format!("every sequence of {depth} out of {all} scripts (with seven variations of configuration) run in a new process each, compared with the script alone in a new process"),
            all.pow(depth),
            move |i, ex| {
                let d = digits(i, &vec![all; depth as usize]);
                let list: Vec<(usize, usize)> = d.iter().map(|&k| (k, 0)).collect();
                ex.note(|| format!("scripts {:?} one after the other", d.iter().map(|&k| more_scripts()[k].clone()).collect::<Vec<_>>()));
                let got = fresh(&list)?;
                let sc = more_scripts();
                for (k, g) in d.iter().zip(&got) {
                    let w = want.get(*k, || alone(*k, 0));
                    let w = (*w).as_ref().map_err(|e| Fail::from(e.clone()))?;
                    ensure!(
                        g == w,
                        "{:?} shows something else after {:?} than as the first in a process",
                        sc[*k],
                        d.iter().map(|&k| &sc[k]).collect::<Vec<_>>()
                    );
                }
                ex.steps(5 * depth as u64);
                ex.state(&d);
                ex.outcome(&got);
                ex.trace();
                Ok(())
            },
        ));
    }
    // Configurations that differ little: nothing of one may be taken for the other.
    {
        let nb = neighbours(Tier::Thorough);
        let keep: Vec<usize> = (0..nb.len()).filter(|&k| neighbours(t).contains(&nb[k])).collect();
        let n = keep.len() as u64;
        let want: Arc<Lazy<Result<Vec<Obs>, String>>> = Arc::new(Lazy::new(nb.len()));
        fams.push(Family::new(
            "neighbour-configurations",
            format!("every ordered pair out of {n} configurations that differ little (frame size, overlap, a coefficient, the preset), used one after the other in a new process"),
            n * n,
            move |i, ex| {
                let d = [keep[(i % n) as usize], keep[(i / n) as usize]];
                ex.note(|| format!("{} and then {}", nb[d[0]].label(), nb[d[1]].label()));
                let got = fresh(&d.map(|k| (NEIGHBOURS + k, 0)))?;
                for (k, g) in d.iter().zip(&got) {
                    let w = want.get(*k, || alone(NEIGHBOURS + k, 0));
                    let w = (*w).as_ref().map_err(|e| Fail::from(e.clone()))?;
                    ensure!(g == w, "{} shows something else in a process that uses {} and then {} than in one of its own", nb[*k].label(), nb[d[0]].label(), nb[d[1]].label());
                }
                ex.steps(10);
                ex.state(d);
                ex.outcome(&got);
                ex.trace();
                Ok(())
            },
        ));
    }
    // Repetition and many live instances.
    {
        let counts = t.pick(24u64, 120);
        fams.push(Family::new(
            "many-instances",
            format!("2..{counts} live instances fed in turn in pieces, each compared with the same stream used alone; repeated twice"),
            (counts - 1) * 3,
            move |i, ex| {
                let m = (i / 3) as usize + 2;
                let (rate, ch) = [(11025u32, 1u32), (44100, 1), (8000, 2)][(i % 3) as usize];
                ex.note(|| format!("{m} instances at {rate} Hz, {ch} channels"));
                let c = ch as usize;
                let mk = |k: usize| Cfg::small(1 + (k % 5) as u8, 64, 8 + k % 40).build();
                for _ in 0..2 {
                    let mut ps: Vec<Fingerprinter> = (0..m).map(|k| Fingerprinter::new(&mk(k))).collect();
                    for p in &mut ps {
                        p.start(rate, ch).expect("valid start");
                    }
                    for piece in 0..3 {
                        for (k, p) in ps.iter_mut().enumerate() {
                            let d = audio_c(12_000 * c, 2100 + k as u64 % 17);
                            p.consume(&d[piece * 4000 * c..(piece + 1) * 4000 * c]);
                        }
                    }
                    for (k, p) in ps.iter_mut().enumerate() {
                        p.finish();
                        let w = fp(&mk(k), rate, ch, &audio_c(12_000 * c, 2100 + k as u64 % 17));
                        ex.steps(5);
                        ensure!(p.fingerprint() == w.as_slice(), "instance {k} of {m} at {rate} Hz: {}", first_diff(&w, p.fingerprint()));
                        ex.outcome(&w);
                    }
                }
                ex.trace();
                ex.state((m, rate));
                Ok(())
            },
        ));
    }
    fams
}
