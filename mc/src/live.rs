//! C25: files with several tracks. C26: audio that arrives through pipes.

use crate::cli::{Kind::*, *};
use crate::engine::*;
use crate::ensure;
use crate::util::*;
use std::io::{Read, Write};
use std::os::fd::AsRawFd;
use std::os::unix::fs::OpenOptionsExt;
use std::process::{Child, Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

// ---------------------------------------------------------------- C25

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Content {
    Subtitles,
    Video,
    OddAudio,
    FlacMono,
    FlacStereo,
    FlacOther,
    /// A codec that is known, but for which there is no decoder.
    Opus,
}
use Content::*;

/// What a track contains: packets, and the audio (rate, channels, samples) when the tools can decode it.
struct Tr {
    packets: Vec<Vec<u8>>,
    info: Vec<u8>,
    audio: Option<(u32, u32, Vec<i16>)>,
    what: Content,
}
impl Tr {
    fn new(what: Content, packets: usize, block: usize, seed: u64) -> Self {
        let mut info = vec![];
        let (mut p, mut audio) = (vec![], None);
        let (rate, ch) = match what {
            FlacStereo => (44100, 2),
            FlacOther => (22050, 1),
            _ => (NATIVE, 1),
        };
        match what {
            FlacMono | FlacStereo | FlacOther => {
                let s = audio_c(block * packets * ch as usize, seed).to_vec();
                (info, p) = flac(block, rate, ch, &s);
                audio = Some((rate, ch, s));
            }
            _ => p = (0..packets).map(|k| format!("text {k}").into_bytes()).collect(),
        }
        Tr { packets: p, info, audio, what }
    }
    fn track(&self, number: u8) -> Track {
        match (self.what, &self.audio) {
            (Subtitles, _) => Track::other(number, 17, "S_TEXT/UTF8"),
            (Video, _) => Track::other(number, 1, "V_MPEG4/ISO/AVC"),
            (Opus, _) => Track {
                number,
                kind: 2,
                codec: "A_OPUS",
                private: Some([b"OpusHead\x01\x01".as_slice(), &[0; 9]].concat()),
                audio: Some((48000, 1)),
            },
            (_, Some(a)) => Track::flac(number, a.0, a.1, &self.info),
            (_, None) => Track {
                number,
                kind: 2,
                codec: "A_MS/ACM",
                private: None,
                audio: Some((8000, 1)),
            },
        }
    }
}

/// Both tools on a file with these tracks, the packets in this order (indices of tracks).
fn tracks_file(tracks: &[Tr], numbers: &[u8], order: &[usize], per_cluster: usize, ex: &mut Exec) -> Res {
    let mut next = vec![0; tracks.len()];
    let mut blocks: Vec<(u8, &[u8])> = vec![];
    for &t in order {
        blocks.push((numbers[t], &tracks[t].packets[next[t]]));
        next[t] += 1;
    }
    let clusters: Vec<(u64, Vec<(u8, &[u8])>)> = blocks
        .chunks(per_cluster)
        .enumerate()
        .map(|(k, b)| (k as u64 * 1000, b.to_vec()))
        .collect();
    let heads: Vec<Track> = tracks.iter().zip(numbers).map(|(t, &n)| t.track(n)).collect();
    let f = TempFile::new(&matroska(&heads, &clusters, false), ".mkv");
    let o = Opt { raw: true, ..Opt::default() };
    let mut args = o.args();
    args.push(f.path().into());
    let a: Vec<&str> = args.iter().map(|x| x.as_str()).collect();
    let t0 = now();
    let out = run("fpcalc", &a)?;
    let t1 = now();
    ex.steps(1);
    // A first audio track that cannot be decoded may be reported or passed over.
    let undecodable = tracks.iter().find(|t| t.what == Opus || t.audio.is_some()).is_some_and(|t| t.what == Opus);
    match tracks.iter().find_map(|t| t.audio.as_ref()) {
        a if a.is_none() || (undecodable && out.code != Some(0)) => {
            let c = run("compare", &[f.path(), f.path()])?;
            ex.steps(1);
            for (name, r) in [("fpcalc", &out), ("compare", &c)] {
                ensure!(
                    r.code != Some(0) && r.stdout.is_empty() && !r.stderr.trim().is_empty(),
                    "{name} does not report that there is no audio: exit status {:?}, {:?}",
                    r.code,
                    r.stdout
                );
            }
            ex.trace();
        }
        None => unreachable!(),
        Some((rate, ch, s)) => {
            check(&o, *rate, *ch, s, &out, (t0, t1), ex).map_err(|e| Fail { msg: format!("fpcalc: {}", e.msg), key: e.key })?;
            let w = TempFile::new(&encode(Wav16, *rate, *ch, s), ".wav");
            let items = fp(&preset(1), *rate, *ch, s);
            check_compare(&f, &w, &items, &items, ex).map_err(|e| Fail { msg: format!("compare: {}", e.msg), key: e.key })?;
        }
    }
    Ok(())
}

/// All orders of `counts[t]` packets of every track t.
fn interleavings(counts: &[usize]) -> Vec<Vec<usize>> {
    fn go(left: &mut [usize], cur: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
        if left.iter().all(|&l| l == 0) {
            out.push(cur.clone());
        }
        for t in 0..left.len() {
            if left[t] > 0 {
                left[t] -= 1;
                cur.push(t);
                go(left, cur, out);
                cur.pop();
                left[t] += 1;
            }
        }
    }
    let mut out = vec![];
    go(&mut counts.to_vec(), &mut vec![], &mut out);
    out
}

pub fn c25(t: Tier) -> Vec<Family> {
    let mut out = vec![];
    // Every order of the packets.
    for (name, contents) in [
        ("orders-audio-first", [FlacMono, FlacMono, Subtitles]),
        ("orders-audio-last", [Subtitles, FlacMono, FlacMono]),
        ("orders-different-audio", [FlacStereo, OddAudio, FlacOther]),
    ] {
        let counts: [usize; 3] = t.pick([4, 3, 2], [4, 4, 3]);
        let orders = interleavings(&counts);
        let per = t.pick(vec![3usize], vec![1, 3, 100]);
        let rad = [orders.len() as u64, per.len() as u64];
        let seeds = [11u64, 12, 13];
        let tracks: Vec<Tr> = contents
            .iter()
            .zip(counts)
            .zip(seeds)
            .map(|((&c, n), s)| Tr::new(c, n, if c == FlacStereo { 65_000 } else { 29_000 }, s))
            .collect();
        out.push(Family::new(
            name,
            format!("three tracks {contents:?}: every order of {counts:?} packets x packets per cluster {per:?}: fpcalc and compare see exactly the audio of the first audio track"),
            product(&rad),
            move |i, ex| {
                let d = digits(i, &rad);
                ex.note(|| format!("{contents:?}, packets in order {:?}, {} per cluster", orders[d[0]], per[d[1]]));
                ex.state((name, d.clone()));
                tracks_file(&tracks, &[3, 1, 2], &orders[d[0]], per[d[1]], ex).map_err(|e| Fail {
                    msg: format!("tracks {contents:?}, packet order {:?}: {}", orders[d[0]], e.msg),
                    key: e.key,
                })
            },
        ));
    }
    // Every arrangement of tracks.
    {
        let kinds = [Subtitles, Video, OddAudio, FlacMono, FlacStereo, FlacOther, Opus];
        let max = t.pick(3u32, 4);
        let numberings: [[u8; 4]; 4] = [[1, 2, 3, 4], [4, 3, 2, 1], [2, 1, 4, 3], [120, 7, 33, 8]];
        let n = words_upto(7, max) - 1;
        let rad = [n, 4];
        out.push(Family::new(
            "arrangements",
            format!("every sequence of 1 to {max} tracks out of {kinds:?} x 4 ways to number them: the first audio track is used, and no audio track is an error"),
            product(&rad),
            move |i, ex| {
                let d = digits(i, &rad);
                let w: Vec<Content> = word(d[0] as u64 + 1, 7, max).into_iter().map(|k| kinds[k]).collect();
                let numbers = &numberings[d[1]][..w.len()];
                ex.note(|| format!("tracks {w:?} with numbers {numbers:?}"));
                ex.state((w.clone(), d[1]));
                let tracks: Vec<Tr> = w.iter().enumerate().map(|(k, &c)| Tr::new(c, 2, if c == FlacStereo { 65_000 } else { 45_000 }, 20 + k as u64)).collect();
                let order: Vec<usize> = (0..2 * w.len()).map(|k| if d[1] % 2 == 0 { k % w.len() } else { w.len() - 1 - k % w.len() }).collect();
                tracks_file(&tracks, numbers, &order, 3, ex).map_err(|e| Fail {
                    msg: format!("tracks {w:?} with numbers {numbers:?}: {}", e.msg),
                    key: e.key,
                })
            },
        ));
    }
    // Options: chunks and limits count the frames of the selected track only.
    {
        let orders = interleavings(&[2, 2, 1]);
        let chunks = [None, Some(1u64), Some(3)];
        let lengths = [None, Some(0u64), Some(1), Some(4)];
        let rad = [orders.len() as u64, 3, 4, 2, 2];
        let tracks: Vec<Tr> = vec![Tr::new(OddAudio, 2, 0, 0), Tr::new(FlacMono, 2, 31_000, 31), Tr::new(FlacMono, 1, 60_000, 32)];
        out.push(Family::new(
            "options",
            "order of the packets of three tracks x chunk x length limit x overlap x format: chunks and limit are those of the selected track",
            product(&rad),
            move |i, ex| {
                let d = digits(i, &rad);
                let o = Opt {
                    chunk: chunks[d[1]],
                    length: lengths[d[2]],
                    overlap: d[3] == 1,
                    raw: true,
                    format: [None, Some("json")][d[4]],
                    ..Opt::default()
                };
                if o.overlap && o.chunk.is_none() {
                    return Ok(());
                }
                ex.note(|| format!("packets in order {:?}, fpcalc {}", orders[d[0]], o.args().join(" ")));
                ex.state((d.clone(), "o"));
                let mut next = [0; 3];
                let numbers = [2u8, 9, 4];
                let mut blocks: Vec<(u8, &[u8])> = vec![];
                for &k in &orders[d[0]] {
                    blocks.push((numbers[k], &tracks[k].packets[next[k]]));
                    next[k] += 1;
                }
                let heads: Vec<Track> = tracks.iter().zip(numbers).map(|(t, n)| t.track(n)).collect();
                let f = TempFile::new(&matroska(&heads, &[(0, blocks)], false), ".mkv");
                let mut args = o.args();
                args.push(f.path().into());
                let a: Vec<&str> = args.iter().map(|x| x.as_str()).collect();
                let t0 = now();
                let r = run("fpcalc", &a)?;
                let t1 = now();
                ex.steps(1);
                let (rate, ch, s) = tracks[1].audio.as_ref().unwrap();
                check(&o, *rate, *ch, s, &r, (t0, t1), ex).map_err(|e| Fail {
                    msg: format!("fpcalc {} on packets in order {:?}: {}", o.args().join(" "), orders[d[0]], e.msg),
                    key: e.key,
                })
            },
        ));
    }
    out
}

// ---------------------------------------------------------------- C26

extern "C" {
    fn mkfifo(path: *const std::ffi::c_char, mode: u32) -> i32;
    fn ioctl(fd: i32, request: u64, ...) -> i32;
}
const FIONREAD: u64 = 0x541B;

/// A named pipe and its writing end.
struct Pipe {
    path: TempFile,
    end: Option<std::fs::File>,
    watch: std::fs::File,
}

/// How long to wait for something that has to happen.
const PATIENCE: Duration = Duration::from_secs(40);
static PIPES: AtomicU64 = AtomicU64::new(0);

impl Pipe {
    fn new(ext: &str) -> Self {
        let n = PIPES.fetch_add(1, Ordering::SeqCst);
        let p = scratch().join(format!("p{n}{ext}"));
        let c = std::ffi::CString::new(p.to_str().unwrap()).unwrap();
        assert!(unsafe { mkfifo(c.as_ptr(), 0o600) } == 0, "mkfifo");
        let path = TempFile(p);
        // Reading and writing, so that this does not wait for the tool; the tool sees the end of the stream
        // when `end` and `watch` are closed.
        let open = || {
            std::fs::OpenOptions::new()
                .read(true)
                .write(true)
                .custom_flags(0o2000000)
                .open(&path.0)
                .expect("open pipe")
        };
        let end = Some(open());
        let watch = open();
        Pipe { path, end, watch }
    }
    fn pending(&self) -> usize {
        let mut n = 0i32;
        assert!(unsafe { ioctl(self.watch.as_raw_fd(), FIONREAD, &mut n as *mut i32) } == 0);
        n as usize
    }
    fn write(&mut self, d: &[u8]) {
        self.end.as_mut().unwrap().write_all(d).expect("write to pipe");
    }
    /// Removes the pipe's writing ends.
    fn close(self) -> TempFile {
        self.path
    }
}

/// A tool running with its output read as it appears.
struct Live {
    child: Child,
    out: Arc<Mutex<(String, Vec<f64>)>>,
    reader: Option<std::thread::JoinHandle<()>>,
    err: Option<std::thread::JoinHandle<String>>,
    status: Option<i32>,
    shown: String,
}

impl Live {
    fn start(name: &str, args: &[&str], stdin: Stdio) -> Self {
        let mut child = Command::new(tool(name))
            .args(args)
            .stdin(stdin)
            .stdout(Stdio::piped())
            .stderr(Stdio::piped())
            .env("RUST_BACKTRACE", "0")
            .current_dir(scratch())
            .spawn()
            .expect("spawn tool");
        let out = Arc::new(Mutex::new((String::new(), vec![])));
        let (mut so, mut se) = (child.stdout.take().unwrap(), child.stderr.take().unwrap());
        let o = out.clone();
        let reader = std::thread::spawn(move || {
            let mut b = [0u8; 65536];
            loop {
                match so.read(&mut b) {
                    Ok(n) if n > 0 => {
                        let t = now();
                        let mut g = o.lock().unwrap();
                        let text = String::from_utf8_lossy(&b[..n]);
                        for _ in 0..text.matches('\n').count() {
                            g.1.push(t);
                        }
                        g.0.push_str(&text);
                    }
                    _ => break,
                }
            }
        });
        let err = std::thread::spawn(move || {
            let mut s = vec![];
            let _ = se.read_to_end(&mut s);
            String::from_utf8_lossy(&s).into_owned()
        });
        let a: Vec<&str> = args.iter().map(|a| a.rsplit('/').next().unwrap_or(a)).collect();
        Live {
            child,
            out,
            reader: Some(reader),
            err: Some(err),
            status: None,
            shown: format!("{name} {}", a.join(" ")),
        }
    }
    fn running(&mut self) -> bool {
        match self.child.try_wait().expect("wait") {
            None => true,
            Some(s) => {
                self.status = s.code();
                false
            }
        }
    }
    /// Number of complete lines printed so far.
    fn lines(&self) -> usize {
        self.out.lock().unwrap().1.len()
    }
    /// Waits until `done` says so; an Err when that takes too long. Ok(false) when the tool ended first.
    fn wait(&mut self, what: &str, mut done: impl FnMut(&Live) -> bool) -> Result<bool, Fail> {
        let t0 = Instant::now();
        let mut n = 0u32;
        loop {
            if done(self) {
                return Ok(true);
            }
            if n % 64 == 63 && !self.running() {
                return Ok(done(self));
            }
            n += 1;
            if n < 200 {
                std::thread::yield_now();
            } else {
                std::thread::sleep(Duration::from_micros(if n < 1000 { 50 } else { 2000 }));
            }
            if t0.elapsed() > PATIENCE {
                let seen = self.out.lock().unwrap().0.clone();
                return Err(format!("`{}`: {what}; printed so far: {seen:?}", self.shown).into());
            }
        }
    }
    /// Waits until everything written has been read. Ok(false) when the tool ended without reading it.
    fn drained(&mut self, p: &Pipe) -> Result<bool, Fail> {
        self.wait("does not read its input", |_| p.pending() == 0)
    }
    fn finish(mut self) -> Result<(Out, Vec<f64>), Fail> {
        let t0 = Instant::now();
        while self.running() {
            if t0.elapsed() > PATIENCE {
                return Err(format!("`{}` does not end", self.shown).into());
            }
            std::thread::sleep(Duration::from_micros(if t0.elapsed().as_millis() < 50 { 100 } else { 2000 }));
        }
        self.reader.take().unwrap().join().unwrap();
        let stderr = self.err.take().unwrap().join().unwrap();
        let g = self.out.lock().unwrap();
        if self.status == Some(101) || self.status.is_none() || stderr.contains("panicked at") {
            return Err(format!("`{}` crashed ({:?}): {}", self.shown, self.status, stderr.trim()).into());
        }
        Ok((
            Out {
                code: self.status,
                stdout: g.0.clone(),
                stderr,
            },
            g.1.clone(),
        ))
    }
}
impl Drop for Live {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

/// Feeds the tool these writes, each after the one before has been read, then closes the pipe.
fn feed(live: &mut Live, mut p: Pipe, writes: &mut dyn Iterator<Item = &[u8]>) -> Result<TempFile, Fail> {
    for w in writes {
        for part in w.chunks(32768) {
            p.write(part);
            if !live.drained(&p)? {
                return Ok(p.close());
            }
        }
    }
    Ok(p.close())
}

/// Cuts the data into writes: `sizes` first, then writes of `rest` bytes.
fn writes<'a>(d: &'a [u8], sizes: &[usize], rest: usize) -> Vec<&'a [u8]> {
    let mut v = vec![];
    let mut at = 0;
    for &s in sizes {
        let e = (at + s).min(d.len());
        if e > at {
            v.push(&d[at..e]);
        }
        at = e;
    }
    v.extend(d[at..].chunks(rest));
    v
}

/// fpcalc on piped data, compared with the model.
#[allow(clippy::too_many_arguments)]
fn piped(o: &Opt, kind: Kind, rate: u32, ch: u32, s: &[i16], w: &[&[u8]], stdin: bool, ex: &mut Exec) -> Res {
    let p = Pipe::new(kind.ext());
    let mut args = o.args();
    args.push(if stdin { "/dev/stdin".into() } else { p.path.path().to_string() });
    let a: Vec<&str> = args.iter().map(|x| x.as_str()).collect();
    let t0 = now();
    let input = if stdin {
        Stdio::from(std::fs::File::open(&p.path.0).expect("open pipe"))
    } else {
        Stdio::null()
    };
    let mut live = Live::start("fpcalc", &a, input);
    let _path = feed(&mut live, p, &mut w.iter().copied())?;
    let (out, _) = live.finish()?;
    let t1 = now();
    ex.steps(w.len() as u64);
    check(o, rate, ch, s, &out, (t0, t1), ex).map_err(|e| Fail {
        msg: format!("fpcalc {} on {kind:?} through a pipe: {}", o.args().join(" "), e.msg),
        key: e.key,
    })
}

/// The same file as a streaming encoder writes it, without knowing how long it will get.
fn unknown_length(kind: Kind, rate: u32, ch: u32, s: &[i16]) -> Vec<u8> {
    let mut b = encode(kind, rate, ch, s);
    match kind {
        Wav16 | Wav8 | Wav24 | Wav32 | WavF32 => {
            b[4..8].copy_from_slice(&u32::MAX.to_le_bytes());
            b[40..44].copy_from_slice(&u32::MAX.to_le_bytes());
        }
        Flac(_) => {
            // total samples: 36 bits
            b[8 + 13] &= 0xf0;
            b[8 + 14..8 + 18].fill(0);
        }
        Mkv(block) => {
            let (info, packets) = flac(block, rate, ch, s);
            let mut info = info.clone();
            info[13] &= 0xf0;
            info[14..18].fill(0);
            let tracks = [Track::other(1, 17, "S_TEXT/UTF8"), Track::flac(2, rate, ch, &info)];
            let clusters: Vec<(u64, Vec<(u8, &[u8])>)> = packets
                .iter()
                .enumerate()
                .map(|(k, p)| ((k * block * 1000) as u64 / rate as u64, vec![(1u8, b"x".as_slice()), (2, p)]))
                .collect();
            b = matroska(&tracks, &clusters, true);
        }
        _ => {}
    }
    b
}

pub fn c26(t: Tier) -> Vec<Family> {
    let mut out = vec![];
    let kinds = [Wav16, Wav8, Aiff, Flac(1152), Mkv(3000), Mp3];
    // Sizes of the first writes.
    {
        let sizes = [1usize, 3, 44, 1000, 4096];
        let len = t.pick(4u32, 6);
        let n = 5u64.pow(len);
        let rad = [n, kinds.len() as u64, 2];
        out.push(Family::new(
            "write-sizes",
            format!("all sequences of {len} sizes out of {sizes:?} of the first writes x format x named pipe or standard input: same results as from a file"),
            product(&rad),
            move |i, ex| {
                let d = digits(i, &rad);
                let (k, mut w) = (kinds[d[1]], d[0]);
                let first: Vec<usize> = (0..len).map(|_| { let x = sizes[w % 5]; w /= 5; x }).collect();
                ex.note(|| format!("{k:?}, first writes {first:?}, {}", ["pipe", "standard input"][d[2]]));
                ex.state(d.clone());
                let s = source(k, k.frames(30_000), 1, 41);
                let b = encode(k, NATIVE, 1, &s);
                let o = Opt { raw: true, ..Opt::default() };
                piped(&o, k, NATIVE, 1, &s, &writes(&b, &first, 8192), d[2] == 1, ex)
            },
        ));
    }
    // All writes of one size.
    {
        let sizes = [5usize, 17, 64, 255, 1023, 4095, 4096, 4097, 20_000];
        let rad = [sizes.len() as u64, kinds.len() as u64, 2];
        out.push(Family::new(
            "one-size",
            format!("every write of one size out of {sizes:?} x format x channels"),
            product(&rad),
            move |i, ex| {
                let d = digits(i, &rad);
                let (k, n, ch) = (kinds[d[1]], sizes[d[0]], d[2] as u32 + 1);
                ex.note(|| format!("{k:?}, writes of {n} bytes, {ch} channels"));
                ex.state((d.clone(), 1));
                let s = source(k, k.frames(30_000), ch, 42);
                let b = encode(k, NATIVE, ch, &s);
                let o = Opt { raw: true, chunk: Some(1), ..Opt::default() };
                piped(&o, k, NATIVE, ch, &s, &writes(&b, &[], n), false, ex)
            },
        ));
    }
    // One pause anywhere.
    {
        let cuts = t.pick(3000u64, 30_000);
        let rad = [cuts, kinds.len() as u64];
        out.push(Family::new(
            "pause",
            format!("a pause after each of the first {cuts} bytes x format"),
            product(&rad),
            move |i, ex| {
                let d = digits(i, &rad);
                let (k, at) = (kinds[d[1]], d[0] + 1);
                ex.note(|| format!("{k:?}, pause after {at} bytes"));
                ex.state((d.clone(), 2));
                let s = source(k, k.frames(30_000), 1, 43);
                let b = encode(k, NATIVE, 1, &s);
                let o = Opt { raw: true, ..Opt::default() };
                piped(&o, k, NATIVE, 1, &s, &writes(&b, &[at], 60_000), false, ex)
            },
        ));
    }
    // Streams whose headers do not tell the length.
    {
        let kinds = [Wav16, Wav8, Wav24, Wav32, WavF32, Flac(1152), Flac(4608), Mkv(1152), Mkv(4000)];
        let frames = t.pick(vec![30_001usize, 70_000], vec![5000, 30_001, 70_000, 200_001]);
        let rates = [(11025u32, 1u32), (44100, 2), (8000, 1)];
        let opts = [
            Opt { raw: true, ..Opt::default() },
            Opt { chunk: Some(1), ..Opt::default() },
            Opt { chunk: Some(1), overlap: true, raw: true, format: Some("json"), ..Opt::default() },
            Opt { length: Some(2), raw: true, signed: true, format: Some("plain"), ..Opt::default() },
        ];
        let rad = [kinds.len() as u64, frames.len() as u64, 3, 4, 2];
        out.push(Family::new(
            "unknown-length",
            "formats as written by streaming encoders, without lengths in their headers x length x rate and channels x options x write size: everything that was sent is processed",
            product(&rad),
            move |i, ex| {
                let d = digits(i, &rad);
                let (k, n, (rate, ch), o, w) = (kinds[d[0]], frames[d[1]], rates[d[2]], &opts[d[3]], [999usize, 16_384][d[4]]);
                ex.note(|| format!("{k:?} of unknown length, {n} frames, {rate} Hz, {ch} channels, writes of {w} bytes: fpcalc {}", o.args().join(" ")));
                ex.state((d.clone(), 3));
                let s = source(k, n, ch, 44);
                let b = unknown_length(k, rate, ch, &s);
                piped(o, k, rate, ch, &s, &writes(&b, &[], w), false, ex)
            },
        ));
    }
    // Results appear while the stream goes on.
    for ts in [false, true] {
        let chunks = t.pick(vec![3u64, 4], vec![3, 4, 5, 7]);
        let formats = ["text", "json", "plain"];
        let kinds = [Wav16, Aiff, Flac(1152), Mkv(4096)];
        let rad = [kinds.len() as u64, chunks.len() as u64, 2, formats.len() as u64, 2];
        out.push(Family::new(
            if ts { "timestamps" } else { "prompt" },
            if ts {
                "--ts x format x chunk duration x overlap x output format x raw: a chunk's timestamp lies between the printing of the chunk before and the delivery of its own end"
            } else {
                "format x chunk duration x overlap x output format x raw: every chunk is printed when at most 256 KiB beyond its end have been sent and the sender waits, and not before its end"
            },
            product(&rad),
            move |i, ex| {
                let d = digits(i, &rad);
                let (rate, ch) = (44100u32, 2u32);
                let o = Opt {
                    chunk: Some(chunks[d[1]]),
                    overlap: d[2] == 1,
                    format: Some(formats[d[3]]),
                    raw: d[4] == 1,
                    ts,
                    ..Opt::default()
                };
                if ts && formats[d[3]] == "plain" {
                    return Ok(());
                }
                let k = kinds[d[0]];
                let parts = 4;
                let frames = (parts * chunks[d[1]] as usize + 2) * rate as usize + if o.overlap { 5 * rate as usize } else { 0 };
                ex.note(|| format!("{k:?}: fpcalc {}", o.args().join(" ")));
                ex.state((d.clone(), ts));
                stream(&o, k, rate, ch, frames, ex).map_err(|e| Fail {
                    msg: format!("fpcalc {} on a {k:?} stream: {}", o.args().join(" "), e.msg),
                    key: e.key,
                })
            },
        ));
    }
    // The sender goes away.
    {
        let kinds = [Wav16, Aiff, Flac(1152), Mkv(3000)];
        let step = t.pick(997usize, 101);
        let head = t.pick(220u64, 1000);
        let total = 26_000usize;
        let rad = [head + (2 * total / step) as u64, kinds.len() as u64];
        out.push(Family::new(
            "closed-early",
            format!("the sender closes the pipe after each of the first {head} bytes and after every {step}th byte x format: same result as a file that ends there"),
            product(&rad),
            move |i, ex| {
                let d = digits(i, &rad);
                let k = kinds[d[1]];
                let at = if (d[0] as u64) < head { d[0] + 1 } else { head as usize + (d[0] - head as usize) * step };
                ex.note(|| format!("{k:?}, closed after {at} bytes"));
                ex.state((d.clone(), 5));
                let s = source(k, total, 1, 45);
                let b = encode(k, NATIVE, 1, &s);
                let b = &b[..at.min(b.len())];
                let f = TempFile::new(b, k.ext());
                let o = Opt { raw: true, chunk: Some(1), ..Opt::default() };
                let mut args = o.args();
                args.push(f.path().into());
                let a: Vec<&str> = args.iter().map(|x| x.as_str()).collect();
                let Some(want) = run_tolerant("fpcalc", &a, ex)? else { return Ok(()) };
                let t0 = now();
                let p = Pipe::new(k.ext());
                let mut args = o.args();
                args.push(p.path.path().into());
                let a: Vec<&str> = args.iter().map(|x| x.as_str()).collect();
                let mut live = Live::start("fpcalc", &a, Stdio::null());
                let _path = feed(&mut live, p, &mut b.chunks(30_000))?;
                let (got, _) = live.finish()?;
                if let Mkv(block) = k {
                    // Matroska declares lengths, which the decoder checks when it knows that of the file.
                    if got.code == Some(0) {
                        let n = packet_ends(k, NATIVE, 1, &s, &encode(k, NATIVE, 1, &s)).iter().filter(|&&e| e <= at).count() * block;
                        return check(&o, NATIVE, 1, &s[..n.min(s.len())], &got, (t0, now()), ex).map_err(|e| Fail {
                            msg: format!("{k:?} through a pipe closed after {at} bytes: {}", e.msg),
                            key: e.key,
                        });
                    }
                    ensure!(!got.stderr.trim().is_empty(), "fpcalc failed with status {:?} but reported nothing", got.code);
                    ex.outcome((got.code, got.stdout.len()));
                    return Ok(());
                }
                ensure!(
                    got.code == want.code && got.stdout == want.stdout && got.stderr.trim().is_empty() == want.stderr.trim().is_empty(),
                    "{k:?} through a pipe closed after {at} bytes: status {:?} and {:?}, but a file that ends there gives {:?} and {:?}",
                    got.code,
                    got.stdout,
                    want.code,
                    want.stdout
                );
                ex.outcome((got.code, got.stdout.len()));
                ex.trace();
                Ok(())
            },
        ));
    }
    // The limit ends the run although the sender neither sends more nor closes.
    {
        let kinds = [Wav16, Aiff, Flac(1152), Mkv(4096)];
        let lengths = t.pick(vec![1u64, 2, 5], vec![1, 2, 3, 5, 8, 13]);
        let chunks = [None, Some(1u64), Some(2), Some(100)];
        let rad = [kinds.len() as u64, lengths.len() as u64, 4, 2];
        out.push(Family::new(
            "limit",
            "format x length limit x chunk duration x overlap: fpcalc ends when at most 256 KiB beyond the limit have been sent, although the pipe stays open",
            product(&rad),
            move |i, ex| {
                let d = digits(i, &rad);
                let (rate, ch) = (44100u32, 2u32);
                let o = Opt {
                    length: Some(lengths[d[1]]),
                    chunk: chunks[d[2]],
                    overlap: d[3] == 1,
                    raw: true,
                    ..Opt::default()
                };
                if o.overlap && o.chunk.is_none() {
                    return Ok(());
                }
                let k = kinds[d[0]];
                ex.note(|| format!("{k:?}: fpcalc {}", o.args().join(" ")));
                ex.state((d.clone(), 6));
                let frames = (lengths[d[1]] as usize + 2) * rate as usize;
                let s = source(k, frames, ch, 46);
                let b = encode(k, rate, ch, &s);
                let end = byte_of(k, rate, ch, &s, &b, lengths[d[1]] as usize * rate as usize) + SLACK;
                assert!(end <= b.len());
                let mut p = Pipe::new(k.ext());
                let mut args = o.args();
                args.push(p.path.path().into());
                let a: Vec<&str> = args.iter().map(|x| x.as_str()).collect();
                let t0 = now();
                let mut live = Live::start("fpcalc", &a, Stdio::null());
                for w in b[..end].chunks(32_768) {
                    p.write(w);
                    if !live.drained(&p)? {
                        break;
                    }
                }
                let (r, _) = live.finish().map_err(|e| Fail { msg: format!("{} after the limit was reached and the pipe is still open", e.msg), key: e.key })?;
                let t1 = now();
                drop(p);
                ex.steps((end / 32_768) as u64);
                check(&o, rate, ch, &s, &r, (t0, t1), ex).map_err(|e| Fail {
                    msg: format!("fpcalc {} on a {k:?} stream: {}", o.args().join(" "), e.msg),
                    key: e.key,
                })
            },
        ));
    }
    // compare reading from two pipes.
    {
        let sizes = [1000usize, 4096, 30_000];
        let rad = [kinds.len() as u64, kinds.len() as u64, 3, 3];
        out.push(Family::new(
            "compare",
            "compare on two pipes, or a pipe and a file: format x format x write size: same table as for the library's fingerprints",
            product(&rad),
            move |i, ex| {
                let d = digits(i, &rad);
                let (ka, kb, n) = (kinds[d[0]], kinds[d[1]], sizes[d[2]]);
                ex.note(|| format!("compare {ka:?} with {kb:?}, writes of {n} bytes, {}", ["both piped", "first piped", "second piped"][d[3]]));
                ex.state((d.clone(), 7));
                let a = source(ka, ka.frames(60_000), 1, 47);
                let b = source(kb, kb.frames(66_000), 1, 47);
                let (ba, bb) = (encode(ka, NATIVE, 1, &a), encode(kb, NATIVE, 1, &b));
                let (fa, fb) = (TempFile::new(&ba, ka.ext()), TempFile::new(&bb, kb.ext()));
                let p = preset(1);
                check_compare(&fa, &fb, &fp(&p, NATIVE, 1, &a), &fp(&p, NATIVE, 1, &b), ex)?;
                let want = run("compare", &[fa.path(), fb.path()])?;
                let (pa, pb) = (Pipe::new(ka.ext()), Pipe::new(kb.ext()));
                let x = if d[3] == 2 { fa.path().to_string() } else { pa.path.path().to_string() };
                let y = if d[3] == 1 { fb.path().to_string() } else { pb.path.path().to_string() };
                let mut live = Live::start("compare", &[&x, &y], Stdio::null());
                let mut keep = vec![];
                if d[3] != 2 {
                    keep.push(feed(&mut live, pa, &mut ba.chunks(n))?);
                }
                if d[3] != 1 {
                    keep.push(feed(&mut live, pb, &mut bb.chunks(n))?);
                }
                let (got, _) = live.finish()?;
                ensure!(
                    got.code == Some(0) && got.stdout == want.stdout,
                    "compare on {ka:?} and {kb:?} through pipes: status {:?}, {:?}, from files {:?}",
                    got.code,
                    got.stdout,
                    want.stdout
                );
                ex.outcome(got.stdout.len());
                ex.trace();
                Ok(())
            },
        ));
    }
    out
}

/// How much may have been sent beyond the end of a chunk, or of the limit, before the result has to appear.
const SLACK: usize = 256 * 1024;

/// Where the first `frames` frames end in the file (at the end of the packet they end in).
fn byte_of(k: Kind, rate: u32, ch: u32, s: &[i16], b: &[u8], frames: usize) -> usize {
    match k {
        Flac(n) | Mkv(n) => packet_ends(k, rate, ch, s, b)[frames.div_ceil(n).max(1) - 1],
        Aiff => 54 + frames * 2 * ch as usize,
        _ => 44 + frames * 2 * ch as usize,
    }
}

/// Where the file first contains a part of frame `frames`.
fn byte_before(k: Kind, rate: u32, ch: u32, s: &[i16], b: &[u8], frames: usize) -> usize {
    match k {
        Flac(n) | Mkv(n) => match frames / n {
            0 => 0,
            p => packet_ends(k, rate, ch, s, b)[p - 1],
        },
        _ => byte_of(k, rate, ch, s, b, frames),
    }
}

/// Sends a stream chunk by chunk, waiting for the results.
fn stream(o: &Opt, k: Kind, rate: u32, ch: u32, frames: usize, ex: &mut Exec) -> Res {
    let s = source(k, frames, ch, 48);
    let b = encode(k, rate, ch, &s);
    let want = pieces(o, rate, frames);
    assert!(want.len() >= 4);
    let per = match o.format.unwrap_or("text") {
        "text" => 3 + o.ts as usize,
        _ => 1,
    };
    // Lines after k complete results: text results are separated by empty lines, printed with the next one.
    let lines = |k: usize| if per > 1 { k * per - 1 } else { k };
    let mut p = Pipe::new(k.ext());
    let mut args = o.args();
    args.push(p.path.path().into());
    let a: Vec<&str> = args.iter().map(|x| x.as_str()).collect();
    let t0 = now();
    let mut live = Live::start("fpcalc", &a, Stdio::null());
    let mut at = 0;
    let send = |live: &mut Live, p: &mut Pipe, at: &mut usize, to: usize, seen: usize| -> Res {
        while *at < to {
            let n = (to - *at).min(32_768);
            p.write(&b[*at..*at + n]);
            *at += n;
            ensure!(live.drained(p)?, "fpcalc ended before the end of its input");
            if seen > 0 {
                let l = live.lines();
                ensure!(l < lines(seen), "{l} lines were printed before the end of chunk {} was sent", seen - 1);
            }
        }
        Ok(())
    };
    // Time before a chunk's last frame was sent, time when its result was there.
    let (mut ends, mut seen) = (vec![], vec![]);
    for (n, w) in want[..want.len() - 1].iter().enumerate() {
        send(&mut live, &mut p, &mut at, byte_before(k, rate, ch, &s, &b, w.end.saturating_sub(1)), n + 1)?;
        ends.push(now());
        let to = (byte_of(k, rate, ch, &s, &b, w.end) + SLACK).min(b.len());
        send(&mut live, &mut p, &mut at, to, 0)?;
        if n + 2 == want.len() && to == b.len() {
            break;
        }
        let ok = live.wait(
            &format!("the result of chunk {n} does not appear although {} bytes have been sent and its end is within the first {}", at, byte_of(k, rate, ch, &s, &b, w.end)),
            |l| l.lines() >= lines(n + 1),
        )?;
        ensure!(ok, "fpcalc ended before the end of its input");
        seen.push(now());
    }
    let last = b.len();
    send(&mut live, &mut p, &mut at, last, 0)?;
    let _path = p.close();
    let (r, _) = live.finish()?;
    let t1 = now();
    ex.steps(want.len() as u64);
    check(o, rate, ch, &s, &r, (t0, t1), ex)?;
    if o.ts && o.format == Some("text") {
        let rows = parse(o, &r.stdout).map_err(Fail::from)?;
        let back = if o.overlap { o.cfg().m_delay() as f64 / NATIVE as f64 } else { 0.0 };
        for (n, row) in rows.iter().enumerate() {
            let ts = row.timestamp.unwrap() + if n > 0 { back } else { 0.0 };
            // The chunk began when the one before ended.
            let lo = if n == 0 { t0 } else { ends[n - 1] };
            let hi = ends.get(n).copied().unwrap_or(t1);
            ensure!(
                ts >= lo - 0.011 && ts <= hi + 0.011,
                "chunk {n} has the timestamp {ts:.2}, but began between {lo:.2} and {hi:.2}"
            );
        }
    }
    Ok(())
}
