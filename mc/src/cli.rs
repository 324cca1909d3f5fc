//! C18-C22: the real fpcalc and compare binaries on generated audio files.

use crate::engine::*;
use crate::ensure;
use crate::matching::compress_with;
use crate::util::*;
use std::path::PathBuf;
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::OnceLock;

// ---------------------------------------------------------------- scratch files and processes

static SCRATCH: OnceLock<PathBuf> = OnceLock::new();
static SEQ: AtomicU64 = AtomicU64::new(0);

pub(crate) fn scratch() -> &'static PathBuf {
    SCRATCH.get_or_init(|| {
        let p = std::env::temp_dir().join(format!("mc-cli-{}", std::process::id()));
        std::fs::create_dir_all(&p).expect("scratch directory");
        p
    })
}

/// Removes the scratch directory if one was made.
pub fn cleanup() {
    if let Some(p) = SCRATCH.get() {
        let _ = std::fs::remove_dir_all(p);
    }
}

pub(crate) struct TempFile(pub PathBuf);
impl TempFile {
    pub fn new(bytes: &[u8], ext: &str) -> Self {
        let n = SEQ.fetch_add(1, Ordering::SeqCst);
        let p = scratch().join(format!("f{n}{ext}"));
        std::fs::write(&p, bytes).expect("write scratch file");
        TempFile(p)
    }
    pub fn path(&self) -> &str {
        self.0.to_str().unwrap()
    }
}
impl Drop for TempFile {
    fn drop(&mut self) {
        let _ = std::fs::remove_file(&self.0);
    }
}

pub struct Out {
    /// None when ended by a signal.
    pub code: Option<i32>,
    pub stdout: String,
    pub stderr: String,
}

pub(crate) fn tool(name: &str) -> PathBuf {
    let dir = std::env::var("MC_TOOLS").unwrap_or_else(|_| "/verif/target/release".into());
    PathBuf::from(dir).join(name)
}

/// Runs a tool; one that is still running after a minute is killed and reported.
pub(crate) fn run(name: &str, args: &[&str]) -> Result<Out, Fail> {
    let o = Command::new("timeout")
        .args(["-s", "KILL", "60"])
        .arg(tool(name))
        .args(args)
        .stdin(Stdio::null())
        .env("RUST_BACKTRACE", "0")
        .current_dir(scratch())
        .output()
        .expect("spawn tool");
    let out = Out {
        code: o.status.code(),
        stdout: String::from_utf8_lossy(&o.stdout).into_owned(),
        stderr: String::from_utf8_lossy(&o.stderr).into_owned(),
    };
    let shown = || {
        let a: Vec<&str> = args
            .iter()
            .map(|a| a.rsplit('/').next().unwrap_or(a))
            .collect();
        format!("{name} {}", a.join(" "))
    };
    if out.code == Some(137) || out.code.is_none() {
        return Err(format!("`{}` did not end within 60 s or was killed by a signal", shown()).into());
    }
    if matches!(out.code, Some(126) | Some(127) | Some(125)) {
        panic!("cannot run {name}: {}", out.stderr);
    }
    if out.code == Some(101) || out.stderr.contains("panicked at") || out.code.unwrap() >= 128 {
        return Err(format!(
            "`{}` crashed (exit {:?}): {}",
            shown(),
            out.code,
            out.stderr.trim()
        )
        .into());
    }
    Ok(out)
}

// ---------------------------------------------------------------- audio files

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Kind {
    Wav16,
    Wav8,
    Wav24,
    Wav32,
    WavF32,
    Aiff,
    Caf,
    /// Verbatim FLAC with this block size.
    Flac(usize),
    /// Verbatim FLAC with blocks of varying size: the digits of the number (base 6, see [`SIZES`]), repeated.
    FlacVar(u32),
    /// The same FLAC frames in a Matroska file, between a track of no known codec and another FLAC track.
    Mkv(usize),
    /// MPEG layer III, nothing but silence, whole frames.
    Mp3,
}
use Kind::*;

/// Sizes of the blocks of [`FlacVar`]; digit 0 ends the number.
const SIZES: [usize; 6] = [0, 1152, 192, 4096, 16, 9001];

fn sizes_of(mut n: u32) -> Vec<usize> {
    let mut v = vec![];
    while n > 0 {
        v.push(SIZES[(n % 6) as usize]);
        n /= 6;
    }
    assert!(!v.is_empty() && !v.contains(&0));
    v
}

/// The words of up to `depth` block sizes, as [`FlacVar`] numbers.
pub(crate) fn size_words(depth: u32) -> Vec<u32> {
    (1..6u32.pow(depth))
        .filter(|&n| {
            let mut m = n;
            while m > 0 && m % 6 != 0 {
                m /= 6;
            }
            m == 0
        })
        .collect()
}

impl Kind {
    pub fn ext(self) -> &'static str {
        match self {
            Wav16 | Wav8 | Wav24 | Wav32 | WavF32 => ".wav",
            Aiff => ".aiff",
            Caf => ".caf",
            Flac(_) | FlacVar(_) => ".flac",
            Mkv(_) => ".mkv",
            Mp3 => ".mp3",
        }
    }
    /// Samples the file can hold exactly.
    pub fn quantise(self, v: &[i16]) -> Vec<i16> {
        match self {
            Wav8 => v.iter().map(|x| x & !0xff).collect(),
            Mp3 => vec![0; v.len()],
            _ => v.to_vec(),
        }
    }
    /// Whether files with this rate and number of channels can be written (and are read by the decoders).
    pub fn takes(self, rate: u32, ch: u32) -> bool {
        match self {
            Caf => ch <= 2,
            Mkv(_) => [1, 2, 3, 6].contains(&ch),
            Mp3 => ch <= 2 && [44100, 48000, 22050, 24000, 16000, 11025, 12000, 8000].contains(&rate),
            _ => true,
        }
    }
    /// The next possible file length.
    pub fn frames(self, n: usize) -> usize {
        match self {
            Mp3 => n.div_ceil(1152) * 1152,
            _ => n,
        }
    }
    /// Largest packet in frames.
    pub fn packet(self) -> usize {
        match self {
            Flac(b) | Mkv(b) => b,
            FlacVar(w) => *sizes_of(w).iter().max().unwrap(),
            _ => 1152,
        }
    }
}

fn crc8(d: &[u8]) -> u8 {
    let mut c = 0u8;
    for &b in d {
        c ^= b;
        for _ in 0..8 {
            c = if c & 0x80 != 0 { (c << 1) ^ 7 } else { c << 1 };
        }
    }
    c
}
fn crc16(d: &[u8]) -> u16 {
    static T: OnceLock<Vec<u16>> = OnceLock::new();
    let t = T.get_or_init(|| {
        (0..256u32)
            .map(|i| {
                let mut c = (i as u16) << 8;
                for _ in 0..8 {
                    c = if c & 0x8000 != 0 { (c << 1) ^ 0x8005 } else { c << 1 };
                }
                c
            })
            .collect()
    });
    d.iter()
        .fold(0u16, |c, &b| (c << 8) ^ t[((c >> 8) as u8 ^ b) as usize])
}

/// The coding of numbers in FLAC frame headers (UTF-8, extended to 36 bits).
fn utf8_num(n: u64) -> Vec<u8> {
    if n < 0x80 {
        return vec![n as u8];
    }
    let more = (1..=6).find(|&k| n < 1 << (5 * k + 6)).expect("number fits");
    let mut v = vec![(0xff00u16 >> (more + 1)) as u8 | (n >> (6 * more)) as u8];
    v.extend((0..more).rev().map(|k| 0x80 | (n >> (6 * k)) as u8 & 0x3f));
    v
}

fn ext80(rate: u32) -> [u8; 10] {
    let mut o = [0u8; 10];
    let sh = rate.leading_zeros();
    let e: u16 = 16383 + 31 - sh as u16;
    o[..2].copy_from_slice(&e.to_be_bytes());
    o[2..].copy_from_slice(&(((rate << sh) as u64) << 32).to_be_bytes());
    o
}

/// Encodes interleaved samples (already quantised).
pub fn encode(kind: Kind, rate: u32, ch: u32, s: &[i16]) -> Vec<u8> {
    let frames = s.len() / ch as usize;
    let mut o: Vec<u8> = vec![];
    match kind {
        Wav16 | Wav8 | Wav24 | Wav32 | WavF32 => {
            let (tag, bits): (u16, u16) = match kind {
                Wav16 => (1, 16),
                Wav8 => (1, 8),
                Wav24 => (1, 24),
                Wav32 => (1, 32),
                _ => (3, 32),
            };
            let mut d = vec![];
            for &x in s {
                match kind {
                    Wav16 => d.extend(x.to_le_bytes()),
                    Wav8 => d.push(((x >> 8) as i8 as u8) ^ 0x80),
                    Wav24 => d.extend(&((x as i32) << 8).to_le_bytes()[..3]),
                    Wav32 => d.extend(((x as i32) << 16).to_le_bytes()),
                    _ => d.extend((x as f32 / 32768.0).to_le_bytes()),
                }
            }
            let ba = bits / 8 * ch as u16;
            o.extend(b"RIFF");
            o.extend((36 + d.len() as u32).to_le_bytes());
            o.extend(b"WAVEfmt ");
            o.extend(16u32.to_le_bytes());
            o.extend(tag.to_le_bytes());
            o.extend((ch as u16).to_le_bytes());
            o.extend(rate.to_le_bytes());
            o.extend(rate.wrapping_mul(ba as u32).to_le_bytes());
            o.extend(ba.to_le_bytes());
            o.extend(bits.to_le_bytes());
            o.extend(b"data");
            o.extend((d.len() as u32).to_le_bytes());
            o.extend(&d);
            if d.len() % 2 == 1 {
                o.push(0);
            }
        }
        Aiff => {
            let mut d = vec![];
            for &x in s {
                d.extend(x.to_be_bytes());
            }
            o.extend(b"FORM");
            o.extend((4 + 26 + 16 + d.len() as u32).to_be_bytes());
            o.extend(b"AIFFCOMM");
            o.extend(18u32.to_be_bytes());
            o.extend((ch as u16).to_be_bytes());
            o.extend((frames as u32).to_be_bytes());
            o.extend(16u16.to_be_bytes());
            o.extend(ext80(rate));
            o.extend(b"SSND");
            o.extend((8 + d.len() as u32).to_be_bytes());
            o.extend([0u8; 8]);
            o.extend(&d);
        }
        Caf => {
            o.extend(b"caff");
            o.extend(1u16.to_be_bytes());
            o.extend(0u16.to_be_bytes());
            o.extend(b"desc");
            o.extend(32u64.to_be_bytes());
            o.extend((rate as f64).to_be_bytes());
            o.extend(b"lpcm");
            o.extend(2u32.to_be_bytes());
            o.extend((2 * ch).to_be_bytes());
            o.extend(1u32.to_be_bytes());
            o.extend(ch.to_be_bytes());
            o.extend(16u32.to_be_bytes());
            o.extend(b"data");
            o.extend((4 + 2 * s.len() as u64).to_be_bytes());
            o.extend(0u32.to_be_bytes());
            for &x in s {
                o.extend(x.to_le_bytes());
            }
        }
        Flac(block) => {
            let (info, packets) = flac(block, rate, ch, s);
            o.extend(b"fLaC");
            o.extend([0x80, 0, 0, 34]);
            o.extend(info);
            o.extend(packets.concat());
        }
        FlacVar(w) => {
            let (info, packets) = flac_blocks(&sizes_of(w), rate, ch, s);
            o.extend(b"fLaC");
            o.extend([0x80, 0, 0, 34]);
            o.extend(info);
            o.extend(packets.concat());
        }
        Mkv(block) => {
            let (info, packets) = flac(block, rate, ch, s);
            // Another recording of another size in the third track.
            let decoy: Vec<i16> = s.iter().rev().take(s.len() / 2 / ch as usize * ch as usize).copied().collect();
            let (info3, packets3) = flac(block.div_ceil(2).max(16), rate, ch, &decoy);
            let tracks = [Track::other(1, 17, "S_TEXT/UTF8"), Track::flac(2, rate, ch, &info), Track::flac(3, rate, ch, &info3)];
            let mut clusters = vec![];
            for (k, group) in packets.chunks(8).enumerate() {
                let mut blocks: Vec<(u8, &[u8])> = vec![];
                for (m, p) in group.iter().enumerate() {
                    blocks.push((1, b"hello"));
                    blocks.push((2, p));
                    if let Some(q) = packets3.get(k * 8 + m) {
                        blocks.push((3, q));
                    }
                }
                clusters.push(((k * 8 * block * 1000) as u64 / rate.max(1) as u64, blocks));
            }
            o = matroska(&tracks, &clusters, false);
        }
        Mp3 => {
            let (version, index, per) = match rate {
                44100 => (3u8, 0u8, 1152),
                48000 => (3, 1, 1152),
                22050 => (2, 0, 576),
                24000 => (2, 1, 576),
                16000 => (2, 2, 576),
                11025 => (0, 0, 576),
                12000 => (0, 1, 576),
                8000 => (0, 2, 576),
                _ => panic!("no such rate in MPEG"),
            };
            assert!(frames % per == 0 && ch <= 2);
            let bitrate = 64_000;
            let len = per / 8 * bitrate / rate as usize;
            for _ in 0..frames / per {
                let at = o.len();
                o.extend([0xff, 0xe3 | version << 3, if version == 3 { 0x50 } else { 0x80 } | index << 2, if ch == 1 { 0xc0 } else { 0 }]);
                o.resize(at + len, 0);
            }
        }
    }
    o
}

/// Writes one file of every kind, for inspection.
pub fn dump(dir: &str) {
    for k in [Wav16, Wav8, Wav24, Wav32, WavF32, Aiff, Caf, Flac(4096), Mkv(1152), Mp3] {
        let s = source(k, 57_600, 1, 1);
        std::fs::write(format!("{dir}/example{}", k.ext()), encode(k, NATIVE, 1, &s)).expect("write");
    }
}

/// A track of a Matroska file.
pub(crate) struct Track {
    pub number: u8,
    /// 1 video, 2 audio, 17 subtitles
    pub kind: u8,
    pub codec: &'static str,
    pub private: Option<Vec<u8>>,
    pub audio: Option<(u32, u32)>,
}
impl Track {
    pub fn other(number: u8, kind: u8, codec: &'static str) -> Self {
        Track { number, kind, codec, private: None, audio: None }
    }
    pub fn flac(number: u8, rate: u32, ch: u32, info: &[u8]) -> Self {
        let private = [b"fLaC\x80\x00\x00\x22", info].concat();
        Track { number, kind: 2, codec: "A_FLAC", private: Some(private), audio: Some((rate, ch)) }
    }
}

/// A Matroska file with these tracks and blocks (per cluster: time in ms, blocks with track number and data).
/// `live`: segment and clusters of unknown size, as written by streaming encoders.
pub(crate) fn matroska(tracks: &[Track], clusters: &[(u64, Vec<(u8, &[u8])>)], live: bool) -> Vec<u8> {
    let track = |t: &Track| {
        let mut d = [
            ebml(0xD7, &[t.number]),
            ebml(0x73C5, &[t.number]),
            ebml(0x83, &[t.kind]),
            ebml(0x86, t.codec.as_bytes()),
        ]
        .concat();
        if let Some(p) = &t.private {
            d.extend(ebml(0x63A2, p));
        }
        if let Some((rate, ch)) = t.audio {
            let audio = [
                ebml(0xB5, &(rate as f64).to_be_bytes()),
                ebml(0x9F, &[ch as u8]),
                ebml(0x6264, &[16]),
            ];
            d.extend(ebml(0xE1, &audio.concat()));
        }
        ebml(0xAE, &d)
    };
    let unsized_ebml = |id: u32, data: &[u8]| {
        let mut o: Vec<u8> = id.to_be_bytes().to_vec();
        o.extend([0x01, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff]);
        o.extend(data);
        o
    };
    let large = |id, data: &[u8]| if live { unsized_ebml(id, data) } else { ebml(id, data) };
    let head = [
        ebml(0x4286, &[1]),
        ebml(0x42F7, &[1]),
        ebml(0x42F2, &[4]),
        ebml(0x42F3, &[8]),
        ebml(0x4282, b"matroska"),
        ebml(0x4287, &[4]),
        ebml(0x4285, &[2]),
    ];
    let mut o = ebml(0x1A45DFA3, &head.concat());
    let mut seg = ebml(
        0x1549A966,
        &[ebml(0x2AD7B1, &1_000_000u32.to_be_bytes()), ebml(0x4D80, b"mc"), ebml(0x5741, b"mc")].concat(),
    );
    seg.extend(ebml(0x1654AE6B, &tracks.iter().map(track).collect::<Vec<_>>().concat()));
    for (time, blocks) in clusters {
        let mut c = ebml(0xE7, &time.to_be_bytes());
        for (n, data) in blocks {
            c.extend(ebml(0xA3, &[&[0x80 | n, 0, 0, 0x80], *data].concat()));
        }
        seg.extend(large(0x1F43B675, &c));
    }
    o.extend(large(0x18538067, &seg));
    o
}

/// One EBML element.
fn ebml(id: u32, data: &[u8]) -> Vec<u8> {
    let mut o: Vec<u8> = id.to_be_bytes().into_iter().skip_while(|&b| b == 0).collect();
    match data.len() {
        n if n < 0x7f => o.push(0x80 | n as u8),
        n if n < 0x3fff => o.extend((0x4000 | n as u16).to_be_bytes()),
        n => o.extend((1u64 << 56 | n as u64).to_be_bytes()),
    }
    o.extend(data);
    o
}

/// Stream information and frames of verbatim FLAC.
pub(crate) fn flac(block: usize, rate: u32, ch: u32, s: &[i16]) -> (Vec<u8>, Vec<Vec<u8>>) {
    flac_blocks(&[block], rate, ch, s)
}

/// The same with these block sizes in turn.
fn flac_blocks(sizes: &[usize], rate: u32, ch: u32, s: &[i16]) -> (Vec<u8>, Vec<Vec<u8>>) {
    assert!(sizes.iter().all(|b| (16..=65535).contains(b)) && ch <= 8 && rate < 1 << 20);
    let frames = s.len() / ch as usize;
    let variable = sizes.iter().any(|&b| b != sizes[0]);
    let mut info = vec![];
    info.extend((*sizes.iter().min().unwrap() as u16).to_be_bytes());
    info.extend((*sizes.iter().max().unwrap() as u16).to_be_bytes());
    info.extend([0u8; 6]);
    let v: u64 = (rate as u64) << 44 | ((ch - 1) as u64) << 41 | 15 << 36 | frames as u64;
    info.extend(v.to_be_bytes());
    info.extend([0u8; 16]);
    let mut packets = vec![];
    let mut at = 0;
    while at < frames {
        let n = sizes[packets.len() % sizes.len()].min(frames - at);
        let part = &s[at * ch as usize..(at + n) * ch as usize];
        let mut f: Vec<u8> = vec![0xff, 0xf8 | variable as u8, 0x70, ((ch - 1) as u8) << 4 | 8];
        f.extend(utf8_num(if variable { at } else { packets.len() } as u64));
        f.extend(((n - 1) as u16).to_be_bytes());
        f.push(crc8(&f));
        for c in 0..ch as usize {
            f.push(2);
            for fr in part.chunks(ch as usize) {
                f.extend(fr[c].to_be_bytes());
            }
        }
        let c = crc16(&f);
        f.extend(c.to_be_bytes());
        packets.push(f);
        at += n;
    }
    (info, packets)
}

/// Where every packet of a file of compressed audio ends.
pub(crate) fn packet_ends(kind: Kind, rate: u32, ch: u32, s: &[i16], bytes: &[u8]) -> Vec<usize> {
    match kind {
        Flac(b) | Mkv(b) => {
            let mut at = 0;
            flac(b, rate, ch, s)
                .1
                .iter()
                .map(|p| {
                    at += bytes[at..].windows(p.len()).position(|w| w == p).expect("packet in file") + p.len();
                    at
                })
                .collect()
        }
        Mp3 => {
            let n = s.len() / ch as usize / kind.packet();
            (1..=n).map(|k| k * (bytes.len() / n)).collect()
        }
        _ => vec![],
    }
}

/// Interleaved test audio; every channel differs.
pub(crate) fn source(kind: Kind, frames: usize, ch: u32, seed: u64) -> Vec<i16> {
    let a = audio_c(frames * ch as usize, seed);
    kind.quantise(&a)
}

// ---------------------------------------------------------------- fpcalc model

#[derive(Clone, Debug, Default)]
pub(crate) struct Opt {
    /// 0..=4, or the default.
    pub algorithm: Option<u8>,
    pub length: Option<u64>,
    pub chunk: Option<u64>,
    pub overlap: bool,
    pub ts: bool,
    pub raw: bool,
    pub signed: bool,
    /// text, json, plain or the default (text)
    pub format: Option<&'static str>,
}

impl Opt {
    pub fn args(&self) -> Vec<String> {
        let mut v = vec![];
        if let Some(a) = self.algorithm {
            v.push("--algorithm".into());
            v.push(a.to_string());
        }
        if let Some(l) = self.length {
            v.push("--length".into());
            v.push(l.to_string());
        }
        if let Some(c) = self.chunk {
            v.push("--chunk".into());
            v.push(c.to_string());
        }
        for (on, name) in [
            (self.overlap, "--overlap"),
            (self.ts, "--ts"),
            (self.raw, "--raw"),
            (self.signed, "--signed"),
        ] {
            if on {
                v.push(name.into());
            }
        }
        if let Some(f) = self.format {
            v.push("--output-format".into());
            v.push(f.into());
        }
        v
    }
    pub fn cfg(&self) -> Cfg {
        match self.algorithm {
            Some(a) => Cfg::preset(a + 1),
            // The default algorithm is the library's default configuration, which is the second preset.
            None => Cfg::preset(2),
        }
    }
}

/// One printed result.
#[derive(Debug)]
pub(crate) struct Row {
    pub timestamp: Option<f64>,
    pub duration: Option<f64>,
    /// Items of a raw fingerprint.
    pub items: Option<Vec<u32>>,
    /// Compressed fingerprint text.
    pub text: Option<String>,
}

const B64: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_";
fn base64(d: &[u8]) -> String {
    let mut o = String::new();
    for c in d.chunks(3) {
        let v = (c[0] as u32) << 16
            | (*c.get(1).unwrap_or(&0) as u32) << 8
            | *c.get(2).unwrap_or(&0) as u32;
        for k in 0..=c.len() {
            o.push(B64[(v >> (18 - 6 * k)) as usize & 63] as char);
        }
    }
    o
}

/// Minimal strict JSON reader for a flat object.
#[derive(Debug, Clone)]
enum J {
    Num(String),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(String, J)>),
}
fn json(s: &str) -> Result<J, String> {
    let b = s.as_bytes();
    let mut i = 0;
    let v = jval(b, &mut i)?;
    ws(b, &mut i);
    if i != b.len() {
        return Err(format!("trailing text at byte {i}"));
    }
    Ok(v)
}
fn ws(b: &[u8], i: &mut usize) {
    while *i < b.len() && matches!(b[*i], b' ' | b'\t' | b'\r' | b'\n') {
        *i += 1;
    }
}
fn jstr(b: &[u8], i: &mut usize) -> Result<String, String> {
    *i += 1;
    let st = *i;
    while *i < b.len() && b[*i] != b'"' {
        if b[*i] == b'\\' || b[*i] < 32 {
            return Err("unexpected character in a string".into());
        }
        *i += 1;
    }
    if *i >= b.len() {
        return Err("unterminated string".into());
    }
    *i += 1;
    Ok(String::from_utf8_lossy(&b[st..*i - 1]).into_owned())
}
fn jval(b: &[u8], i: &mut usize) -> Result<J, String> {
    ws(b, i);
    match b.get(*i) {
        Some(b'"') => Ok(J::Str(jstr(b, i)?)),
        Some(b'{') => {
            *i += 1;
            let mut v = vec![];
            ws(b, i);
            if b.get(*i) == Some(&b'}') {
                *i += 1;
                return Ok(J::Obj(v));
            }
            loop {
                ws(b, i);
                if b.get(*i) != Some(&b'"') {
                    return Err(format!("no key at byte {i}"));
                }
                let k = jstr(b, i)?;
                ws(b, i);
                if b.get(*i) != Some(&b':') {
                    return Err(format!("no colon at byte {i}"));
                }
                *i += 1;
                v.push((k, jval(b, i)?));
                ws(b, i);
                match b.get(*i) {
                    Some(b',') => *i += 1,
                    Some(b'}') => {
                        *i += 1;
                        return Ok(J::Obj(v));
                    }
                    _ => return Err(format!("no comma at byte {i}")),
                }
            }
        }
        Some(b'[') => {
            *i += 1;
            let mut v = vec![];
            ws(b, i);
            if b.get(*i) == Some(&b']') {
                *i += 1;
                return Ok(J::Arr(v));
            }
            loop {
                v.push(jval(b, i)?);
                ws(b, i);
                match b.get(*i) {
                    Some(b',') => *i += 1,
                    Some(b']') => {
                        *i += 1;
                        return Ok(J::Arr(v));
                    }
                    _ => return Err(format!("no comma at byte {i}")),
                }
            }
        }
        _ => {
            let st = *i;
            while *i < b.len() && matches!(b[*i], b'0'..=b'9' | b'-' | b'+' | b'.' | b'e' | b'E') {
                *i += 1;
            }
            let t = std::str::from_utf8(&b[st..*i]).unwrap().to_string();
            let digits = t.trim_start_matches('-');
            if digits.is_empty()
                || t.parse::<f64>().is_err()
                || digits.starts_with('.')
                || (digits.len() > 1 && digits.starts_with('0') && !digits.starts_with("0."))
            {
                return Err(format!("bad number {t:?} at byte {st}"));
            }
            Ok(J::Num(t))
        }
    }
}

fn items_of(list: &[String], signed: bool) -> Result<Vec<u32>, String> {
    list.iter()
        .map(|t| {
            if signed {
                t.parse::<i32>().map(|x| x as u32)
            } else {
                t.parse::<u32>()
            }
            .map_err(|_| format!("{t:?} is not a {} 32-bit item", if signed { "signed" } else { "unsigned" }))
        })
        .collect()
}

/// Reads fpcalc's standard output in the selected format.
pub(crate) fn parse(o: &Opt, out: &str) -> Result<Vec<Row>, String> {
    let fpr = |t: &str| -> Result<(Option<Vec<u32>>, Option<String>), String> {
        if o.raw {
            let l: Vec<String> = if t.is_empty() {
                vec![]
            } else {
                t.split(',').map(|s| s.to_string()).collect()
            };
            Ok((Some(items_of(&l, o.signed)?), None))
        } else {
            Ok((None, Some(t.to_string())))
        }
    };
    let mut rows = vec![];
    if out.is_empty() {
        return Ok(rows);
    }
    let out = out.strip_suffix('\n').ok_or("output does not end with a newline")?;
    match o.format.unwrap_or("text") {
        "plain" => {
            for l in out.split('\n') {
                let (items, text) = fpr(l)?;
                rows.push(Row { timestamp: None, duration: None, items, text });
            }
        }
        "json" => {
            for l in out.split('\n') {
                let J::Obj(kv) = json(l).map_err(|e| format!("invalid JSON ({e}): {l}"))? else {
                    return Err(format!("not a JSON object: {l}"));
                };
                let mut r = Row { timestamp: None, duration: None, items: None, text: None };
                for (k, v) in kv {
                    match (k.as_str(), v) {
                        ("timestamp", J::Num(n)) if r.timestamp.is_none() => r.timestamp = n.parse().ok(),
                        ("duration", J::Num(n)) if r.duration.is_none() => r.duration = n.parse().ok(),
                        ("fingerprint", J::Str(s)) if !o.raw && r.text.is_none() => r.text = Some(s),
                        ("fingerprint", J::Arr(a)) if o.raw && r.items.is_none() => {
                            let l: Option<Vec<String>> = a
                                .iter()
                                .map(|x| if let J::Num(n) = x { Some(n.clone()) } else { None })
                                .collect();
                            r.items = Some(items_of(&l.ok_or("fingerprint is not a list of numbers")?, o.signed)?);
                        }
                        (k, _) => return Err(format!("unexpected JSON member {k}: {l}")),
                    }
                }
                if r.timestamp.is_some() != (o.chunk.unwrap_or(0) > 0) {
                    return Err("JSON timestamps belong to chunked results only".into());
                }
                rows.push(r);
            }
        }
        _ => {
            for block in out.split("\n\n") {
                let mut r = Row { timestamp: None, duration: None, items: None, text: None };
                let mut seen = 0;
                for l in block.split('\n') {
                    if let Some(x) = l.strip_prefix("TIMESTAMP=") {
                        r.timestamp = Some(x.parse().map_err(|_| format!("bad line {l:?}"))?);
                    } else if let Some(x) = l.strip_prefix("DURATION=") {
                        r.duration = Some(x.parse().map_err(|_| format!("bad line {l:?}"))?);
                    } else if let Some(x) = l.strip_prefix("FINGERPRINT=") {
                        (r.items, r.text) = fpr(x)?;
                    } else {
                        return Err(format!("unexpected line {l:?}"));
                    }
                    seen += 1;
                }
                if r.timestamp.is_some() != o.ts {
                    return Err("text timestamps are printed exactly with --ts".into());
                }
                if seen != 2 + o.ts as usize || r.duration.is_none() || (r.items.is_none() && r.text.is_none()) {
                    return Err(format!("incomplete result block {block:?}"));
                }
                rows.push(r);
            }
        }
    }
    Ok(rows)
}

/// Expected pieces: frame ranges of the processed audio.
pub(crate) fn pieces(o: &Opt, rate: u32, frames: usize) -> Vec<std::ops::Range<usize>> {
    let limit = o.length.unwrap_or(120);
    let used = if limit == 0 {
        frames
    } else {
        (limit as u128 * rate as u128).min(frames as u128) as usize
    };
    let chunk = o.chunk.unwrap_or(0) as u128 * rate as u128;
    let extra = if o.overlap && chunk > 0 {
        (o.cfg().m_delay() as u128 * rate as u128).div_ceil(NATIVE as u128)
    } else {
        0
    };
    let mut v = vec![];
    let mut at = 0;
    while at < used {
        let len = if chunk == 0 {
            used
        } else {
            (chunk + if at == 0 { extra } else { 0 }).min((used - at) as u128) as usize
        };
        let end = (at + len).min(used);
        v.push(at..end);
        at = end;
    }
    v
}

/// Compares a finished run with the model. `s` are the interleaved samples of the file.
#[allow(clippy::too_many_arguments)]
pub(crate) fn check(o: &Opt, rate: u32, ch: u32, s: &[i16], out: &Out, clock: (f64, f64), ex: &mut Exec) -> Res {
    ensure!(
        out.code == Some(0),
        "exit status {:?} on an intact file: {}",
        out.code,
        out.stderr.trim()
    );
    let rows = parse(o, &out.stdout).map_err(|e| Fail::from(format!("unreadable output: {e}")))?;
    let frames = s.len() / ch as usize;
    let want = pieces(o, rate, frames);
    ensure!(
        rows.len() == want.len(),
        "{} results printed, expected {} for {frames} frames at {rate} Hz",
        rows.len(),
        want.len()
    );
    let cfg = o.cfg();
    let conf = cfg.build();
    let c = ch as usize;
    let overlapping = o.overlap && o.chunk.unwrap_or(0) > 0;
    let whole = if overlapping {
        fp(&conf, rate, ch, &s[..want.last().map_or(0, |w| w.end) * c])
    } else {
        vec![]
    };
    let delay_s = cfg.m_delay() as f64 / NATIVE as f64;
    let mut joined = 0;
    let mut prev_ts = clock.0;
    for (k, (r, w)) in rows.iter().zip(&want).enumerate() {
        // --- the fingerprint
        if !overlapping {
            let items = fp(&conf, rate, ch, &s[w.start * c..w.end * c]);
            ex.outcome(&items);
            compare_fp(o, k, &items, r)?;
        } else {
            // Results share one continuous stream; decode the compressed form by trying the possible cuts.
            let n = match (&r.items, &r.text) {
                (Some(i), _) => i.len(),
                (_, Some(t)) => (0..=whole.len() - joined)
                    .find(|&n| base64(&compress_with(&conf, &whole[joined..joined + n])) == *t)
                    .ok_or_else(|| Fail::from(format!("result {k} is no continuation of the whole file's fingerprint after item {joined}")))?,
                _ => unreachable!(),
            };
            ensure!(
                joined + n <= whole.len(),
                "results 0..={k} have {} items in all, but the whole file has {}",
                joined + n,
                whole.len()
            );
            compare_fp(o, k, &whole[joined..joined + n], r)?;
            joined += n;
            if k + 1 == rows.len() {
                ensure!(
                    joined == whole.len(),
                    "the results contain {joined} items, the whole file has {}",
                    whole.len()
                );
            } else if rate == NATIVE {
                ensure!(
                    joined == cfg.m_items(w.end),
                    "after result {k} {joined} items were printed, but the audio up to there has {}",
                    cfg.m_items(w.end)
                );
            } else {
                let at = |f: usize| cfg.m_items((f as f64 * NATIVE as f64 / rate as f64) as usize);
                let lo = at(w.end.saturating_sub(32768 + 64)).saturating_sub(1);
                ensure!(
                    joined >= lo && joined <= at(w.end) + 1,
                    "after result {k} {joined} items were printed, expected {lo} to {}",
                    at(w.end) + 1
                );
            }
        }
        // --- duration and timestamp
        let len = (w.end - w.start) as f64 / rate as f64;
        let dur = len + if overlapping && k > 0 { delay_s } else { 0.0 };
        if let Some(d) = r.duration {
            ensure!(
                (d - dur).abs() < 0.006,
                "result {k} has duration {d}, expected {dur:.4}"
            );
        }
        if let Some(t) = r.timestamp {
            if o.ts {
                let slack = if overlapping && k > 0 { delay_s } else { 0.0 };
                ensure!(
                    t + slack >= prev_ts - 0.02 && t + slack <= clock.1 + 0.02,
                    "result {k} has timestamp {t} outside of the time of the run"
                );
                prev_ts = t + slack;
            } else {
                let ts = if k == 0 {
                    0.0
                } else if overlapping {
                    w.start as f64 / rate as f64 - delay_s
                } else {
                    w.start as f64 / rate as f64
                };
                ensure!(
                    (t - ts).abs() < 0.006,
                    "result {k} has timestamp {t}, expected {ts:.4}"
                );
            }
        }
    }
    ex.trace();
    Ok(())
}

pub(crate) fn compare_fp(o: &Opt, k: usize, want: &[u32], r: &Row) -> Res {
    match (&r.items, &r.text) {
        (Some(i), _) => ensure!(
            i == want,
            "the fingerprint of result {k} is wrong: {}",
            first_diff(want, i)
        ),
        (_, Some(t)) => {
            let w = base64(&compress_with(&o.cfg().build(), want));
            ensure!(
                *t == w,
                "the compressed fingerprint of result {k} is {t}, expected {w}"
            );
        }
        _ => return Err("no fingerprint printed".to_string().into()),
    }
    Ok(())
}

pub(crate) fn now() -> f64 {
    std::time::SystemTime::now()
        .duration_since(std::time::UNIX_EPOCH)
        .unwrap()
        .as_secs_f64()
}

pub(crate) fn run_and_check(o: &Opt, kind: Kind, rate: u32, ch: u32, frames: usize, seed: u64, ex: &mut Exec) -> Res {
    let s = source(kind, frames, ch, seed);
    let f = TempFile::new(&encode(kind, rate, ch, &s), kind.ext());
    let mut args = o.args();
    args.push(f.path().into());
    let a: Vec<&str> = args.iter().map(|x| x.as_str()).collect();
    ex.note(|| format!("{kind:?} {rate} Hz {ch} ch {frames} frames: fpcalc {}", o.args().join(" ")));
    ex.state((kind, rate, ch, frames, o.args()));
    let t0 = now();
    let out = run("fpcalc", &a)?;
    let t1 = now();
    ex.steps(1);
    check(o, rate, ch, &s, &out, (t0, t1), ex).map_err(|e| Fail {
        msg: format!("fpcalc {} on {kind:?}, {rate} Hz, {ch} channels, {frames} frames: {}", o.args().join(" "), e.msg),
        key: e.key,
    })
}

// ---------------------------------------------------------------- C18

pub fn c18(t: Tier) -> Vec<Family> {
    let mut out = vec![];
    // Without and with overlap: every combination of chunk duration, file length relative to the chunk
    // boundaries, decoder packet size, rate and channel count.
    for overlap in [false, true] {
        let rates: Vec<u32> = t.pick(vec![11025, 8000, 44100], vec![11025, 8000, 44100, 48000, 22050, 16000, 5512]);
        let chunks: Vec<u64> = t.pick(vec![1, 3, 4], vec![1, 2, 3, 4, 5, 7]);
        let ends: Vec<i64> = vec![-1153, -1, 0, 1, 700, 1152, 5000];
        let mults: Vec<u64> = t.pick(vec![0, 1, 2, 3], vec![0, 1, 2, 3, 4]);
        let kinds: Vec<Option<i64>> = {
            // None: WAV; Some(b): FLAC with blocks of b frames, negative: relative to the chunk length.
            let mut v = vec![None, Some(16 * 41), Some(4096), Some(-1), Some(-2), Some(-3), Some(65535), Some(10007)];
            if t == Tier::Thorough {
                v.extend([Some(1152), Some(30000), Some(-4), Some(-5), Some(2000)]);
            }
            v
        };
        let rad = [rates.len() as u64, chunks.len() as u64, ends.len() as u64, mults.len() as u64, kinds.len() as u64];
        let n = product(&rad);
        out.push(Family::new(
            format!("grid-overlap={overlap}"),
            "rate x chunk seconds x (whole chunks + offset) frames x container and packet size; 1 or 2 channels; file lengths lie around every chunk boundary",
            n,
            move |i, ex| {
                let d = digits(i, &rad);
                let (rate, chunk) = (rates[d[0]], chunks[d[1]]);
                let ch = 1 + (i % 2) as u32;
                let climit = chunk as i64 * rate as i64;
                let o = Opt {
                    chunk: Some(chunk),
                    overlap,
                    raw: d[2] != 3,
                    format: [Some("json"), None, Some("plain")][if d[2] == 4 { 1 } else if d[2] == 5 { 2 } else { 0 }],
                    algorithm: Some([1, 4, 0, 2, 3][(i % 5) as usize]),
                    ..Opt::default()
                };
                let extra = if overlap { (o.cfg().m_delay() as i64 * rate as i64 + NATIVE as i64 - 1) / NATIVE as i64 } else { 0 };
                let frames = climit * mults[d[3]] as i64 + ends[d[2]] + if mults[d[3]] > 0 { extra } else { 0 };
                if frames < 0 {
                    return Ok(());
                }
                let kind = match kinds[d[4]] {
                    None => if i % 3 == 0 { Aiff } else { Wav16 },
                    Some(b) => {
                        let b = match b {
                            -1 => climit,
                            -2 => climit + 1,
                            -3 => climit - 1,
                            -4 => climit / 2,
                            -5 => 2 * climit + 3,
                            b => b,
                        };
                        if !(16..=65535).contains(&b) {
                            return Ok(());
                        }
                        if i % 7 == 3 { Mkv(b as usize) } else { Flac(b as usize) }
                    }
                };
                if frames == 0 && kind != Wav16 {
                    return Ok(());
                }
                run_and_check(&o, kind, rate, ch, frames as usize, 700 + i % 3, ex)
            },
        ));
    }
    // Chunks shorter than a packet: one packet closes several chunks.
    {
        let rates = [1001u32, 2000, 8000, 11025];
        let secs: Vec<u64> = t.pick(vec![7, 12], vec![5, 7, 12, 23]);
        let chunks = [1u64, 2, 3, 5];
        let deltas: Vec<i64> = vec![-1, 0, 1, 500];
        let rad = [4, secs.len() as u64, 4, deltas.len() as u64, 3, 2];
        out.push(Family::new(
            "packets-longer-than-chunks",
            "rate x file seconds x chunk seconds x length offset x (container) x overlap, with packets that cover up to 65 chunks",
            product(&rad),
            move |i, ex| {
                let d = digits(i, &rad);
                let rate = rates[d[0]];
                let frames = (secs[d[1]] * rate as u64) as i64 + deltas[d[3]];
                let o = Opt {
                    chunk: Some(chunks[d[2]]),
                    overlap: d[5] == 1,
                    raw: true,
                    format: Some("json"),
                    algorithm: Some(4),
                    ..Opt::default()
                };
                let kind = [Flac(65535), Flac((rate as usize * 5 / 2).max(16)), Wav16][d[4]];
                run_and_check(&o, kind, rate, 1 + (i as u32 % 2), frames as usize, 33, ex)
            },
        ));
    }
    // Length limits together with chunks.
    // Packets of varying size.
    {
        let words = size_words(t.pick(3, 4));
        let rates = [11025u32, 8000, 44100];
        let chunks = [1u64, 2, 3];
        let lens: Vec<i64> = vec![-1, 0, 1, 700, 6000];
        let rad = [words.len() as u64, chunks.len() as u64, 2, lens.len() as u64];
        out.push(Family::new(
            "packet-words",
            format!("every word of up to {} packet sizes out of {:?}, repeated, x chunk seconds x overlap x length around whole chunks", t.pick(3, 4), &SIZES[1..]),
            product(&rad),
            move |i, ex| {
                let d = digits(i, &rad);
                let rate = rates[(i % 3) as usize];
                let o = Opt {
                    length: Some([0, 5][(i / 3 % 2) as usize]),
                    chunk: Some(chunks[d[1]]),
                    overlap: d[2] == 1,
                    raw: true,
                    format: Some("json"),
                    ..Opt::default()
                };
                let frames = (chunks[d[1]] * rate as u64 * (1 + i / 2 % 2)) as i64 + lens[d[3]];
                let ch = 1 + (i / 5 % 2) as u32;
                run_and_check(&o, FlacVar(words[d[0]]), rate, ch, frames as usize, 74, ex)
            },
        ));
    }
    {
        let rates: Vec<u32> = vec![8000, 11025];
        let limits: Vec<u64> = t.pick(vec![0, 1, 3, 4, 6, 7], vec![0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12]);
        let chunks = [1u64, 2, 3, 4, 100];
        let rad = [2, limits.len() as u64, 5, 2, 4];
        out.push(Family::new(
            "limit-and-chunks",
            "rate x length limit x chunk seconds x overlap x packet size, for a file of 8 s and a bit",
            product(&rad),
            move |i, ex| {
                let d = digits(i, &rad);
                let o = Opt {
                    chunk: Some(chunks[d[2]]),
                    length: Some(limits[d[1]]),
                    overlap: d[3] == 1,
                    raw: true,
                    format: Some("json"),
                    ..Opt::default()
                };
                let kind = [Wav16, Flac(4096), Flac(8000), Flac(33333)][d[4]];
                run_and_check(&o, kind, rates[d[0]], 2, 8 * rates[d[0]] as usize + 777, 41, ex)
            },
        ));
    }
    // Absolute timestamps.
    {
        let rad = [2, 2, 2, 3];
        out.push(Family::new(
            "timestamps",
            "--ts with chunks: overlap x format x rate x chunk seconds",
            product(&rad),
            move |i, ex| {
                let d = digits(i, &rad);
                let o = Opt {
                    chunk: Some([1, 3, 4][d[3]]),
                    overlap: d[0] == 1,
                    ts: true,
                    raw: true,
                    format: [Some("json"), Some("text")][d[1]],
                    ..Opt::default()
                };
                run_and_check(&o, Wav16, [11025, 16000][d[2]], 1, 150_000, 43, ex)
            },
        ));
    }
    out
}

// ---------------------------------------------------------------- C19

pub fn c19(t: Tier) -> Vec<Family> {
    let mut out = vec![];
    {
        // algorithm (default, 0..4) x chunk x overlap x ts x raw x signed x format (default, 3)
        let files: Vec<(Kind, u32, u32, usize)> = {
            let mut v = vec![
                (Wav16, 11025, 1, 60_000),
                (Flac(4608), 44100, 2, 300_000),
                (Wav16, 8000, 2, 9_000),
                (Wav16, 11025, 1, 1),
            ];
            if t == Tier::Thorough {
                v.extend([
                    (Aiff, 22050, 2, 100_000),
                    (Caf, 48000, 2, 260_000),
                    (WavF32, 96000, 1, 500_000),
                    (Flac(1024), 16000, 6, 90_000),
                    (Wav24, 11025, 2, 28_666),
                ]);
            }
            v
        };
        let rad = [6, 3, 2, 2, 2, 2, 4, files.len() as u64];
        out.push(Family::new(
            "options",
            "every combination of algorithm, chunking, overlap, --ts, --raw, --signed and output format on each file",
            product(&rad),
            move |i, ex| {
                let d = digits(i, &rad);
                let o = Opt {
                    algorithm: [None, Some(0), Some(1), Some(2), Some(3), Some(4)][d[0]],
                    chunk: [None, Some(0), Some(3)][d[1]],
                    overlap: d[2] == 1,
                    ts: d[3] == 1,
                    raw: d[4] == 1,
                    signed: d[5] == 1,
                    format: [None, Some("text"), Some("json"), Some("plain")][d[6]],
                    length: None,
                };
                let (k, rate, ch, n) = files[d[7]];
                run_and_check(&o, k, rate, ch, n, 61, ex)
            },
        ));
    }
    {
        // Containers and sample formats x channels x rates: the audio reaches the library unchanged.
        let kinds = [Wav16, Wav8, Wav24, Wav32, WavF32, Aiff, Caf, Flac(16), Flac(1152), Flac(4096), Flac(65535), FlacVar(8), FlacVar(34), Mkv(1152), Mkv(5000), Mp3];
        let chans: Vec<u32> = vec![1, 2, 3, 4, 6, 8];
        let rates: Vec<u32> = t.pick(vec![11025, 8000, 44100], vec![11025, 1001, 5512, 8000, 16000, 22050, 32000, 44100, 48000, 96000, 192_000]);
        let rad = [kinds.len() as u64, chans.len() as u64, rates.len() as u64, 2];
        out.push(Family::new(
            "containers",
            "container and sample format x channels x rate x algorithm: raw JSON output compared with the library's fingerprint of the same samples",
            product(&rad),
            move |i, ex| {
                let d = digits(i, &rad);
                let kind = kinds[d[0]];
                let ch = chans[d[1]];
                if !kind.takes(rates[d[2]], ch) {
                    return Ok(());
                }
                let o = Opt {
                    raw: true,
                    format: Some("json"),
                    algorithm: [Some(1), Some(2)][d[3]],
                    ..Opt::default()
                };
                let n = kind.frames(rates[d[2]] as usize * 7 / 2);
                if kind == Flac(16) && n / 16 >= 0xd800 {
                    return Ok(());
                }
                run_and_check(&o, kind, rates[d[2]], ch, n, 62 + i % 2, ex)
            },
        ));
    }
    {
        // Long files: every item count modulo the packing of the compressed form.
        let n = t.pick(40u64, 160);
        out.push(Family::new(
            "lengths",
            "files of every item count from 0 up, raw and compressed output agree",
            n * 2,
            move |i, ex| {
                let o = Opt {
                    raw: i % 2 == 0,
                    format: Some("plain"),
                    algorithm: Some(4),
                    ..Opt::default()
                };
                let frames = o.cfg().m_delay() + (i / 2) as usize * o.cfg().m_hop() - (i as usize % 4 / 2);
                run_and_check(&o, Wav16, NATIVE, 1, frames, 63, ex)
            },
        ));
    }
    {
        let bad: Vec<Vec<&'static str>> = vec![
            vec!["--algorithm", "5"],
            vec!["--algorithm", "255"],
            vec!["--algorithm", "256"],
            vec!["--algorithm=-1"],
            vec!["--algorithm", "one"],
            vec!["--algorithm", ""],
            vec!["--algorithm", "0.0"],
            vec!["--output-format", "xml"],
            vec!["--output-format", ""],
            vec!["--output-format", "JSON"],
            vec!["--length=-1"],
            vec!["--length", "x"],
            vec!["--chunk", "x"],
            vec!["--chunk=-3"],
            vec!["--unknown"],
        ];
        out.push(Family::new(
            "bad-options",
            "invalid option values are refused without printing a fingerprint",
            bad.len() as u64,
            move |i, ex| {
                let s = source(Wav16, 30_000, 1, 5);
                let f = TempFile::new(&encode(Wav16, NATIVE, 1, &s), ".wav");
                let mut a = bad[i as usize].clone();
                a.push(f.path());
                let r = run("fpcalc", &a)?;
                ex.steps(1);
                ex.state(i);
                ex.note(|| format!("fpcalc {}", bad[i as usize].join(" ")));
                ensure!(
                    r.code != Some(0) && r.stdout.is_empty(),
                    "fpcalc accepted {:?}: exit {:?}, output {:?}",
                    bad[i as usize],
                    r.code,
                    r.stdout
                );
                ex.trace();
                Ok(())
            },
        ));
    }
    out
}

// ---------------------------------------------------------------- C20

pub fn c20(t: Tier) -> Vec<Family> {
    let mut out = vec![];
    {
        let rates: Vec<u32> = t.pick(vec![11025, 8000, 44100], vec![11025, 8000, 44100, 48000, 22050, 1001]);
        let limits: Vec<Option<u64>> = vec![
            Some(0),
            Some(1),
            Some(3),
            Some(4),
            Some(5),
            None,
            Some(1 << 33),
            Some(u64::MAX),
        ];
        let secs = [1u64, 3, 4, 6];
        let ends: Vec<i64> = t.pick(vec![-1152, -1, 0, 1, 1153], vec![-4097, -1153, -1152, -1151, -1, 0, 1, 2, 1151, 1152, 1153, 4096, 5000]);
        let kinds = [Wav16, Flac(4096), Flac(1000), Flac(44100), Aiff, Mkv(2048), Mp3];
        let rad = [rates.len() as u64, limits.len() as u64, secs.len() as u64, ends.len() as u64, kinds.len() as u64];
        out.push(Family::new(
            "grid",
            "rate x limit (0, whole seconds, default, huge) x file length around whole seconds x container and packet size",
            product(&rad),
            move |i, ex| {
                let d = digits(i, &rad);
                let o = Opt {
                    length: limits[d[1]],
                    raw: true,
                    format: [Some("json"), None][(i % 2) as usize],
                    algorithm: Some([1, 4][(i % 2) as usize]),
                    ..Opt::default()
                };
                let frames = (secs[d[2]] * rates[d[0]] as u64) as i64 + ends[d[3]];
                if frames <= 0 {
                    return Ok(());
                }
                let kind = kinds[d[4]];
                let ch = 1 + (i % 2) as u32;
                if !kind.takes(rates[d[0]], ch) {
                    return Ok(());
                }
                run_and_check(&o, kind, rates[d[0]], ch, kind.frames(frames as usize), 71, ex)
            },
        ));
    }
    {
        // Limits that fall on the end of a packet.
        let rates = [1152u32, 4608, 8000, 11025, 48000];
        let limits = t.pick(vec![1u64, 3, 4], vec![1, 2, 3, 4, 5, 18]);
        let parts = t.pick(vec![1u32, 2, 5, 125], vec![1, 2, 3, 4, 5, 8, 10, 25, 125]);
        let extra = [0usize, 1, 1152, 5000];
        let modes = [(None, false), (Some(1), false), (Some(2), true), (Some(4), false)];
        let rad = [rates.len() as u64, limits.len() as u64, parts.len() as u64 + 1, extra.len() as u64, modes.len() as u64];
        out.push(Family::new(
            "packet-ends",
            "rate x limit x packets that end exactly at the limit (the whole second divided, and WAV) x extra frames x chunking and overlap",
            product(&rad),
            move |i, ex| {
                let d = digits(i, &rad);
                let rate = rates[d[0]];
                let kind = match d[2] {
                    0 => Wav16,
                    k if rate % parts[k - 1] != 0 || rate / parts[k - 1] < 16 => return Ok(()),
                    k if i % 3 == 0 => Mkv((rate / parts[k - 1]) as usize),
                    k => Flac((rate / parts[k - 1]) as usize),
                };
                let ch = 1 + (i % 2) as u32;
                if !kind.takes(rate, ch) {
                    return Ok(());
                }
                let o = Opt {
                    length: Some(limits[d[1]]),
                    chunk: modes[d[4]].0,
                    overlap: modes[d[4]].1,
                    raw: true,
                    format: [Some("json"), None][(i % 2) as usize],
                    ..Opt::default()
                };
                let frames = (limits[d[1]] * rate as u64) as usize + extra[d[3]];
                run_and_check(&o, kind, rate, ch, kind.frames(frames), 73, ex)
            },
        ));
    }
    {
        // The default limit of 120 s and other long limits.
        let rates = [1001u32, 8000, 11025];
        let limits = [None, Some(0), Some(119), Some(120), Some(121), Some(130)];
        let ends = [-1i64, 0, 1, 1500, 20_000];
        let kinds = [Wav16, Flac(65535)];
        let rad = [3, 6, 5, 2, 2];
        out.push(Family::new(
            "two-minutes",
            "rate x limit around the default x file length around 120 s x packet size x chunking",
            product(&rad),
            move |i, ex| {
                let d = digits(i, &rad);
                let o = Opt {
                    length: limits[d[1]],
                    chunk: [None, Some(50)][d[4]],
                    raw: true,
                    format: Some("json"),
                    ..Opt::default()
                };
                let frames = 120 * rates[d[0]] as i64 + ends[d[2]];
                run_and_check(&o, kinds[d[3]], rates[d[0]], 1, frames as usize, 72, ex)
            },
        ));
    }
    if t == Tier::Thorough {
        // Every cut position of one packet.
        out.push(Family::new(
            "every-length",
            "every file length within two packets of a 3 s limit",
            2 * 2304,
            move |i, ex| {
                let o = Opt { length: Some(3), raw: true, format: Some("json"), algorithm: Some(4), ..Opt::default() };
                let kind = [Wav16, Flac(1152)][(i % 2) as usize];
                run_and_check(&o, kind, NATIVE, 1, 3 * 11025 - 1152 + (i / 2) as usize, 73, ex)
            },
        ));
    }
    out
}

// ---------------------------------------------------------------- C21

/// Where a crash happened, when that is inside a dependency: `panic:<crate>/src/<file>:<line>`.
fn panic_site(msg: &str) -> Option<String> {
    let at = msg.split("panicked at ").nth(1)?;
    let at = at.split_whitespace().next()?.trim_end_matches(':');
    let at = at.split("/registry/src/").nth(1)?;
    let at = at.split_once('/')?.1;
    Some(format!("panic:{}", at.rsplit_once(':')?.0))
}

/// Runs a tool; a crash inside a dependency that is a listed known finding gives None.
pub(crate) fn run_tolerant(name: &str, args: &[&str], ex: &mut Exec) -> Result<Option<Out>, Fail> {
    ex.steps(1);
    match run(name, args) {
        Ok(o) => Ok(Some(o)),
        Err(e) => match panic_site(&e.msg) {
            Some(k) => {
                ex.finding(&k, e.msg).map(|_| None)
            }
            None => Err(e),
        },
    }
}

/// Runs fpcalc (raw JSON) and compare on a damaged file. Returns fpcalc's row if it printed one.
pub(crate) fn survive(bytes: &[u8], ext: &str, ex: &mut Exec, opts: &Opt) -> Result<Option<Vec<Row>>, Fail> {
    let f = TempFile::new(bytes, ext);
    let mut args = opts.args();
    args.push(f.path().into());
    let a: Vec<&str> = args.iter().map(|x| x.as_str()).collect();
    let Some(o) = run_tolerant("fpcalc", &a, ex)? else {
        run_tolerant("compare", &[f.path(), f.path()], ex)?;
        return Ok(None);
    };
    let rows = if o.code == Some(0) {
        Some(parse(opts, &o.stdout).map_err(|e| Fail::from(format!("fpcalc succeeded with unreadable output: {e}")))?)
    } else {
        ensure!(
            !o.stderr.trim().is_empty(),
            "fpcalc failed with status {:?} but reported nothing",
            o.code
        );
        None
    };
    let Some(c) = run_tolerant("compare", &[f.path(), f.path()], ex)? else {
        return Ok(rows);
    };
    if c.code != Some(0) {
        ensure!(
            !c.stderr.trim().is_empty(),
            "compare failed with status {:?} but reported nothing",
            c.code
        );
    } else {
        ensure!(
            c.stdout.lines().count() >= 2,
            "compare succeeded without a table: {:?}",
            c.stdout
        );
    }
    ex.outcome((o.code, c.code, o.stdout.len(), c.stdout.len()));
    Ok(rows)
}

pub fn c21(t: Tier) -> Vec<Family> {
    let mut out = vec![];
    let json_raw = || Opt { raw: true, format: Some("json"), algorithm: Some(4), ..Opt::default() };
    // Truncation.
    let subjects: Vec<(Kind, u32, u32, usize)> = vec![
        (Wav16, 11025, 1, 21_000),
        (Wav16, 44100, 2, 90_000),
        (Aiff, 11025, 2, 21_000),
        (Flac(1152), 11025, 1, 21_000),
        (Flac(4096), 11025, 2, 21_000),
        (Caf, 11025, 1, 21_000),
        (WavF32, 11025, 1, 21_000),
        (Wav24, 8000, 1, 21_000),
        (Mkv(1152), 11025, 2, 21_000),
        (Mp3, 11025, 1, 20_736),
        (Mp3, 44100, 2, 92_160),
    ];
    for (kind, rate, ch, frames) in subjects.clone() {
        let s = source(kind, frames, ch, 81);
        let bytes = encode(kind, rate, ch, &s);
        let head = 200.min(bytes.len());
        let tail = t.pick(160, 3000);
        let step = t.pick(997, 61);
        let mut cuts: Vec<usize> = (0..head).collect();
        cuts.extend((head..bytes.len()).step_by(step));
        cuts.extend(bytes.len().saturating_sub(tail)..bytes.len());
        // Around packet boundaries.
        let fb = bytes.len() / frames;
        for k in 1..=3 {
            for d in -8i64..=8 {
                cuts.push((44 + (kind.packet() * k * fb) as i64 + d).clamp(0, bytes.len() as i64 - 1) as usize);
            }
        }
        cuts.sort();
        cuts.dedup();
        let n = cuts.len() as u64;
        let ends = packet_ends(kind, rate, ch, &s, &bytes);
        let o = json_raw();
        out.push(Family::new(
            format!("truncated-{kind:?}-{rate}-{ch}"),
            "the file cut off after every byte of its header, every byte of its end, around packet boundaries and at a stride in between",
            n,
            move |i, ex| {
                let cut = cuts[i as usize];
                ex.note(|| format!("{kind:?} cut after byte {cut} of {}", bytes.len()));
                ex.state((kind, cut));
                let rows = survive(&bytes[..cut], kind.ext(), ex, &o).map_err(|e| Fail {
                    msg: format!("{kind:?} cut after byte {cut} of {}: {}", bytes.len(), e.msg),
                    key: e.key,
                })?;
                let header = bytes.len() - match kind { Wav16 | Aiff | Caf => 2 * s.len(), Wav24 => 3 * s.len(), WavF32 => 4 * s.len(), _ => 0 };
                let pcm = !matches!(kind, Flac(_) | Mkv(_) | Mp3);
                let whole = if pcm {
                    cut.saturating_sub(header) / ((bytes.len() - header) / frames)
                } else {
                    (ends.iter().filter(|&&e| e <= cut).count() * kind.packet()).min(frames)
                };
                match rows {
                    None => {
                        // An error is the honest answer while there is no complete audio packet.
                        // (The CAF reader refuses files shorter than they claim to be.)
                        if pcm && kind != Caf {
                            ensure!(
                                whole < frames.min(1152),
                                "{kind:?} cut after byte {cut}: {whole} intact frames remain but fpcalc failed"
                            );
                        }
                    }
                    Some(r) => {
                        ensure!(r.len() <= 1, "{} results for a truncated file", r.len());
                        // All packets that are complete in the file must be used.
                        // (the FLAC reader hands a frame out only once it has seen what follows it).
                        let must = whole.saturating_sub(kind.packet() * if pcm { 1 } else { 3 });
                        if let Some(r) = r.first() {
                            let d = r.duration.unwrap();
                            let got = d * rate as f64;
                            let slack = 0.006 * rate as f64;
                            ensure!(
                                got <= whole as f64 + slack + if pcm { 0.0 } else { kind.packet() as f64 } && got >= must as f64 - slack,
                                "{kind:?} cut after byte {cut}: duration {d} s = {got:.0} frames, but {whole} frames remain"
                            );
                            // The fingerprint is a prefix computation: try every frame count that prints
                            // as this duration and is a packet boundary or the cut itself.
                            let items = r.items.as_ref().unwrap();
                            let c = ch as usize;
                            let mut cand: Vec<usize> = (0..=2 * (whole / kind.packet() + 1)).map(|k| k * kind.packet() / 2).collect();
                            cand.push(whole);
                            cand.retain(|&m| m <= frames && (m as f64 - got).abs() <= slack);
                            ensure!(
                                cand.iter().any(|&m| fp(&o.cfg().build(), rate, ch, &s[..m * c]) == *items),
                                "{kind:?} cut after byte {cut}: the fingerprint is not that of the remaining audio ({} items, duration {d})",
                                items.len()
                            );
                        } else {
                            ensure!(must == 0, "{kind:?} cut after byte {cut}: nothing printed although {whole} frames remain");
                        }
                    }
                }
                ex.trace();
                Ok(())
            },
        ));
    }
    // Single header bytes altered.
    for (kind, rate, ch, frames, header) in [
        (Wav16, 11025u32, 1u32, 6_000usize, 44usize),
        (Aiff, 11025, 2, 6_000, 54),
        (Flac(4096), 11025, 2, 6_000, 60),
        (Caf, 11025, 1, 6_000, 68),
        (WavF32, 11025, 2, 3_000, 44),
        (Mkv(1000), 11025, 1, 6_000, 360),
        (Mkv(1000), 11025, 2, 6_000, 360),
        (Mp3, 11025, 1, 5_760, 230),
        (Mp3, 44100, 2, 11_520, 460),
    ] {
        let s = source(kind, frames, ch, 82);
        let bytes = encode(kind, rate, ch, &s);
        let values: Vec<u8> = match t {
            Tier::Thorough => (0..=255).collect(),
            Tier::Quick => (0..8).map(|b| 1u8 << b).chain([0xff, 0x7f, 0x80 ^ 0xff]).collect(),
        };
        // Quick: single-bit flips and two xor masks; thorough: every value.
        let nv = values.len() as u64;
        let o = json_raw();
        out.push(Family::new(
            format!("header-{kind:?}-{ch}"),
            "every header byte replaced (all single-bit flips in quick, every value in thorough)",
            header as u64 * nv,
            move |i, ex| {
                let (pos, v) = ((i / nv) as usize, values[(i % nv) as usize]);
                let mut b = bytes.clone();
                b[pos] ^= v;
                ex.note(|| format!("{kind:?} byte {pos} ^= {v:#04x}"));
                ex.state((kind, pos, v));
                survive(&b, kind.ext(), ex, &o).map_err(|e| Fail {
                    msg: format!("{kind:?} with byte {pos} ^= {v:#04x}: {}", e.msg),
                    key: e.key,
                })?;
                ex.trace();
                Ok(())
            },
        ));
    }
    // A container that announces another number of channels than the codec has.
    {
        let chans = [1u32, 2, 3, 6];
        let blocks: Vec<usize> = t.pick(vec![1000, 1152, 4608], vec![16, 100, 999, 1000, 1001, 1002, 1152, 4608, 20_000]);
        let files: Vec<usize> = t.pick(vec![24_000, 30_001], vec![1, 500, 24_000, 24_001, 24_002, 24_003, 30_001]);
        let rad = [4, 4, blocks.len() as u64, files.len() as u64];
        let o = json_raw();
        out.push(Family::new(
            "announced-channels",
            "channels announced by the container x channels of the codec x packet size x file length: a correct result or an error",
            product(&rad),
            move |i, ex| {
                let d = digits(i, &rad);
                let (announced, ch, kind, frames) = (chans[d[0]], chans[d[1]], Mkv(blocks[d[2]]), files[d[3]]);
                let s = source(kind, frames, ch, 85);
                let mut b = encode(kind, NATIVE, ch, &s);
                let at = b.windows(3).position(|w| w == [0x9f, 0x81, ch as u8]).expect("Channels element") + 2;
                b[at] = announced as u8;
                let what = format!("{kind:?} of {frames} frames, {announced} channels announced, {ch} in the codec");
                ex.note(|| what.clone());
                ex.state(i);
                let ctx = |m: String| format!("{what}: {m}");
                match survive(&b, kind.ext(), ex, &o).map_err(|e| Fail { msg: ctx(e.msg), key: e.key })? {
                    None => ensure!(announced != ch, "{}", ctx("fpcalc failed".into())),
                    Some(r) => {
                        let want = fp(&o.cfg().build(), NATIVE, ch, &s);
                        ensure!(
                            r.len() == 1 && r[0].items.as_ref() == Some(&want),
                            "{}",
                            ctx(format!("the fingerprint is not that of the audio: {:?}", r.first().map(|r| first_diff(&want, r.items.as_ref().unwrap()))))
                        );
                        ex.outcome(want.len());
                    }
                }
                ex.trace();
                Ok(())
            },
        ));
    }
    // Things that are not audio files.
    {
        let mut v: Vec<(&'static str, Vec<u8>)> = vec![
            ("empty", vec![]),
            ("one byte", vec![0]),
            ("zeros", vec![0; 100_000]),
            ("ones", vec![0xff; 100_000]),
            ("text", b"hello world\n".repeat(5000)),
            ("noise", (0..100_000u64).map(|i| mix(i) as u8).collect()),
            ("riff only", b"RIFF\x00\x00\x00\x00WAVE".to_vec()),
            ("flac magic", b"fLaC".to_vec()),
            ("ogg magic", b"OggS\x00\x02".to_vec()),
            ("id3 only", b"ID3\x04\x00\x00\x00\x00\x00\x00".to_vec()),
            ("mp3 sync", [0xffu8, 0xfb, 0x90, 0x64].repeat(3000)),
        ];
        // A valid file after junk and junk after a valid file.
        let s = source(Wav16, 20_000, 1, 83);
        let w = encode(Wav16, NATIVE, 1, &s);
        v.push(("junk before", [vec![0x55; 1000], w.clone()].concat()));
        v.push(("junk after", [w.clone(), vec![0xAA; 5001]].concat()));
        // No sample at all; rates and channel counts the library refuses.
        v.push(("no frames", encode(Wav16, NATIVE, 1, &[])));
        v.push(("rate 0", encode(Wav16, 0, 1, &s)));
        v.push(("rate 1", encode(Wav16, 1, 1, &s)));
        v.push(("rate 1000", encode(Wav16, 1000, 1, &s)));
        v.push(("rate 1001", encode(Wav16, 1001, 1, &s)));
        v.push(("rate max", encode(Wav16, u32::MAX, 1, &s)));
        v.push(("32 channels", encode(Wav16, NATIVE, 32, &s)));
        v.push(("no channels", {
            let mut b = w.clone();
            b[22] = 0;
            b
        }));
        let exts = [".wav", ".flac", ".mp3", ".ogg", ".mp4", "", ".mkv"];
        let rad = [v.len() as u64, exts.len() as u64];
        let o = json_raw();
        out.push(Family::new(
            "not-audio",
            "files that are not audio or have impossible parameters, under every extension",
            product(&rad),
            move |i, ex| {
                let d = digits(i, &rad);
                let (name, b) = &v[d[0]];
                ex.note(|| format!("{name}{}", exts[d[1]]));
                ex.state(i);
                let r = survive(b, exts[d[1]], ex, &o).map_err(|e| Fail {
                    msg: format!("{name}{}: {}", exts[d[1]], e.msg),
                    key: e.key,
                })?;
                if ["empty", "one byte", "zeros", "text", "rate 0", "rate 1", "rate 1000", "no channels"].contains(name) {
                    ensure!(r.is_none(), "{name}{}: fpcalc succeeded", exts[d[1]]);
                }
                if ["junk after", "rate 1001"].contains(name) {
                    ensure!(
                        r.as_ref().is_some_and(|r| r.len() == 1),
                        "{name}{}: fpcalc did not process the intact audio",
                        exts[d[1]]
                    );
                }
                ex.trace();
                Ok(())
            },
        ));
    }
    // Missing files, directories and wrong argument counts.
    {
        let cases: Vec<(&'static str, Vec<&'static str>)> = vec![
            ("fpcalc", vec!["no-such-file.wav"]),
            ("fpcalc", vec!["."]),
            ("fpcalc", vec![]),
            ("fpcalc", vec!["/dev/null"]),
            ("compare", vec!["no-such-file.wav", "no-such-file.wav"]),
            ("compare", vec![".", "."]),
            ("compare", vec!["/dev/null", "/dev/null"]),
        ];
        out.push(Family::new(
            "missing",
            "missing files, directories and missing arguments are reported",
            cases.len() as u64,
            move |i, ex| {
                let (tool, a) = &cases[i as usize];
                let r = run(tool, a)?;
                ex.steps(1);
                ex.state(i);
                ex.note(|| format!("{tool} {}", a.join(" ")));
                ensure!(
                    r.code != Some(0) && !r.stderr.trim().is_empty(),
                    "{tool} {a:?}: exit {:?}",
                    r.code
                );
                ex.trace();
                Ok(())
            },
        ));
    }
    // Damage inside the audio data: the run ends normally and the audio before the damage counts.
    {
        let kinds = [Flac(1152), Flac(200), Wav16, Flac(4096), Mkv(1152), Mp3];
        let n = t.pick(300u64, 8000);
        let o = json_raw();
        let frames = 60_000usize;
        let rad = [kinds.len() as u64, n, 3];
        out.push(Family::new(
            "data-bytes",
            "one byte inside the audio data altered at every stride position x three alterations x container",
            product(&rad),
            move |i, ex| {
                let d = digits(i, &rad);
                let kind = kinds[d[0]];
                let s = source(kind, kind.frames(frames), 1, 84);
                let mut b = encode(kind, NATIVE, 1, &s);
                let ends = packet_ends(kind, NATIVE, 1, &s, &b);
                let span = b.len() - 68;
                let pos = 68 + (d[1] * span) / n as usize;
                b[pos] ^= [0x01, 0x80, 0xff][d[2]];
                ex.note(|| format!("{kind:?} byte {pos} altered"));
                ex.state((kind, pos, d[2]));
                let ctx = |m: String| format!("{kind:?} with data byte {pos} altered: {m}");
                let rows = survive(&b, kind.ext(), ex, &o).map_err(|e| Fail { msg: ctx(e.msg), key: e.key })?;
                if let Some(r) = rows {
                    ensure!(r.len() <= 1, "{}", ctx(format!("{} results", r.len())));
                    if let Some(r) = r.first() {
                        let cfg = o.cfg();
                        // Frames certainly untouched; the FLAC reader may merge the two blocks around the damage.
                        let first = if kind == Wav16 {
                            (pos - 44) / 2
                        } else {
                            ends.iter().filter(|&&e| e <= pos).count() * kind.packet()
                        };
                        let intact = first.saturating_sub(2 * kind.packet());
                        let whole = fp(&cfg.build(), NATIVE, 1, &s);
                        let k = cfg.m_items(intact);
                        let got = r.items.as_ref().unwrap();
                        ensure!(
                            got.len() >= k && got[..k] == whole[..k] && got.len() <= whole.len(),
                            "{}",
                            ctx(format!("the first {k} items lie before the damage; {}", first_diff(&whole, got)))
                        );
                        if kind == Wav16 {
                            ensure!(got.len() == whole.len(), "{}", ctx("the number of items changed".into()));
                        }
                        ex.outcome(got);
                    }
                }
                ex.trace();
                Ok(())
            },
        ));
    }
    out
}

// ---------------------------------------------------------------- C22

fn show(t: f64) -> String {
    let h = (t * 100.0).round() as u64;
    format!("{}:{:02}:{:02}.{:02}", h / 360_000, h / 6000 % 60, h / 100 % 60, h % 100)
}

/// All acceptable texts of a time (more than one only when it lies next to a rounding boundary).
fn shows(t: f64) -> Vec<String> {
    vec![show((t - 1e-4).max(0.0)), show(t), show(t + 1e-4)]
}

pub(crate) fn check_compare(a: &TempFile, b: &TempFile, fa: &[u32], fb: &[u32], ex: &mut Exec) -> Res {
    let conf = preset(1);
    let want = rusty_chromaprint::match_fingerprints(fa, fb, &conf)
        .map_err(|e| Fail::from(format!("matching failed: {e}")))?;
    let r = run("compare", &[a.path(), b.path()])?;
    ex.steps(1);
    ensure!(r.code == Some(0), "compare failed: {}", r.stderr.trim());
    let mut lines = r.stdout.lines();
    let (h1, h2) = (lines.next().unwrap_or(""), lines.next().unwrap_or(""));
    for w in ["#", "File 1", "File 2", "Duration", "Score"] {
        ensure!(h1.contains(w), "the heading {h1:?} lacks {w}");
    }
    ensure!(h2.chars().all(|c| c == '-' || c == '+'), "bad rule line {h2:?}");
    let rows: Vec<&str> = lines.collect();
    ensure!(
        rows.len() == want.len(),
        "{} rows printed for {} segments: {rows:?}",
        rows.len(),
        want.len()
    );
    let item = 1365.0 / 11025.0;
    for (k, (row, s)) in rows.iter().zip(&want).enumerate() {
        let f: Vec<&str> = row.split('|').map(|x| x.trim()).collect();
        ensure!(f.len() == 5, "row {k} has {} columns: {row:?}", f.len());
        ensure!(f[0] == (k + 1).to_string(), "row {k} is numbered {}", f[0]);
        for (col, off) in [(1, s.offset1), (2, s.offset2)] {
            let (x, y) = f[col]
                .split_once(" -- ")
                .ok_or_else(|| Fail::from(format!("bad interval {:?}", f[col])))?;
            let (st, en) = (off as f64 * item, (off + s.items_count) as f64 * item);
            ensure!(shows(st).iter().any(|t| t == x), "row {k}: file {col} starts at {x}, expected {}", show(st));
            // f32 arithmetic on long files may move the last digit.
            let tol = en * 3e-7 + 1e-4;
            ensure!(
                [en - tol, en, en + tol].iter().any(|&t| show(t) == y),
                "row {k}: file {col} ends at {y}, expected {}",
                show(en)
            );
        }
        let du = s.items_count as f64 * item;
        let tol = du * 3e-7 + 1e-4;
        ensure!(
            [du - tol, du, du + tol].iter().any(|&t| show(t) == f[3]),
            "row {k}: duration {}, expected {}",
            f[3],
            show(du)
        );
        let sc: f64 = f[4].parse().map_err(|_| Fail::from(format!("bad score {:?}", f[4])))?;
        ensure!(
            (sc - s.score).abs() <= 0.00501 && f[4].split_once('.').is_some_and(|x| x.1.len() == 2),
            "row {k}: score {}, expected {}",
            f[4],
            s.score
        );
        ex.outcome(row.to_string());
    }
    ex.trace();
    Ok(())
}

pub fn c22(t: Tier) -> Vec<Family> {
    let mut out = vec![];
    // Ways to build two files from pieces of melodies A, B, C and silence.
    let scripts: Vec<(&'static str, &'static str)> = {
        // upper case: melody piece of 6 s; digit: melody piece of that many seconds of X; '_': 3 s of silence
        let mut v = vec![
            ("A", "A"),
            ("A", "B"),
            ("AB", "A"),
            ("AB", "B"),
            ("A", "AB"),
            ("BA", "CA"),
            ("AB", "AC"),
            ("ABC", "AXC"),
            ("ABAC", "AB"),
            ("_A", "A"),
            ("A_", "A"),
            ("_", "_"),
            ("_", "A"),
            ("", "A"),
            ("A", ""),
            ("", ""),
            ("ABCDEF", "CDE"),
            ("AXBXC", "AYBYC"),
            ("AXBXCXD", "AYBYCYD"),
            ("AAAA", "AA"),
            ("A_B", "A_C"),
            ("ABCD", "XYCD"),
        ];
        if t == Tier::Thorough {
            v.extend([
                ("ABCDEFGH", "ABXXEFGH"),
                ("ABCDEFGHIJ", "XXCDYYGHZZ"),
                ("ABABAB", "BABABA"),
                ("A__B", "A_B"),
                ("ABCDEFGHIJKLMNOP", "ABCDEFGHIJKLMNOP"),
            ]);
        }
        v
    };
    fn build(script: &str, rate: u32) -> Vec<i16> {
        let mut v = vec![];
        for c in script.chars() {
            match c {
                '_' => v.extend(std::iter::repeat_n(0i16, 3 * rate as usize)),
                c => v.extend(melody(c as u32 * 77 + 5, 6.0, rate as f64, 9000.0)),
            }
        }
        v
    }
    let rates: Vec<(u32, u32)> = t.pick(
        vec![(11025, 11025), (8000, 11025), (22050, 22050)],
        vec![(11025, 11025), (8000, 11025), (22050, 22050), (44100, 48000), (16000, 16000), (44100, 44100)],
    );
    let kinds = [(Wav16, Wav16), (Flac(4096), Wav16), (Aiff, Flac(1000))];
    let rad = [scripts.len() as u64, rates.len() as u64, kinds.len() as u64];
    out.push(Family::new(
        "pairs",
        "pairs of files spliced from melodies and silence x rates x containers: the table equals the library's segments for the library's fingerprints",
        product(&rad),
        move |i, ex| {
            let d = digits(i, &rad);
            let (sa, sb) = scripts[d[0]];
            let (ra, rb) = rates[d[1]];
            let (mut ka, mut kb) = kinds[d[2]];
            if sa.is_empty() {
                ka = Wav16;
            }
            if sb.is_empty() {
                kb = Wav16;
            }
            let (a, b) = (build(sa, ra), build(sb, rb));
            ex.note(|| format!("compare {sa:?} at {ra} Hz ({ka:?}) with {sb:?} at {rb} Hz ({kb:?})"));
            ex.state((sa, sb, ra, rb, d[2]));
            let fa = TempFile::new(&encode(ka, ra, 1, &a), ka.ext());
            let fb = TempFile::new(&encode(kb, rb, 1, &b), kb.ext());
            let p = preset(1);
            check_compare(&fa, &fb, &fp(&p, ra, 1, &a), &fp(&p, rb, 1, &b), ex).map_err(|e| Fail {
                msg: format!("compare {sa:?} at {ra} Hz ({ka:?}) with {sb:?} at {rb} Hz ({kb:?}): {}", e.msg),
                key: e.key,
            })
        },
    ));
    // Containers and channel counts.
    {
        let kinds = [Wav16, Wav8, Wav24, Wav32, WavF32, Aiff, Caf, Flac(16), Flac(4608), FlacVar(8), FlacVar(34), Mkv(3000), Mp3];
        let chans = [1u32, 2, 6];
        let rad = [kinds.len() as u64, 3, 2];
        out.push(Family::new(
            "containers",
            "container x channels x offset between the files",
            product(&rad),
            move |i, ex| {
                let d = digits(i, &rad);
                let (k, ch) = (kinds[d[0]], chans[d[1]]);
                if !k.takes(NATIVE, ch) {
                    return Ok(());
                }
                let n = k.frames(90_000);
                let a = source(k, n, ch, 91);
                let skip = [0usize, k.frames(1365 * 12 + 300)][d[2]] * ch as usize;
                let b = a[skip..].to_vec();
                ex.note(|| format!("{k:?} {ch} ch, second file starts {skip} samples later"));
                ex.state((k, ch, skip));
                let fa = TempFile::new(&encode(k, NATIVE, ch, &a), k.ext());
                let fb = TempFile::new(&encode(k, NATIVE, ch, &b), k.ext());
                let p = preset(1);
                check_compare(&fa, &fb, &fp(&p, NATIVE, ch, &a), &fp(&p, NATIVE, ch, &b), ex)
            },
        ));
    }
    // Every start offset of the second file: all digits of the printed times.
    {
        let n = t.pick(60u64, 500);
        out.push(Family::new(
            "offsets",
            "the second file is the first from every item offset on, and the other way round",
            n * 2,
            move |i, ex| {
                let secs = (i / 2) as f64 * 1365.0 / 11025.0 * 2.0;
                let a = melody(31, 15.0 + secs, 11025.0, 9000.0);
                let b = a[((i / 2) as usize * 2730).min(a.len())..].to_vec();
                let (a, b) = if i % 2 == 0 { (a, b) } else { (b, a) };
                ex.note(|| format!("offset {} items, swapped {}", i / 2 * 2, i % 2));
                ex.state(i);
                let fa = TempFile::new(&encode(Wav16, NATIVE, 1, &a), ".wav");
                let fb = TempFile::new(&encode(Wav16, NATIVE, 1, &b), ".wav");
                let p = preset(1);
                check_compare(&fa, &fb, &fp(&p, NATIVE, 1, &a), &fp(&p, NATIVE, 1, &b), ex)
            },
        ));
    }
    // More than an hour.
    {
        let secs = t.pick(vec![3700.0], vec![59.0, 60.0, 61.0, 599.0, 601.0, 3599.0, 3601.0, 3700.0, 7300.0]);
        out.push(Family::new(
            "long",
            "a short piece found at the end of a file of more than an hour",
            secs.len() as u64 * 2,
            move |i, ex| {
                let total = secs[(i / 2) as usize];
                let rate = 2000u32;
                let mut a = audio((total * rate as f64) as usize, 92);
                // The tail is the needle.
                let needle = melody(5, 20.0, rate as f64, 12000.0);
                a.extend(&needle);
                let (a, b) = if i % 2 == 0 { (a, needle) } else { (needle, a) };
                ex.note(|| format!("needle after {total} s, swapped {}", i % 2));
                ex.state(i);
                let fa = TempFile::new(&encode(Wav16, rate, 1, &a), ".wav");
                let fb = TempFile::new(&encode(Wav16, rate, 1, &b), ".wav");
                let p = preset(1);
                check_compare(&fa, &fb, &fp(&p, rate, 1, &a), &fp(&p, rate, 1, &b), ex)
            },
        ));
    }
    out
}
