//! Properties of fingerprints as data: C10 (compression), C11-C13 (matching), C14 (limits), C15 (times),
//! C23 (excerpts).

use crate::engine::*;
use crate::ensure;
use crate::util::*;
use rusty_chromaprint::{match_fingerprints, Configuration, FingerprintCompressor, MatchError, Segment};
use std::collections::{BTreeSet, HashMap};
use std::sync::{Arc, Mutex};

// ---------------------------------------------------------------------------------------------- C10

/// Standard encoding, straight from its definition.
fn encode(id: u8, items: &[u32]) -> Vec<u8> {
    let mut normal: Vec<u8> = vec![];
    let mut over: Vec<u8> = vec![];
    let mut prev = 0u32;
    for &x in items {
        let d = x ^ prev;
        prev = x;
        let mut last = 0;
        for bit in 1..=32u8 {
            if d >> (bit - 1) & 1 == 1 {
                let gap = bit - last;
                last = bit;
                if gap < 7 {
                    normal.push(gap);
                } else {
                    normal.push(7);
                    over.push(gap - 7);
                }
            }
        }
        normal.push(0);
    }
    let n = items.len();
    let mut out = vec![id, (n >> 16) as u8, (n >> 8) as u8, n as u8];
    let pack = |vals: &[u8], w: u32, out: &mut Vec<u8>| {
        let (mut acc, mut have) = (0u32, 0u32);
        for &v in vals {
            acc |= (v as u32) << have;
            have += w;
            while have >= 8 {
                out.push(acc as u8);
                acc >>= 8;
                have -= 8;
            }
        }
        if have > 0 {
            out.push(acc as u8);
        }
    };
    pack(&normal, 3, &mut out);
    pack(&over, 5, &mut out);
    out
}

/// Standard decoder, written against the format and not against `encode`.
fn decode(data: &[u8]) -> Result<(u8, Vec<u32>), String> {
    if data.len() < 4 {
        return Err("shorter than its header".into());
    }
    let n = (data[1] as usize) << 16 | (data[2] as usize) << 8 | data[3] as usize;
    let body = &data[4..];
    let bits = |from: usize, w: usize| -> Option<u8> {
        let mut v = 0u8;
        for k in 0..w {
            let p = from + k;
            let byte = *body.get(p / 8)?;
            v |= (byte >> (p % 8) & 1) << k;
        }
        Some(v)
    };
    let mut pos = 0;
    let mut gaps: Vec<Vec<u8>> = vec![];
    while gaps.len() < n {
        let mut g = vec![];
        loop {
            let v = bits(pos, 3).ok_or("ends inside the 3-bit codes")?;
            pos += 3;
            if v == 0 {
                break;
            }
            g.push(v);
        }
        gaps.push(g);
    }
    pos = pos.div_ceil(8) * 8;
    let mut items = vec![];
    let mut prev = 0u32;
    for g in gaps {
        let mut d = 0u32;
        let mut last = 0u32;
        for v in g {
            let mut gap = v as u32;
            if v == 7 {
                gap += bits(pos, 5).ok_or("ends inside the 5-bit codes")? as u32;
                pos += 5;
            }
            last += gap;
            if last > 32 {
                return Err(format!("bit number {last}"));
            }
            d |= 1 << (last - 1);
        }
        prev ^= d;
        items.push(prev);
    }
    if body.len() != pos.div_ceil(8) {
        return Err(format!("{} bytes after the last code", body.len() as i64 - pos.div_ceil(8) as i64));
    }
    Ok((data[0], items))
}

fn compress_case(id: u8, items: &[u32], ex: &mut Exec) -> Res {
    let conf = preset(2).with_id(id);
    let got = FingerprintCompressor::from(&conf).compress(items);
    ex.steps(1);
    ex.trace();
    let show = || format!("{} items {:08x?}, id {id}", items.len(), &items[..items.len().min(6)]);
    let want = encode(id, items);
    if got != want {
        let at = got.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
        ensure!(false, "{}: compressed to {} bytes, the standard form has {}; first difference at byte {at}", show(), got.len(), want.len());
    }
    match decode(&got) {
        Ok((i, v)) => ensure!(i == id && v == items, "{}: a standard decoder gets id {i} and {} items", show(), v.len()),
        Err(e) => ensure!(false, "{}: a standard decoder fails: {e}", show()),
    }
    Ok(())
}

pub fn c10(t: Tier) -> Vec<Family> {
    let mut fams = vec![];
    fams.push(Family::new("lengths", "every length 0..=4200 (all phases of the 3-bit and 5-bit packing) x 3 kinds of content", 4201 * 3, |i, ex| {
        let n = (i / 3) as usize;
        let kind = i % 3;
        let items: Vec<u32> = (0..n)
            .map(|k| match kind {
                0 => mix(k as u64) as u32,
                1 => 0x8000_0000u32.rotate_right((k / 3) as u32),
                _ => (mix(k as u64 / 5) as u32) & (mix(k as u64) as u32 | 0xFF),
            })
            .collect();
        ex.note(|| format!("{n} items of kind {kind}"));
        ex.state((n, kind));
        ex.outcome((n, kind));
        compress_case((n * 7) as u8, &items, ex)
    }));
    fams.push(Family::new("few-bits", "every item with up to three set bits, alone, after its complement, repeated and before zero", 5489 * 4, |i, ex| {
        let j = i / 4;
        // Index into all subsets of at most three bits.
        let mut v = 0u32;
        let mut left = j;
        'o: for a in 0..=32u64 {
            for b in a..=32 {
                for c in b..=32 {
                    if (a == b && a != 32) || (b == c && b != 32) {
                        continue;
                    }
                    if left == 0 {
                        for x in [a, b, c] {
                            if x < 32 {
                                v |= 1 << x;
                            }
                        }
                        break 'o;
                    }
                    left -= 1;
                }
            }
        }
        let items = match i % 4 {
            0 => vec![v],
            1 => vec![!v, v],
            2 => vec![v, v, v],
            _ => vec![v, 0, v ^ 1],
        };
        ex.note(|| format!("items {items:08x?}"));
        ex.state(v);
        ex.outcome(v);
        compress_case(1, &items, ex)
    }));
    // Words over item deltas chosen to reach every code and every packing phase.
    {
        let deltas: [u32; 10] = [0, 1, 0x40, 0x80, 0x8000_0000, 0xFFFF_FFFF, 0x8000_0040, 0x0102_0408, 0x4000_0001, 0x5555_5555];
        let depth = t.pick(6, 7);
        let n = words_upto(10, depth);
        fams.push(Family::new(
            "delta-words",
            format!("all words of up to {depth} items over the differences {deltas:08x?}"),
            n,
            move |i, ex| {
                let mut x = 0;
                let items: Vec<u32> = word(i, 10, depth).iter().map(|&k| { x ^= deltas[k]; x }).collect();
                ex.note(|| format!("items {items:08x?}"));
                ex.state(&items);
                ex.outcome(&items);
                compress_case((i % 251) as u8, &items, ex)
            },
        ));
    }
    fams.push(Family::new("ids", "all 256 configuration IDs x 4 fingerprints, and each preset's own ID", 256 * 4 + 5, |i, ex| {
        if i >= 1024 {
            let p = (i - 1024) as u8 + 1;
            let items = [0x1234_5678, 0x1234_5679];
            ex.note(|| format!("preset {p}"));
            let got = FingerprintCompressor::from(&preset(p)).compress(&items);
            ex.steps(1);
            ensure!(got == encode(p - 1, &items), "preset_test{p}() compresses to {got:02x?}");
            return Ok(());
        }
        let items: Vec<u32> = (0..[0usize, 1, 2, 300][(i % 4) as usize]).map(|k| mix(k as u64 + 9) as u32).collect();
        ex.note(|| format!("id {} {} items", i / 4, items.len()));
        ex.state(i);
        ex.outcome(i / 4);
        compress_case((i / 4) as u8, &items, ex)
    }));
    {
        let mut lens: Vec<usize> = vec![4095, 4096, 32767, 32768, 65534, 65535, 65536, 65537, 65791, 65792, 131_071, 131_072, 1 << 20, (1 << 20) + 255];
        if t == Tier::Thorough {
            lens.extend([(1 << 22) + 77, (1 << 23) - 1, 1 << 23, (1 << 24) - 1]);
        }
        fams.push(Family::new(
            "long",
            format!("lengths {lens:?} (up to the 24-bit limit in the thorough tier) x 2 kinds of content"),
            lens.len() as u64 * 2,
            move |i, ex| {
                let n = lens[i as usize / 2];
                let kind = i % 2;
                let items: Vec<u32> = (0..n).map(|k| if kind == 0 { (k / 1000) as u32 } else { ((k % 3) as u32) << 29 }).collect();
                ex.note(|| format!("{n} items of kind {kind}"));
                ex.state(i);
                ex.outcome(i);
                compress_case(3, &items, ex)
            },
        ));
    }
    // All item values.
    {
        let chunk = 1u64 << 16;
        let n = t.pick(1u64 << 9, 1 << 16);
        fams.push(Family::new(
            "all-values",
            t.pick(
                "2^25 32-bit items (512 runs of 65536: every value of the high and of the low half next to fixed halves, in strides), each as a single-item fingerprint",
                "every 32-bit value as a single-item fingerprint",
            ),
            n,
            move |i, ex| {
                let conf = preset(1);
                let comp = FingerprintCompressor::from(&conf);
                ex.note(|| format!("values {i:04x}0000.. "));
                let hi = if n == 1 << 16 { i } else { (i * 128 + i / 4) & 0xFFFF };
                let want_state = |v: u32| v.count_ones();
                for lo in 0..chunk {
                    let v = ((hi << 16) | lo) as u32;
                    let v = if n == 1 << 16 || i % 2 == 0 { v } else { v.rotate_left(16) };
                    let got = comp.compress(&[v]);
                    let want = encode(0, &[v]);
                    if got != want {
                        ensure!(false, "item {v:08x} compresses to {got:02x?}, the standard form is {want:02x?}");
                    }
                    if lo % 4096 == 0 {
                        ex.state(want_state(v));
                        match decode(&got) {
                            Ok((0, d)) if d == [v] => {}
                            other => ensure!(false, "item {v:08x}: a standard decoder gets {other:?}"),
                        }
                    }
                }
                ex.steps(chunk);
                ex.trace();
                ex.outcome(i);
                Ok(())
            },
        ));
    }
    fams
}

// ---------------------------------------------------------------------------------------- reference matcher

/// A reported piece: offsets, length and the exact sum of differing bits.
type Piece = (usize, usize, usize, u64);

/// Agreeing pairs per alignment (first offset minus second offset), best count and the alignments having it.
fn alignments(a: &[u32], b: &[u32]) -> (u64, Vec<i64>) {
    let mut at: HashMap<u32, Vec<usize>> = HashMap::new();
    for (j, y) in b.iter().enumerate() {
        at.entry(y >> 20).or_default().push(j);
    }
    let mut count: HashMap<i64, u64> = HashMap::new();
    for (i, x) in a.iter().enumerate() {
        if let Some(js) = at.get(&(x >> 20)) {
            for &j in js {
                *count.entry(i as i64 - j as i64).or_default() += 1;
            }
        }
    }
    let best = count.values().copied().max().unwrap_or(0);
    let mut v: Vec<i64> = count.iter().filter(|(_, c)| **c == best).map(|(d, _)| *d).collect();
    v.sort();
    (best, v)
}

/// Sum of the Gaussian-smoothed curve in units of 1/3825 (three box filters of widths 15, 15 and 17 over the
/// curve mirrored at both ends, which is the approximation of a Gaussian with sigma 8 by three boxes).
fn smooth(x: &[u64]) -> Vec<i64> {
    let n = x.len() as i64;
    let mut v: Vec<i64> = x.iter().map(|&q| q as i64).collect();
    for w in [15i64, 15, 17] {
        v = (0..n)
            .map(|i| {
                (-(w / 2)..=w / 2)
                    .map(|k| {
                        let p = (i + k).rem_euclid(2 * n);
                        v[if p < n { p } else { 2 * n - 1 - p } as usize]
                    })
                    .sum()
            })
            .collect();
    }
    v
}

/// All results the definition allows for one alignment (several only when exact ties make floating-point
/// comparisons undetermined); None when there are too many to list.
fn pieces(a: &[u32], b: &[u32], diff: i64) -> Option<BTreeSet<Vec<Piece>>> {
    let (o1, o2) = (diff.max(0) as usize, (-diff).max(0) as usize);
    let n = (a.len() - o1).min(b.len() - o2);
    let bits: Vec<u64> = (0..n).map(|i| (a[o1 + i] ^ b[o2 + i]).count_ones() as u64).collect();
    let s = smooth(&bits);
    // Twice the gradient, absolute.
    let g: Vec<i64> = (0..n)
        .map(|i| match (i, n) {
            (_, 1) => 0,
            (0, _) => 2 * (s[1] - s[0]),
            (i, n) if i + 1 == n => 2 * (s[n - 1] - s[n - 2]),
            (i, _) => s[i + 1] - s[i - 1],
        })
        .map(|v| v.abs())
        .collect();
    // Positions that are peaks, certainly or only if a tie goes their way.
    let mut maybe: Vec<(usize, bool)> = vec![];
    for i in 1..n.saturating_sub(1) {
        // 0.15 * 3825 * 2 = 1147.5
        if 2 * g[i] > 2295 && g[i] >= g[i - 1] && g[i] >= g[i + 1] {
            maybe.push((i, g[i] > g[i - 1] && g[i] > g[i + 1]));
        }
    }
    let mut cutsets: BTreeSet<Vec<usize>> = BTreeSet::from([vec![]]);
    for (i, certain) in maybe {
        let mut next = BTreeSet::new();
        for c in cutsets {
            let adjacent = c.last().is_some_and(|&l: &usize| l + 1 >= i);
            if adjacent {
                next.insert(c);
                continue;
            }
            let mut d = c.clone();
            d.push(i);
            next.insert(d);
            if !certain {
                next.insert(c);
            }
        }
        if next.len() > 3000 {
            return None;
        }
        cutsets = next;
    }
    let mut out = BTreeSet::new();
    for mut cuts in cutsets {
        // A plateau top must yield a peak: with a tie g[i] == g[i+1] at least one of the two is taken.
        // (The alternative where neither is taken is possible in floating point only when both compare
        // smaller, which cannot happen; it is dropped here.)
        let dropped = (1..n.saturating_sub(2)).any(|i| {
            let top = 2 * g[i] > 2295 && g[i] == g[i + 1] && g[i] > g[i - 1] && g[i + 1] > g[i + 2];
            top && !cuts.iter().any(|&c| c == i || c == i + 1 || c + 1 == i)
        });
        if dropped {
            continue;
        }
        cuts.push(n);
        // Pieces, then merging (with branches when a score difference is exactly 0.7).
        let mut results: Vec<Vec<Piece>> = vec![vec![]];
        let mut begin = 0;
        for end in cuts {
            let d = end - begin;
            let sum: u64 = bits[begin..end].iter().sum();
            if sum < 10 * d as u64 {
                let mut next = vec![];
                for r in results {
                    let p: Piece = (o1 + begin, o2 + begin, d, sum);
                    let mut keep = true;
                    if let Some(&(x, y, len, total)) = r.last() {
                        // |total/len - sum/d| compared with 7/10
                        let lhs = (total as i128 * d as i128 - sum as i128 * len as i128).abs() * 10;
                        let rhs = 7 * len as i128 * d as i128;
                        if x + len == p.0 && y + len == p.1 && lhs <= rhs {
                            let mut m = r.clone();
                            *m.last_mut().unwrap() = (x, y, len + d, total + sum);
                            next.push(m);
                            keep = lhs == rhs;
                        }
                    }
                    if keep {
                        let mut m = r;
                        m.push(p);
                        next.push(m);
                    }
                }
                results = next;
            }
            begin = end;
        }
        out.extend(results);
        if out.len() > 3000 {
            return None;
        }
    }
    Some(out)
}

fn bits_between(a: &[u32], b: &[u32], s: &Segment) -> u64 {
    (0..s.items_count).map(|k| (a[s.offset1 + k] ^ b[s.offset2 + k]).count_ones() as u64).sum()
}

/// C11: what must hold of any answer.
fn well_formed(a: &[u32], b: &[u32], segs: &[Segment]) -> Res {
    let mut prev: Option<&Segment> = None;
    for (k, s) in segs.iter().enumerate() {
        ensure!(s.items_count > 0, "segment {k} is empty: {s:?}");
        let inside = |o: usize, len: usize| o.checked_add(s.items_count).is_some_and(|e| e <= len);
        ensure!(inside(s.offset1, a.len()) && inside(s.offset2, b.len()), "segment {k} {s:?} does not lie within fingerprints of {} and {} items", a.len(), b.len());
        let avg = bits_between(a, b, s) as f64 / s.items_count as f64;
        ensure!((s.score - avg).abs() <= 1e-9 * (1.0 + avg), "segment {k} {s:?} has an average of {avg} differing bits");
        ensure!(s.score < 10.0 + 1e-9, "segment {k} {s:?} has a score that is not below 10");
        if let Some(p) = prev {
            ensure!(p.offset1 + p.items_count <= s.offset1 && p.offset2 + p.items_count <= s.offset2, "segments {p:?} and {s:?} overlap or are out of order");
            ensure!(p.offset1 as i64 - p.offset2 as i64 == s.offset1 as i64 - s.offset2 as i64, "segments {p:?} and {s:?} are on different alignments");
        }
        prev = Some(s);
    }
    Ok(())
}

fn as_pieces(a: &[u32], b: &[u32], segs: &[Segment]) -> Vec<Piece> {
    segs.iter().map(|s| (s.offset1, s.offset2, s.items_count, bits_between(a, b, s))).collect()
}

#[derive(Clone, Copy, PartialEq)]
enum What {
    Formed,
    Exact,
    Swap,
}

fn match_case(what: What, a: &[u32], b: &[u32], ex: &mut Exec, show: &dyn Fn() -> String) -> Res {
    let conf = preset(2);
    let call = |x: &[u32], y: &[u32]| -> Result<Vec<Segment>, Fail> {
        match_fingerprints(x, y, &conf).map_err(|e| Fail::from(format!("{}: refused: {e}", show())))
    };
    let segs = call(a, b)?;
    ex.steps(1);
    ex.trace();
    let wrap = |r: Res| r.map_err(|e| Fail::from(format!("{}: {}", show(), e.msg)));
    match what {
        What::Formed => {
            wrap(well_formed(a, b, &segs))?;
            ex.outcome(as_pieces(a, b, &segs));
            ex.state((a, b));
        }
        What::Exact => {
            wrap(well_formed(a, b, &segs))?;
            let got = as_pieces(a, b, &segs);
            ex.outcome(&got);
            let (best, aligns) = alignments(a, b);
            ex.state((best, aligns.len().min(5), got.len()));
            if best < 2 {
                ensure!(got.is_empty(), "{}: no alignment has two agreeing items, but the result is {segs:?}", show());
                return Ok(());
            }
            let mut free = aligns.len() > 1;
            let mut allowed = BTreeSet::new();
            for d in &aligns {
                match pieces(a, b, *d) {
                    Some(p) => {
                        free |= p.len() > 1;
                        allowed.extend(p);
                    }
                    None => {
                        ex.undecided(1);
                        return Ok(());
                    }
                }
            }
            if free {
                ex.undecided(1);
            }
            ensure!(allowed.contains(&got), "{}: the result (first offset, second offset, items, differing bits) is {got:?}, but the definition gives {:?} ({best} agreeing items at alignment {aligns:?})", show(), allowed.iter().take(4).collect::<Vec<_>>());
        }
        What::Swap => {
            let back = call(b, a)?;
            ex.steps(1);
            let (best, aligns) = alignments(a, b);
            ex.state((best, aligns.len(), a.len(), b.len()));
            let x = as_pieces(a, b, &segs);
            ex.outcome(&x);
            if best >= 2 && aligns.len() > 1 {
                ex.undecided(1);
                return Ok(());
            }
            let mirrored: Vec<Piece> = as_pieces(b, a, &back).iter().map(|p| (p.1, p.0, p.2, p.3)).collect();
            ensure!(x == mirrored, "{}: {segs:?} in one order but {back:?} in the other", show());
            for (s, r) in segs.iter().zip(&back) {
                ensure!((s.score - r.score).abs() < 1e-9, "{}: scores {} and {} in the two orders", show(), s.score, r.score);
            }
        }
    }
    Ok(())
}

/// An item whose upper 12 bits are unique for `k` in a fingerprint.
fn item(k: usize, seed: u64) -> u32 {
    let h = ((k as u64 * 1237 + 11 + seed * 97) % 4093) as u32;
    (h << 20) | (mix(seed ^ (k as u64)) as u32 & 0xFFFFF)
}

/// `level` differing bits in the lower 20 bits of an item (so that the item still agrees).
fn noise(level: u32, k: usize) -> u32 {
    let mut m = 0u32;
    let mut j = mix(k as u64 * 7 + level as u64);
    while m.count_ones() < level {
        m |= 1 << (j % 20);
        j = mix(j);
    }
    m
}

fn match_families(what: What, t: Tier) -> Vec<Family> {
    let mut fams = vec![];
    // All pairs of short fingerprints.
    for (name, letters, depth) in [
        ("short-3", vec![0u32, 0x0000_0FFF, 0xFFF0_0000], t.pick(6u32, 7)),
        ("short-2", vec![0u32, 0xABC0_01FF], t.pick(9, 11)),
        ("short-4", vec![0u32, 0x0010_0000, 0x000F_FFFF, 0xFFFF_FFFF], t.pick(5, 6)),
    ] {
        let k = letters.len() as u64;
        let n = words_upto(k, depth);
        fams.push(Family::new(
            name,
            format!("all pairs of fingerprints of up to {depth} items over {letters:08x?}"),
            n * n,
            move |i, ex| {
                let a: Vec<u32> = word(i % n, k, depth).iter().map(|&x| letters[x]).collect();
                let b: Vec<u32> = word(i / n, k, depth).iter().map(|&x| letters[x]).collect();
                ex.note(|| format!("{a:08x?} against {b:08x?}"));
                match_case(what, &a, &b, ex, &|| format!("{a:08x?} against {b:08x?}"))
            },
        ));
    }
    // Words of similarity blocks along one alignment.
    {
        let levels: Vec<(u32, u32)> = vec![(0, 0), (3, 3), (3, 4), (6, 6), (9, 9), (9, 10), (10, 11), (18, 18)];
        let lens: Vec<usize> = t.pick(vec![12, 23, 40], vec![2, 5, 9, 12, 17, 23, 31, 40, 64]);
        let k = (levels.len() * lens.len()) as u64;
        let depth = t.pick(3, 3);
        let pads: Vec<(usize, usize)> = vec![(0, 0), (17, 0), (0, 30), (5, 5)];
        let n = words_upto(k, depth);
        let np = pads.len() as u64;
        fams.push(Family::new(
            "blocks",
            format!("all words of up to {depth} blocks over (bits differing, alternating between two numbers) {levels:?} x block lengths {lens:?}, x unrelated items {pads:?} in front"),
            n * np,
            move |i, ex| {
                let (p1, p2) = pads[(i % np) as usize];
                let w = word(i / np, k, depth);
                let blocks: Vec<((u32, u32), usize)> = w.iter().map(|&x| (levels[x / lens.len()], lens[x % lens.len()])).collect();
                let mut a: Vec<u32> = (0..p1).map(|k| 0xFFD0_0000 | k as u32).collect();
                let mut b: Vec<u32> = (0..p2).map(|k| 0xFFE0_0000 | (k as u32) << 3).collect();
                let mut pos = 0;
                for (lv, len) in &blocks {
                    for j in 0..*len {
                        let x = item(pos, 3);
                        a.push(x);
                        b.push(x ^ noise(if j % 2 == 0 { lv.0 } else { lv.1 }, pos));
                        pos += 1;
                    }
                }
                ex.note(|| format!("blocks {blocks:?} after {p1} and {p2} unrelated items"));
                match_case(what, &a, &b, ex, &|| format!("blocks {blocks:?} after {p1} and {p2} unrelated items"))
            },
        ));
    }
    // Longer words over few blocks: several segments, merges of three, gaps.
    {
        let levels = [0u32, 2, 8, 14];
        let depth = t.pick(7, 8);
        let n = words_upto(4, depth);
        let lens = [26usize, 60, 9];
        fams.push(Family::new(
            "block-runs",
            format!("all words of up to {depth} blocks over {levels:?} differing bits x block lengths {lens:?}"),
            n * 3,
            move |i, ex| {
                let w = word(i / 3, 4, depth);
                let len = lens[(i % 3) as usize];
                let mut a = vec![];
                let mut b = vec![];
                for (q, &x) in w.iter().enumerate() {
                    // Uneven lengths avoid systematic ties.
                    for _ in 0..len + q % 3 {
                        let v = item(a.len(), 5);
                        b.push(v ^ noise(levels[x], a.len()));
                        a.push(v);
                    }
                }
                ex.note(|| format!("blocks of {len} items with {:?} differing bits", w.iter().map(|&x| levels[x]).collect::<Vec<_>>()));
                match_case(what, &a, &b, ex, &|| format!("blocks of {len} items with {:?} differing bits", w.iter().map(|&x| levels[x]).collect::<Vec<_>>()))
            },
        ));
    }
    // Merge threshold: two-level scores in steps of a fraction of a bit.
    {
        let lens: Vec<usize> = t.pick(vec![30, 50, 65, 80], vec![20, 30, 40, 50, 57, 65, 73, 80, 97, 120, 150]);
        let steps = 40u64;
        let nl = lens.len() as u64;
        fams.push(Family::new(
            "merge-threshold",
            format!("three blocks: first level f bits, a short spike, then f + 0..2 bits in steps of 1/20; f in 0, 4, 8; spikes of 1..6 items of 12, 16 or 20 bits; block lengths {lens:?}"),
            steps * 3 * 18 * nl,
            move |i, ex| {
                let d = digits(i, &[steps, 3, 6, 3, nl]);
                let len = lens[d[4]];
                let f = [0u32, 4, 8][d[1]];
                let mut a = vec![];
                let mut b = vec![];
                let spike = (d[2] + 1, [12u32, 16, 20][d[3]]);
                for (which, n) in [(0usize, len), (1, spike.0), (2, len)] {
                    for j in 0..n {
                        let lv = match which {
                            0 => f,
                            1 => spike.1,
                            // d[0]/20 bits more on average
                            _ => f + ((j + 1) * d[0] / 20 - j * d[0] / 20) as u32,
                        };
                        let v = item(a.len(), 6);
                        b.push(v ^ noise(lv, a.len()));
                        a.push(v);
                    }
                }
                ex.note(|| format!("{len} items with {f} bits, {spike:?}, {len} items with {f}+{}/20 bits", d[0]));
                match_case(what, &a, &b, ex, &|| format!("{len} items with {f} differing bits, a spike of (items, bits) {spike:?}, {len} items with {f}+{}/20 bits", d[0]))
            },
        ));
    }
    // Chains of adjacent pieces: the score that counts is that of everything merged so far.
    {
        let means: Vec<u32> = t.pick(vec![40, 44, 48, 53, 58, 64], vec![40, 43, 46, 49, 53, 58, 64, 72, 80, 95]);
        let k = means.len() as u64;
        let depth = t.pick(5, 6);
        let n = words_upto(k, depth);
        let lens = [(60usize, 60usize), (45, 90), (90, 45)];
        fams.push(Family::new(
            "score-chains",
            format!("all words of up to {depth} adjacent blocks over average differing bits {means:?}/10, each block a rising or falling ramp so that blocks are cut apart, x block lengths {lens:?} in turn"),
            n * 3 * 2,
            move |i, ex| {
                let d = digits(i, &[n, 3, 2]);
                let w = word(d[0] as u64, k, depth);
                let mut a: Vec<u32> = vec![];
                let mut b = vec![];
                // Hundredths of bits still to be given out.
                let mut acc = 0i64;
                for (q, &x) in w.iter().enumerate() {
                    let len = if q % 2 == 0 { lens[d[1]].0 } else { lens[d[1]].1 };
                    for j in 0..len {
                        let ramp = (600 * j / len) as i64 - 300;
                        acc += 10 * means[x] as i64 + if d[2] == 0 { ramp } else { -ramp };
                        let v = item(a.len(), 6);
                        b.push(v ^ noise((acc / 100) as u32, a.len()));
                        a.push(v);
                        acc %= 100;
                    }
                }
                let show = || format!("blocks averaging {:?}/10 bits, {} ramps, lengths {:?}", w.iter().map(|&x| means[x]).collect::<Vec<_>>(), ["rising", "falling"][d[2]], lens[d[1]]);
                ex.note(show);
                match_case(what, &a, &b, ex, &show)
            },
        ));
    }
    // Competing alignments.
    {
        let runs: Vec<usize> = t.pick(vec![0, 1, 2, 3, 4, 7, 13, 20, 33], vec![0, 1, 2, 3, 4, 5, 6, 7, 9, 11, 13, 16, 20, 24, 28, 33]);
        let nr = runs.len() as u64;
        fams.push(Family::new(
            "competing",
            format!("runs of the first fingerprint copied to three places of the second, run lengths from {runs:?}, 0, 1 or 2 noisy items in each, in both placements"),
            nr.pow(3) * 9 * 2,
            move |i, ex| {
                let d = digits(i, &[nr, nr, nr, 9, 2]);
                let a: Vec<u32> = (0..100).map(|k| item(k, 8)).collect();
                let mut b: Vec<u32> = (0..110).map(|k| 0xFFE0_0000 | (k as u32 * 37)).collect();
                let places = [[(0usize, 0usize), (20, 37), (41, 75)], [(60, 2), (30, 40), (5, 70)]][d[4]];
                for (q, &(from, to)) in places.iter().enumerate() {
                    let n = runs[d[q]];
                    for j in 0..n {
                        let lv = match (d[3] / 3, j % 4) {
                            (1, 1) => 6,
                            (2, _) => 2 + 5 * q as u32,
                            _ => 0,
                        };
                        b[to + j] = a[from + j] ^ noise(lv, j);
                        if d[3] % 3 == 1 && j == n / 2 {
                            b[to + j] ^= 0x4000_0000;
                        }
                        if d[3] % 3 == 2 && j < 2 && q == 0 {
                            b[to + j] ^= 0x0800_0000;
                        }
                    }
                }
                ex.note(|| format!("runs of {:?} items from {places:?}, variant {}", [runs[d[0]], runs[d[1]], runs[d[2]]], d[3]));
                match_case(what, &a, &b, ex, &|| format!("runs of {:?} items copied (from, to) {places:?}, variant {}", [runs[d[0]], runs[d[1]], runs[d[2]]], d[3]))
            },
        ));
    }
    // Self and excerpts: every length and every position.
    {
        let nmax = t.pick(420u64, 1500);
        fams.push(Family::new(
            "self-and-excerpt",
            format!("fingerprints of every length 0..{nmax} matched with themselves, and every prefix, suffix and inner part cut at thirds"),
            nmax * 5 * 3,
            move |i, ex| {
                let d = digits(i, &[nmax, 5, 3]);
                let n = d[0];
                let a: Vec<u32> = (0..n)
                    .map(|k| match d[2] {
                        0 => item(k, 9),
                        1 => 0x1234_5678,
                        _ => (mix(k as u64 / 4) as u32) & 0x00FF_FFFF,
                    })
                    .collect();
                let b = match d[1] {
                    0 => a.clone(),
                    1 => a[..n / 2].to_vec(),
                    2 => a[n / 2..].to_vec(),
                    3 => a[n / 3..2 * n / 3].to_vec(),
                    _ => a[n / 5..].iter().map(|x| x ^ 0x11).collect(),
                };
                ex.note(|| format!("{n} items of kind {} against part {}", d[2], d[1]));
                match_case(what, &a, &b, ex, &|| format!("{n} items of kind {} against part {}", d[2], d[1]))?;
                if d[1] == 0 && n >= 2 && what != What::Swap {
                    let s = match_fingerprints(&a, &a, &preset(2)).map_err(|e| Fail::from(e.to_string()))?;
                    ensure!(s.len() == 1 && s[0].offset1 == 0 && s[0].offset2 == 0 && s[0].items_count == n && s[0].score == 0.0, "a fingerprint of {n} items of kind {} matched with itself gives {s:?}", d[2]);
                }
                Ok(())
            },
        ));
    }
    // Noise: every bit-difference level, every length.
    {
        let nmax = t.pick(260u64, 700);
        fams.push(Family::new(
            "levels",
            format!("lengths 2..{nmax} x every number of differing bits 0..=20, constant, ramping and as one step at each third"),
            nmax * 21 * 4,
            move |i, ex| {
                let d = digits(i, &[nmax, 21, 4]);
                let n = d[0] + 2;
                let lv = d[1] as u32;
                let a: Vec<u32> = (0..n).map(|k| item(k, 10)).collect();
                let b: Vec<u32> = (0..n)
                    .map(|k| {
                        let l = match d[2] {
                            0 => lv,
                            1 => lv * k as u32 / n as u32,
                            2 => if k < n / 3 { lv } else { 0 },
                            _ => if k < 2 * n / 3 { 1 } else { lv },
                        };
                        a[k] ^ noise(l, k)
                    })
                    .collect();
                ex.note(|| format!("{n} items, {lv} bits, shape {}", d[2]));
                match_case(what, &a, &b, ex, &|| format!("{n} items, {lv} differing bits, shape {}", d[2]))
            },
        ));
    }
    // Long fingerprints with a common part anywhere.
    {
        let lens: Vec<usize> = t.pick(
            vec![300, 1100, 4500, 9000, 34_000, 70_000, 270_000, LIMIT],
            vec![300, 600, 1100, 2200, 4500, 9000, 17_000, 34_000, 66_000, 70_000, 135_000, 270_000, 400_000, LIMIT],
        );
        let spots: Vec<f64> = t.pick(vec![0.0, 0.6, 1.0], vec![0.0, 0.2, 0.4, 0.6, 0.8, 1.0]);
        let (nl, ns) = (lens.len() as u64, spots.len() as u64);
        fams.push(Family::new(
            "long",
            format!("all pairs of lengths {lens:?} x a common part of 200 items at fractions {spots:?} of each x exact or noisy"),
            nl * nl * ns * ns * 2,
            move |i, ex| {
                let d = digits(i, &[2, ns, ns, nl, nl]);
                let (l1, l2) = (lens[d[3]], lens[d[4]]);
                let (p1, p2) = ((spots[d[1]] * (l1 - 200) as f64) as usize, (spots[d[2]] * (l2 - 200) as f64) as usize);
                // Items outside of the common part differ in every lower bit and never agree in the upper ones.
                let mut a: Vec<u32> = (0..l1).map(|k| ((k % 1300) as u32) << 20).collect();
                let mut b: Vec<u32> = (0..l2).map(|k| ((1400 + k % 1300) as u32) << 20 | 0xFFFFF).collect();
                for k in 0..200 {
                    let v = ((2800 + k * 5) as u32) << 20 | (mix(k as u64) as u32) & 0xFFFFF;
                    a[p1 + k] = v;
                    b[p2 + k] = if d[0] == 0 { v } else { v ^ noise(2, k) & 0xFFFFF };
                }
                let show = || format!("lengths {l1} and {l2}, 200 common items at {p1} and {p2}, noisy: {}", d[0]);
                ex.note(show);
                match_case(what, &a, &b, ex, &show)
            },
        ));
    }
    fams
}

pub fn c11(t: Tier) -> Vec<Family> {
    let mut f = match_families(What::Formed, t);
    // Unrelated and real fingerprints.
    let seeds = t.pick(120u64, 500);
    f.push(Family::new(
        "audio-pairs",
        format!("all pairs of {seeds} fingerprints of short synthetic recordings, partly sharing audio"),
        seeds * seeds,
        move |i, ex| {
            let (x, y) = (i % seeds, i / seeds);
            let make = |s: u64| -> Vec<u32> {
                let mut d = audio_c(9000 + 300 * (s as usize % 7), 900 + s % 11).to_vec();
                d.extend_from_slice(&audio_c(4000, 950 + s % 5));
                if s % 3 == 0 {
                    d.extend_from_slice(&[0; 3000]);
                }
                d.extend_from_slice(&audio_c(2500 * (1 + s as usize % 3), 970 + s % 3));
                fp(&Cfg::small(2, 128, 64).build(), NATIVE, 1, &d)
            };
            let (a, b) = (make(x), make(y));
            ex.note(|| format!("recordings {x} ({} items) and {y} ({} items)", a.len(), b.len()));
            match_case(What::Formed, &a, &b, ex, &|| format!("recordings {x} and {y}"))
        },
    ));
    f
}
pub fn c12(t: Tier) -> Vec<Family> {
    match_families(What::Exact, t)
}
pub fn c13(t: Tier) -> Vec<Family> {
    match_families(What::Swap, t)
}

// ---------------------------------------------------------------------------------------------- C14

const LIMIT: usize = 524_285;

pub fn c14(t: Tier) -> Vec<Family> {
    let mut fams = vec![];
    // The limit.
    {
        let lens: Vec<usize> = vec![0, 1, 2, 1000, LIMIT - 1, LIMIT, LIMIT + 1, LIMIT + 2, LIMIT + 3, LIMIT + 4, 600_000, 1 << 20, (1 << 20) + 1, 1 << 21];
        let n = lens.len() as u64;
        fams.push(Family::new(
            "limit",
            format!("all pairs of lengths {lens:?}: accepted or refused naming the first too long fingerprint"),
            n * n,
            move |i, ex| {
                let (l1, l2) = (lens[(i % n) as usize], lens[(i / n) as usize]);
                ex.note(|| format!("lengths {l1} and {l2}"));
                let a: Vec<u32> = (0..l1).map(|k| ((k % 2000) as u32) << 20 | k as u32 & 0xFFFFF).collect();
                let b: Vec<u32> = (0..l2).map(|k| ((2000 + k % 2000) as u32) << 20 | k as u32 & 0xFFFFF).collect();
                let r = match_fingerprints(&a, &b, &preset(2));
                ex.steps(1);
                ex.trace();
                ex.state((l1, l2));
                let want = if l1 > LIMIT { Some(0) } else if l2 > LIMIT { Some(1) } else { None };
                match (r, want) {
                    (Ok(s), None) => {
                        ex.outcome(1);
                        ensure!(s.is_empty(), "lengths {l1} and {l2} without any agreeing item give {s:?}");
                    }
                    (Ok(_), Some(w)) => ensure!(false, "lengths {l1} and {l2} are accepted, fingerprint {w} is too long"),
                    (Err(MatchError::FingerprintTooLong { index }), Some(w)) => {
                        ex.outcome((2, w));
                        ensure!(index == w, "lengths {l1} and {l2}: fingerprint #{index} is named, expected #{w}");
                        let text = MatchError::FingerprintTooLong { index }.to_string();
                        ensure!(text.contains(&index.to_string()), "the message {text:?} does not name #{index}");
                    }
                    (Err(e), None) => ensure!(false, "lengths {l1} and {l2} are refused: {e}"),
                }
                Ok(())
            },
        ));
    }
    // A common part anywhere in long fingerprints.
    {
        let lens: Vec<usize> = t.pick(
            vec![300, 70_000, 262_145, LIMIT],
            vec![300, 4095, 4097, 65_535, 65_537, 131_073, 262_143, 262_145, 524_000, LIMIT - 1, LIMIT],
        );
        let spots: Vec<f64> = t.pick(vec![0.0, 0.5, 1.0], vec![0.0, 0.1, 0.249, 0.5, 0.5002, 0.75, 0.9, 1.0]);
        let (nl, ns) = (lens.len() as u64, spots.len() as u64);
        fams.push(Family::new(
            "far-matches",
            format!("all pairs of lengths {lens:?} x a common part of 200 items at fractions {spots:?} of each (0 = very start, 1 = very end) x 3 kinds of content"),
            nl * nl * ns * ns * 3,
            move |i, ex| {
                let d = digits(i, &[3, ns, ns, nl, nl]);
                let (l1, l2) = (lens[d[3]], lens[d[4]]);
                let (p1, p2) = ((spots[d[1]] * (l1 - 200) as f64) as usize, (spots[d[2]] * (l2 - 200) as f64) as usize);
                // Fillers never agree with each other or with the common part.
                let mut a: Vec<u32> = (0..l1).map(|k| ((k % 1300) as u32) << 20 | (k as u32).wrapping_mul(2654435) & 0xFFFFF).collect();
                let mut b: Vec<u32> = (0..l2).map(|k| ((1400 + k % 1300) as u32) << 20 | (k as u32).wrapping_mul(40503) & 0xFFFFF).collect();
                for k in 0..200 {
                    let v = match d[0] {
                        // All distinct; the same upper bits twice in a row; the largest hash values.
                        0 => ((2800 + k * 5) as u32) << 20 | k as u32,
                        1 => ((2800 + k / 2 * 3) as u32) << 20 | 0xFFFFF,
                        _ => ((4095 - k) as u32) << 20 | 0x80000,
                    };
                    a[p1 + k] = v;
                    b[p2 + k] = v;
                }
                ex.note(|| format!("lengths {l1} and {l2}, 200 common items at {p1} and {p2}, kind {}", d[0]));
                let s = match match_fingerprints(&a, &b, &preset(2)) {
                    Ok(s) => s,
                    Err(e) => return Err(format!("lengths {l1} and {l2} are refused: {e}").into()),
                };
                ex.steps(1);
                ex.trace();
                ex.state((l1, l2, p1, p2));
                ex.outcome((p1, p2));
                if let Err(e) = well_formed(&a, &b, &s) {
                    ensure!(false, "lengths {l1} and {l2}, common part at {p1} and {p2}: {}", e.msg);
                }
                // The common part must be inside what is reported, on its alignment.
                let cover: usize = s
                    .iter()
                    .filter(|g| g.offset1 as i64 - g.offset2 as i64 == p1 as i64 - p2 as i64)
                    .map(|g| {
                        let lo = g.offset1.max(p1);
                        let hi = (g.offset1 + g.items_count).min(p1 + 200);
                        hi.saturating_sub(lo)
                    })
                    .sum();
                ensure!(cover >= 190, "lengths {l1} and {l2}, 200 common items at {p1} and {p2} (kind {}): only {cover} of them are reported: {s:?}", d[0]);
                Ok(())
            },
        ));
    }
    // Numbers of agreeing items around powers of two: nothing wraps.
    {
        let mut lens: Vec<usize> = vec![];
        for k in t.pick(vec![7u32, 8, 10, 12, 14, 15, 16, 17, 18], vec![7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18]) {
            for d in t.pick(vec![-1i64, 0, 1, 2], vec![-3, -2, -1, 0, 1, 2, 3, 4, 5]) {
                lens.push(((1i64 << k) + d) as usize);
            }
        }
        lens.extend(t.pick(vec![3 << 16, LIMIT], vec![3 << 16, 5 << 16, 7 << 16, LIMIT - 1, LIMIT]));
        let nl = lens.len() as u64;
        fams.push(Family::new(
            "agreement-counts",
            format!("common parts of {lens:?} items, alone, preceded by an unrelated item, or with every item's lower bits altered: one segment over all of it"),
            nl * 3,
            move |i, ex| {
                let (n, how) = (lens[(i / 3) as usize], i % 3);
                let mut a: Vec<u32> = (0..n).map(|k| mix(k as u64 + 77) as u32).collect();
                let mut b = a.clone();
                let mut want = (0, 0, n, 0u64);
                if how == 1 && n < LIMIT {
                    a.insert(0, !b[0]);
                    want.0 = 1;
                }
                if how == 2 {
                    b.iter_mut().for_each(|x| *x ^= 0x15);
                    want.3 = 3 * n as u64;
                }
                ex.note(|| format!("{n} common items, variant {how}"));
                let s = match match_fingerprints(&a, &b, &preset(2)) {
                    Ok(s) => s,
                    Err(e) => return Err(format!("{n} common items are refused: {e}").into()),
                };
                ex.steps(1);
                ex.trace();
                ex.state((n, how));
                let got = as_pieces(&a, &b, &s);
                ex.outcome(&got);
                ensure!(got == vec![want], "{n} common items (variant {how}) give {s:?}");
                Ok(())
            },
        ));
    }
    // Compared with the reference at medium and long sizes, both orders.
    {
        let lens: Vec<usize> = t.pick(vec![2000, 70_000], vec![2000, 5000, 65_536, 70_000, 200_000, LIMIT]);
        let n = lens.len() as u64;
        fams.push(Family::new(
            "reference-long",
            format!("lengths {lens:?} against a shifted noisy copy, result equal to the reference matcher"),
            n * 4,
            move |i, ex| {
                let len = lens[(i / 4) as usize];
                let shift = [0usize, 1, 1500, len / 2][(i % 4) as usize];
                let a: Vec<u32> = (0..len).map(|k| mix(k as u64) as u32).collect();
                let b: Vec<u32> = (shift..len)
                    .map(|k| if (k / 700) % 3 == 2 { mix(k as u64 ^ 0xABCDE) as u32 } else { a[k] ^ noise((k / 400) as u32 % 12, k) })
                    .collect();
                ex.note(|| format!("{len} items against a noisy copy without its first {shift}"));
                let s = match match_fingerprints(&a, &b, &preset(2)) {
                    Ok(s) => s,
                    Err(e) => return Err(format!("{len} items are refused: {e}").into()),
                };
                ex.steps(1);
                ex.trace();
                ex.state((len, shift));
                let got = as_pieces(&a, &b, &s);
                ex.outcome(&got);
                let (_, al) = alignments(&a, &b);
                let mut allowed = BTreeSet::new();
                for d in al {
                    match pieces(&a, &b, d) {
                        Some(p) => allowed.extend(p),
                        None => {
                            ex.undecided(1);
                            return Ok(());
                        }
                    }
                }
                ensure!(allowed.contains(&got), "{len} items against a noisy copy without its first {shift}: {} segments differ from the definition's {:?}", got.len(), allowed.iter().map(|x| x.len()).collect::<Vec<_>>());
                Ok(())
            },
        ));
    }
    fams
}

// ---------------------------------------------------------------------------------------------- C15

pub fn c15(t: Tier) -> Vec<Family> {
    let mut cfgs: Vec<Cfg> = (1..=5).map(Cfg::preset).collect();
    for (fs, ov) in [(64, 32), (64, 0), (64, 63), (4096, 0), (4096, 4095), (1000, 333), (8192, 5461), (11025, 0), (22050, 11025), (100_000, 1)] {
        cfgs.push(Cfg::small(2, fs, ov));
    }
    let mut vals: Vec<usize> = (0..t.pick(130, 500)).collect();
    vals.extend([999, 1000, 4095, 4096, 65_535, 65_536, 100_000, 262_144, LIMIT]);
    let nv = vals.len() as u64;
    let nc = cfgs.len() as u64;
    let counts: Vec<usize> = vec![1, 2, 3, 10, 100, 1000, 65_536, LIMIT];
    let mut fams = vec![];
    {
        let (cfgs, vals, counts) = (cfgs.clone(), vals.clone(), counts);
        let total = nc * nv * nv;
        fams.push(Family::new(
            "accessors",
            format!("{nc} configurations x all pairs of {nv} offsets x 8 item counts: start1, end1, start2, end2, duration"),
            total,
            move |i, ex| {
                let d = digits(i, &[nc, nv, nv]);
                let cfg = &cfgs[d[0]];
                let conf = cfg.build();
                let dur = cfg.m_hop() as f64 / 11025.0;
                ex.note(|| format!("{} offsets {} and {}", cfg.label(), vals[d[1]], vals[d[2]]));
                for &n in &counts {
                    let s = Segment { offset1: vals[d[1]], offset2: vals[d[2]], items_count: n, score: 1.5 };
                    for (name, got, want) in [
                        ("start1", s.start1(&conf), s.offset1 as f64 * dur),
                        ("end1", s.end1(&conf), (s.offset1 + n) as f64 * dur),
                        ("start2", s.start2(&conf), s.offset2 as f64 * dur),
                        ("end2", s.end2(&conf), (s.offset2 + n) as f64 * dur),
                        ("duration", s.duration(&conf), n as f64 * dur),
                        ("item_duration_in_seconds", conf.item_duration_in_seconds(), dur),
                    ] {
                        ensure!((got as f64 - want).abs() <= want * 1e-6 + 1e-9, "{}: {name} of {s:?} is {got}, expected {want}", cfg.label());
                    }
                    ensure!(s.end1(&conf) == s.start1(&conf) + s.duration(&conf) && s.end2(&conf) == s.start2(&conf) + s.duration(&conf), "{}: an end of {s:?} is not start plus duration", cfg.label());
                    ex.steps(6);
                }
                ex.trace();
                ex.state(&d);
                ex.outcome((vals[d[1]] * cfg.m_hop(), vals[d[2]] * cfg.m_hop()));
                Ok(())
            },
        ));
    }
    // One more item duration of audio gives one more item.
    {
        let cfgs: Vec<Cfg> = (1..=5).map(Cfg::preset).chain([(64usize, 32usize), (64, 0), (100, 37), (1000, 333), (512, 500)].iter().map(|&(a, b)| Cfg::small(1, a, b))).collect();
        let nc = cfgs.len() as u64;
        let steps = t.pick(60u64, 250);
        fams.push(Family::new(
            "audio-per-item",
            format!("{nc} configurations x k = 0..{steps}: delay plus k item durations of audio give exactly k items, one frame less gives k - 1"),
            nc * steps,
            move |i, ex| {
                let cfg = &cfgs[(i % nc) as usize];
                let k = (i / nc) as usize;
                let conf = cfg.build();
                let s = conf.item_duration_in_seconds() as f64 * conf.sample_rate() as f64;
                let n = conf.delay() + (s * k as f64).round() as usize;
                ex.note(|| format!("{} k={k}, {n} frames", cfg.label()));
                let data = audio_c(n, 961);
                let a = fp(&conf, NATIVE, 1, &data).len();
                let b = fp(&conf, NATIVE, 1, &data[..n - 1]).len();
                ex.steps(8);
                ex.trace();
                ex.state((i, n));
                ex.outcome((a, b));
                ensure!(a == k && b == k.saturating_sub(1), "{}: {n} frames (delay plus {k} item durations) give {a} items and one frame less gives {b}", cfg.label());
                Ok(())
            },
        ));
    }
    // Times reported by matching are the times on the audio timeline.
    {
        let cfgs: Vec<Cfg> = vec![Cfg::small(2, 128, 64), Cfg::small(1, 256, 100), Cfg::preset(5)];
        let cuts = t.pick(120u64, 300);
        fams.push(Family::new(
            "matched-times",
            format!("3 configurations x an excerpt cut {cuts} different whole items into a recording, both orders: start and end times are those of the cut"),
            cuts * 3 * 2,
            move |i, ex| {
                let d = digits(i, &[3, 2, cuts]);
                let cfg = &cfgs[d[0]];
                let conf = cfg.build();
                let hop = cfg.m_hop();
                let n = cfg.m_delay() + 400 * hop;
                let whole = audio_c(n, 971);
                let at = 3 + d[2];
                let part = &whole[at * hop..at * hop + cfg.m_delay() + 90 * hop];
                ex.note(|| format!("{} excerpt at item {at}, order {}", cfg.label(), d[1]));
                let (a, b) = (fp(&conf, NATIVE, 1, &whole), fp(&conf, NATIVE, 1, part));
                let segs = if d[1] == 0 { match_fingerprints(&a, &b, &conf) } else { match_fingerprints(&b, &a, &conf) };
                let segs = segs.map_err(|e| Fail::from(e.to_string()))?;
                ex.steps(9);
                ex.trace();
                ex.state(&d);
                ex.outcome(at);
                ensure!(segs.len() == 1, "{}: the excerpt cut at item {at} gives {segs:?}", cfg.label());
                let s = &segs[0];
                let (t1, e1, t2, e2) = if d[1] == 0 {
                    (s.start1(&conf), s.end1(&conf), s.start2(&conf), s.end2(&conf))
                } else {
                    (s.start2(&conf), s.end2(&conf), s.start1(&conf), s.end1(&conf))
                };
                let dur = hop as f64 / 11025.0;
                for (name, got, want) in [("start in the recording", t1, at as f64 * dur), ("end in the recording", e1, (at + 90) as f64 * dur), ("start in the excerpt", t2, 0.0), ("end in the excerpt", e2, 90.0 * dur)] {
                    ensure!((got as f64 - want).abs() <= want * 1e-6 + 1e-6, "{}: excerpt cut at item {at}: {name} is {got}, expected {want}", cfg.label());
                }
                Ok(())
            },
        ));
    }
    fams
}

// ---------------------------------------------------------------------------------------------- C23

type FpCache = Arc<Mutex<HashMap<(u8, u32), Arc<Vec<u32>>>>>;

pub fn c23(t: Tier) -> Vec<Family> {
    let total_s = 45.0f64;
    let lens: Vec<f64> = t.pick(vec![10.0, 17.3], vec![10.0, 12.1, 17.3, 30.0]);
    let cuts = t.pick(12u64, 60);
    let gains: Vec<f64> = t.pick(vec![1.0, 0.5, 0.05, 0.006], vec![1.0, 0.5, 0.1, 0.05, 0.02, 0.01, 0.006]);
    let ng = gains.len() as u64;
    let forms: Vec<(u32, u32)> = t.pick(
        vec![(11025, 1), (11025, 2), (44100, 1), (8000, 1), (48000, 2), (22050, 3)],
        vec![(11025, 1), (11025, 2), (44100, 1), (44100, 2), (8000, 1), (16000, 2), (22050, 3), (32000, 1), (48000, 2), (48000, 6), (96000, 1)],
    );
    let seeds = t.pick(1u64, 3);
    let (nl, nf) = (lens.len() as u64, forms.len() as u64);
    let whole: FpCache = Default::default();
    let songs: Arc<Mutex<HashMap<(u32, u32), Arc<Vec<i16>>>>> = Default::default();
    let total = product(&[5, nl, cuts, ng, nf, seeds]);
    vec![Family::new(
        "excerpts",
        format!("presets 1..5 x excerpt lengths {lens:?} s x {cuts} cut positions in a {total_s} s melody x gains {gains:?} x (rate, channels) {forms:?} x {seeds} melodies, matched in both orders"),
        total,
        move |i, ex| {
            let d = digits(i, &[5, ng, nf, nl, cuts, seeds]);
            let cfg = Cfg::preset(d[0] as u8 + 1);
            let conf = cfg.build();
            let seed = 31 + d[5] as u32;
            let song = |rate: u32| -> Arc<Vec<i16>> {
                if let Some(s) = songs.lock().unwrap().get(&(seed, rate)) {
                    return s.clone();
                }
                let s = Arc::new(melody(seed, total_s, rate as f64, 16000.0));
                songs.lock().unwrap().insert((seed, rate), s.clone());
                s
            };
            let hit = whole.lock().unwrap().get(&(d[0] as u8, seed)).cloned();
            let a = match hit {
                Some(a) => a,
                None => {
                    let a = Arc::new(fp(&conf, NATIVE, 1, &song(NATIVE)));
                    whole.lock().unwrap().insert((d[0] as u8, seed), a.clone());
                    a
                }
            };
            let (rate, ch) = forms[d[2]];
            let len = lens[d[3]];
            // Positions that are not multiples of anything in particular, including both ends.
            let cut = if cuts > 1 { d[4] as f64 * (total_s - len) / (cuts - 1) as f64 } else { 0.0 };
            let s = song(rate);
            let from = ((cut * rate as f64) as usize).min(s.len());
            let to = (from + (len * rate as f64) as usize).min(s.len());
            let mut data = Vec::with_capacity((to - from) * ch as usize);
            for &v in &s[from..to] {
                let w = (v as f64 * gains[d[1]]) as i16;
                data.resize(data.len() + ch as usize, w);
            }
            ex.note(|| format!("{} {len} s cut at {cut:.2} s, gain {}, {rate} Hz, {ch} channels", cfg.label(), gains[d[1]]));
            let b = fp(&conf, rate, ch, &data);
            let fwd = match_fingerprints(&a, &b, &conf).map_err(|e| Fail::from(e.to_string()))?;
            let back = match_fingerprints(&b, &a, &conf).map_err(|e| Fail::from(e.to_string()))?;
            ex.steps(6);
            ex.trace();
            ex.state(&d);
            let dur = conf.item_duration_in_seconds() as f64;
            for (order, segs) in [("recording, excerpt", &fwd), ("excerpt, recording", &back)] {
                let found = segs.iter().any(|g| {
                    let (r, e) = if order.starts_with('r') { (g.start1(&conf), g.start2(&conf)) } else { (g.start2(&conf), g.start1(&conf)) };
                    let place = r as f64 - e as f64;
                    (place - cut).abs() <= dur * 1.001 + 0.005 && 2 * g.items_count > b.len() && g.score < 4.0
                });
                ensure!(found, "{}: excerpt of {len} s cut at {cut:.3} s, gain {}, {rate} Hz, {ch} channels ({} items), order ({order}): reported {segs:?}", cfg.label(), gains[d[1]], b.len());
            }
            ex.outcome((fwd[0].offset1, fwd[0].items_count));
            Ok(())
        },
    )]
}

/// For C17.
pub fn compress_with(conf: &Configuration, items: &[u32]) -> Vec<u8> {
    FingerprintCompressor::from(conf).compress(items)
}
