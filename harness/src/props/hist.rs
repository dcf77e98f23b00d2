//! C06, C07: seeking histories. C08, C09: appending histories. C13: selective decompression.
use super::stream::{any_scale, check_table, count_stream, parse, same};
use crate::ctx::*;
use crate::gen::{self, Stream, VARIABLE};
use crate::ops;
use crate::rng::{hash_str, mix, Rng};
use crate::Prop;
use laz::{DecompressionSelection, LazDecompressor};
use crate::mio::{MonFile, Plan};
use std::io::{Cursor, ErrorKind, Seek, SeekFrom};
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering};
use std::sync::Arc;

pub fn register(v: &mut Vec<Prop>) {
    v.push(Prop { id: "C06", run: seq_seek, directed: 0, quick: 900, thorough: 120000, workers: 0 });
    v.push(Prop { id: "C07", run: par_seek, directed: 0, quick: 1250, thorough: 150000, workers: 0 });
    v.push(Prop { id: "C08", run: seq_append, directed: 0, quick: 400, thorough: 20000, workers: 0 });
    v.push(Prop { id: "C09", run: par_append, directed: 0, quick: 400, thorough: 20000, workers: 0 });
    v.push(Prop { id: "C13", run: selective, directed: 0, quick: 800, thorough: 80000, workers: 0 });
}

/// Any index that a caller may seek to.
fn any_index(rng: &mut Rng, s: &Stream, at: usize) -> u64 {
    let n = s.n as u64;
    let span = |rng: &mut Rng| s.chunk_spans()[rng.usize(s.cuts.len())];
    match rng.below(14) {
        0 => 0,
        1 => n - 1,
        2 => at as u64,
        3 => (at as u64).saturating_sub(rng.below(5)),
        4 => (at as u64 + rng.below(5)).min(n - 1),
        5 => span(rng).0 as u64,
        6 => {
            let (a, c) = span(rng);
            (a + c - 1) as u64
        }
        7 => {
            // inside the last chunk
            let (a, c) = *s.chunk_spans().last().unwrap();
            (a + rng.usize(c)) as u64
        }
        8 => n + rng.below(3),
        9 => *rng.pick(&[n, n + 1, n + 50_000, u64::from(u32::MAX), u64::MAX, 1 << 40, u64::MAX - 1, (n + 1) * 2]),
        _ => rng.below(n),
    }
}

/// What the next read must give.
#[derive(Clone, Copy, PartialEq, Debug)]
enum At {
    Point(usize),
    /// beyond everything that the table tells about: an error
    End,
    /// the library cannot know (last chunk of fixed size): anything but a crash
    Unspecified,
}

struct SeekModel<'a> {
    s: &'a Stream,
    at: At,
    nominal: u64,
    /// reading past the last point is known to be an error
    strict_end: bool,
    log: Vec<String>,
}

impl<'a> SeekModel<'a> {
    fn new(s: &'a Stream, par: bool) -> Self {
        let nominal = if s.variable() { s.n as u64 } else { s.cuts.len() as u64 * u64::from(s.chunk_size) };
        let strict_end = s.variable() || (par && s.n as u64 == nominal);
        SeekModel { s, at: At::Point(0), nominal, strict_end, log: vec![] }
    }
    fn tail(&self) -> String {
        let n = self.log.len();
        format!("{} history: {}", self.s.describe(), self.log[n.saturating_sub(14)..].join(" "))
    }
    fn seek(&mut self, i: u64, r: Result<(), laz::LasZipError>) -> R {
        self.log.push(format!("seek({i})"));
        if i < self.s.n as u64 {
            if let Err(e) = r {
                return fail("seek-failed", format!("seek to an existing point returned {e:?}; {}", self.tail()));
            }
            self.at = At::Point(i as usize);
        } else if i >= self.nominal {
            self.at = if r.is_ok() { At::End } else { At::Unspecified };
        } else {
            self.at = At::Unspecified;
        }
        Ok(())
    }
    /// `out` was read (`count` points, all of them asked for in one call)
    fn read(&mut self, out: &[u8], r: Result<(), laz::LasZipError>, st: &mut Stats) -> R {
        let size = self.s.size();
        let count = out.len() / size;
        self.log.push(format!("read({count})={}", if r.is_ok() { "ok" } else { "err" }));
        if count == 0 {
            return if r.is_err() && matches!(self.at, At::Point(_)) {
                fail("empty-read-failed", self.tail())
            } else {
                Ok(())
            };
        }
        match self.at {
            At::Point(i) => {
                let known = count.min(self.s.n - i);
                if known == count {
                    if let Err(e) = r {
                        return fail("read-failed", format!("{count} points at {i} returned {e:?}; {}", self.tail()));
                    }
                    let want = &self.s.points[i * size..(i + count) * size];
                    if let Some(d) = first_diff(want, out, size) {
                        return fail("wrong-points", format!("reading {count} at {i}: {d}; {}", self.tail()));
                    }
                    st.add("points compared", count as u64);
                    self.at = At::Point(i + count);
                } else {
                    if r.is_ok() {
                        if self.strict_end || i as u64 + count as u64 > self.nominal && self.par_like() {
                            return fail("read-past-end", format!("{count} points at {i} were read out of {}; {}", self.s.n, self.tail()));
                        }
                        if let Some(d) = first_diff(&self.s.points[i * size..], &out[..known * size], size) {
                            return fail("wrong-points", format!("reading {count} at {i}: {d}; {}", self.tail()));
                        }
                    }
                    st.add("reads past the end", 1);
                    self.at = At::Unspecified;
                }
            }
            At::End => {
                st.add("reads after a seek past the end", 1);
                if r.is_ok() {
                    return fail("read-after-end", format!("points were read after a seek past the end; {}", self.tail()));
                }
            }
            At::Unspecified => st.add("unspecified reads", 1),
        }
        Ok(())
    }
    fn par_like(&self) -> bool {
        false
    }
}

fn seek_setup(c: &mut Ctx) -> Result<(Stream, Vec<u8>, u64), Fail> {
    let s = any_scale(c, 900);
    let plain = ops::cur::compress_vec(&s).must("compress")?;
    let before = *c.rng.pick(&[0u64, 0, 1, 227, 5000]);
    let mut f = Cursor::new(vec![0xA5u8; before as usize]);
    f.seek(SeekFrom::End(0)).unwrap();
    let mut f = ops::cur::compress(&s, f).must("compress")?.into_inner();
    debug_assert!(f.len() == plain.len() + before as usize);
    let tail = *c.rng.pick(&[0usize, 0, 0, 5, 600]);
    for _ in 0..tail {
        f.push(c.rng.u64() as u8);
    }
    Ok((s, f, before))
}

/// A source that fails now and then, once, and works again.
struct Trouble {
    armed: Arc<AtomicI64>,
    fired: Arc<AtomicU64>,
}

impl Trouble {
    fn source(c: &mut Ctx, bytes: Vec<u8>, at: u64) -> (MonFile, Option<Trouble>) {
        let mut plan = Plan::default();
        let mut t = None;
        if c.rng.chance(1, 3) {
            let armed = Arc::new(AtomicI64::new(-1));
            let fired = Arc::new(AtomicU64::new(0));
            plan.armed = Some(armed.clone());
            plan.fired = Some(fired.clone());
            plan.fail_kind = Some(*c.rng.pick(&[ErrorKind::Other, ErrorKind::UnexpectedEof, ErrorKind::WouldBlock, ErrorKind::InvalidData]));
            t = Some(Trouble { armed, fired });
        }
        (MonFile::with(bytes, at, plan), t)
    }
}

fn seek_history(
    c: &mut Ctx,
    s: &Stream,
    d: &mut dyn FnMut(Op, &mut [u8]) -> Result<(), laz::LasZipError>,
    par: bool,
    trouble: Option<Trouble>,
) -> R {
    let size = s.size();
    let mut m = SeekModel::new(s, par);
    let ops_n = if c.small { 6 } else { 12 + c.rng.usize(20) };
    let mut seeks = 0;
    let mut last = 0;
    for _ in 0..ops_n {
        let at = if let At::Point(i) = m.at { i } else { last };
        last = at;
        if let Some(t) = &trouble {
            if c.rng.chance(1, 4) {
                // this operation meets a failure: anything but a crash, then a seek helps
                let after = if c.rng.bool() { c.rng.below(4) } else { c.rng.below(200) };
                let was = t.fired.load(Ordering::SeqCst);
                t.armed.store(after as i64, Ordering::SeqCst);
                let what = if c.rng.chance(1, 3) {
                    let i = any_index(&mut c.rng, s, at);
                    let r = crate::guarded(|| d(Op::Seek(i), &mut []));
                    (format!("seek({i})"), r)
                } else {
                    let k = 1 + c.rng.usize(s.n.min(300));
                    let mut out = vec![0u8; k * size];
                    let r = crate::guarded(|| d(Op::Many, &mut out));
                    (format!("read({k})"), r)
                };
                t.armed.store(-1, Ordering::SeqCst);
                let hit = t.fired.load(Ordering::SeqCst) != was;
                let r = what.1.map_err(|f| Fail { sig: f.sig, msg: format!("{} in {} with a failing source; {}", f.msg, what.0, m.tail()) })?;
                m.log.push(format!("{}{}={}", what.0, if hit { " failing" } else { "" }, if r.is_ok() { "ok" } else { "err" }));
                ensure!(!hit || r.is_err(), "failure-swallowed", "{}", m.tail());
                m.at = At::Unspecified;
                c.add("operations that met a failure", hit as u64);
                // and on from about there
                let i = match c.rng.below(4) {
                    0 => continue,
                    1 => any_index(&mut c.rng, s, at),
                    _ => ((at + c.rng.usize(60)) as u64).min(s.n as u64 - 1),
                };
                let r = crate::guarded(|| d(Op::Seek(i), &mut []))
                    .map_err(|f| Fail { sig: f.sig, msg: format!("{} at seek({i}); {}", f.msg, m.tail()) })?;
                m.seek(i, r)?;
                seeks += 1;
                continue;
            }
        }
        if c.rng.chance(1, 2) {
            let i = any_index(&mut c.rng, s, at);
            let r = crate::guarded(|| d(Op::Seek(i), &mut []))
                .map_err(|f| Fail { sig: f.sig, msg: format!("{} at seek({i}); {}", f.msg, m.tail()) })?;
            m.seek(i, r)?;
            seeks += 1;
        } else {
            let k = match c.rng.below(6) {
                0 => 0,
                1 => 1,
                2 => 1 + c.rng.usize(s.n),
                3 => s.n - at.min(s.n),
                4 => s.n - at.min(s.n) + 1 + c.rng.usize(3),
                _ => 1 + c.rng.usize(20),
            };
            let one = k > 0 && k < 40 && c.rng.bool();
            let mut out = vec![0u8; k * size];
            if one {
                for q in out.chunks_exact_mut(size) {
                    let r = crate::guarded(|| d(Op::One, q))
                        .map_err(|f| Fail { sig: f.sig, msg: format!("{} at decompress_one; {}", f.msg, m.tail()) })?;
                    m.read(q, r, &mut c.st)?;
                }
            } else {
                let r = crate::guarded(|| d(Op::Many, &mut out))
                    .map_err(|f| Fail { sig: f.sig, msg: format!("{} at decompress_many({k}); {}", f.msg, m.tail()) })?;
                m.read(&out, r, &mut c.st)?;
            }
        }
    }
    // whatever happened, a seek to an existing point brings it back
    let i = c.rng.usize(s.n);
    let r = crate::guarded(|| d(Op::Seek(i as u64), &mut []))?;
    m.seek(i as u64, r)?;
    let mut out = vec![0u8; (s.n - i) * size];
    let r = crate::guarded(|| d(Op::Many, &mut out))?;
    m.read(&out, r, &mut c.st)?;
    c.add("seeks", seeks + 1);
    c.add("operations", ops_n as u64 + 2);
    c.st.seen("histories", hash_str(&m.log.join(" ")));
    Ok(())
}

#[derive(Clone, Copy)]
enum Op {
    Seek(u64),
    One,
    Many,
}

/// Readers of streams that look alike but are chunked differently, used in turns on one thread:
/// what one is asked says nothing about the others.
fn twins(c: &mut Ctx, par: bool) -> R {
    let a = super::stream::any_stream(c, 500);
    let size = a.size();
    let mut all = vec![a];
    for _ in 0..1 + c.rng.usize(2) {
        let mut b = all[0].clone();
        let avg = b.n / b.cuts.len();
        b.chunk_size = VARIABLE;
        if c.rng.bool() {
            for i in (1..b.cuts.len()).rev() {
                let j = c.rng.usize(i + 1);
                b.cuts.swap(i, j);
            }
        } else {
            b.cuts = (0..b.cuts.len()).map(|_| 1 + c.rng.usize(2 * avg)).collect();
        }
        let (n, from) = (b.cuts.iter().sum::<usize>(), c.rng.usize(b.n));
        b.points = (0..n).flat_map(|i| b.point((from + i) % b.n).to_vec()).collect();
        b.n = n;
        all.push(b);
    }
    let files = all.iter().map(|s| ops::cur::compress_vec(s).must("compress")).collect::<Result<Vec<_>, _>>()?;
    let open = |k: usize| -> Result<Box<dyn LazDecompressor + Send>, laz::LasZipError> {
        let f = Cursor::new(files[k].clone());
        Ok(if par {
            Box::new(laz::ParLasZipDecompressor::new(f, all[k].vlr())?)
        } else {
            Box::new(laz::LasZipDecompressor::new(f, all[k].vlr())?)
        })
    };
    let mut readers = vec![];
    for k in 0..all.len() {
        readers.push(open(k).must("open")?);
    }
    let least = all.iter().map(|s| s.n).min().unwrap();
    let mut log = vec![];
    for _ in 0..6 + c.rng.usize(10) {
        // the same question to each of them
        let i = c.rng.usize(least);
        let count = 1 + c.rng.usize((least - i).min(40));
        let mut order: Vec<usize> = (0..all.len()).collect();
        order.swap(0, c.rng.usize(all.len()));
        for k in order {
            if c.rng.chance(1, 6) {
                readers[k] = open(k).must("open")?;
                log.push(format!("open {k}"));
            }
            log.push(format!("{k}: seek({i}) read({count})"));
            let tail = || format!("{} next to {}: {}", all[k].describe(), all[(k + 1) % all.len()].describe(), log[log.len().saturating_sub(10)..].join(", "));
            let mut out = vec![0u8; count * size];
            let r = crate::guarded(|| readers[k].seek(i as u64).and_then(|_| readers[k].decompress_many(&mut out)))
                .map_err(|f| Fail { sig: f.sig, msg: format!("{}; {}", f.msg, tail()) })?;
            if let Err(e) = r {
                return fail("read-failed", format!("{e:?}; {}", tail()));
            }
            if let Some(d) = first_diff(&all[k].points[i * size..(i + count) * size], &out, size) {
                return fail("wrong-points", format!("{d}; {}", tail()));
            }
            c.add("questions to streams that look alike", 1);
        }
    }
    c.signature(hash_str(&log.join(" ")) ^ all[0].signature());
    Ok(())
}

fn seq_seek(c: &mut Ctx) -> R {
    if !c.small && c.idx > 1 && c.rng.chance(1, 5) {
        return crate::far::seeking(c, false);
    }
    if !c.small && c.idx > 1 && c.rng.chance(1, 15) {
        return twins(c, false);
    }
    let (s, bytes, before) = seek_setup(c)?;
    let (src, trouble) = Trouble::source(c, bytes, before);
    let mut d = laz::LasZipDecompressor::new(src, s.vlr()).must("open")?;
    let dynamic = c.rng.bool();
    seek_history(
        c,
        &s,
        &mut |op, out| match op {
            Op::Seek(i) if dynamic => LazDecompressor::seek(&mut d, i),
            Op::Seek(i) => d.seek(i),
            Op::One if dynamic => LazDecompressor::decompress_one(&mut d, out),
            Op::One => d.decompress_one(out).map_err(Into::into),
            Op::Many if dynamic => LazDecompressor::decompress_many(&mut d, out),
            Op::Many => d.decompress_many(out).map_err(Into::into),
        },
        false,
        trouble,
    )?;
    count_stream(c, &s);
    Ok(())
}

fn par_seek(c: &mut Ctx) -> R {
    if !c.small && c.idx > 1 && c.rng.chance(1, 5) {
        return crate::far::seeking(c, true);
    }
    if !c.small && c.idx > 1 && c.rng.chance(1, 15) {
        return twins(c, true);
    }
    let (s, bytes, before) = seek_setup(c)?;
    let (src, trouble) = Trouble::source(c, bytes, before);
    let pool = ops::any_pool(&mut c.rng);
    let mut d = laz::ParLasZipDecompressor::new(src, s.vlr()).must("par open")?;
    let dynamic = c.rng.bool();
    seek_history(
        c,
        &s,
        &mut |op, out| {
            pool.install(|| match op {
                Op::Seek(i) if dynamic => LazDecompressor::seek(&mut d, i),
                Op::Seek(i) => d.seek(i),
                Op::One => LazDecompressor::decompress_one(&mut d, out),
                Op::Many if dynamic => LazDecompressor::decompress_many(&mut d, out),
                Op::Many => d.decompress_many(out),
            })
        },
        true,
        trouble,
    )?;
    count_stream(c, &s);
    Ok(())
}

// ------------------------------------------------------------------------------------------------

fn seq_append(c: &mut Ctx) -> R {
    append(c, false)
}
fn par_append(c: &mut Ctx) -> R {
    append(c, true)
}

/// A file that is written, then opened for appending several times.
fn append(c: &mut Ctx, par: bool) -> R {
    if !c.small && c.rng.chance(1, 4) {
        return crate::far::appending(c, par);
    }
    let long = !c.small && (c.idx < 5 || c.rng.chance(1, 60));
    let first = if long {
        c.add("long files appended to", 1);
        if c.rng.chance(1, 4) { gen::long_chunks(&mut c.rng) } else { gen::big_stream(&mut c.rng) }
    } else {
        let l = gen::any_layout(&mut c.rng);
        let variable = c.rng.chance(2, 5);
        let profile = gen::any_profile(&mut c.rng);
        let max = c.max_points(500);
        let n = if c.rng.chance(1, 12) { 0 } else { gen::point_count(&mut c.rng, max) };
        let first = gen::stream_with(&mut c.rng, l, profile, n, variable);
        let mut chunk_size = first.chunk_size;
        if !variable && n == 0 {
            chunk_size = 1 + c.rng.below(30) as u32;
        }
        Stream { cuts: if variable { first.cuts } else { Stream::fixed_cuts(n, chunk_size) }, chunk_size, ..first }
    };
    let (size, variable, chunk_size, profile) = (first.size(), first.variable(), first.chunk_size, first.profile);
    let mut g = gen::PointGen::new(&mut c.rng, &first.layout, profile);
    let before = *c.rng.pick(&[0u64, 0, 3, 375]);
    let head: Vec<u8> = (0..before).map(|_| c.rng.u64() as u8).collect();
    let mut f = Cursor::new(head.clone());
    f.seek(SeekFrom::End(0)).unwrap();
    let mut f = if c.rng.bool() {
        ops::seq_compress_any(&mut c.rng, &first, f).must("compress")?.0
    } else {
        ops::par_compress_any(&mut c.rng, &first, f).must("par compress")?.0
    };
    let mut log = first.describe();
    let mut model = first.points.clone();
    let mut cuts = first.cuts.clone();
    let mut sig = first.signature();
    let sessions = if c.small { 2 } else { 1 + c.rng.usize(4) };
    for k in 0..sessions {
        let have = model.len() / size;
        let nominal_exact = variable || (have > 0 && have % chunk_size as usize == 0);
        // a table that the writer could not put in front is found through the end of the file
        if k == 0 && c.rng.chance(1, 8) {
            let b = f.get_mut();
            let at = before as usize;
            let off: [u8; 8] = b[at..at + 8].try_into().unwrap();
            b[at..at + 8].copy_from_slice(&(-1i64).to_le_bytes());
            b.extend_from_slice(&off);
            log.push_str(" | offset moved to the end");
        }
        let count = match c.rng.below(10) {
            0..=5 => have as u64,
            6 if nominal_exact => have as u64 + 1 + c.rng.below(100),
            7 => 0,
            8 if have > 0 => {
                // at or around a chunk boundary
                let spans: Vec<usize> = {
                    let mut a = 0;
                    cuts.iter().map(|x| { a += x; a }).collect()
                };
                let e = spans[c.rng.usize(spans.len())] as u64;
                (e + c.rng.below(3)).saturating_sub(1).min(have as u64)
            }
            _ => c.rng.below(have as u64 + 1),
        };
        let kept = (count as usize).min(have);
        model.truncate(kept * size);
        let m = match c.rng.below(6) {
            0 => 0,
            1 => 1,
            2 if long => 1 + c.rng.usize(70_000),
            _ => 1 + c.rng.usize(c.max_points(300)),
        };
        let more = g.points(&mut c.rng, m);
        let use_par = if c.rng.chance(1, 4) { !par } else { par };
        log.push_str(&format!(" | session {k}: {} count {count} of {have} + {m}", if use_par { "par" } else { "seq" }));
        sig = mix(&[sig, count, m as u64, use_par as u64]);
        f.set_position(before);
        let vlr = first.layout.vlr(chunk_size);
        let rng = &mut c.rng;
        let res = crate::guarded(|| -> Result<Cursor<Vec<u8>>, laz::LasZipError> {
            let file = std::mem::take(&mut f);
            if use_par {
                let pool = ops::any_pool(rng);
                pool.install(|| {
                    let mut a = laz::ParLasZipAppender::new(file, vlr, count)?;
                    if variable {
                        let p = gen::variable_cuts(rng, m);
                        let mut at = 0;
                        let pieces: Vec<&[u8]> = p.iter().map(|x| { let s = &more[at..at + x * size]; at += x * size; s }).collect();
                        for group in pieces.chunks(1 + rng.usize(6)) {
                            a.compress_chunks(group.to_vec())?;
                        }
                    } else {
                        let mut at = 0;
                        for b in ops::batches(rng, m, chunk_size as usize) {
                            a.compress_many(&more[at..at + b * size])?;
                            at += b * size;
                        }
                    }
                    a.done()?;
                    Ok(a.into_inner())
                })
            } else {
                let mut a = laz::LasZipAppender::new(file, vlr, count)?;
                let mut at = 0;
                if variable && rng.bool() {
                    let p = gen::variable_cuts(rng, m);
                    let pieces: Vec<&[u8]> = p.iter().map(|x| { let s = &more[at..at + x * size]; at += x * size; s }).collect();
                    for group in pieces.chunks(1 + rng.usize(6)) {
                        a.compress_chunks(group.to_vec())?;
                    }
                } else {
                    for b in ops::batches(rng, m, chunk_size as usize) {
                        if rng.bool() {
                            a.compress_many(&more[at..at + b * size])?;
                        } else {
                            for q in more[at..at + b * size].chunks_exact(size) {
                                a.compress_one(q)?;
                            }
                        }
                        at += b * size;
                        if variable && rng.chance(1, 3) {
                            a.finish_current_chunk()?;
                        }
                    }
                }
                a.done()?;
                Ok(a.into_inner())
            }
        });
        c.note(log.clone());
        f = res.map_err(|e| Fail { sig: e.sig, msg: format!("{} [{log}]", e.msg) })?.must("append")?;
        model.extend_from_slice(&more);
        let total = model.len() / size;
        let s = Stream { points: model.clone(), n: total, cuts: if variable { vec![] } else { Stream::fixed_cuts(total, chunk_size) }, ..first.clone() };
        let bytes = f.get_ref().clone();
        ensure!(bytes[..before as usize] == head[..], "append-changed-prefix", "{log}");
        let p = parse(&s, &bytes, before)?;
        if variable {
            let sum: u64 = p.table.iter().map(|e| e.point_count).sum();
            ensure!(sum == total as u64, "append-table-points", "table tells {sum} points, there are {total} [{log}]");
            ensure!(p.table.iter().all(|e| e.point_count > 0), "append-empty-chunk", "{log}");
            let len: u64 = p.table.iter().map(|e| e.byte_count).sum();
            ensure!(p.data_start + len == p.table_pos, "append-table-bytes", "{} + {len} != {} [{log}]", p.data_start, p.table_pos);
            cuts = p.table.iter().map(|e| e.point_count as usize).collect();
        } else {
            check_table(&s, &p).map_err(|e| Fail { sig: format!("append-{}", e.sig), msg: format!("{} [{log}]", e.msg) })?;
            cuts = s.cuts.clone();
            // a file that grew by appending is the file that would have been written at once
            let mut w = Cursor::new(head.clone());
            w.seek(SeekFrom::End(0)).unwrap();
            let w = ops::cur::compress(&s, w).must("compress")?.into_inner();
            ensure!(bytes.starts_with(&w), "append-differs-from-writing-at-once", "{log}");
        }
        let mut src = Cursor::new(&bytes[..]);
        src.set_position(before);
        let mut out = vec![0u8; total * size];
        let mut d = laz::LasZipDecompressor::new(src.clone(), s.vlr()).must("open")?;
        d.decompress_many(&mut out).must("read appended")?;
        same(&s, &out, "append-points", &log)?;
        let mut out = vec![0u8; total * size];
        let mut pd = laz::ParLasZipDecompressor::new(src.clone(), s.vlr()).must("par open")?;
        pd.decompress_many(&mut out).must("par read appended")?;
        same(&s, &out, "append-par-points", &log)?;
        if total > 0 {
            for _ in 0..4 {
                let i = c.rng.usize(total);
                let k = 1 + c.rng.usize((total - i).min(9));
                let mut o = vec![0u8; k * size];
                d.seek(i as u64).must("seek in appended")?;
                d.decompress_many(&mut o).must("read in appended")?;
                ensure!(o == s.points[i * size..(i + k) * size], "append-seek", "point {i} [{log}]");
                pd.seek(i as u64).must("par seek in appended")?;
                pd.decompress_many(&mut o).must("par read in appended")?;
                ensure!(o == s.points[i * size..(i + k) * size], "append-par-seek", "point {i} [{log}]");
            }
        }
        c.add("sessions", 1);
        c.add(if use_par { "parallel sessions" } else { "sequential sessions" }, 1);
        if kept < have {
            c.add("sessions that overwrote points", 1);
        }
        c.add("points appended", m as u64);
        f.set_position(before);
    }
    c.signature(sig);
    c.st.seen("layouts", hash_str(&first.layout.name));
    let _ = VARIABLE;
    Ok(())
}

// ------------------------------------------------------------------------------------------------

const NAMES: [&str; 12] = [
    "z", "class", "flags", "intensity", "angle14", "user", "psid", "gps", "rgb", "nir", "wave", "extra",
];

pub fn any_selection(rng: &mut Rng) -> DecompressionSelection {
    let mut sel = match rng.below(8) {
        0 => DecompressionSelection::all(),
        1 => DecompressionSelection::base(),
        2 => DecompressionSelection::xy_returns_channel(),
        3 => DecompressionSelection(1 << rng.below(12)),
        4 => DecompressionSelection(!(1 << rng.below(12))),
        5 => DecompressionSelection(rng.u64() as u32 & 0xfff),
        6 => DecompressionSelection(rng.u64() as u32),
        _ => DecompressionSelection(rng.u64() as u32 & rng.u64() as u32 & 0xfff),
    };
    for _ in 0..rng.usize(4) {
        sel = build(sel, rng.usize(12), rng.bool());
    }
    sel
}

/// The builder methods, by bit.
fn build(s: DecompressionSelection, bit: usize, on: bool) -> DecompressionSelection {
    match (bit, on) {
        (0, true) => s.decompress_z(),
        (0, false) => s.skip_z(),
        (1, true) => s.decompress_classification(),
        (1, false) => s.skip_classification(),
        (2, true) => s.decompress_flags(),
        (2, false) => s.skip_flags(),
        (3, true) => s.decompress_intensity(),
        (3, false) => s.skip_intensity(),
        (4, true) => s.decompress_scan_angle(),
        (4, false) => s.skip_scan_angle(),
        (5, true) => s.decompress_user_data(),
        (5, false) => s.skip_user_data(),
        (6, true) => s.decompress_point_source_id(),
        (6, false) => s.skip_point_source_id(),
        (7, true) => s.decompress_gps_time(),
        (7, false) => s.skip_gps_time(),
        (8, true) => s.decompress_rgb(),
        (8, false) => s.skip_rgb(),
        (9, true) => s.decompress_nir(),
        (9, false) => s.skip_nir(),
        (10, true) => s.decompress_wavepacket(),
        (10, false) => s.skip_wavepacket(),
        (11, true) => s.decompress_extra_bytes(),
        _ => s.skip_extra_bytes(),
    }
}
fn asked(s: DecompressionSelection, bit: usize) -> bool {
    match bit {
        0 => s.should_decompress_z(),
        1 => s.should_decompress_classification(),
        2 => s.should_decompress_flags(),
        3 => s.should_decompress_intensity(),
        4 => s.should_decompress_scan_angle(),
        5 => s.should_decompress_user_data(),
        6 => s.should_decompress_point_source_id(),
        7 => s.should_decompress_gps_time(),
        8 => s.should_decompress_rgb(),
        9 => s.should_decompress_nir(),
        10 => s.should_decompress_wavepacket(),
        _ => s.should_decompress_extra_bytes(),
    }
}

/// Mask of the bits of one record that a selection promises.
pub fn promised(s: &Stream, sel: DecompressionSelection) -> Vec<u8> {
    let mut m = vec![0xffu8; s.size()];
    if !s.layout.layered() {
        return m;
    }
    for (name, r) in s.layout.fields() {
        if name == "flags14" {
            // the scanner channel is always there
            m[r.start] = if asked(sel, 2) { 0xff } else { 0b0011_0000 };
        } else if let Some(bit) = NAMES.iter().position(|n| *n == name) {
            if !asked(sel, bit) {
                m[r].fill(0);
            }
        }
    }
    m
}

fn selective(c: &mut Ctx) -> R {
    let l = if c.rng.chance(1, 5) { gen::pointwise_layout(&mut c.rng) } else { gen::layered_layout(&mut c.rng) };
    let s = if !c.small && (c.idx < 3 || c.rng.chance(1, 150)) && l.size() < 200 {
        // layers of more than 64 kB, chunks of more than 65535 points
        c.add("long streams", 1);
        let n = 40_000 + c.rng.usize(60_000);
        let profile = gen::any_profile(&mut c.rng);
        let mut s = gen::stream_with(&mut c.rng, l, profile, n, false);
        s.chunk_size = *c.rng.pick(&[n as u32, 65_537, 30_000, 50_000]);
        s.cuts = Stream::fixed_cuts(n, s.chunk_size);
        s
    } else {
        let m = c.max_points(1200);
        gen::stream(&mut c.rng, l, m)
    };
    let size = s.size();
    let mut sel = any_selection(&mut c.rng);
    // what the builder says is what was asked
    for bit in 0..12 {
        let on = c.rng.bool();
        let t = build(sel, bit, on);
        ensure!(asked(t, bit) == on, "builder", "bit {bit} of {:?} set to {on} reads {}", sel, asked(t, bit));
        for o in 0..12 {
            ensure!(o == bit || asked(t, o) == asked(sel, o), "builder", "bit {bit} of {sel:?} changed bit {o}");
        }
        if c.rng.chance(1, 3) {
            sel = t;
        }
    }
    let mask = promised(&s, sel);
    c.note(format!("{} selection {:#x}", s.describe(), sel.0));
    c.signature(mix(&[s.signature(), u64::from(sel.0)]));
    c.nontrivial = s.layout.layered() && mask.iter().any(|b| *b == 0);
    let bytes = ops::cur::compress_vec(&s).must("compress")?;
    let want = c.describe.clone();
    let check = |i: usize, out: &[u8], how: &str| -> R {
        for (k, p) in out.chunks_exact(size).enumerate() {
            let e = s.point(i + k);
            for b in 0..size {
                if (p[b] ^ e[b]) & mask[b] != 0 {
                    let f = s.layout.fields().into_iter().find(|(_, r)| r.contains(&b)).map(|f| f.0).unwrap_or_default();
                    return fail(format!("selective-{f}"), format!("{want} [{how}] point {} {f}: expected {} got {}", i + k, hex(e), hex(p)));
                }
            }
        }
        Ok(())
    };
    // sequential
    let mut out = vec![0xEEu8; s.n * size];
    let mut d = laz::LasZipDecompressor::selective(Cursor::new(&bytes), s.vlr(), sel).must("selective open")?;
    let mut at = 0;
    for b in ops::batches(&mut c.rng, s.n, s.cuts[0]) {
        d.decompress_many(&mut out[at * size..(at + b) * size]).must("selective read")?;
        at += b;
    }
    check(0, &out, "seq")?;
    // What was not selected is not promised, but it is decided by the stream and the selection alone
    let first = out.clone();
    let same = |i: usize, out: &[u8], how: &str| -> R {
        for (k, p) in out.chunks_exact(size).enumerate() {
            let e = &first[(i + k) * size..(i + k + 1) * size];
            if let Some(b) = (0..size).find(|b| p[*b] != e[*b]) {
                let f = s.layout.fields().into_iter().find(|(_, r)| r.contains(&b)).map(|f| f.0).unwrap_or_default();
                return fail(format!("not-selected-{f}"), format!("{want} [{how}] point {} {f}: sequential gave {} but got {}", i + k, hex(e), hex(p)));
            }
        }
        Ok(())
    };
    // parallel
    let pool = ops::any_pool(&mut c.rng);
    let mut out = vec![0xEEu8; s.n * size];
    let mut p = laz::ParLasZipDecompressor::selective(Cursor::new(&bytes), s.vlr(), sel).must("selective par open")?;
    let mut at = 0;
    for b in ops::batches(&mut c.rng, s.n, s.cuts[0]) {
        pool.install(|| p.decompress_many(&mut out[at * size..(at + b) * size])).must("selective par read")?;
        at += b;
    }
    check(0, &out, "par")?;
    same(0, &out, "par")?;
    // the functions over whole buffers
    let t = laz::laszip::ChunkTable::read_from(&mut Cursor::new(&bytes), &s.vlr()).must("table")?;
    let len: u64 = t.as_ref().iter().map(|e| e.byte_count).sum();
    let mut out = vec![0xEEu8; s.n * size];
    pool.install(|| laz::par_decompress_selective(&bytes[8..8 + len as usize], &mut out, &s.vlr(), t.as_ref(), sel))
        .must("par_decompress_selective")?;
    check(0, &out, "par_decompress_selective")?;
    same(0, &out, "par_decompress_selective")?;
    // it survives seeks
    for _ in 0..5 {
        let i = c.rng.usize(s.n);
        let k = 1 + c.rng.usize((s.n - i).min(s.n / 3 + 2));
        let mut o = vec![0xEEu8; k * size];
        d.seek(i as u64).must("selective seek")?;
        d.decompress_many(&mut o).must("selective read after seek")?;
        check(i, &o, "seq after seek")?;
        same(i, &o, "seq after seek")?;
        p.seek(i as u64).must("selective par seek")?;
        p.decompress_many(&mut o).must("selective par read after seek")?;
        check(i, &o, "par after seek")?;
        same(i, &o, "par after seek")?;
        c.add("selective seeks", 2);
    }
    c.st.seen("selections", u64::from(sel.0 & 0xfff));
    c.add("bits promised per point", mask.iter().map(|b| b.count_ones() as u64).sum());
    count_stream(c, &s);
    Ok(())
}
