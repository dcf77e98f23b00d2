//! C15: failing and short I/O. C16: corrupt input. C20: no usable chunk table. C26: truncation.
//! C30: damage stays in its chunk.
use super::hist::any_selection;
use super::stream::{any_scale, any_stream, count_stream, parse, same};
use crate::ctx::*;
use crate::gen::{self, Stream, VARIABLE};
use crate::mio::{MonFile, Plan};
use crate::ops;
use crate::rng::{hash_bytes, mix, Rng};
use crate::{guarded, Prop};
use laz::{LasZipAppender, LasZipDecompressor, LazVlr, ParLasZipAppender, ParLasZipDecompressor};
use std::io::{Cursor, ErrorKind, Seek, SeekFrom};

pub fn register(v: &mut Vec<Prop>) {
    v.push(Prop { id: "C16", run: corrupt, directed: 0, quick: 6000, thorough: 1000000, workers: 0 });
    v.push(Prop { id: "C15", run: io_faults, directed: 0, quick: 300, thorough: 60000, workers: 0 });
    v.push(Prop { id: "C20", run: no_table, directed: 0, quick: 900, thorough: 120000, workers: 0 });
    v.push(Prop { id: "C26", run: truncated, directed: 0, quick: 250, thorough: 60000, workers: 0 });
    v.push(Prop { id: "C30", run: damage, directed: 0, quick: 900, thorough: 120000, workers: 0 });
}

// ------------------------------------------------------------------------------------------------
// C16

/// Places of a stream whose bytes mean something special.
fn hot_spots(s: &Stream, bytes: &[u8]) -> Vec<usize> {
    let mut v = vec![0, 4];
    if let Ok(p) = parse(s, bytes, 0) {
        let mut at = p.data_start as usize;
        for e in &p.table {
            v.push(at);
            v.push(at + s.size());
            for k in 0..12 {
                v.push(at + s.size() + 4 + 4 * k);
            }
            at += e.byte_count as usize;
        }
        v.push(p.table_pos as usize);
        v.push(p.table_pos as usize + 4);
        v.push(p.table_pos as usize + 8);
        v.push(p.table_pos as usize + 12);
    }
    v.retain(|x| *x < bytes.len());
    v
}

fn hostile_u32(rng: &mut Rng) -> u32 {
    match rng.below(8) {
        0 => 0,
        1 => u32::MAX,
        2 => 0x7fff_ffff,
        3 => 0x8000_0000,
        4 => 1 << rng.below(32),
        5 => rng.below(300) as u32,
        6 => 0u32.wrapping_sub(rng.below(300) as u32),
        _ => rng.u32(),
    }
}

fn mutate(rng: &mut Rng, s: &Stream, bytes: &mut Vec<u8>) -> String {
    let mut how = String::new();
    let spots = hot_spots(s, bytes);
    for _ in 0..1 + rng.usize(4) {
        if bytes.is_empty() {
            break;
        }
        let at = if rng.bool() { (*rng.pick(&spots)).min(bytes.len() - 1) } else { rng.usize(bytes.len()) };
        let kind = rng.below(13);
        match kind {
            0 | 1 => bytes[at] ^= 1 << rng.below(8),
            2 => bytes[at] = *rng.pick(&[0, 0xff, 0x80, 0x7f, 1]),
            3 | 4 => {
                let v = hostile_u32(rng).to_le_bytes();
                for (i, b) in v.iter().enumerate() {
                    if at + i < bytes.len() {
                        bytes[at + i] = *b;
                    }
                }
            }
            5 => bytes.truncate(at),
            6 => {
                let n = 1 + rng.usize(40);
                let fill = *rng.pick(&[Some(0u8), Some(0xff), Some(0x55), None]);
                for _ in 0..n {
                    let b = fill.unwrap_or_else(|| rng.u32() as u8);
                    bytes.insert(at, b);
                }
            }
            7 => {
                let e = (at + 1 + rng.usize(40)).min(bytes.len());
                bytes.drain(at..e);
            }
            8 => {
                // the same bytes somewhere else
                let e = (at + 1 + rng.usize(60)).min(bytes.len());
                let part = bytes[at..e].to_vec();
                let to = rng.usize(bytes.len());
                for (i, b) in part.iter().enumerate() {
                    if to + i < bytes.len() {
                        bytes[to + i] = *b;
                    }
                }
            }
            9 => {
                let e = (at + 1 + rng.usize(300)).min(bytes.len());
                let fill = *rng.pick(&[Some(0u8), Some(0xff), None]);
                for b in &mut bytes[at..e] {
                    *b = fill.unwrap_or_else(|| rng.u32() as u8);
                }
            }
            10 => {
                let n = rng.usize(300);
                let fill = *rng.pick(&[Some(0u8), Some(0xff), None]);
                for _ in 0..n {
                    let b = fill.unwrap_or_else(|| rng.u32() as u8);
                    bytes.push(b);
                }
            }
            11 => {
                // the table is said to be somewhere else
                if bytes.len() >= 8 {
                    let v: i64 = match rng.below(6) {
                        0 => -1,
                        1 => i64::MIN,
                        2 => i64::MAX,
                        3 => bytes.len() as i64 - rng.below(9) as i64,
                        _ => rng.below(bytes.len() as u64) as i64,
                    };
                    let n = bytes.len();
                    let to = if rng.bool() { 0 } else { n - 8 };
                    bytes[to..to + 8].copy_from_slice(&v.to_le_bytes());
                }
            }
            _ => {
                // everything random from there on
                for b in &mut bytes[at..] {
                    *b = rng.u32() as u8;
                }
            }
        }
        how.push_str(&format!("{kind}@{at} "));
    }
    how
}

fn mutate_vlr(rng: &mut Rng, v: &mut Vec<u8>) {
    for _ in 0..1 + rng.usize(3) {
        let at = rng.usize(v.len());
        match rng.below(6) {
            0 => v[at] ^= 1 << rng.below(8),
            1 => v[at] = rng.u32() as u8,
            2 => {
                // chunk size
                let x = hostile_u32(rng).to_le_bytes();
                if v.len() >= 16 {
                    v[12..16].copy_from_slice(&x)
                }
            }
            3 => {
                // compressor
                v[0] = rng.below(5) as u8
            }
            4 => v.truncate(at.max(1)),
            _ => {
                // item list: type, size, version
                if v.len() > 34 {
                    let i = 34 + 2 * rng.usize((v.len() - 34) / 2);
                    v[i] = rng.below(16) as u8;
                }
            }
        }
    }
}

/// An index or a count that nobody would ask for in good faith.
fn hostile_index(rng: &mut Rng, n: u64) -> u64 {
    match rng.below(6) {
        0 => u64::MAX - rng.below(3),
        1 => u64::from(u32::MAX) + rng.below(3),
        2 => n + rng.below(10),
        3 => 1 << rng.below(64),
        _ => rng.below(n.max(1)),
    }
}

fn tally<T, E: std::fmt::Debug>(c: &mut Ctx, what: &str, r: &Result<T, E>) {
    match r {
        Ok(_) => c.add(&format!("{what}: result"), 1),
        Err(e) => {
            c.add(&format!("{what}: error"), 1);
            let text = format!("{e:?}");
            c.st.seen("distinct errors", crate::rng::hash_str(&text));
        }
    }
}

fn hostile_calls(c: &mut Ctx, vlr: &LazVlr, bytes: &[u8], n: usize, start: u64) -> R {
    let size = vlr.items_size() as usize;
    let n = n + c.rng.usize(300);
    let plan = || Plan { max_ops: Some(3_000_000), ..Plan::default() };
    let file = |b: &[u8]| MonFile::with(b.to_vec(), start, plan());
    let mut rng = c.rng.clone();
    let sel = any_selection(&mut rng);
    let style = rng.below(8);
    let name = ["seq read", "seq seeks", "par read", "par seeks", "appender", "par appender", "buffers", "table"][style as usize];
    c.st.seen("entry point x layout x damage", mix(&[style, size as u64, hash_bytes(bytes)]));
    let r = guarded(|| match style {
        0 | 1 => {
            let d = if rng.bool() {
                LasZipDecompressor::new(file(bytes), vlr.clone())
            } else {
                LasZipDecompressor::selective(file(bytes), vlr.clone(), sel)
            };
            tally(c, "seq open", &d);
            let Ok(mut d) = d else { return };
            let mut errors = 0;
            for _ in 0..if style == 0 { 4 } else { 14 } {
                let r = if style == 0 || rng.bool() {
                    let mut out = vec![0u8; size * (1 + rng.usize(n))];
                    let r = d.decompress_many(&mut out).map_err(laz::LasZipError::from);
                    tally(c, "seq read", &r);
                    r
                } else {
                    let r = d.seek(hostile_index(&mut rng, n as u64));
                    tally(c, "seq seek", &r);
                    r
                };
                errors += u32::from(r.is_err());
                if errors > 6 {
                    break;
                }
            }
            let _ = d.into_inner();
        }
        2 | 3 => {
            let d = if rng.bool() {
                ParLasZipDecompressor::new(file(bytes), vlr.clone())
            } else {
                ParLasZipDecompressor::selective(file(bytes), vlr.clone(), sel)
            };
            tally(c, "par open", &d);
            let Ok(mut d) = d else { return };
            let pool = ops::any_pool(&mut rng);
            let mut errors = 0;
            for _ in 0..if style == 2 { 4 } else { 14 } {
                let r = if style == 2 || rng.bool() {
                    let mut out = vec![0u8; size * (1 + rng.usize(n))];
                    let r = pool.install(|| d.decompress_many(&mut out));
                    tally(c, "par read", &r);
                    r
                } else {
                    let r = d.seek(hostile_index(&mut rng, n as u64));
                    tally(c, "par seek", &r);
                    r
                };
                errors += u32::from(r.is_err());
                if errors > 6 {
                    break;
                }
            }
        }
        4 | 5 => {
            let k = hostile_index(&mut rng, n as u64);
            let pts = gen::noise(&mut rng, size * 5);
            if style == 4 {
                let a = LasZipAppender::new(file(bytes), vlr.clone(), k);
                tally(c, "append open", &a);
                let Ok(mut a) = a else { return };
                let r = a.compress_many(&pts);
                tally(c, "append write", &r);
                if r.is_ok() {
                    let r = a.done();
                    tally(c, "append done", &r);
                }
            } else {
                let a = ParLasZipAppender::new(file(bytes), vlr.clone(), k);
                tally(c, "par append open", &a);
                let Ok(mut a) = a else { return };
                let r = if vlr.uses_variable_size_chunks() { a.compress_chunks(vec![pts]) } else { a.compress_many(&pts) };
                tally(c, "par append write", &r);
                if r.is_ok() {
                    let r = a.done();
                    tally(c, "par append done", &r);
                }
            }
        }
        6 => {
            let b = &bytes[(start as usize).min(bytes.len())..];
            let mut out = vec![0u8; size * (1 + rng.usize(n))];
            let r = laz::decompress_buffer(b, &mut out, vlr.clone());
            tally(c, "decompress_buffer", &r);
            let r = laz::par_decompress_buffer(b, &mut out, vlr);
            tally(c, "par_decompress_buffer", &r);
            // a table that somebody made up
            let mut t = vec![];
            for _ in 0..rng.usize(6) {
                t.push(laz::laszip::ChunkTableEntry {
                    point_count: u64::from(hostile_u32(&mut rng)),
                    byte_count: if rng.bool() { rng.below(b.len() as u64 + 9) } else { u64::from(hostile_u32(&mut rng)) },
                });
            }
            let r = laz::par_decompress_selective(b, &mut out, vlr, &t, sel);
            tally(c, "par_decompress", &r);
        }
        _ => {
            let mut f = file(bytes);
            let r = laz::laszip::ChunkTable::read_from(&mut f, vlr);
            tally(c, "chunk table", &r);
            if let Ok(t) = r {
                c.st.max("chunk table entries", t.len() as u64);
            }
            let mut f = file(bytes);
            let to = rng.below(bytes.len() as u64 + 1);
            let _ = f.seek(SeekFrom::Start(to));
            let r = laz::laszip::ChunkTable::read(&mut f, rng.bool());
            tally(c, "chunk table anywhere", &r);
        }
    });
    c.rng = rng;
    r.map_err(|f| Fail { sig: format!("{name}:{}", f.sig), msg: format!("{name}: {}", f.msg) })
}

fn corrupt(c: &mut Ctx) -> R {
    crate::limit_allocations(256 << 20);
    // A byte of a chunk table can stand for thousands of entries: it is the input that is kept short.
    let l = gen::any_layout(&mut c.rng);
    let m = c.max_points(300).min(20_000 / l.size()).max(1);
    let s = gen::stream(&mut c.rng, l, m);
    let mut bytes = ops::cur::compress_vec(&s).must("compress")?;
    let mut start = 0u64;
    if c.rng.chance(1, 6) {
        // somewhere in a file
        let before = 1 + c.rng.usize(60);
        let off = i64::from_le_bytes(bytes[..8].try_into().unwrap()) + before as i64;
        bytes[..8].copy_from_slice(&off.to_le_bytes());
        let mut v = gen::noise(&mut c.rng, before);
        v.append(&mut bytes);
        bytes = v;
        start = before as u64;
    }
    let mut how = String::new();
    if !c.rng.chance(1, 10) {
        how = if start == 0 { mutate(&mut c.rng, &s, &mut bytes) } else {
            let mut tail = bytes.split_off(start as usize);
            let h = mutate(&mut c.rng, &s, &mut tail);
            bytes.extend(tail);
            h
        };
    }
    let mut vb = s.layout.vlr_bytes(s.layout.compressor(), s.chunk_size);
    let mut vlr_hit = false;
    if c.rng.chance(1, 4) {
        vlr_hit = true;
        if c.rng.bool() {
            // another valid record
            let l = gen::any_layout(&mut c.rng);
            let cs = *c.rng.pick(&[VARIABLE, 1, 50_000, u32::MAX - 1, 7]);
            let comp = 1 + c.rng.below(3) as u16;
            vb = l.vlr_bytes(comp, cs);
        } else {
            mutate_vlr(&mut c.rng, &mut vb);
        }
    }
    c.note(format!("{} damaged: {how}vlr {vlr_hit}", s.describe()));
    c.signature(mix(&[hash_bytes(&bytes), hash_bytes(&vb)]));
    let vlr = guarded(|| LazVlr::from_buffer(&vb)).map_err(|f| Fail { sig: format!("vlr:{}", f.sig), msg: f.msg })?;
    tally(c, "laszip record", &vlr);
    let Ok(vlr) = vlr else { return Ok(()) };
    if vlr.items_size() > 3000 {
        // thousands of extra bytes are legal, and slow
        c.add("skipped: huge points", 1);
        return Ok(());
    }
    let layered = vlr.items().first().map_or(false, |i| i.version() >= 3);
    let position = vlr.items().iter().any(|i| i.item_type() == laz::LazItemType::Point14);
    if layered && !position {
        // Empty layers stand for as many equal points as the file claims there are: gigabytes
        // of points are then what was asked for.
        let table = guarded(|| laz::laszip::ChunkTable::read_from(&mut MonFile::with(bytes.clone(), start, Plan::default()), &vlr))?;
        let listed = table.map_or(0, |t| t.as_ref().iter().map(|e| e.point_count).max().unwrap_or(0));
        let claimed = if vlr.uses_variable_size_chunks() { listed } else { u64::from(vlr.chunk_size()) };
        if claimed.saturating_mul(vlr.items_size()) > 128 << 20 {
            c.add("skipped: endless equal points", 1);
            return Ok(());
        }
    }
    for _ in 0..3 {
        hostile_calls(c, &vlr, &bytes, s.n, start)?;
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------------
// C15

use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};

#[derive(Clone, Copy, Debug, PartialEq)]
enum Job {
    SeqWrite,
    ParWrite,
    SeqRead,
    ParRead,
    SeqAppend,
    ParAppend,
    SeqSeek,
    ParSeek,
}

struct Scene {
    job: Job,
    s: Stream,
    /// the stream as it is before the job
    before: Vec<u8>,
    /// the points that the file then holds (appending)
    extra: Stream,
    seed: u64,
    selected: bool,
}

impl Scene {
    /// Does the job on a file that behaves as told. `Ok` holds what came out of it: the file, or points.
    fn run(&self, plan: Plan) -> (Result<Vec<u8>, String>, u64) {
        let mut rng = Rng::new(self.seed);
        let s = &self.s;
        let size = s.size();
        let ops = Arc::new(AtomicU64::new(0));
        let file = |data: Vec<u8>| {
            let mut f = MonFile::with(data, 0, plan.clone());
            f.op_count = Some(ops.clone());
            f
        };
        let e = |e: laz::LasZipError| format!("{e:?}");
        let r = (|| match self.job {
            Job::SeqWrite => Ok(ops::seq_compress_any(&mut rng, s, file(vec![])).map_err(e)?.0.data),
            Job::ParWrite => Ok(ops::par_compress_any(&mut rng, s, file(vec![])).map_err(e)?.0.data),
            Job::SeqRead => {
                let mut d = LasZipDecompressor::new(file(self.before.clone()), s.vlr()).map_err(e)?;
                let mut out = vec![0u8; s.n * size];
                let mut at = 0;
                for b in ops::batches(&mut rng, s.n, 10) {
                    d.decompress_many(&mut out[at * size..(at + b) * size]).map_err(|x| e(x.into()))?;
                    at += b;
                }
                Ok(out)
            }
            Job::ParRead => {
                let mut d = ParLasZipDecompressor::new(file(self.before.clone()), s.vlr()).map_err(e)?;
                let mut out = vec![0u8; s.n * size];
                let mut at = 0;
                let pool = ops::any_pool(&mut rng);
                for b in ops::batches(&mut rng, s.n, 10) {
                    pool.install(|| d.decompress_many(&mut out[at * size..(at + b) * size])).map_err(e)?;
                    at += b;
                }
                Ok(out)
            }
            Job::SeqSeek | Job::ParSeek => {
                let mut all = vec![];
                let mut seq = None;
                let mut par = None;
                if self.job == Job::SeqSeek {
                    seq = Some(LasZipDecompressor::new(file(self.before.clone()), s.vlr()).map_err(e)?);
                } else {
                    par = Some(ParLasZipDecompressor::new(file(self.before.clone()), s.vlr()).map_err(e)?);
                }
                for _ in 0..6 {
                    let i = rng.usize(s.n);
                    let k = 1 + rng.usize((s.n - i).min(30));
                    let mut out = vec![0u8; k * size];
                    if let Some(d) = &mut seq {
                        d.seek(i as u64).map_err(e)?;
                        d.decompress_many(&mut out).map_err(|x| e(x.into()))?;
                    }
                    if let Some(d) = &mut par {
                        d.seek(i as u64).map_err(e)?;
                        d.decompress_many(&mut out).map_err(e)?;
                    }
                    if out != s.points[i * size..(i + k) * size] {
                        return Ok(b"wrong points after a seek".to_vec());
                    }
                    all.extend_from_slice(&out);
                }
                Ok(all)
            }
            Job::SeqAppend => {
                let mut a = LasZipAppender::new(file(self.before.clone()), s.vlr(), s.n as u64).map_err(e)?;
                if s.variable() {
                    a.compress_chunks(self.extra.chunk_bytes()).map_err(|x| e(x.into()))?;
                } else {
                    a.compress_many(&self.extra.points).map_err(|x| e(x.into()))?;
                }
                a.done().map_err(e)?;
                Ok(a.into_inner().data)
            }
            Job::ParAppend => {
                let mut a = ParLasZipAppender::new(file(self.before.clone()), s.vlr(), s.n as u64).map_err(e)?;
                if s.variable() {
                    a.compress_chunks(self.extra.chunk_bytes()).map_err(|x| e(x.into()))?;
                } else {
                    a.compress_many(&self.extra.points).map_err(|x| e(x.into()))?;
                }
                a.done().map_err(e)?;
                Ok(a.into_inner().data)
            }
        })();
        (r, ops.load(Ordering::Relaxed))
    }
    fn reads(&self) -> bool {
        matches!(self.job, Job::SeqRead | Job::ParRead | Job::SeqSeek | Job::ParSeek)
    }
}

fn io_faults(c: &mut Ctx) -> R {
    let s = any_stream(c, 260);
    let job = *c.rng.pick(&[
        Job::SeqWrite, Job::ParWrite, Job::SeqRead, Job::ParRead, Job::SeqAppend, Job::ParAppend, Job::SeqSeek, Job::ParSeek,
    ]);
    let before = ops::cur::compress_vec(&s).must("compress")?;
    let mut more = gen::PointGen::new(&mut c.rng, &s.layout, s.profile);
    let n = 1 + c.rng.usize(120);
    let pts = more.points(&mut c.rng, n);
    let cuts = if s.variable() { gen::variable_cuts(&mut c.rng, n) } else { vec![n] };
    let extra = Stream { points: pts, n, cuts, ..s.clone() };
    let scene = Scene { job, s, before, extra, seed: c.rng.u64(), selected: false };
    c.note(format!("{job:?} {}", scene.s.describe()));
    c.signature(mix(&[scene.s.signature(), job as u64, scene.seed]));
    let (clean, total) = scene.run(Plan::default());
    let clean = clean.map_err(|e| Fail { sig: "clean-run".into(), msg: e })?;
    let d = || format!("{job:?} {}", scene.s.describe());
    if scene.reads() {
        ensure!(clean != b"wrong points after a seek", "clean-run", "{}", d());
        if !matches!(job, Job::SeqSeek | Job::ParSeek) {
            ensure!(clean == scene.s.points, "clean-run", "{}", d());
        }
    }
    c.st.max("operations of one run", total);

    // short and interrupted transfers change nothing
    for k in 0..3 {
        let plan = Plan { short: k != 1, interrupt: k != 0, seed: c.rng.u64(), ..Plan::default() };
        let (got, _) = guarded(|| scene.run(plan))?;
        match got {
            Ok(g) => ensure!(g == clean, "short-io-changes-result", "{} (short {} interrupted {})", d(), k != 1, k != 0),
            Err(e) => return fail("short-io-error", format!("{} (short {} interrupted {}): {e}", d(), k != 1, k != 0)),
        }
        c.add("runs with short or interrupted transfers", 1);
    }

    // a failing operation
    let mut at: Vec<u64> = vec![0, 1, 2, 3, total - 1, total.saturating_sub(2), total.saturating_sub(3)];
    let most = if c.thorough { 60 } else { 14 };
    while at.len() < most {
        at.push(c.rng.below(total));
    }
    if total as usize <= most {
        at = (0..total).collect();
        c.add("jobs with every operation failed in turn", 1);
    }
    at.sort();
    at.dedup();
    for k in at {
        if k >= total {
            continue;
        }
        let fired = Arc::new(AtomicU64::new(0));
        let sticky = c.rng.bool();
        let kind = *c.rng.pick(&[
            ErrorKind::Other, ErrorKind::BrokenPipe, ErrorKind::UnexpectedEof, ErrorKind::WouldBlock, ErrorKind::InvalidData,
            ErrorKind::TimedOut, ErrorKind::PermissionDenied, ErrorKind::InvalidInput,
        ]);
        let plan = Plan {
            fail_at: Some(k),
            fail_kind: Some(kind),
            sticky,
            fired: Some(fired.clone()),
            short: c.rng.chance(1, 8),
            seed: c.rng.u64(),
            ..Plan::default()
        };
        let how = format!("{} operation {k} of {total} fails with {kind:?} (for good: {sticky})", d());
        let (got, _) = guarded(|| scene.run(plan)).map_err(|f| Fail { sig: format!("{job:?}:{}", f.sig), msg: format!("{how}: {}", f.msg) })?;
        if fired.load(Ordering::SeqCst) == 0 {
            c.add("faults not reached", 1);
            continue;
        }
        c.add("faults injected", 1);
        c.st.seen("job x fault kind x layout", mix(&[job as u64, kind as u64, crate::rng::hash_str(&scene.s.layout.name)]));
        match got {
            Err(_) => c.add("faults reported", 1),
            Ok(g) if scene.reads() => {
                // e.g. a source whose table cannot be reached is read without it
                ensure!(g == clean, format!("{job:?}:fault-gives-wrong-points"), "{how}: success with wrong points");
                c.add("faults survived with the right points", 1);
            }
            Ok(_) => return fail(format!("{job:?}:fault-swallowed"), format!("{how}: reported as success")),
        }
    }

    // a full disk
    if !scene.reads() {
        for _ in 0..4 {
            let fired = Arc::new(AtomicU64::new(0));
            let room = c.rng.below(clean.len() as u64);
            let plan = Plan { full_at: Some(room), fired: Some(fired.clone()), short: c.rng.bool(), seed: c.rng.u64(), ..Plan::default() };
            let (got, _) = guarded(|| scene.run(plan))?;
            if fired.load(Ordering::SeqCst) > 0 {
                c.add("full disks", 1);
                ensure!(got.is_err(), format!("{job:?}:full-disk-swallowed"), "{}: only {room} of {} bytes fit, reported as success", d(), clean.len());
            }
        }
    }
    c.add(&format!("jobs {job:?}"), 1);
    let _ = scene.selected;
    Ok(())
}

// ------------------------------------------------------------------------------------------------
// C20

fn read_points(c: &mut Ctx, s: &Stream, d: &mut LasZipDecompressor<'_, MonFile>, out: &mut [u8]) -> Result<(), laz::LasZipError> {
    let size = s.size();
    let mut at = 0;
    for b in ops::batches(&mut c.rng, out.len() / size, 10) {
        d.decompress_many(&mut out[at * size..(at + b) * size])?;
        at += b;
    }
    Ok(())
}

fn no_table(c: &mut Ctx) -> R {
    let s = any_scale(c, 900);
    let size = s.size();
    let plain = ops::cur::compress_vec(&s).must("compress")?;
    let p = parse(&s, &plain, 0)?;
    let before = if c.rng.bool() { 0 } else { c.rng.usize(200) };
    let layered = s.layout.layered();
    let style = c.rng.below(5);
    let needs_table = s.variable() && !layered;
    let mut file = gen::noise(&mut c.rng, before);
    file.extend_from_slice(&plain);
    let abs = |x: u64| x + before as u64;
    let set = |f: &mut Vec<u8>, at: usize, v: i64| f[at..at + 8].copy_from_slice(&v.to_le_bytes());
    set(&mut file, before, abs(p.table_pos) as i64);
    let mut plan = Plan { seed: c.rng.u64(), short: c.rng.chance(1, 4), ..Plan::default() };
    let mut table_there = false;
    let how = match style {
        0 => {
            plan.no_seek = true;
            plan.no_tell = c.rng.bool();
            "source that cannot seek"
        }
        1 => {
            // the writer could only note the place at the end
            let front: i64 = *c.rng.pick(&[-1, -1, 0, i64::MIN, before as i64]);
            set(&mut file, before, front);
            file.extend_from_slice(&(abs(p.table_pos) as i64).to_le_bytes());
            table_there = true;
            "place of the table at the end"
        }
        2 => {
            // the writer never came to write it
            set(&mut file, before, -1);
            file.truncate(abs(p.table_pos) as usize);
            "no table, no place"
        }
        3 => {
            file.truncate(abs(p.table_pos) as usize);
            "table cut off"
        }
        _ => {
            let beyond = file.len() as i64 + *c.rng.pick(&[0, 1, 7, 1000, 1 << 40]);
            set(&mut file, before, beyond);
            "place beyond the end"
        }
    };
    c.note(format!("{how}: {}", s.describe()));
    c.signature(mix(&[s.signature(), style, before as u64]));
    count_stream(c, &s);
    c.add(&format!("{how}{}", if needs_table { " (table needed)" } else { "" }), 1);
    // whether the last bytes, by accident, look like the place of a table
    let accident = style != 1 && file.len() >= 8 && {
        let v = i64::from_le_bytes(file[file.len() - 8..].try_into().unwrap());
        style != 0 && v > before as i64 && (v as u64) < file.len() as u64
    };
    if accident {
        c.add("last bytes look like a place (skipped)", 1);
        return Ok(());
    }
    let m = MonFile::with(file.clone(), before as u64, plan.clone());
    let partial = layered && c.rng.chance(1, 3);
    let sel = if partial { any_selection(&mut c.rng) } else { laz::DecompressionSelection::all() };
    let d = LasZipDecompressor::selective(m, s.vlr(), sel);
    if needs_table && !table_there {
        // chunks of unknown sizes: refusing is all that can be done
        ensure!(d.is_err(), "needed-table-not-missed", "{how}: {}", s.describe());
        return Ok(());
    }
    let mut d = d.must(&format!("open: {how}"))?;
    let mut out = vec![0u8; s.n * size];
    read_points(c, &s, &mut d, &mut out).must(&format!("read: {how}"))?;
    let promised = super::hist::promised(&s, sel);
    let masked: Vec<u8> = out.iter().zip(promised.iter().cycle()).map(|(a, m)| a & m).collect();
    let want: Vec<u8> = s.points.iter().zip(promised.iter().cycle()).map(|(a, m)| a & m).collect();
    if let Some(x) = first_diff(&want, &masked, size) {
        return fail("wrong-points-without-table", format!("{how} [partial {partial}]: {}: {x}", s.describe()));
    }
    c.add("streams read", 1);
    if !table_there {
        // seeking needs it, and says so without losing the place
        let m = MonFile::with(file.clone(), before as u64, plan);
        let mut d = LasZipDecompressor::new(m, s.vlr()).must("open again")?;
        let k = c.rng.usize(s.n + 1);
        let mut out = vec![0u8; s.n * size];
        d.decompress_many(&mut out[..k * size]).must("first part")?;
        if c.rng.bool() {
            let i = c.rng.usize(s.n) as u64;
            ensure!(d.seek(i).is_err(), "seek-without-table", "{how}: {}: a seek to {i} succeeded", s.describe());
        }
        d.decompress_many(&mut out[k * size..]).must("second part")?;
        same(&s, &out, "failed-seek-loses-place", how)?;
        // nothing of this can be read in parallel
        let m = MonFile::new(file, before as u64);
        if style != 0 {
            ensure!(ParLasZipDecompressor::new(m, s.vlr()).is_err(), "par-without-table", "{how}: {}", s.describe());
        }
    } else {
        let i = c.rng.usize(s.n);
        let k = 1 + c.rng.usize((s.n - i).min(20));
        let mut o = vec![0u8; k * size];
        let mut d = LasZipDecompressor::new(MonFile::new(file.clone(), before as u64), s.vlr()).must("open")?;
        d.seek(i as u64).must("seek")?;
        d.decompress_many(&mut o).must("read after seek")?;
        ensure!(o == s.points[i * size..(i + k) * size], "seek-table-at-end", "{} point {i}", s.describe());
        let mut d = ParLasZipDecompressor::new(MonFile::new(file.clone(), before as u64), s.vlr()).must("par open")?;
        let mut out = vec![0u8; s.n * size];
        d.decompress_many(&mut out).must("par read")?;
        same(&s, &out, "par-table-at-end", how)?;
        d.seek(i as u64).must("par seek")?;
        d.decompress_many(&mut o).must("par read after seek")?;
        ensure!(o == s.points[i * size..(i + k) * size], "par-seek-table-at-end", "{} point {i}", s.describe());
        let mut m = MonFile::new(file, before as u64);
        let t = laz::laszip::ChunkTable::read_from(&mut m, &s.vlr()).must("table at end")?;
        ensure!(t.len() == p.table.len() && m.pos == before as u64 + 8, "table-at-end-position", "{} entries, left at {}", t.len(), m.pos);
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------------
// C26

/// Reads point by point until an error, at most `n`.
fn read_prefix<Rd: std::io::Read + Seek + Send + Sync>(s: &Stream, src: Rd) -> (Vec<u8>, bool) {
    let size = s.size();
    let mut out = vec![];
    let Ok(mut d) = LasZipDecompressor::new(src, s.vlr()) else { return (out, true) };
    let mut p = vec![0u8; size];
    for _ in 0..s.n {
        if d.decompress_one(&mut p).is_err() {
            return (out, true);
        }
        out.extend_from_slice(&p);
    }
    (out, false)
}

fn truncated(c: &mut Ctx) -> R {
    let l = gen::any_layout(&mut c.rng);
    let long = !c.small && (c.idx < 2 || c.rng.chance(1, 80)) && l.size() < 200;
    let n = if long {
        c.add("long streams", 1);
        15_000 + c.rng.usize(30_000)
    } else {
        let m = c.max_points(350);
        gen::point_count(&mut c.rng, m)
    };
    let profile = gen::any_profile(&mut c.rng);
    let s = gen::stream_with(&mut c.rng, l, profile, n, false);
    c.note(s.describe());
    c.signature(s.signature());
    count_stream(c, &s);
    let size = s.size();
    let full = ops::cur::compress_vec(&s).must("compress")?;
    let p = parse(&s, &full, 0)?;
    // (end in bytes, points up to there) of every chunk
    let mut ends = vec![];
    let (mut at, mut pts) = (p.data_start, 0);
    for (e, k) in p.table.iter().zip(&s.cuts) {
        at += e.byte_count;
        pts += k;
        ends.push((at, pts));
    }
    let judge = |c: &mut Ctx, data: &[u8], how: &str| -> R {
        let (got, failed) = guarded(|| read_prefix(&s, Cursor::new(data)))?;
        let k = got.len() / size;
        ensure!(s.points[..got.len()] == got[..], "wrong-points-from-truncated", "{} [{how}]: {}", s.describe(), first_diff(&s.points[..got.len()], &got, size).unwrap_or_default());
        let must = ends.iter().rev().find(|e| e.0 <= data.len() as u64).map_or(0, |e| e.1);
        ensure!(k >= must, "complete-chunks-lost", "{} [{how}]: {k} points read, {must} lie in complete chunks", s.describe());
        ensure!(failed || k == s.n, "no-error-at-the-cut", "{} [{how}]", s.describe());
        c.add("truncated streams read", 1);
        c.add("points recovered", k as u64);
        Ok(())
    };
    let mut cuts: Vec<usize> = vec![];
    if full.len() <= 300 || (c.thorough && full.len() < 2000) {
        cuts.extend(0..full.len());
        c.add("streams cut at every byte", 1);
    } else {
        for _ in 0..25 {
            cuts.push(c.rng.usize(full.len()));
        }
        for e in &ends {
            for d in [-2i64, -1, 0, 1] {
                cuts.push(((e.0 as i64 + d).max(0) as usize).min(full.len() - 1));
            }
        }
        c.rng.shuffle(&mut cuts);
        cuts.truncate(if long { 6 } else { 40 });
    }
    for t in cuts {
        c.st.seen("cuts", mix(&[c.sig, t as u64]));
        judge(c, &full[..t], &format!("cut at byte {t} of {}", full.len()))?;
    }
    // what a writer that stops leaves behind: the bytes are there, the place of the table may not be
    let par = c.rng.bool();
    let seed = c.rng.u64();
    let count = Arc::new(AtomicU64::new(0));
    let write = |plan: Plan| {
        let mut f = MonFile::with(vec![], 0, plan);
        f.op_count = Some(count.clone());
        let mut r = Rng::new(seed);
        if par {
            ops::par_compress_any(&mut r, &s, f).map(|x| x.0.data)
        } else {
            ops::seq_compress_any(&mut r, &s, f).map(|x| x.0.data)
        }
    };
    let whole = write(Plan::default()).must("write")?;
    ensure!(whole == full, "call-history-changes-stream", "{}", s.describe());
    let total = count.load(Ordering::Relaxed);
    for _ in 0..if long { 2 } else if c.thorough { 40 } else { 12 } {
        let snap = Arc::new(Mutex::new(None));
        let k = if c.rng.bool() { c.rng.below(total) } else { total - 1 - c.rng.below(total.min(12)) };
        let r = guarded(|| write(Plan { fail_at: Some(k), sticky: true, snapshot: Some(snap.clone()), ..Plan::default() }))?;
        ensure!(r.is_err(), "writer-stop-not-reported", "{} operation {k} of {total}", s.describe());
        let left = snap.lock().unwrap().take().unwrap_or_default();
        judge(c, &left, &format!("writer (parallel: {par}) stopped at operation {k} of {total}"))?;
        c.add("interrupted writers", 1);
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------------
// C30

/// Bytes of one chunk are damaged (its size stays): the points of the others are unharmed.
fn damage(c: &mut Ctx) -> R {
    let mut s = any_scale(c, 700);
    if s.cuts.len() < 2 {
        let l = s.layout.clone();
        let n = 2 + s.n;
        let v = c.rng.bool();
        s = gen::stream_with(&mut c.rng, l, s.profile, n, v);
        if s.cuts.len() < 2 && !s.variable() {
            s.chunk_size = (n as u32 + 1) / 2;
            s.cuts = Stream::fixed_cuts(n, s.chunk_size);
        }
        c.note(s.describe());
        c.signature(s.signature());
    }
    c.nontrivial = s.cuts.len() >= 2;
    count_stream(c, &s);
    let size = s.size();
    let mut bytes = ops::cur::compress_vec(&s).must("compress")?;
    let p = parse(&s, &bytes, 0)?;
    let spans = s.chunk_spans();
    let bad = c.rng.usize(spans.len());
    let a = (p.data_start + p.table[..bad].iter().map(|e| e.byte_count).sum::<u64>()) as usize;
    let b = a + p.table[bad].byte_count as usize;
    for _ in 0..1 + c.rng.usize(6) {
        let at = a + c.rng.usize(b - a);
        match c.rng.below(4) {
            0 => bytes[at] ^= 1 << c.rng.below(8),
            1 => bytes[at] = c.rng.u32() as u8,
            2 => {
                let e = (at + 1 + c.rng.usize(20)).min(b);
                for x in &mut bytes[at..e] {
                    *x = c.rng.u32() as u8;
                }
            }
            _ => {
                let v = hostile_u32(&mut c.rng).to_le_bytes();
                for (i, x) in v.iter().enumerate() {
                    if at + i < b {
                        bytes[at + i] = *x;
                    }
                }
            }
        }
    }
    let (ba, bn) = spans[bad];
    // what lies in front of it, read from the start
    let mut d = LasZipDecompressor::new(Cursor::new(&bytes), s.vlr()).must("open")?;
    let mut out = vec![0u8; ba * size];
    d.decompress_many(&mut out).must("read up to the damage")?;
    ensure!(out == s.points[..ba * size], "points-before-damage", "{}: chunk {bad} is damaged", s.describe());
    if c.rng.bool() {
        let mut out = vec![0u8; bn * size];
        let r = guarded(|| d.decompress_many(&mut out))?;
        c.add(if r.is_ok() { "damaged chunk: result" } else { "damaged chunk: error" }, 1);
    }
    // then the others, by seeking, after whatever happened in the damaged one
    let pool = ops::any_pool(&mut c.rng);
    let mut pd = ParLasZipDecompressor::new(Cursor::new(&bytes), s.vlr()).must("par open")?;
    for _ in 0..5 {
        let k = c.rng.usize(spans.len());
        if k == bad {
            let mut o = vec![0u8; size * (1 + c.rng.usize(bn))];
            let i = (ba + c.rng.usize(bn)) as u64;
            let _ = guarded(|| {
                let _ = d.seek(i);
                let _ = d.decompress_many(&mut o);
                let _ = pd.seek(i);
                let _ = pool.install(|| pd.decompress_many(&mut o));
            })?;
            continue;
        }
        let (ka, kn) = spans[k];
        let i = ka + c.rng.usize(kn);
        let mut last = ka + kn;
        // up to the damage, or to the end
        let stop = if k < bad { ba } else { s.n };
        if c.rng.bool() {
            last = stop;
        }
        let m = 1 + c.rng.usize(last - i);
        let mut o = vec![0u8; m * size];
        d.seek(i as u64).must("seek to an intact chunk")?;
        d.decompress_many(&mut o).must("read an intact chunk")?;
        ensure!(o == s.points[i * size..(i + m) * size], "intact-chunk-changed", "{}: chunk {bad} is damaged, points {i}.. of chunk {k} differ", s.describe());
        o.fill(0);
        pd.seek(i as u64).must("par seek to an intact chunk")?;
        pool.install(|| pd.decompress_many(&mut o)).must("par read an intact chunk")?;
        ensure!(o == s.points[i * size..(i + m) * size], "par-intact-chunk-changed", "{}: chunk {bad} is damaged, points {i}.. of chunk {k} differ", s.describe());
        c.add("intact chunks read", 1);
    }
    Ok(())
}
