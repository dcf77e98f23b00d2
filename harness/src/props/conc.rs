//! C18: codecs on many threads. The functional oracle is the frozen sequential implementation; the
//! build with the race detector runs the same workload and reports accesses that race.
use crate::ctx::*;
use crate::gen::{self, Stream};
use crate::ops;
use crate::props::stream::{par_read_any, seq_read_any};
use crate::rng::{hash_str, mix, Rng};
use crate::Prop;
use std::io::{Cursor, Read, Result as IoResult, Seek, SeekFrom, Write};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Barrier;

pub fn register(v: &mut Vec<Prop>) {
    v.push(Prop { id: "C18", run: together, directed: 0, quick: 900, thorough: 40000, workers: 3 });
}

/// Tickets drawn without synchronising anything, to know how the threads were interleaved.
struct Tickets(AtomicU64);
impl Tickets {
    fn draw(&self) -> u64 {
        self.0.fetch_add(1, Ordering::Relaxed)
    }
}

/// A stream that loses time at random, to vary the schedule.
struct Jitter<T> {
    inner: T,
    rng: Rng,
    level: u64,
}
impl<T> Jitter<T> {
    fn new(rng: &mut Rng, inner: T) -> Self {
        let level = *rng.pick(&[0u64, 0, 3, 20]);
        Jitter { inner, rng: Rng::new(rng.u64()), level }
    }
    fn lose(&mut self) {
        lose_time(&mut self.rng, self.level);
    }
}
fn lose_time(rng: &mut Rng, level: u64) {
    if level != 0 && rng.chance(1, level) {
        match rng.below(3) {
            0 => std::thread::yield_now(),
            1 => (0..rng.below(400)).for_each(|_| std::hint::spin_loop()),
            _ => std::thread::sleep(std::time::Duration::from_micros(rng.below(80))),
        }
    }
}
impl<T: Read> Read for Jitter<T> {
    fn read(&mut self, b: &mut [u8]) -> IoResult<usize> {
        self.lose();
        self.inner.read(b)
    }
}
impl<T: Write> Write for Jitter<T> {
    fn write(&mut self, b: &[u8]) -> IoResult<usize> {
        self.lose();
        self.inner.write(b)
    }
    fn flush(&mut self) -> IoResult<()> {
        self.inner.flush()
    }
}
impl<T: Seek> Seek for Jitter<T> {
    fn seek(&mut self, p: SeekFrom) -> IoResult<u64> {
        self.lose();
        self.inner.seek(p)
    }
}

struct Job {
    s: Stream,
    bytes: Vec<u8>,
}

fn job(c: &mut Ctx, layout: Option<gen::Layout>) -> Result<Job, Fail> {
    let l = layout.unwrap_or_else(|| gen::any_layout(&mut c.rng));
    let m = c.max_points(400);
    let n = 1 + c.rng.usize(m);
    let variable = c.rng.bool();
    let p = gen::any_profile(&mut c.rng);
    let mut s = gen::stream_with(&mut c.rng, l, p, n, variable);
    if s.cuts.len() > 60 {
        s = gen::stream_with(&mut c.rng, s.layout.clone(), p, n, false);
    }
    let bytes = ops::reference::compress_vec(&s).must("reference compress")?;
    c.add("points", s.n as u64);
    c.add("chunks", s.cuts.len() as u64);
    Ok(Job { s, bytes })
}

fn differs(s: &Stream, want: &[u8], got: &[u8], sig: &str, how: &str) -> R {
    if want != got {
        let at = want.iter().zip(got).position(|(a, b)| a != b).unwrap_or(want.len().min(got.len()));
        return fail(sig, format!("{} [{how}]: differs from byte {at} on (lengths {} / {})", s.describe(), want.len(), got.len()));
    }
    Ok(())
}

/// What one thread does with one stream.
fn one(rng: &mut Rng, j: &Job, t: &Tickets, order: &mut Vec<u64>, vlr: &laz::LazVlr) -> R {
    let s = &j.s;
    let size = s.size();
    for _ in 0..1 + rng.usize(2) {
        order.push(t.draw());
        match rng.below(8) {
            0 => {
                let w = Jitter::new(rng, Cursor::new(vec![]));
                let (w, how) = ops::seq_compress_any(rng, s, w).must("compress")?;
                differs(s, &j.bytes, w.inner.get_ref(), "sequential bytes", &how)?;
            }
            1 | 2 => {
                let w = Jitter::new(rng, Cursor::new(vec![]));
                let (w, how) = ops::par_compress_any(rng, s, w).must("par compress")?;
                differs(s, &j.bytes, w.inner.get_ref(), "parallel bytes", &how)?;
            }
            3 => {
                let (out, how) = seq_read_any(rng, s, &j.bytes).must("read")?;
                differs(s, &s.points, &out, "sequential points", &how)?;
            }
            4 | 5 => {
                let (out, how) = par_read_any(rng, s, &j.bytes).must("par read")?;
                differs(s, &s.points, &out, "parallel points", &how)?;
            }
            6 => {
                // a reader hopping about, on the record shared by all threads
                let src = Jitter::new(rng, Cursor::new(&j.bytes[..]));
                let pool = ops::any_pool(rng);
                let mut d = laz::ParLasZipDecompressor::new(src, vlr.clone()).must("open")?;
                for _ in 0..3 {
                    let at = rng.usize(s.n);
                    let n = 1 + rng.usize(s.n - at);
                    let mut out = vec![0u8; n * size];
                    pool.install(|| d.seek(at as u64).and_then(|_| d.decompress_many(&mut out))).must("seek and read")?;
                    differs(s, &s.points[at * size..(at + n) * size], &out, "points after seek", &format!("seek {at} read {n}"))?;
                }
            }
            _ => {
                // half written, half appended
                let cut = s.chunk_spans().get(rng.usize(s.cuts.len())).map(|x| x.0).unwrap_or(0);
                let head = &s.points[..cut * size];
                let w = {
                    let mut k = laz::LasZipCompressor::new(Cursor::new(vec![]), vlr.clone()).must("new")?;
                    if s.variable() {
                        for x in s.chunk_spans().iter().take_while(|x| x.0 < cut) {
                            k.compress_chunks([&s.points[x.0 * size..(x.0 + x.1) * size]]).must("chunks")?;
                        }
                    } else if cut > 0 {
                        k.compress_many(head).must("many")?;
                    }
                    k.done().must("done")?;
                    k.into_inner().into_inner()
                };
                let w = Jitter::new(rng, Cursor::new(w));
                let pool = ops::any_pool(rng);
                let mut a = laz::ParLasZipAppender::new(w, vlr.clone(), cut as u64).must("appender")?;
                pool.install(|| -> Result<(), laz::LasZipError> {
                    if s.variable() {
                        let rest: Vec<&[u8]> =
                            s.chunk_spans().iter().filter(|x| x.0 >= cut).map(|x| &s.points[x.0 * size..(x.0 + x.1) * size]).collect();
                        a.compress_chunks(rest)?;
                    } else {
                        a.compress_many(&s.points[cut * size..])?;
                    }
                    a.done()
                })
                .must("append")?;
                let w = a.into_inner().inner.into_inner();
                differs(s, &j.bytes, &w, "appended bytes", &format!("{cut} kept"))?;
            }
        }
    }
    order.push(t.draw());
    Ok(())
}

fn together(c: &mut Ctx) -> R {
    match c.rng.below(6) {
        0..=2 => independent(c),
        3 => shared_pool(c),
        _ => handed_over(c),
    }
}

/// Every thread its own codecs, all at once.
fn independent(c: &mut Ctx) -> R {
    let threads = 2 + c.rng.usize(4);
    let same_layout = c.rng.bool();
    let shared = c.rng.chance(1, 3);
    let mut jobs = vec![job(c, None)?];
    if !shared {
        for _ in 1..threads {
            let l = same_layout.then(|| jobs[0].s.layout.clone());
            jobs.push(job(c, l)?);
        }
    }
    c.note(format!("{threads} threads, {} streams, {}", jobs.len(), jobs[0].s.describe()));
    let t = Tickets(AtomicU64::new(0));
    let vlr = jobs[0].s.vlr();
    let barrier = Barrier::new(threads);
    let rngs: Vec<Rng> = (0..threads).map(|_| Rng::new(c.rng.u64())).collect();
    let results: Vec<(R, Vec<u64>)> = std::thread::scope(|sc| {
        let hs: Vec<_> = rngs
            .into_iter()
            .enumerate()
            .map(|(i, mut rng)| {
                let (j, t, b, vlr) = (&jobs[i % jobs.len()], &t, &barrier, &vlr);
                sc.spawn(move || {
                    let mut order = vec![];
                    let own;
                    let vlr = if jobs_share(j, vlr) {
                        vlr
                    } else {
                        own = j.s.vlr();
                        &own
                    };
                    b.wait();
                    let r = crate::guarded(|| one(&mut rng, j, t, &mut order, vlr)).unwrap_or_else(Err);
                    (r, order)
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or((fail("thread", "died"), vec![]))).collect()
    });
    finish(c, &jobs, results, threads, "independent")
}

fn jobs_share(j: &Job, vlr: &laz::LazVlr) -> bool {
    let own = j.s.vlr();
    own.chunk_size() == vlr.chunk_size() && own.items() == vlr.items()
}

fn finish(c: &mut Ctx, jobs: &[Job], results: Vec<(R, Vec<u64>)>, threads: usize, kind: &str) -> R {
    let mut all: Vec<(u64, usize)> = vec![];
    for (i, (_, o)) in results.iter().enumerate() {
        all.extend(o.iter().map(|x| (*x, i)));
    }
    all.sort();
    let order: String = all.iter().map(|x| char::from(b'a' + x.1 as u8)).collect();
    c.st.seen("interleavings of calls", mix(&[threads as u64, hash_str(&order)]));
    c.add(kind, 1);
    c.add("threads", threads as u64);
    c.add("operations", all.len() as u64 - threads as u64);
    c.signature(mix(&jobs.iter().map(|j| j.s.signature()).collect::<Vec<_>>()));
    for (r, _) in results {
        r?;
    }
    Ok(())
}

/// Several callers sharing one pool, some of them tasks of that pool.
fn shared_pool(c: &mut Ctx) -> R {
    let threads = 2 + c.rng.usize(3);
    let mut jobs = vec![];
    for _ in 0..threads {
        jobs.push(job(c, None)?);
    }
    c.note(format!("{threads} tasks of one pool, {}", jobs[0].s.describe()));
    let t = Tickets(AtomicU64::new(0));
    let pool = ops::any_pool(&mut c.rng);
    let rngs: Vec<Rng> = (0..threads).map(|_| Rng::new(c.rng.u64())).collect();
    let slots: Vec<std::sync::Mutex<Option<(R, Vec<u64>)>>> = (0..threads).map(|_| std::sync::Mutex::new(None)).collect();
    pool.scope(|sc| {
        for (i, mut rng) in rngs.into_iter().enumerate() {
            let (j, t, slot) = (&jobs[i], &t, &slots[i]);
            sc.spawn(move |_| {
                let mut order = vec![];
                let vlr = j.s.vlr();
                let r = crate::guarded(|| nested(&mut rng, j, t, &mut order, &vlr)).unwrap_or_else(Err);
                *slot.lock().unwrap() = Some((r, order));
            });
        }
    });
    let results = slots.into_iter().map(|s| s.into_inner().unwrap().unwrap_or((fail("task", "lost"), vec![]))).collect();
    finish(c, &jobs, results, threads, "tasks of one pool")
}

/// As `one`, but in the pool of the caller.
fn nested(rng: &mut Rng, j: &Job, t: &Tickets, order: &mut Vec<u64>, vlr: &laz::LazVlr) -> R {
    let s = &j.s;
    order.push(t.draw());
    let mut w = Jitter::new(rng, Cursor::new(vec![]));
    if s.variable() {
        let mut k = laz::ParLasZipCompressor::new(&mut w, vlr.clone()).must("new")?;
        k.compress_chunks(s.chunk_bytes()).must("chunks")?;
        k.done().must("done")?;
    } else {
        laz::par_compress_buffer(&mut w, &s.points, vlr).must("buffer")?;
    }
    differs(s, &j.bytes, w.inner.get_ref(), "nested bytes", "in a task")?;
    order.push(t.draw());
    let mut out = vec![0u8; s.points.len()];
    laz::par_decompress_buffer(&j.bytes, &mut out, vlr).must("read")?;
    differs(s, &s.points, &out, "nested points", "in a task")?;
    Ok(())
}

/// One codec passed from thread to thread between calls, several of them at a time.
fn handed_over(c: &mut Ctx) -> R {
    let j = job(c, None)?;
    let s = &j.s;
    let size = s.size();
    c.note(format!("handed over between threads, {}", s.describe()));
    c.signature(mix(&[s.signature(), 77]));
    let par = c.rng.bool();
    let steps = ops::batches(&mut c.rng, s.n, s.cuts[0]);
    let steps: Vec<usize> = if steps.len() > 12 { vec![s.n / 2, s.n - s.n / 2] } else { steps };
    let mut handed = 0;
    // the writer
    macro_rules! hop {
        ($k:ident, $e:expr) => {{
            let mut k = $k;
            let r = std::thread::scope(|sc| {
                sc.spawn(move || {
                    let r = $e(&mut k);
                    (k, r)
                })
                .join()
            });
            handed += 1;
            match r {
                Ok((k, r)) => {
                    $k = k;
                    r
                }
                Err(_) => return Err(crate::last_panic()),
            }
        }};
    }
    let bytes = if par {
        let mut k = laz::ParLasZipCompressor::new(Cursor::new(vec![]), s.vlr()).must("new")?;
        if s.variable() {
            for x in s.chunk_bytes() {
                hop!(k, |k: &mut laz::ParLasZipCompressor<_>| k.compress_chunks(vec![x])).must("chunks")?;
            }
        } else {
            let mut at = 0;
            for b in &steps {
                let p = &s.points[at * size..(at + b) * size];
                at += b;
                hop!(k, |k: &mut laz::ParLasZipCompressor<_>| k.compress_many(p)).must("many")?;
            }
        }
        hop!(k, |k: &mut laz::ParLasZipCompressor<_>| k.done()).must("done")?;
        k.into_inner().into_inner()
    } else {
        let mut k = laz::LasZipCompressor::new(Cursor::new(vec![]), s.vlr()).must("new")?;
        if s.variable() {
            for x in s.chunk_bytes() {
                let m = c.rng.usize(x.len() / size + 1) * size;
                hop!(k, |k: &mut laz::LasZipCompressor<_>| k.compress_many(&x[..m])).must("many")?;
                hop!(k, |k: &mut laz::LasZipCompressor<_>| k.compress_many(&x[m..])).must("many")?;
                hop!(k, |k: &mut laz::LasZipCompressor<_>| k.finish_current_chunk()).must("finish")?;
            }
        } else {
            let mut at = 0;
            for b in &steps {
                let p = &s.points[at * size..(at + b) * size];
                at += b;
                hop!(k, |k: &mut laz::LasZipCompressor<_>| k.compress_many(p)).must("many")?;
            }
        }
        hop!(k, |k: &mut laz::LasZipCompressor<_>| k.done()).must("done")?;
        k.into_inner().into_inner()
    };
    differs(s, &j.bytes, &bytes, "bytes of a codec handed over", if par { "parallel" } else { "sequential" })?;
    // the reader
    let mut out = vec![0u8; s.points.len()];
    let mut at = 0;
    let par = c.rng.bool();
    if par {
        let mut d = laz::ParLasZipDecompressor::new(Cursor::new(&bytes), s.vlr()).must("open")?;
        for b in &steps {
            let p = &mut out[at * size..(at + b) * size];
            at += b;
            hop!(d, |d: &mut laz::ParLasZipDecompressor<_>| d.decompress_many(p)).must("read")?;
        }
    } else {
        let mut d = laz::LasZipDecompressor::new(Cursor::new(&bytes), s.vlr()).must("open")?;
        for b in &steps {
            let p = &mut out[at * size..(at + b) * size];
            at += b;
            hop!(d, |d: &mut laz::LasZipDecompressor<_>| d.decompress_many(p)).must("read")?;
        }
        let to = c.rng.usize(s.n);
        hop!(d, |d: &mut laz::LasZipDecompressor<_>| d.seek(to as u64)).must("seek")?;
        let mut p = vec![0u8; size];
        let q = &mut p;
        hop!(d, |d: &mut laz::LasZipDecompressor<_>| d.decompress_one(q)).must("read")?;
        differs(s, s.point(to), &p, "point of a codec handed over", "after a seek")?;
    }
    differs(s, &s.points, &out, "points of a codec handed over", if par { "parallel" } else { "sequential" })?;
    c.add("handed over", handed);
    Ok(())
}
