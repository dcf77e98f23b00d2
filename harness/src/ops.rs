//! Driving the codec: every public way of compressing and decompressing a stream.
use crate::gen::{Stream, VARIABLE};
use crate::rng::Rng;
use std::io::{Read, Seek, Write};
use std::sync::OnceLock;

macro_rules! codec {
    ($m:ident, $laz:ident, $vlr:ident) => {
        pub mod $m {
            use super::*;
            pub type Error = $laz::LasZipError;

            /// The plainest way to write a stream.
            pub fn compress<W: Write + Seek + Send + Sync>(s: &Stream, dst: W) -> Result<W, Error> {
                let mut c = $laz::LasZipCompressor::new(dst, s.layout.$vlr(s.chunk_size))?;
                if s.chunk_size == VARIABLE {
                    c.compress_chunks(s.chunk_bytes())?;
                } else {
                    c.compress_many(&s.points)?;
                }
                c.done()?;
                Ok(c.into_inner())
            }
            pub fn compress_vec(s: &Stream) -> Result<Vec<u8>, Error> {
                Ok(compress(s, std::io::Cursor::new(vec![]))?.into_inner())
            }
            /// The plainest way to read `n` points.
            pub fn decompress<Rd: Read + Seek + Send + Sync>(
                s: &Stream,
                src: Rd,
                n: usize,
            ) -> Result<Vec<u8>, Error> {
                let mut d = $laz::LasZipDecompressor::new(src, s.layout.$vlr(s.chunk_size))?;
                let mut out = vec![0u8; n * s.size()];
                d.decompress_many(&mut out)?;
                Ok(out)
            }
            pub fn decompress_vec(s: &Stream, bytes: &[u8]) -> Result<Vec<u8>, Error> {
                decompress(s, std::io::Cursor::new(bytes), s.n)
            }
        }
    };
}

codec!(cur, laz, vlr);
codec!(reference, laz_ref, vlr_ref);

/// Splits `0..n` into random consecutive batches.
pub fn batches(rng: &mut Rng, n: usize, hint: usize) -> Vec<usize> {
    let mut v = vec![];
    let mut left = n;
    let style = rng.below(5);
    let hint = hint.max(1);
    while left > 0 {
        let b = match style {
            0 => left,
            1 => 1 + rng.usize(7),
            2 => *rng.pick(&[hint, hint + 1, hint.saturating_sub(1).max(1), 2 * hint, 1]),
            3 => 1 + rng.usize(3 * hint),
            _ => {
                if rng.chance(1, 6) {
                    0
                } else {
                    1 + rng.usize(n)
                }
            }
        };
        // keep the number of calls bounded
        let b = if b == 0 { 0 } else { b.max(n / 400) }.min(left);
        v.push(b);
        left -= b;
    }
    if rng.chance(1, 4) {
        v.push(0);
    }
    v
}

pub const POOLS: [usize; 6] = [1, 2, 3, 4, 7, 16];

/// Shared rayon pools of several sizes.
pub fn pool(k: usize) -> &'static rayon::ThreadPool {
    static P: OnceLock<Vec<OnceLock<rayon::ThreadPool>>> = OnceLock::new();
    let v = P.get_or_init(|| POOLS.iter().map(|_| OnceLock::new()).collect());
    v[k].get_or_init(|| rayon::ThreadPoolBuilder::new().num_threads(POOLS[k]).build().expect("pool"))
}
pub fn any_pool(rng: &mut Rng) -> &'static rayon::ThreadPool {
    pool(rng.usize(if cfg!(miri) { 3 } else { POOLS.len() }))
}

/// Random mixture of the sequential compressor's entry points. Returns a description.
pub fn seq_compress_any<W: Write + Seek + Send + Sync>(
    rng: &mut Rng,
    s: &Stream,
    dst: W,
) -> Result<(W, String), laz::LasZipError> {
    use laz::{LazCompressor, LazCompressorWithInner};
    let mut c = laz::LasZipCompressor::new(dst, s.vlr())?;
    let mut how = String::new();
    if rng.chance(1, 4) {
        how.push_str("reserve ");
        c.reserve_offset_to_chunk_table()?;
    }
    let size = s.size();
    let feed = |rng: &mut Rng, c: &mut laz::LasZipCompressor<'_, W>, pts: &[u8], how: &mut String| -> Result<(), laz::LasZipError> {
        let mut at = 0;
        for b in batches(rng, pts.len() / size, s.cuts.first().copied().unwrap_or(1)) {
            let p = &pts[at..at + b * size];
            at += b * size;
            let style = rng.below(4);
            how.push_str(&format!("{b}/{style} "));
            match style {
                0 => c.compress_many(p)?,
                1 => {
                    for q in p.chunks_exact(size) {
                        c.compress_one(q)?
                    }
                }
                2 => LazCompressor::compress_many(c, p)?,
                _ => {
                    let d: &mut dyn LazCompressor = c;
                    for q in p.chunks_exact(size) {
                        d.compress_one(q)?
                    }
                }
            }
        }
        Ok(())
    };
    if s.variable() {
        let chunks = s.chunk_bytes();
        let mut k = 0;
        while k < chunks.len() {
            match rng.below(3) {
                0 => {
                    let m = 1 + rng.usize(chunks.len() - k);
                    how.push_str(&format!("chunks x{m} "));
                    c.compress_chunks(&chunks[k..k + m])?;
                    k += m;
                }
                _ => {
                    feed(rng, &mut c, chunks[k], &mut how)?;
                    k += 1;
                    // `done` ends the last chunk by itself
                    if k < chunks.len() || rng.bool() {
                        how.push_str("finish ");
                        c.finish_current_chunk()?;
                    }
                }
            }
        }
    } else {
        feed(rng, &mut c, &s.points, &mut how)?;
    }
    if rng.bool() {
        c.done()?;
    } else {
        LazCompressor::done(&mut c)?;
    }
    how.truncate(400);
    let inner = if rng.bool() { c.into_inner() } else { LazCompressorWithInner::into_inner(c) };
    Ok((inner, how))
}

/// Random mixture of the parallel compressor's entry points.
pub fn par_compress_any<W: Write + Seek + Send + Sync>(
    rng: &mut Rng,
    s: &Stream,
    dst: W,
) -> Result<(W, String), laz::LasZipError> {
    use laz::{LazCompressor, LazCompressorWithInner};
    let pool = any_pool(rng);
    let mut how = format!("pool {} ", pool.current_num_threads());
    let mut c = laz::ParLasZipCompressor::new(dst, s.vlr())?;
    if rng.chance(1, 4) {
        how.push_str("reserve ");
        c.reserve_offset_to_chunk_table()?;
    }
    let size = s.size();
    let mut r = rng.clone();
    pool.install(|| -> Result<(), laz::LasZipError> {
        if s.variable() {
            let chunks = s.chunk_bytes();
            let mut k = 0;
            while k < chunks.len() {
                let m = 1 + r.usize(chunks.len() - k);
                how.push_str(&format!("chunks x{m} "));
                if r.bool() {
                    c.compress_chunks(chunks[k..k + m].to_vec())?;
                } else {
                    let owned: Vec<Vec<u8>> = chunks[k..k + m].iter().map(|c| c.to_vec()).collect();
                    c.compress_chunks(owned)?;
                }
                k += m;
            }
        } else {
            let mut at = 0;
            for b in batches(&mut r, s.n, s.cuts.first().copied().unwrap_or(1)) {
                let p = &s.points[at..at + b * size];
                at += b * size;
                let style = r.below(4);
                how.push_str(&format!("{b}/{style} "));
                match style {
                    0 | 1 => c.compress_many(p)?,
                    2 => LazCompressor::compress_many(&mut c, p)?,
                    _ => {
                        let d: &mut dyn LazCompressor = &mut c;
                        for q in p.chunks_exact(size) {
                            d.compress_one(q)?
                        }
                    }
                }
            }
        }
        if r.bool() {
            c.done()?;
        } else {
            LazCompressor::done(&mut c)?;
        }
        Ok(())
    })?;
    *rng = r;
    how.truncate(400);
    let inner = if rng.bool() { c.into_inner() } else { LazCompressorWithInner::into_inner(c) };
    Ok((inner, how))
}
