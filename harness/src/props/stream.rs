//! C03, C04, C05, C10, C14, C28, C29: whole streams, written and read in every way.
use crate::ctx::*;
use crate::gen::{self, Stream};
use crate::mio::{MonFile, Plan};
use crate::ops;
use crate::rng::Rng;
use crate::Prop;
use laz::laszip::{ChunkTable, ChunkTableEntry};
use laz::{LazCompressor, LazDecompressor};
use std::io::{Cursor, Seek, SeekFrom};

pub fn register(v: &mut Vec<Prop>) {
    v.push(Prop { id: "C03", run: call_splitting, directed: 0, quick: 1200, thorough: 80000, workers: 0 });
    v.push(Prop { id: "C04", run: par_compress, directed: 0, quick: 1200, thorough: 80000, workers: 0 });
    v.push(Prop { id: "C05", run: par_decompress, directed: 0, quick: 900, thorough: 60000, workers: 0 });
    v.push(Prop { id: "C10", run: chunk_table_accuracy, directed: 0, quick: 3000, thorough: 200000, workers: 0 });
    v.push(Prop { id: "C14", run: containment, directed: 0, quick: 1300, thorough: 80000, workers: 0 });
    v.push(Prop { id: "C28", run: empty_streams, directed: 0, quick: 2500, thorough: 100000, workers: 0 });
    v.push(Prop { id: "C29", run: over_read, directed: 0, quick: 500, thorough: 80000, workers: 0 });
}

pub fn any_stream(c: &mut Ctx, max: usize) -> Stream {
    let l = gen::any_layout(&mut c.rng);
    let m = c.max_points(max);
    let s = gen::stream(&mut c.rng, l, m);
    c.note(s.describe());
    c.signature(s.signature());
    s
}

/// As `any_stream`, with some that are long or have very many chunks.
pub fn any_scale(c: &mut Ctx, max: usize) -> Stream {
    if c.small || !(c.idx < 3 || c.rng.chance(1, 100)) {
        return any_stream(c, max);
    }
    let s = match c.idx {
        0 => gen::big_stream(&mut c.rng),
        1 => loop {
            let s = gen::many_chunks(&mut c.rng);
            if s.cuts.len() > 65_536 {
                break s;
            }
        },
        2 => gen::long_chunks(&mut c.rng),
        _ if c.rng.chance(1, 3) => gen::long_chunks(&mut c.rng),
        _ if c.rng.bool() => gen::big_stream(&mut c.rng),
        _ => gen::many_chunks(&mut c.rng),
    };
    c.note(s.describe());
    c.signature(s.signature());
    c.add("long streams", 1);
    c.st.max("longest stream", s.n as u64);
    c.st.max("most chunks", s.cuts.len() as u64);
    c.st.max("longest variable chunk", if s.variable() { s.cuts.iter().copied().max().unwrap_or(0) as u64 } else { 0 });
    s
}

pub fn count_stream(c: &mut Ctx, s: &Stream) {
    c.add("points", s.n as u64);
    c.add("chunks", s.cuts.len() as u64);
    c.add(if s.variable() { "variable_chunk_streams" } else { "fixed_chunk_streams" }, 1);
    c.st.seen("layouts", crate::rng::hash_str(&s.layout.name));
}

pub fn same(s: &Stream, got: &[u8], sig: &str, how: &str) -> R {
    if let Some(d) = first_diff(&s.points, got, s.size()) {
        return fail(sig, format!("{} [{how}]: {d}", s.describe()));
    }
    Ok(())
}

fn diff_at(a: &[u8], b: &[u8]) -> String {
    match (0..a.len().min(b.len())).find(|i| a[*i] != b[*i]) {
        Some(i) => format!("byte {i}: {} vs {} (lengths {} / {})", a[i], b[i], a.len(), b.len()),
        None => format!("lengths {} / {}", a.len(), b.len()),
    }
}

/// Any way of reading the whole stream sequentially.
pub fn seq_read_any(rng: &mut Rng, s: &Stream, bytes: &[u8]) -> Result<(Vec<u8>, String), laz::LasZipError> {
    let size = s.size();
    let mut out = vec![0u8; s.n * size];
    if rng.chance(1, 6) {
        laz::decompress_buffer(bytes, &mut out, s.vlr())?;
        return Ok((out, "decompress_buffer".into()));
    }
    let mut d = laz::LasZipDecompressor::new(Cursor::new(bytes), s.vlr())?;
    let mut how = String::new();
    let mut at = 0;
    for b in ops::batches(rng, s.n, s.cuts.first().copied().unwrap_or(1)) {
        let p = &mut out[at..at + b * size];
        at += b * size;
        let style = rng.below(4);
        how.push_str(&format!("{b}/{style} "));
        match style {
            0 => d.decompress_many(p)?,
            1 => {
                for q in p.chunks_exact_mut(size) {
                    d.decompress_one(q)?
                }
            }
            2 => LazDecompressor::decompress_many(&mut d, p)?,
            _ => {
                let d: &mut dyn LazDecompressor = &mut d;
                for q in p.chunks_exact_mut(size) {
                    d.decompress_one(q)?
                }
            }
        }
    }
    how.truncate(300);
    Ok((out, how))
}

/// Any way of reading the whole stream with several threads.
pub fn par_read_any(rng: &mut Rng, s: &Stream, bytes: &[u8]) -> Result<(Vec<u8>, String), laz::LasZipError> {
    let size = s.size();
    let mut out = vec![0u8; s.n * size];
    let pool = ops::any_pool(rng);
    let mut how = format!("pool {} ", pool.current_num_threads());
    match rng.below(6) {
        0 => {
            how.push_str("par_decompress_buffer");
            pool.install(|| laz::par_decompress_buffer(bytes, &mut out, &s.vlr()))?;
        }
        1 => {
            how.push_str("par_decompress");
            let mut src = Cursor::new(bytes);
            let t = ChunkTable::read_from(&mut src, &s.vlr())?;
            let from = src.position() as usize;
            let len: u64 = t.as_ref().iter().map(|e| e.byte_count).sum();
            let body = &bytes[from..from + len as usize];
            if rng.bool() {
                pool.install(|| laz::par_decompress(body, &mut out, &s.vlr(), t.as_ref()))?;
            } else {
                how.push_str("_selective");
                let all = laz::DecompressionSelection::all();
                pool.install(|| laz::par_decompress_selective(body, &mut out, &s.vlr(), t.as_ref(), all))?;
            }
        }
        _ => {
            let mut d = laz::ParLasZipDecompressor::new(Cursor::new(bytes), s.vlr())?;
            let bs = ops::batches(rng, s.n, s.cuts.first().copied().unwrap_or(1));
            let style = rng.below(3);
            how.push_str(&format!("style {style} {:?}", &bs[..bs.len().min(12)]));
            pool.install(|| -> Result<(), laz::LasZipError> {
                let mut at = 0;
                for b in bs {
                    let p = &mut out[at..at + b * size];
                    at += b * size;
                    match style {
                        0 => d.decompress_many(p)?,
                        1 => LazDecompressor::decompress_many(&mut d, p)?,
                        _ => {
                            let d: &mut dyn LazDecompressor = &mut d;
                            for q in p.chunks_exact_mut(size) {
                                d.decompress_one(q)?
                            }
                        }
                    }
                }
                Ok(())
            })?;
        }
    }
    Ok((out, how))
}

// ------------------------------------------------------------------------------------------------

fn call_splitting(c: &mut Ctx) -> R {
    let s = any_scale(c, 2500);
    c.nontrivial = s.n >= 2;
    let plain = ops::cur::compress_vec(&s).must("compress")?;
    let runs = 2;
    for _ in 0..runs {
        let (w, how) = ops::seq_compress_any(&mut c.rng, &s, Cursor::new(vec![])).must("split compress")?;
        let w = w.into_inner();
        ensure!(w == plain, "bytes-depend-on-batching", "{} [{how}]: {}", s.describe(), diff_at(&plain, &w));
        c.add("splittings written", 1);
        c.st.seen("write histories", crate::rng::hash_str(&how));
    }
    if !s.variable() {
        let mut w = Cursor::new(vec![]);
        laz::compress_buffer(&mut w, &s.points, s.vlr()).must("compress_buffer")?;
        ensure!(w.get_ref() == &plain, "compress_buffer-differs", "{}: {}", s.describe(), diff_at(&plain, w.get_ref()));
    }
    for _ in 0..runs {
        let (out, how) = seq_read_any(&mut c.rng, &s, &plain).must("split decompress")?;
        same(&s, &out, "points-depend-on-batching", &how)?;
        c.add("splittings read", 1);
        c.st.seen("read histories", crate::rng::hash_str(&how));
    }
    count_stream(c, &s);
    Ok(())
}

fn par_compress(c: &mut Ctx) -> R {
    let s = any_scale(c, 2500);
    c.nontrivial = s.cuts.len() >= 2;
    let plain = ops::cur::compress_vec(&s).must("compress")?;
    for _ in 0..2 {
        let (w, how) = ops::par_compress_any(&mut c.rng, &s, Cursor::new(vec![])).must("parallel compress")?;
        let w = w.into_inner();
        ensure!(w == plain, "parallel-bytes-differ", "{} [{how}]: {}", s.describe(), diff_at(&plain, &w));
        c.add("parallel writes", 1);
        c.st.seen("parallel write histories", crate::rng::hash_str(&how));
    }
    if !s.variable() {
        let pool = ops::any_pool(&mut c.rng);
        let mut w = Cursor::new(vec![]);
        pool.install(|| laz::par_compress_buffer(&mut w, &s.points, &s.vlr())).must("par_compress_buffer")?;
        ensure!(w.get_ref() == &plain, "par_compress_buffer-differs", "{}: {}", s.describe(), diff_at(&plain, w.get_ref()));
        let mut body = vec![];
        let t = pool
            .install(|| laz::laszip::parallel::par_compress(&mut body, &s.points, &s.vlr()))
            .must("par_compress")?;
        ensure!(plain[8..].starts_with(&body), "par_compress-differs", "{}: {}", s.describe(), diff_at(&plain[8..], &body));
        let sum: u64 = t.as_ref().iter().map(|e| e.byte_count).sum();
        ensure!(
            sum == body.len() as u64 && t.len() == s.cuts.len(),
            "par_compress-table",
            "{}: {} chunks of {} bytes reported, {} chunks in {} bytes written", s.describe(), t.len(), sum, s.cuts.len(), body.len()
        );
        c.add("par_compress_buffer calls", 1);
    }
    count_stream(c, &s);
    Ok(())
}

fn par_decompress(c: &mut Ctx) -> R {
    let s = any_scale(c, 2500);
    c.nontrivial = s.cuts.len() >= 2;
    let bytes = ops::cur::compress_vec(&s).must("compress")?;
    for _ in 0..3 {
        let (out, how) = par_read_any(&mut c.rng, &s, &bytes).must("parallel decompress")?;
        same(&s, &out, "parallel-points-differ", &how)?;
        c.add("parallel reads", 1);
        c.st.seen("parallel read histories", crate::rng::hash_str(&how));
    }
    count_stream(c, &s);
    Ok(())
}

// ------------------------------------------------------------------------------------------------

pub struct Parsed {
    /// start of the first chunk
    pub data_start: u64,
    pub table: Vec<ChunkTableEntry>,
    pub table_pos: u64,
}

/// Reads the table from the outside: offset at `at`, table where it says.
pub fn parse(s: &Stream, bytes: &[u8], at: u64) -> Result<Parsed, Fail> {
    let off = i64::from_le_bytes(bytes[at as usize..at as usize + 8].try_into().unwrap());
    ensure!(off >= at as i64 + 8 && (off as usize) + 8 <= bytes.len(), "table-offset", "{}: offset {off} for {} bytes at {at}", s.describe(), bytes.len());
    let mut src = Cursor::new(bytes);
    src.set_position(at);
    let t = ChunkTable::read_from(&mut src, &s.vlr()).must("read chunk table")?;
    ensure!(src.position() == at + 8, "table-read-position", "{}: left at {} instead of {}", s.describe(), src.position(), at + 8);
    // the reference reader must agree about the bytes on disk
    let mut src = Cursor::new(bytes);
    src.set_position(at);
    let r = laz_ref::laszip::ChunkTable::read_from(&mut src, &s.layout.vlr_ref(s.chunk_size)).must("reference chunk table")?;
    ensure!(r.len() == t.len(), "table-differs-from-reference", "{} / {} entries", t.len(), r.len());
    for (a, b) in t.as_ref().iter().zip(r.as_ref()) {
        ensure!(a.byte_count == b.byte_count && a.point_count == b.point_count, "table-differs-from-reference", "{a:?} / {b:?}");
    }
    Ok(Parsed { data_start: at + 8, table: t.as_ref().to_vec(), table_pos: off as u64 })
}

/// The chunk table describes exactly the chunks that were written.
pub fn check_table(s: &Stream, p: &Parsed) -> R {
    ensure!(p.table.len() == s.cuts.len(), "chunk-count", "{}: table has {} entries for {} chunks", s.describe(), p.table.len(), s.cuts.len());
    let sum: u64 = p.table.iter().map(|e| e.byte_count).sum();
    ensure!(p.data_start + sum == p.table_pos, "chunk-bytes", "{}: {} + {sum} != {}", s.describe(), p.data_start, p.table_pos);
    for (k, (e, n)) in p.table.iter().zip(&s.cuts).enumerate() {
        let want = if s.variable() { *n as u64 } else { u64::from(s.chunk_size) };
        ensure!(e.point_count == want, "chunk-points", "{}: chunk {k} says {} points instead of {want}", s.describe(), e.point_count);
        ensure!(e.byte_count > 0, "chunk-empty", "{}: chunk {k} has no bytes", s.describe());
    }
    Ok(())
}

fn write_any(c: &mut Ctx, s: &Stream) -> Result<(Vec<u8>, String), Fail> {
    Ok(if c.rng.bool() {
        let (w, h) = ops::seq_compress_any(&mut c.rng, s, Cursor::new(vec![])).must("compress")?;
        (w.into_inner(), format!("seq {h}"))
    } else {
        let (w, h) = ops::par_compress_any(&mut c.rng, s, Cursor::new(vec![])).must("par compress")?;
        (w.into_inner(), format!("par {h}"))
    })
}

/// One chunk, alone, as a complete stream.
fn lone_chunk(body: &[u8]) -> Vec<u8> {
    let mut v = ((body.len() + 8) as i64).to_le_bytes().to_vec();
    v.extend_from_slice(body);
    v.extend_from_slice(&[0; 8]);
    v
}

fn chunk_table_accuracy(c: &mut Ctx) -> R {
    let s = any_scale(c, 2000);
    c.nontrivial = s.cuts.len() >= 2;
    let (bytes, how) = write_any(c, &s)?;
    let p = parse(&s, &bytes, 0)?;
    check_table(&s, &p).map_err(|f| Fail { sig: f.sig, msg: format!("{} [{how}]", f.msg) })?;
    let size = s.size();
    let spans = s.chunk_spans();
    // every chunk is self-contained: its own bytes are all that is needed to read it ...
    let mut at = p.data_start as usize;
    let mut places = vec![];
    for e in &p.table {
        places.push((at, at + e.byte_count as usize));
        at += e.byte_count as usize;
    }
    for _ in 0..6.min(spans.len()) {
        let k = c.rng.usize(spans.len());
        let (a, n) = spans[k];
        let lone = lone_chunk(&bytes[places[k].0..places[k].1]);
        let one = Stream { chunk_size: n as u32 + 1, cuts: vec![n], points: s.points[a * size..(a + n) * size].to_vec(), n, layout: s.layout.clone(), profile: s.profile };
        let got = ops::cur::decompress_vec(&one, &lone).must("chunk alone")?;
        same(&one, &got, "chunk-not-self-contained", "alone")?;
        c.add("chunks read alone", 1);
    }
    // ... and damage elsewhere does not reach it
    if spans.len() >= 2 {
        let k = c.rng.usize(spans.len());
        let mut dmg = bytes.clone();
        for (j, pl) in places.iter().enumerate() {
            if j != k {
                for b in &mut dmg[pl.0..pl.1] {
                    *b ^= c.rng.u64() as u8;
                }
            }
        }
        let (a, n) = spans[k];
        let mut out = vec![0u8; n * size];
        let mut d = laz::LasZipDecompressor::new(Cursor::new(&dmg), s.vlr()).must("open damaged")?;
        d.seek(a as u64).must("seek to intact chunk")?;
        d.decompress_many(&mut out).must("read intact chunk")?;
        ensure!(out == s.points[a * size..(a + n) * size], "damage-spreads", "{} chunk {k}: {}", s.describe(), first_diff(&s.points[a * size..(a + n) * size], &out, size).unwrap());
        c.add("intact chunks read among damaged ones", 1);
    }
    count_stream(c, &s);
    Ok(())
}

// ------------------------------------------------------------------------------------------------

fn noise(rng: &mut Rng, n: usize) -> Vec<u8> {
    (0..n).map(|_| rng.u64() as u8).collect()
}

fn containment(c: &mut Ctx) -> R {
    if !c.small && c.idx > 1 && c.rng.chance(1, 6) {
        return crate::far::placed(c);
    }
    let s = any_scale(c, 1500);
    let size = s.size();
    let plain = ops::cur::compress_vec(&s).must("compress")?;
    let before = if c.rng.chance(1, 5) { 0 } else { c.rng.usize(400) };
    // what the file already holds where the stream will be written, and after it
    let old = match c.rng.below(3) {
        0 => 0,
        1 => c.rng.usize(plain.len()),
        _ => plain.len() + c.rng.usize(300),
    };
    let original = noise(&mut c.rng, before + old);
    let mut f = MonFile::new(original.clone(), before as u64);
    f.log_writes = Some(vec![]);
    let par = c.rng.bool();
    let (f, how) = if !s.variable() && c.rng.chance(1, 3) {
        let mut f = f;
        if par {
            ops::any_pool(&mut c.rng).install(|| laz::par_compress_buffer(&mut f, &s.points, &s.vlr())).must("par_compress_buffer into a file")?;
        } else {
            laz::compress_buffer(&mut f, &s.points, s.vlr()).must("compress_buffer into a file")?;
        }
        c.add("whole buffers written", 1);
        (f, String::from(if par { "par_compress_buffer" } else { "compress_buffer" }))
    } else if par {
        ops::par_compress_any(&mut c.rng, &s, f).must("compress into a file")?
    } else {
        ops::seq_compress_any(&mut c.rng, &s, f).must("compress into a file")?
    };
    c.add("writes seen", f.counts.writes);
    let end = before + plain.len();
    let (lo, hi) = f.wrote.unwrap_or((before as u64, before as u64));
    ensure!(lo >= before as u64, "wrote-before-start", "{} [{how}]: wrote at {lo}, stream starts at {before}", s.describe());
    ensure!(hi <= end as u64, "wrote-past-end", "{} [{how}]: wrote up to {hi}, stream ends at {end}", s.describe());
    ensure!(f.data[..before] == original[..before], "prefix-changed", "{}", s.describe());
    if original.len() > end {
        ensure!(f.data[end..] == original[end..], "suffix-changed", "{}", s.describe());
    }
    ensure!(f.pos == end as u64, "final-position", "{} [{how}]: left at {}, stream ends at {end}", s.describe(), f.pos);
    // the same stream, except that the offset counts from the start of the file
    let off = i64::from_le_bytes(f.data[before..before + 8].try_into().unwrap());
    let want = i64::from_le_bytes(plain[..8].try_into().unwrap()) + before as i64;
    ensure!(off == want, "offset-not-absolute", "{} [{how}]: {off} instead of {want}", s.describe());
    ensure!(f.data[before + 8..end] == plain[8..], "bytes-depend-on-position", "{} [{how}]", s.describe());

    // reading: nothing in front of the stream is looked at, nor anything behind it when it has a table
    let mut data = f.data;
    if c.rng.bool() {
        data.truncate(end);
    } else {
        let more = c.rng.usize(60);
        data.extend(noise(&mut c.rng, more));
    }
    let mut m = MonFile::new(data.clone(), before as u64);
    m.log_reads = Some(vec![]);
    let mut d = laz::LasZipDecompressor::new(m, s.vlr()).must("open at a position")?;
    let mut out = vec![0u8; s.n * size];
    d.decompress_many(&mut out).must("read at a position")?;
    same(&s, &out, "read-at-position", "seq")?;
    if s.n > 0 {
        let i = c.rng.usize(s.n);
        let m = 1 + c.rng.usize((s.n - i).min(20));
        let mut o = vec![0u8; m * size];
        d.seek(i as u64).must("seek at a position")?;
        d.decompress_many(&mut o).must("read after seek at a position")?;
        ensure!(o == s.points[i * size..(i + m) * size], "seek-at-position", "{} point {i}", s.describe());
    }
    let m = d.into_inner();
    c.add("reads seen", m.counts.reads);
    let (lo, hi) = m.read.unwrap();
    ensure!(lo >= before as u64, "read-before-start", "{}: read at {lo}, stream starts at {before}", s.describe());
    // the arithmetic decoder of the table may look a few bytes ahead of its last symbol
    ensure!(hi <= end as u64, "read-past-end", "{}: read up to {hi}, stream ends at {end}", s.describe());
    if data.len() >= end {
        let m = MonFile::new(data.clone(), before as u64);
        let pool = ops::any_pool(&mut c.rng);
        let mut d = laz::ParLasZipDecompressor::new(m, s.vlr()).must("par open at a position")?;
        let mut out = vec![0u8; s.n * size];
        pool.install(|| d.decompress_many(&mut out)).must("par read at a position")?;
        same(&s, &out, "par-read-at-position", "par")?;
        if s.n > 0 {
            let i = c.rng.usize(s.n);
            let m = 1 + c.rng.usize((s.n - i).min(20));
            let mut o = vec![0u8; m * size];
            d.seek(i as u64).must("par seek at a position")?;
            d.decompress_many(&mut o).must("par read after seek at a position")?;
            ensure!(o == s.points[i * size..(i + m) * size], "par-seek-at-position", "{} point {i}", s.describe());
        }
        let m = d.into_inner();
        let (lo, hi) = m.read.unwrap();
        ensure!(lo >= before as u64 && hi <= end as u64, "par-read-outside", "{}: read {lo}..{hi}, stream is {before}..{end}", s.describe());
    }
    count_stream(c, &s);
    Ok(())
}

// ------------------------------------------------------------------------------------------------

/// A stream in which nothing, or nothing at some places, is written.
fn empty_streams(c: &mut Ctx) -> R {
    let l = gen::any_layout(&mut c.rng);
    let n = if c.rng.bool() { 0 } else { 1 + c.rng.usize(c.max_points(300)) };
    let variable = c.rng.chance(2, 3);
    let profile = gen::any_profile(&mut c.rng);
    let s = gen::stream_with(&mut c.rng, l, profile, n, variable);
    let size = s.size();
    let before = c.rng.usize(3) * 13;
    let mut dst = Cursor::new(noise(&mut c.rng, before));
    dst.seek(SeekFrom::End(0)).unwrap();
    let par = c.rng.bool();
    let mut how = String::from(if par { "par " } else { "seq " });
    // the chunks with empty ones thrown in
    let mut chunks: Vec<&[u8]> = vec![];
    for ch in s.chunk_bytes() {
        while c.rng.chance(1, 3) {
            chunks.push(&[]);
        }
        chunks.push(ch);
    }
    while c.rng.chance(1, 3) {
        chunks.push(&[]);
    }
    let empties = chunks.iter().filter(|x| x.is_empty()).count();
    how.push_str(&format!("{empties} empty pieces "));
    let reserve = c.rng.chance(1, 3);
    let again = if c.rng.chance(1, 3) { 1 + c.rng.usize(2) } else { 0 };
    how.push_str(&format!("done {} times ", 1 + again));
    let bytes = if par {
        let mut z = laz::ParLasZipCompressor::new(dst, s.vlr()).must("par new")?;
        if reserve {
            z.reserve_offset_to_chunk_table().must("reserve")?;
        }
        if s.variable() {
            if c.rng.bool() {
                z.compress_chunks(chunks.clone()).must("par chunks")?;
            } else {
                for ch in &chunks {
                    z.compress_chunks(vec![*ch]).must("par chunk")?;
                }
            }
        } else {
            for ch in &chunks {
                z.compress_many(ch).must("par many")?;
            }
        }
        z.done().must("par done")?;
        for _ in 0..again {
            if c.rng.bool() { z.done().must("par done again")? } else { LazCompressor::done(&mut z).must("par done again")? }
        }
        z.into_inner().into_inner()
    } else {
        let mut z = laz::LasZipCompressor::new(dst, s.vlr()).must("new")?;
        if reserve {
            z.reserve_offset_to_chunk_table().must("reserve")?;
        }
        if s.variable() {
            if c.rng.bool() {
                how.push_str("compress_chunks ");
                z.compress_chunks(chunks.clone()).must("chunks")?;
            } else {
                how.push_str("finish_current_chunk ");
                for ch in &chunks {
                    z.compress_many(ch).must("many")?;
                    z.finish_current_chunk().must("finish")?;
                }
            }
        } else {
            for ch in &chunks {
                LazCompressor::compress_many(&mut z, ch).must("many")?;
            }
        }
        z.done().must("done")?;
        for _ in 0..again {
            if c.rng.bool() { z.done().must("done again")? } else { LazCompressor::done(&mut z).must("done again")? }
        }
        z.into_inner().into_inner()
    };
    c.note(format!("{} [{how}]", s.describe()));
    c.signature(crate::rng::mix(&[s.signature(), crate::rng::hash_str(&how), before as u64]));
    c.nontrivial = s.n == 0 || empties > 0 || again > 0;
    c.add("empty pieces written", empties as u64);
    c.add("repeated ends", again as u64);
    if s.n == 0 {
        c.add("streams without any point", 1);
    }
    let p = parse(&s, &bytes, before as u64)?;
    check_table(&s, &p).map_err(|f| Fail { sig: format!("empty:{}", f.sig), msg: format!("{} [{how}]", f.msg) })?;
    let mut src = Cursor::new(&bytes[..]);
    src.set_position(before as u64);
    let mut out = vec![0u8; s.n * size];
    let mut d = laz::LasZipDecompressor::new(src.clone(), s.vlr()).must("open")?;
    d.decompress_many(&mut out).must("read")?;
    same(&s, &out, "empty:points", &how)?;
    let mut d = laz::ParLasZipDecompressor::new(src.clone(), s.vlr()).must("par open")?;
    let mut out = vec![0u8; s.n * size];
    d.decompress_many(&mut out).must("par read")?;
    same(&s, &out, "empty:par-points", &how)?;
    let mut one = vec![0u8; size];
    if s.n > 0 && c.rng.chance(1, 3) {
        // nothing is appended, or something is, and it ends more than once
        let added = c.rng.usize(2) * (1 + c.rng.usize(20));
        let mut g = gen::PointGen::new(&mut c.rng, &s.layout, gen::Profile::Mixed);
        let more = g.points(&mut c.rng, added);
        let mut f = Cursor::new(bytes.clone());
        f.set_position(before as u64);
        let got = if c.rng.bool() {
            let mut a = laz::LasZipAppender::new(f, s.vlr(), s.n as u64).must("append")?;
            a.compress_many(&more).must("append")?;
            for _ in 0..2 + again {
                a.done().must("append done")?;
            }
            a.into_inner()
        } else {
            let mut a = laz::ParLasZipAppender::new(f, s.vlr(), s.n as u64).must("par append")?;
            if s.variable() {
                a.compress_chunks(vec![&more[..]]).must("par append")?;
            } else {
                a.compress_many(&more).must("par append")?;
            }
            for _ in 0..2 + again {
                a.done().must("par append done")?;
            }
            a.into_inner()
        };
        let got = got.into_inner();
        let full = Stream { n: s.n + added, points: [&s.points[..], &more].concat(), ..s.clone() };
        let mut src = Cursor::new(&got[..]);
        src.set_position(before as u64);
        let back = ops::cur::decompress(&full, src.clone(), full.n).must("read appended")?;
        same(&full, &back, "empty:done-again-points", &how)?;
        let t = laz::laszip::ChunkTable::read_from(&mut src, &s.vlr()).must("table")?;
        let held: u64 = t.as_ref().iter().map(|e| e.point_count).sum();
        let per = s.chunk_size as u64;
        ensure!(if s.variable() { held == full.n as u64 } else { t.len() as u64 == (full.n as u64).div_ceil(per) },
            "empty:done-again-table", "{} + {added} [{how}]: {} chunks", s.describe(), t.len());
        src.set_position(before as u64);
        let (mut end, mut all) = (vec![0u8; full.n * size], 0usize);
        let mut d = laz::ParLasZipDecompressor::new(src, s.vlr()).must("par open")?;
        for b in ops::batches(&mut c.rng, full.n, 4) {
            d.decompress_many(&mut end[all..all + b * size]).must("par read")?;
            all += b * size;
        }
        same(&full, &end, "empty:done-again-par-points", &how)?;
        c.add("appends ended more than once", 1);
    }
    if s.n == 0 {
        let e = crate::guarded(|| d.decompress_many(&mut one))?;
        ensure!(e.is_err(), "empty:par-read-something", "{how}: a point was read from an empty stream");
        let mut d = laz::LasZipDecompressor::new(src.clone(), s.vlr()).must("open")?;
        let e = crate::guarded(|| d.decompress_one(&mut one))?;
        ensure!(e.is_err() || !s.variable(), "empty:read-something", "{how}: a point was read from an empty stream");
        // an empty stream can be appended to
        let m = 1 + c.rng.usize(40);
        let mut g = gen::PointGen::new(&mut c.rng, &s.layout, gen::Profile::Mixed);
        let more = g.points(&mut c.rng, m);
        let full = Stream { n: m, points: more.clone(), cuts: if s.variable() { vec![m] } else { Stream::fixed_cuts(m, s.chunk_size) }, ..s.clone() };
        let mut f = Cursor::new(bytes.clone());
        f.set_position(before as u64);
        let f = if c.rng.bool() {
            let mut a = laz::LasZipAppender::new(f, s.vlr(), 0).must("append to empty")?;
            a.compress_many(&more).must("append")?;
            a.done().must("append done")?;
            a.into_inner()
        } else {
            let mut a = laz::ParLasZipAppender::new(f, s.vlr(), 0).must("par append to empty")?;
            if s.variable() {
                a.compress_chunks(vec![&more[..]]).must("par append")?;
            } else {
                a.compress_many(&more).must("par append")?;
            }
            a.done().must("par append done")?;
            a.into_inner()
        };
        let got = f.into_inner();
        let mut src = Cursor::new(&got[..]);
        src.set_position(before as u64);
        let back = ops::cur::decompress(&full, src, m).must("read appended")?;
        same(&full, &back, "empty:appended-points", &how)?;
        let p = parse(&full, &got, before as u64)?;
        check_table(&full, &p).map_err(|f| Fail { sig: format!("empty:append-{}", f.sig), msg: f.msg })?;
        c.add("appends to an empty stream", 1);
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------------

fn over_read(c: &mut Ctx) -> R {
    let s = any_scale(c, 800);
    let size = s.size();
    let mut bytes = ops::cur::compress_vec(&s).must("compress")?;
    let tail = *c.rng.pick(&[0usize, 0, 7, 100, 3000]);
    bytes.extend(noise(&mut c.rng, tail));
    let exact = s.variable() || s.n % s.chunk_size as usize == 0;
    let nominal = if s.variable() { s.n } else { s.cuts.len() * s.chunk_size as usize };
    let far = c.rng.chance(1, 10);
    let more = if far { (nominal - s.n).min(20_000) + 1 + c.rng.usize(2000) } else { 1 + c.rng.usize(5) };
    c.note(format!("{} tail {tail} more {more}", s.describe()));
    c.signature(crate::rng::mix(&[s.signature(), tail as u64, more as u64]));
    let plan = Plan { max_ops: Some(4_000_000 + 20 * bytes.len() as u64), ..Plan::default() };
    // sequential, point by point: the points first, then errors or (fixed-size chunks) unspecified
    let mut d = laz::LasZipDecompressor::new(MonFile::with(bytes.clone(), 0, plan.clone()), s.vlr()).must("open")?;
    let mut p = vec![0u8; size];
    for i in 0..s.n {
        d.decompress_one(&mut p).must("read")?;
        ensure!(p == s.point(i), "over-read:points", "{} point {i}", s.describe());
    }
    for _ in 0..more.min(3000) {
        let r = crate::guarded(|| d.decompress_one(&mut p))?;
        if s.variable() {
            ensure!(r.is_err(), "over-read:accepted", "{}: a point past the last one was read", s.describe());
        }
        if r.is_err() {
            c.add("sequential over-reads refused", 1);
            break;
        }
        c.add("sequential over-reads unspecified", 1);
    }
    // the decompressor is usable again after a seek
    let i = c.rng.usize(s.n);
    crate::guarded(|| d.seek(i as u64))?.must("seek after over-read")?;
    d.decompress_one(&mut p).must("read after over-read")?;
    ensure!(p == s.point(i), "over-read:seek-back", "{} point {i}", s.describe());
    // in one call
    let mut out = vec![0u8; (s.n + more) * size];
    let mut d = laz::LasZipDecompressor::new(MonFile::with(bytes.clone(), 0, plan.clone()), s.vlr()).must("open")?;
    let r = crate::guarded(|| d.decompress_many(&mut out))?;
    ensure!(r.is_err() || !s.variable(), "over-read:accepted-many", "{}", s.describe());
    if r.is_ok() {
        same(&s, &out[..s.n * size], "over-read:many-points", "many")?;
    }
    // parallel
    let pool = ops::any_pool(&mut c.rng);
    let mut d = laz::ParLasZipDecompressor::new(MonFile::with(bytes.clone(), 0, plan), s.vlr()).must("par open")?;
    let first = c.rng.usize(s.n + 1);
    let mut out = vec![0u8; (s.n + more) * size];
    pool.install(|| d.decompress_many(&mut out[..first * size])).must("par read")?;
    let r = crate::guarded(|| pool.install(|| d.decompress_many(&mut out[first * size..])))?;
    if exact || s.n + more > nominal {
        ensure!(r.is_err(), "over-read:par-accepted", "{}: {} points read out of {}", s.describe(), s.n + more, s.n);
        c.add("parallel over-reads refused", 1);
    }
    let r = crate::guarded(|| pool.install(|| d.decompress_many(&mut out[..size])))?;
    let _ = r;
    crate::guarded(|| d.seek(i as u64))?.must("par seek after over-read")?;
    d.decompress_many(&mut p).must("par read after over-read")?;
    ensure!(p == s.point(i), "over-read:par-seek-back", "{} point {i}", s.describe());
    // the whole buffer functions
    let mut out = vec![0u8; (s.n + more) * size];
    let r = crate::guarded(|| laz::par_decompress_buffer(&bytes, &mut out, &s.vlr()))?;
    if exact || s.n + more > nominal {
        ensure!(r.is_err(), "over-read:par_decompress_buffer-accepted", "{}", s.describe());
    }
    // ... and fewer points than there are is fine
    let fewer = c.rng.usize(s.n + 1);
    let mut out = vec![0u8; fewer * size];
    crate::guarded(|| laz::par_decompress_buffer(&bytes, &mut out, &s.vlr()))?.must("par_decompress_buffer of fewer points")?;
    ensure!(out == s.points[..fewer * size], "under-read:par_decompress_buffer", "{}", s.describe());
    let mut out = vec![0u8; fewer * size];
    laz::decompress_buffer(&bytes, &mut out, s.vlr()).must("decompress_buffer of fewer points")?;
    ensure!(out == s.points[..fewer * size], "under-read:decompress_buffer", "{}", s.describe());
    count_stream(c, &s);
    Ok(())
}

