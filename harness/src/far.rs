//! Streams that lie, or reach, beyond 4 GiB, and hold more than 2^32 points: sparse files in which
//! only some of the chunks that the table tells about are really there.
use crate::ctx::*;
use crate::gen::{self, Layout, Stream, VARIABLE};
use crate::ops;
use crate::rng::{mix, Rng};
use std::collections::BTreeMap;
use std::io::{Error, ErrorKind, Read, Result as Io, Seek, SeekFrom, Write};

const PAGE: u64 = 4096;

/// A file with holes.
#[derive(Clone, Default)]
pub struct FarFile {
    pages: BTreeMap<u64, Box<[u8]>>,
    pub len: u64,
    pub pos: u64,
    pub lowest_write: Option<u64>,
    pub highest_write: u64,
    pub bytes_read: u64,
}

impl FarFile {
    pub fn get(&self, at: u64, n: usize) -> Vec<u8> {
        let mut f = self.clone();
        f.pos = at;
        let mut v = vec![0u8; n];
        f.read_exact(&mut v).expect("inside of the file");
        v
    }
    pub fn put(&mut self, at: u64, b: &[u8]) {
        self.pos = at;
        self.write_all(b).unwrap();
    }
}

impl Read for FarFile {
    fn read(&mut self, buf: &mut [u8]) -> Io<usize> {
        if self.pos >= self.len {
            return Ok(0);
        }
        let n = (buf.len() as u64).min(self.len - self.pos);
        // what reads holes of gigabytes does not do what was asked
        self.bytes_read += n;
        if self.bytes_read > 1 << 28 {
            panic!("MONITOR: runaway I/O: the gaps between the points are read");
        }
        let mut done = 0;
        while done < n {
            let at = self.pos + done;
            let (p, o) = (at / PAGE, at % PAGE);
            let k = (PAGE - o).min(n - done);
            let dst = &mut buf[done as usize..(done + k) as usize];
            match self.pages.get(&p) {
                Some(q) => dst.copy_from_slice(&q[o as usize..(o + k) as usize]),
                None => dst.fill(0),
            }
            done += k;
        }
        self.pos += n;
        Ok(n as usize)
    }
}

impl Write for FarFile {
    fn write(&mut self, buf: &[u8]) -> Io<usize> {
        let n = buf.len() as u64;
        let mut done = 0;
        while done < n {
            let at = self.pos + done;
            let (p, o) = (at / PAGE, at % PAGE);
            let k = (PAGE - o).min(n - done);
            let q = self.pages.entry(p).or_insert_with(|| vec![0u8; PAGE as usize].into());
            q[o as usize..(o + k) as usize].copy_from_slice(&buf[done as usize..(done + k) as usize]);
            done += k;
        }
        if n > 0 {
            self.lowest_write = Some(self.lowest_write.map_or(self.pos, |x| x.min(self.pos)));
            self.pos += n;
            self.highest_write = self.highest_write.max(self.pos);
            self.len = self.len.max(self.pos);
        }
        Ok(n as usize)
    }
    fn flush(&mut self) -> Io<()> {
        Ok(())
    }
}

impl Seek for FarFile {
    fn seek(&mut self, to: SeekFrom) -> Io<u64> {
        let new = match to {
            SeekFrom::Start(n) => n as i128,
            SeekFrom::Current(d) => self.pos as i128 + d as i128,
            SeekFrom::End(d) => self.len as i128 + d as i128,
        };
        if new < 0 || new > i64::MAX as i128 {
            return Err(Error::new(ErrorKind::InvalidInput, "seek out of range"));
        }
        self.pos = new as u64;
        Ok(self.pos)
    }
}

/// Positions around the limits of 31, 32 and more bits.
pub fn any_position(rng: &mut Rng) -> u64 {
    let p = *rng.pick(&[0u64, 1 << 31, 1 << 32, 5_000_000_000, 1 << 33, 1 << 40, 1 << 53, 1 << 62]);
    if rng.bool() {
        p
    } else {
        p.saturating_sub(rng.below(60)) + rng.below(30)
    }
}

pub struct Far {
    pub layout: Layout,
    pub chunk_size: u32,
    pub file: FarFile,
    pub start: u64,
    /// (number of points, number of bytes)
    pub table: Vec<(u64, u64)>,
    /// chunks that are really there: number in the table, first point, points
    pub real: Vec<(usize, u64, Vec<u8>)>,
    pub total: u64,
    pub log: String,
}

impl Far {
    pub fn vlr(&self) -> laz::LazVlr {
        self.layout.vlr(self.chunk_size)
    }
    pub fn at_start(&self) -> FarFile {
        let mut f = self.file.clone();
        f.pos = self.start;
        f
    }
    fn variable(&self) -> bool {
        self.chunk_size == VARIABLE
    }
}

/// The bytes of one chunk.
fn chunk_bytes(layout: &Layout, profile: gen::Profile, points: &[u8]) -> Result<Vec<u8>, Fail> {
    let n = points.len() / layout.size();
    let s = Stream { layout: layout.clone(), profile, chunk_size: n as u32, cuts: vec![n], points: points.to_vec(), n };
    let b = ops::cur::compress_vec(&s).must("compress one chunk")?;
    let end = i64::from_le_bytes(b[..8].try_into().unwrap()) as usize;
    Ok(b[8..end].to_vec())
}

pub fn far_stream(c: &mut Ctx) -> Result<Far, Fail> {
    let rng = &mut c.rng;
    let layout = loop {
        let l = gen::any_layout(rng);
        if l.size() < 400 {
            break l;
        }
    };
    let profile = gen::any_profile(rng);
    let size = layout.size();
    let start = any_position(rng);
    let variable = rng.bool();
    // fixed size: chunks of billions of points, of which only the last one is there and is short
    // (without a Point14 the layers of constant points are empty and nothing tells where it ends)
    let ends = !layout.layered() || layout.items.iter().any(|i| matches!(i.0, gen::Kind::Point14));
    let huge = !variable && ends && rng.chance(1, 3);
    let chunk_size = if variable {
        VARIABLE
    } else if huge {
        *rng.pick(&[u32::MAX - 1, 1 << 31, (1 << 31) - 1, 3_000_000_000, 1_000_000])
    } else {
        1 + rng.below(40) as u32
    };
    let chunks = 2 + rng.usize(7);
    let mut g = gen::PointGen::new(rng, &layout, profile);
    let mut file = FarFile::default();
    let (mut table, mut real, mut total, mut at) = (vec![], vec![], 0u64, start + 8);
    for k in 0..chunks {
        let last = k + 1 == chunks;
        if (rng.bool() || huge) && !last {
            let n = if variable { *rng.pick(&[1u64, 1 << 31, u64::from(u32::MAX), 3_000_000_000, 77]) } else { u64::from(chunk_size) };
            let b = *rng.pick(&[1u64 << 31, u64::from(u32::MAX), 3_000_000_000, 2_000_000_000, 10_000]);
            table.push((n, b));
            total += n;
            at += b;
        } else {
            let n = if variable || huge {
                1 + rng.usize(40)
            } else if last {
                1 + rng.usize(chunk_size as usize)
            } else {
                chunk_size as usize
            };
            let p = g.points(rng, n);
            let b = chunk_bytes(&layout, profile, &p)?;
            file.put(at, &b);
            table.push((if variable { n as u64 } else { u64::from(chunk_size) }, b.len() as u64));
            real.push((k, total, p));
            total += n as u64;
            at += b.len() as u64;
        }
    }
    let mut t = laz_ref::laszip::ChunkTable::default();
    for e in &table {
        t.push(laz_ref::laszip::ChunkTableEntry { point_count: e.0, byte_count: e.1 });
    }
    let mut tb = vec![];
    t.write_to(&mut tb, &layout.vlr_ref(chunk_size)).must("reference table")?;
    file.put(at, &tb);
    let at_end = rng.chance(1, 4);
    if at_end {
        let end = file.len;
        file.put(end, &(at as i64).to_le_bytes());
        file.put(start, &(-1i64).to_le_bytes());
    } else {
        file.put(start, &(at as i64).to_le_bytes());
    }
    let log = format!(
        "far {} {profile:?} at {start}, chunk size {chunk_size}, table {table:?}, real chunks {:?}, {total} points{}",
        layout.name,
        real.iter().map(|r| r.0).collect::<Vec<_>>(),
        if at_end { ", position at the end" } else { "" }
    );
    c.note(log.clone());
    c.signature(mix(&[crate::rng::hash_str(&log), c.seed]));
    let _ = size;
    c.add("far streams", 1);
    c.st.max("farthest chunk table", at);
    c.st.max("highest point index", total);
    Ok(Far { layout, chunk_size, file, start, table, real, total, log })
}

enum Reader<'a> {
    Seq(laz::LasZipDecompressor<'a, FarFile>),
    Par(laz::ParLasZipDecompressor<FarFile>),
}
impl<'a> Reader<'a> {
    fn open(f: &Far, par: bool) -> Result<Self, Fail> {
        Ok(if par {
            Reader::Par(laz::ParLasZipDecompressor::new(f.at_start(), f.vlr()).must(&format!("far: par open {}", f.log))?)
        } else {
            Reader::Seq(laz::LasZipDecompressor::new(f.at_start(), f.vlr()).must(&format!("far: open {}", f.log))?)
        })
    }
    fn seek(&mut self, i: u64) -> Result<(), laz::LasZipError> {
        match self {
            Reader::Seq(d) => d.seek(i),
            Reader::Par(d) => d.seek(i),
        }
    }
    fn read(&mut self, out: &mut [u8]) -> Result<(), laz::LasZipError> {
        match self {
            Reader::Seq(d) => d.decompress_many(out).map_err(Into::into),
            Reader::Par(d) => d.decompress_many(out),
        }
    }
}

fn look(c: &mut Ctx, f: &Far, d: &mut Reader, what: &str) -> R {
    let size = f.layout.size();
    let (k, first, p) = &f.real[c.rng.usize(f.real.len())];
    let n = p.len() / size;
    let i = c.rng.usize(n);
    let m = 1 + c.rng.usize(n - i);
    let index = first + i as u64;
    let mut out = vec![0u8; m * size];
    let how = format!("{what}: {m} points at {index} (chunk {k}) of {}", f.log);
    crate::guarded(|| d.seek(index)).map_err(|e| Fail { sig: e.sig, msg: format!("{} seek {how}", e.msg) })?.must(&format!("far seek {how}"))?;
    crate::guarded(|| d.read(&mut out)).map_err(|e| Fail { sig: e.sig, msg: format!("{} read {how}", e.msg) })?.must(&format!("far read {how}"))?;
    if let Some(x) = first_diff(&p[i * size..(i + m) * size], &out, size) {
        return fail("far-points", format!("{how}: {x}"));
    }
    c.add("far seeks", 1);
    Ok(())
}

/// Seeking to points beyond 4 GiB and beyond 2^32.
pub fn seeking(c: &mut Ctx, par: bool) -> R {
    let f = far_stream(c)?;
    let size = f.layout.size();
    let mut d = Reader::open(&f, par)?;
    for _ in 0..3 + c.rng.usize(6) {
        if c.rng.chance(1, 5) {
            let nominal: u64 = f.table.iter().map(|e| e.0).sum();
            let i = *c.rng.pick(&[nominal, nominal + 1, nominal + 7_000_000_000, u64::MAX]);
            let mut one = vec![0u8; size];
            let r = crate::guarded(|| d.seek(i).and_then(|_| d.read(&mut one)))?;
            ensure!(r.is_err(), "far-read-after-end", "a point was read at {i} of {}", f.log);
        } else {
            look(c, &f, &mut d, if par { "par" } else { "seq" })?;
        }
    }
    Ok(())
}

/// Appending to a stream beyond 4 GiB or 2^32 points.
pub fn appending(c: &mut Ctx, par: bool) -> R {
    let mut f = far_stream(c)?;
    let size = f.layout.size();
    let profile = gen::any_profile(&mut c.rng);
    // keep everything, or cut inside one of the chunks that are there
    let r = if c.rng.bool() { f.real.len() - 1 } else { c.rng.usize(f.real.len()) };
    let (k, first, p) = f.real[r].clone();
    let n = p.len() / size;
    let kept_here = if r + 1 == f.real.len() && c.rng.bool() { n } else { 1 + c.rng.usize(n) };
    let kept = first + kept_here as u64;
    let m = c.rng.usize(60);
    let mut g = gen::PointGen::new(&mut c.rng, &f.layout, profile);
    let more = g.points(&mut c.rng, m);
    let how = format!("{} keeping {kept}, adding {m} to {}", if par { "par" } else { "seq" }, f.log);
    let untouched = f.table[..k].iter().map(|e| e.1).sum::<u64>() + f.start + 8;
    let mut file = f.at_start();
    file.lowest_write = None;
    let (vlr, variable) = (f.vlr(), f.variable());
    let rng = &mut c.rng;
    let res = crate::guarded(|| -> Result<FarFile, laz::LasZipError> {
        let cuts = if variable { gen::variable_cuts(rng, m) } else { ops::batches(rng, m, 7) };
        let mut at = 0;
        let pieces: Vec<&[u8]> = cuts.iter().map(|x| { let s = &more[at..at + x * size]; at += x * size; s }).collect();
        macro_rules! feed {
            ($a:expr) => {{
                let mut a = $a;
                if variable {
                    a.compress_chunks(pieces)?;
                } else {
                    for p in pieces {
                        a.compress_many(p)?;
                    }
                }
                a.done()?;
                Ok(a.into_inner())
            }};
        }
        if par {
            feed!(laz::ParLasZipAppender::new(file, vlr, kept)?)
        } else {
            feed!(laz::LasZipAppender::new(file, vlr, kept)?)
        }
    });
    let mut file = res.map_err(|e| Fail { sig: e.sig, msg: format!("{} [{how}]", e.msg) })?.must(&format!("far append {how}"))?;
    let low = file.lowest_write.unwrap_or(u64::MAX);
    ensure!(low >= f.start, "far-wrote-before-start", "{how}: wrote at {low}");
    // what is kept has not moved
    for (j, first, q) in &f.real[..r] {
        let b = f.table[..*j].iter().map(|e| e.1).sum::<u64>() + f.start + 8;
        let n = f.table[*j].1 as usize;
        ensure!(file.get(b, n) == f.file.get(b, n), "far-kept-chunk-changed", "{how}: chunk {j} at {first}, {} bytes", q.len());
    }
    let off = i64::from_le_bytes(file.get(f.start, 8).try_into().unwrap()) as u64;
    ensure!(off >= untouched, "far-table-position", "{how}: table at {off}");
    file.pos = f.start;
    let t = laz_ref::laszip::ChunkTable::read_from(&mut file, &f.layout.vlr_ref(f.chunk_size)).must(&format!("reference table {how}"))?;
    let t: Vec<(u64, u64)> = t.as_ref().iter().map(|e| (e.point_count, e.byte_count)).collect();
    ensure!(t.len() >= k && t[..k] == f.table[..k], "far-table", "{how}: {t:?}");
    let bytes: u64 = t.iter().map(|e| e.1).sum();
    ensure!(f.start + 8 + bytes == off, "far-table-bytes", "{how}: {} + {bytes} != {off}", f.start + 8);
    let total = kept + m as u64;
    if variable {
        let points: u64 = t.iter().map(|e| e.0).sum();
        ensure!(points == total, "far-table-points", "{how}: {points} instead of {total}");
    } else {
        let want = total.div_ceil(u64::from(f.chunk_size));
        ensure!(t.len() as u64 == want, "far-table-chunks", "{how}: {} instead of {want}", t.len());
    }
    // one run of points from the chunk that was cut to the end
    let mut run = p[..kept_here * size].to_vec();
    run.extend_from_slice(&more);
    f.real.truncate(r);
    f.real.push((k, first, run.clone()));
    f.table = t;
    f.total = total;
    f.file = file;
    f.log = format!("{how} [now]");
    for par in [false, true] {
        let mut d = Reader::open(&f, par)?;
        let mut out = vec![0u8; run.len()];
        crate::guarded(|| d.seek(first).and_then(|_| d.read(&mut out)))?.must(&format!("read appended {how}"))?;
        if let Some(x) = first_diff(&run, &out, size) {
            return fail("far-appended-points", format!("{how}: {x}"));
        }
        for _ in 0..3 {
            look(c, &f, &mut d, if par { "par after append" } else { "seq after append" })?;
        }
    }
    c.add("far sessions", 1);
    Ok(())
}

/// Writing a stream far into a file.
pub fn placed(c: &mut Ctx) -> R {
    let s = super::props::stream::any_stream(c, 300);
    let plain = ops::cur::compress_vec(&s).must("compress")?;
    let start = any_position(&mut c.rng);
    let mut f = FarFile { pos: start, ..Default::default() };
    if c.rng.bool() {
        f.len = start;
    }
    let par = c.rng.bool();
    let (f, how) = if par {
        ops::par_compress_any(&mut c.rng, &s, f).must("far: par compress")?
    } else {
        ops::seq_compress_any(&mut c.rng, &s, f).must("far: compress")?
    };
    let what = format!("{} at {start} [{how}]", s.describe());
    let end = start + plain.len() as u64;
    ensure!(f.lowest_write.unwrap_or(start) >= start && f.highest_write <= end, "far-wrote-outside", "{what}: {:?}..{}", f.lowest_write, f.highest_write);
    ensure!(f.pos == end, "far-final-position", "{what}: left at {}", f.pos);
    let got = f.get(start, plain.len());
    let off = i64::from_le_bytes(got[..8].try_into().unwrap());
    let want = i64::from_le_bytes(plain[..8].try_into().unwrap()) + start as i64;
    ensure!(off == want, "far-offset", "{what}: {off} instead of {want}");
    ensure!(got[8..] == plain[8..], "far-bytes", "{what}");
    let size = s.size();
    for par in [false, true] {
        let mut src = f.clone();
        src.pos = start;
        let mut d = if par {
            Reader::Par(laz::ParLasZipDecompressor::new(src, s.vlr()).must("far: par open")?)
        } else {
            Reader::Seq(laz::LasZipDecompressor::new(src, s.vlr()).must("far: open")?)
        };
        let mut out = vec![0u8; s.n * size];
        d.read(&mut out).must("far: read")?;
        ensure!(out == s.points, "far-points", "{what}");
        if s.n > 0 {
            let i = c.rng.usize(s.n);
            let m = 1 + c.rng.usize((s.n - i).min(30));
            let mut out = vec![0u8; m * size];
            d.seek(i as u64).must("far: seek")?;
            d.read(&mut out).must("far: read after seek")?;
            ensure!(out == s.points[i * size..(i + m) * size], "far-seek", "{what} point {i}");
        }
    }
    c.add("streams placed far away", 1);
    Ok(())
}
