//! C17: nothing the safe interface can be asked to do touches memory it should not. The oracle is
//! the sanitizer, or the interpreter, the workload runs under: results and panics are not judged.
use crate::ctx::*;
use crate::gen::{self, VARIABLE};
use crate::rng::{mix, Rng};
use crate::{guarded, ops, Prop};
use std::io::{Cursor, Error, ErrorKind, Read, Result as IoResult, Seek, SeekFrom, Write};
use std::sync::OnceLock;

pub fn register(v: &mut Vec<Prop>) {
    v.push(Prop { id: "C17", run: hostile_uses, directed: 0, quick: 6000, thorough: 300000, workers: 0 });
    // for the interpreter, which is a few thousand times slower
    v.push(Prop { id: "C17-tiny", run: tiny, directed: 0, quick: 24, thorough: 2000, workers: 1 });
}

/// Whole formats have too many models to build for an interpreter.
fn few_models(k: u64, v: u16, lv: u16, rng: &mut Rng) -> gen::Layout {
    match k {
        0 => gen::Layout::new("rgb", &[gen::Kind::Rgb12], v),
        1 => gen::Layout::new("bytes", &[gen::Kind::Bytes(1 + rng.below(3) as u16)], v),
        2 => gen::Layout::new("gps", &[gen::Kind::Gps], v),
        3 => gen::Layout::new("wave", &[gen::Kind::Wave13], 1),
        4 => gen::Layout::new("bytes14", &[gen::Kind::Bytes14(1 + rng.below(3) as u16)], lv),
        _ => gen::Layout::new("rgb14", &[gen::Kind::Rgb14], lv),
    }
}

/// A few points through everything, small enough to be interpreted.
fn tiny(c: &mut Ctx) -> R {
    c.small = true;
    // threads are for the interpreter only when it was asked to: they cost it dearly
    let threads = std::env::var("LAZMON_PAR").is_ok();
    let k = if threads { [0, 1, 4, 5][c.idx as usize % 4] } else { c.idx % 8 };
    c.nontrivial = true;
    if k == 6 {
        let _ = guarded(|| coder_abuse(c));
        let x = c.rng.u64();
        c.signature(mix(&[x, k]));
        return Ok(());
    }
    if k == 7 {
        let _ = guarded(|| fields_abuse(c));
        let x = c.rng.u64();
        c.signature(mix(&[x, k]));
        return Ok(());
    }
    let v = 2 - (c.idx / 8 % 2) as u16;
    let lv = 3 + (c.idx / 8 % 2) as u16;
    let l = few_models(k, v, lv, &mut c.rng);
    let n = 2 + c.rng.usize(3);
    let variable = c.rng.bool();
    let mut s = gen::stream_with(&mut c.rng, l, gen::Profile::Mixed, n, variable);
    if c.rng.chance(1, 3) {
        s.points = gen::noise(&mut c.rng, s.points.len());
    }
    c.note(format!("tiny {}", s.describe()));
    c.signature(s.signature());
    let size = s.size();
    let par = threads || !cfg!(miri) && c.rng.chance(1, 3);
    let bytes = if par {
        let mut k = laz::ParLasZipCompressor::new(Cursor::new(vec![]), s.vlr()).unwrap();
        if s.variable() {
            ensure!(k.compress_chunks(s.chunk_bytes()).is_ok(), "compress", "refused");
        } else {
            for a in s.chunk_bytes() {
                ensure!(k.compress_many(a).is_ok(), "compress", "refused");
            }
        }
        ensure!(k.done().is_ok(), "done", "refused");
        k.into_inner().into_inner()
    } else {
        let mut k = Box::new(laz::LasZipCompressor::new(Cursor::new(vec![]), s.vlr()).unwrap());
        for a in s.chunk_bytes() {
            ensure!(k.compress_many(a).is_ok(), "compress", "refused");
            if s.variable() {
                ensure!(k.finish_current_chunk().is_ok(), "finish", "refused");
            }
            let unboxed = *k;
            k = Box::new(unboxed);
        }
        ensure!(k.done().is_ok(), "done", "refused");
        let k = *k;
        k.into_inner().into_inner()
    };
    let mut out = vec![0u8; s.points.len()];
    if par {
        let mut d = laz::ParLasZipDecompressor::new(Cursor::new(&bytes), s.vlr()).unwrap();
        let half = n / 2 * size;
        ensure!(d.decompress_many(&mut out[..half]).is_ok(), "read", "refused");
        let mut d = Box::new(d);
        ensure!(d.decompress_many(&mut out[half..]).is_ok(), "read", "refused");
    } else {
        let d = laz::LasZipDecompressor::new(Cursor::new(&bytes), s.vlr()).unwrap();
        let mut d = Box::new(d);
        for p in out.chunks_exact_mut(size) {
            ensure!(d.decompress_one(p).is_ok(), "read", "refused");
        }
        ensure!(d.seek(1).is_ok(), "seek", "refused");
        let mut again = vec![0u8; size];
        let _ = d.decompress_one(&mut again);
    }
    ensure!(out == s.points, "points", "other points came back");
    Ok(())
}

/// The workloads of the other properties, and how often each is borrowed.
const BORROWED: [(&str, u64); 22] = [
    ("C01", 3),
    ("C02", 5),
    ("C03", 1),
    ("C04", 1),
    ("C05", 2),
    ("C06", 2),
    ("C07", 2),
    ("C08", 2),
    ("C09", 1),
    ("C11", 1),
    ("C12", 1),
    ("C13", 2),
    ("C15", 2),
    ("C16", 8),
    ("C20", 1),
    ("C21", 4),
    ("C22", 1),
    ("C23", 1),
    ("C26", 1),
    ("C28", 1),
    ("C29", 2),
    ("C30", 2),
];

fn all() -> &'static Vec<Prop> {
    static P: OnceLock<Vec<Prop>> = OnceLock::new();
    P.get_or_init(super::all)
}

fn hostile_uses(c: &mut Ctx) -> R {
    let k = c.rng.below(10);
    let seed = c.rng.u64();
    let r = match k {
        0..=4 => borrowed(c),
        5 => guarded(|| write_on(c)),
        6 => guarded(|| read_on(c)),
        7 => guarded(|| coder_abuse(c)),
        8 => guarded(|| fields_abuse(c)),
        _ => guarded(|| moved(c)),
    };
    c.signature(mix(&[c.sig, seed, k]));
    if r.is_err() {
        c.add("panics", 1);
    }
    Ok(())
}

/// One case of another workload; what its own oracle says is that property's business.
fn borrowed(c: &mut Ctx) -> R {
    let total: u64 = BORROWED.iter().map(|b| b.1).sum();
    let mut k = c.rng.below(total);
    let id = BORROWED.iter().find(|b| if k < b.1 { true } else { k -= b.1; false }).unwrap().0;
    let p = all().iter().find(|p| p.id == id).unwrap();
    let idx = if p.directed > 0 && c.rng.chance(1, 6) { c.rng.below(p.directed) } else { p.directed + c.rng.below(1 << 30) };
    let mut sub = Ctx::new(p.id, idx, c.rng.u64(), false, true);
    sub.small = c.small || c.rng.chance(1, 3);
    let r = guarded(|| (p.run)(&mut sub));
    c.note(format!("{id}: {}", sub.describe));
    c.sig = sub.sig;
    c.add(&format!("borrowed {id}"), 1);
    if matches!(r, Ok(Ok(()))) {
        c.add("borrowed held", 1);
    }
    Ok(())
}

/// A stream that fails, lies and panics at random; its owner goes on all the same.
struct Wild {
    inner: Cursor<Vec<u8>>,
    rng: Rng,
    fail: u64,
    panic: u64,
    lie: u64,
}

impl Wild {
    fn new(rng: &mut Rng, data: Vec<u8>, at: u64) -> Self {
        let mut inner = Cursor::new(data);
        inner.set_position(at);
        let rare = |r: &mut Rng| if r.chance(2, 3) { 0 } else { *r.pick(&[2u64, 4, 20, 100]) };
        let fail = *rng.pick(&[0u64, 2, 3, 5, 12, 60]);
        let (panic, lie) = (rare(rng), if rng.chance(5, 6) { 0 } else { 6 });
        Wild { inner, rng: Rng::new(rng.u64()), fail, panic, lie }
    }
    fn op(&mut self) -> IoResult<()> {
        if self.panic != 0 && self.rng.chance(1, self.panic) {
            panic!("wild stream");
        }
        if self.fail != 0 && self.rng.chance(1, self.fail) {
            let k = *self.rng.pick(&[ErrorKind::Other, ErrorKind::Interrupted, ErrorKind::UnexpectedEof, ErrorKind::WouldBlock]);
            return Err(Error::new(k, "wild stream"));
        }
        Ok(())
    }
}
impl Read for Wild {
    fn read(&mut self, b: &mut [u8]) -> IoResult<usize> {
        self.op()?;
        let n = self.inner.read(b)?;
        if self.lie != 0 && self.rng.chance(1, self.lie) {
            // safe code may well return this
            return Ok(n + 1 + self.rng.usize(9));
        }
        Ok(n)
    }
}
impl Write for Wild {
    fn write(&mut self, b: &[u8]) -> IoResult<usize> {
        self.op()?;
        if self.inner.position() > 1 << 24 {
            return Err(Error::new(ErrorKind::Other, "too far"));
        }
        let n = self.inner.write(b)?;
        if self.lie != 0 && self.rng.chance(1, self.lie) {
            return Ok(n + 1 + self.rng.usize(9));
        }
        Ok(n)
    }
    fn flush(&mut self) -> IoResult<()> {
        Ok(())
    }
}
impl Seek for Wild {
    fn seek(&mut self, p: SeekFrom) -> IoResult<u64> {
        self.op()?;
        let n = self.inner.seek(p)?;
        if self.lie != 0 && self.rng.chance(1, 4 * self.lie) {
            return Ok(self.rng.u64());
        }
        Ok(n)
    }
}

/// Points that compress badly, so that buffers fill soon, or well.
fn material(c: &mut Ctx) -> gen::Stream {
    let l = gen::any_layout(&mut c.rng);
    let most = if c.small { 40 } else { 2500 };
    let n = 1 + c.rng.usize(most);
    let variable = c.rng.bool();
    let mut s = gen::stream_with(&mut c.rng, l, gen::Profile::Mixed, n, variable);
    if c.rng.bool() {
        s.points = gen::noise(&mut c.rng, s.points.len());
    }
    s
}

/// Writers used on and on after errors and panics.
fn write_on(c: &mut Ctx) {
    let s = material(c);
    c.note(format!("writer used after failures: {}", s.describe()));
    c.sig = s.signature();
    let size = s.size();
    let how = c.rng.below(4);
    let steps = 3 + c.rng.usize(20);
    let mut errors = 0u64;
    macro_rules! drive {
        ($k:expr, $seq:expr, $chunks:ident, $finish:ident) => {{
            for _ in 0..steps {
                let a = c.rng.usize(s.n);
                let b = (a + c.rng.usize(s.n)).min(s.n);
                let buf = &s.points[a * size..b * size];
                let buf = if c.rng.chance(1, 10) { &buf[..c.rng.usize(buf.len() + 1)] } else { buf };
                let op = c.rng.below(10);
                let r = guarded(|| match op {
                    0..=5 => $k.compress_many(buf).is_ok(),
                    6 => $chunks(&mut $k, buf),
                    7 => $k.reserve_offset_to_chunk_table().is_ok(),
                    8 => $k.done().is_ok(),
                    _ => $finish(&mut $k, buf),
                });
                if !matches!(r, Ok(true)) {
                    errors += 1;
                }
            }
            let _ = guarded(|| $k.done().is_ok());
            if c.rng.bool() {
                let _ = guarded(|| drop($k.into_inner()));
            }
        }};
    }
    match how {
        0 | 1 => {
            let w = Wild::new(&mut c.rng, vec![], 0);
            let Ok(mut k) = laz::LasZipCompressor::new(w, s.vlr()) else { return };
            type K<'a> = laz::LasZipCompressor<'a, Wild>;
            fn chunks(k: &mut K, b: &[u8]) -> bool {
                k.compress_chunks([b, b]).is_ok()
            }
            fn finish(k: &mut K, b: &[u8]) -> bool {
                k.finish_current_chunk().is_ok() && k.compress_one(b).is_ok()
            }
            drive!(k, true, chunks, finish)
        }
        2 => {
            let w = Wild::new(&mut c.rng, vec![], 0);
            let Ok(mut k) = laz::ParLasZipCompressor::new(w, s.vlr()) else { return };
            type K = laz::ParLasZipCompressor<Wild>;
            fn chunks(k: &mut K, b: &[u8]) -> bool {
                k.compress_chunks(vec![b, b, b]).is_ok()
            }
            fn finish(k: &mut K, b: &[u8]) -> bool {
                k.get_mut().inner.set_position(b.len() as u64);
                true
            }
            drive!(k, false, chunks, finish)
        }
        _ => {
            let Ok(bytes) = ops::reference::compress_vec(&s) else { return };
            let w = Wild::new(&mut c.rng, bytes, 0);
            let keep = c.rng.usize(s.n + 2) as u64;
            let r = guarded(|| laz::LasZipAppender::new(w, s.vlr(), keep));
            let Ok(Ok(mut k)) = r else {
                errors += 1;
                c.add("failures met by writers", errors);
                return;
            };
            for _ in 0..steps {
                let a = c.rng.usize(s.n);
                let b = (a + c.rng.usize(s.n)).min(s.n);
                let done = c.rng.chance(1, 8);
                let buf = &s.points[a * size..b * size];
                let r = guarded(|| if done { k.done().is_ok() } else { k.compress_many(buf).is_ok() });
                if !matches!(r, Ok(true)) {
                    errors += 1;
                }
            }
            let _ = guarded(|| k.done().is_ok());
        }
    }
    c.add("writers used after failures", 1);
    c.add("failures met by writers", errors);
}

/// Readers used on and on after errors and panics, on damaged data too.
fn read_on(c: &mut Ctx) {
    let s = material(c);
    c.note(format!("reader used after failures: {}", s.describe()));
    c.sig = s.signature();
    let Ok(mut bytes) = ops::reference::compress_vec(&s) else { return };
    for _ in 0..c.rng.usize(4) {
        let at = c.rng.usize(bytes.len());
        bytes[at] ^= 1 << c.rng.below(8);
    }
    let size = s.size();
    let seq = c.rng.bool();
    let wild = Wild::new(&mut c.rng, bytes, 0);
    let sel = laz::DecompressionSelection(c.rng.u32());
    let mut errors = 0u64;
    macro_rules! drive {
        ($d:expr) => {{
            for _ in 0..3 + c.rng.usize(12) {
                let n = if c.rng.bool() { 1 } else { c.rng.usize(s.n + 2) };
                let odd = if c.rng.chance(1, 8) { c.rng.usize(size) } else { 0 };
                let mut out = vec![0u8; n * size + odd];
                let to = match c.rng.below(4) {
                    0 => c.rng.u64(),
                    _ => c.rng.below(s.n as u64 + 2),
                };
                let op = c.rng.below(5);
                let r = guarded(|| match op {
                    0 => $d.seek(to).is_ok(),
                    1 => laz::LazDecompressor::decompress_one(&mut $d, &mut out).is_ok(),
                    _ => $d.decompress_many(&mut out).is_ok(),
                });
                if !matches!(r, Ok(true)) {
                    errors += 1;
                }
            }
        }};
    }
    if seq {
        let r = guarded(|| laz::LasZipDecompressor::selective(wild, s.vlr(), sel));
        if let Ok(Ok(mut d)) = r {
            drive!(d)
        }
    } else {
        let r = guarded(|| laz::ParLasZipDecompressor::new(wild, s.vlr()));
        if let Ok(Ok(mut d)) = r {
            drive!(d)
        }
    }
    c.add("readers used after failures", 1);
    c.add("failures met by readers", errors);
}

/// The coder and its models with arguments nobody should give.
fn coder_abuse(c: &mut Ctx) {
    use laz::models::*;
    let symbols = if cfg!(miri) { c.rng.below(40) as u32 } else { 0 };
    let symbols = if symbols > 0 { symbols } else { *c.rng.pick(&[0u32, 1, 2, 3, 15, 16, 17, 31, 64, 100, 255, 256, 2047, 2048, 2049]) };
    let table: Vec<u32> = match c.rng.below(4) {
        0 => vec![],
        1 => vec![1; symbols as usize],
        2 => (0..symbols).map(|_| c.rng.below(300) as u32).collect(),
        _ => (0..c.rng.usize(if cfg!(miri) { 100 } else { 3000 })).map(|_| c.rng.u32() >> c.rng.below(32)).collect(),
    };
    c.note(format!("coder with {symbols} symbols, table of {}", table.len()));
    let models: Vec<ArithmeticModel> =
        [true, false].iter().filter_map(|e| guarded(|| ArithmeticModel::new(symbols, *e, &table)).ok()).collect();
    c.add("models built from any table", models.len() as u64);
    let steps = if c.small { 60 } else { 3000 };
    let wild = Wild::new(&mut c.rng, vec![], 0);
    let mut e = laz::encoders::ArithmeticEncoder::new(wild);
    let mut ms = models.clone();
    let mut bit = ArithmeticBitModel::new();
    let mut failed = 0u64;
    for _ in 0..c.rng.usize(steps) {
        let x = c.rng.u32() >> c.rng.below(32);
        let op = c.rng.below(9);
        let w = c.rng.usize(2);
        let r = guarded(|| match op {
            0..=3 => match ms.get_mut(w) {
                Some(m) => e.encode_symbol(m, if x % 50 == 0 { x } else { x % symbols.max(1) }).is_ok(),
                None => true,
            },
            4 => e.encode_bit(&mut bit, x & 1).is_ok(),
            5 => e.write_bits(1 + x % 31, x >> (x % 31)).is_ok(),
            6 => e.write_int(x).is_ok(),
            7 => e.write_short(x as u16).is_ok(),
            _ => match x % 40 {
                0 => e.done().is_ok(),
                1 => {
                    e.reset();
                    true
                }
                _ => e.write_bit(x & 1).is_ok(),
            },
        });
        if !matches!(r, Ok(true)) {
            failed += 1;
        }
    }
    c.add("failures met by the encoder", failed);
    let _ = guarded(|| e.done().is_ok());
    let mut bytes = e.into_inner().inner.into_inner();
    if c.rng.bool() {
        bytes = gen::hostile(&mut c.rng, None);
    }
    let wild = Wild::new(&mut c.rng, bytes, 0);
    let mut d = laz::decoders::ArithmeticDecoder::new(wild);
    let mut ms = models;
    let mut ic = vec![];
    for _ in 0..if cfg!(miri) { 1 } else { 2 } {
        let (bits, contexts, high, range) = (c.rng.below(40) as u32, c.rng.below(6) as u32, c.rng.below(14) as u32, c.rng.u32() >> c.rng.below(32));
        if let Ok(mut x) = guarded(|| laz::decompressors::IntegerDecompressor::new(bits, contexts, high, range)) {
            if c.rng.chance(4, 5) {
                let _ = guarded(|| x.init());
            }
            ic.push(x);
        }
    }
    for _ in 0..c.rng.usize(steps) {
        let x = c.rng.u32() >> c.rng.below(32);
        let op = c.rng.below(9);
        let w = c.rng.usize(2);
        let r = guarded(|| match op {
            0..=2 => ms.get_mut(w).map_or(true, |m| d.decode_symbol(m).is_ok()),
            3 => d.decode_bit(&mut bit).is_ok(),
            4 => d.read_bits(1 + x % 32).is_ok(),
            5 => d.read_int().is_ok() && d.read_int_64().is_ok(),
            6 => {
                if x % 30 == 0 {
                    d.reset();
                    d.read_init_bytes().is_ok()
                } else {
                    d.read_bit().is_ok()
                }
            }
            _ => ic.get_mut(w).map_or(true, |i| i.decompress(&mut d, x as i32, x % 7).is_ok()),
        });
        if !matches!(r, Ok(true)) {
            failed += 1;
            if c.rng.chance(1, 50) {
                break;
            }
        }
    }
    c.add("failures met by the coders", failed);
    c.add("coders abused", 1);
}

/// Fields and packed values with buffers and contexts that do not fit.
fn fields_abuse(c: &mut Ctx) {
    use laz::las::{gps::GpsTime, point0::Point0, point6::Point6, rgb::RGB, wavepacket::LasWavepacket};
    use laz::packers::Packable;
    use laz::record::*;
    let len = c.rng.usize(40);
    // boxed to its exact length: a byte more is out of the allocation
    let mut buf = gen::noise(&mut c.rng, len).into_boxed_slice();
    macro_rules! pack {
        ($($t:ty),*) => {
            $(let _ = guarded(|| {
                let v = <$t>::unpack_from(&buf);
                v.pack_into(&mut buf);
            });)*
        };
    }
    pack!(u8, i8, u16, u32, u64, i32, f32, Point0, Point6, RGB, GpsTime, LasWavepacket);
    c.note(format!("fields with {len} bytes"));

    let l = if cfg!(miri) {
        let (k, lv) = (c.rng.below(6), 3 + c.rng.below(2) as u16);
        few_models(k, lv - 2, lv, &mut c.rng)
    } else {
        gen::any_layout(&mut c.rng)
    };
    let vlr = l.vlr(VARIABLE);
    let items = vlr.items().clone();
    let size = l.size();
    let mut bad = 0;
    let steps = 2 + c.rng.usize(12);
    let lens: Vec<usize> = (0..steps).map(|_| if c.rng.bool() { size } else { c.rng.usize(2 * size + 1) }).collect();
    macro_rules! record {
        ($t:ident, $again:expr) => {{
            let mut k = $t::new(Cursor::new(vec![]));
            let _ = guarded(|| k.set_fields_from(&items).is_ok());
            for (i, n) in lens.iter().enumerate() {
                let b = gen::noise(&mut c.rng, *n).into_boxed_slice();
                let op = c.rng.below(12);
                let r = guarded(|| match op {
                    0 => {
                        k.reset();
                        i % 2 == 0 || k.set_fields_from(&items).is_ok()
                    }
                    1 => k.done().is_ok(),
                    2 => k.compress_many(&b).is_ok(),
                    _ => k.compress_next(&b).is_ok(),
                });
                if !matches!(r, Ok(true)) {
                    bad += 1;
                }
            }
            let _ = guarded(|| k.done().is_ok());
        }};
    }
    macro_rules! unrecord {
        ($t:ident) => {{
            let mut data = gen::noise(&mut c.rng, size);
            data.extend(gen::hostile(&mut c.rng, None));
            let mut k = $t::new(Cursor::new(data));
            let _ = guarded(|| k.set_fields_from(&items).is_ok());
            for (i, n) in lens.iter().enumerate() {
                let mut b = vec![0u8; *n].into_boxed_slice();
                let op = c.rng.below(12);
                let r = guarded(|| match op {
                    0 => {
                        k.reset();
                        i % 2 == 0 || k.set_fields_from(&items).is_ok()
                    }
                    1 => {
                        k.set_selection(laz::DecompressionSelection(*n as u32));
                        true
                    }
                    2 => k.decompress_until_end_of_file(&mut b).is_ok(),
                    _ => k.decompress_next(&mut b).is_ok(),
                });
                if !matches!(r, Ok(true)) {
                    bad += 1;
                }
            }
        }};
    }
    match c.rng.below(4) {
        0 => record!(SequentialPointRecordCompressor, 0),
        1 => record!(LayeredPointRecordCompressor, 0),
        2 => unrecord!(SequentialPointRecordDecompressor),
        _ => unrecord!(LayeredPointRecordDecompressor),
    }

    // layered fields on their own, with any context
    let mut rng = c.rng.clone();
    let contexts: Vec<usize> = (0..8).map(|_| *rng.pick(&[0usize, 1, 2, 3, 3, 4, 5, 255, usize::MAX])).collect();
    macro_rules! layered {
        ($k:expr) => {{
            let mut k = $k;
            let mut dst = Cursor::new(vec![]);
            for (i, x) in contexts.iter().enumerate() {
                let n = if rng.bool() { LayeredFieldCompressor::<Cursor<Vec<u8>>>::size_of_field(&k) } else { rng.usize(70) };
                let b = gen::noise(&mut rng, n).into_boxed_slice();
                let mut context = *x;
                let r = guarded(|| {
                    if i == 0 {
                        k.init_first_point(&mut dst, &b, &mut context).is_ok()
                    } else {
                        LayeredFieldCompressor::<Cursor<Vec<u8>>>::compress_field_with(&mut k, &b, &mut context).is_ok()
                    }
                });
                if !matches!(r, Ok(true)) {
                    bad += 1;
                }
            }
            let _ = guarded(|| k.write_layers_sizes(&mut dst).is_ok() && k.write_layers(&mut dst).is_ok());
        }};
    }
    match if cfg!(miri) { 1 + 3 * rng.below(2) } else { rng.below(5) } {
        0 => layered!(laz::las::v3::LasPoint6Compressor::default()),
        1 => layered!(laz::las::v3::LasRGBCompressor::default()),
        2 => layered!(laz::las::v3::LasNIRCompressor::default()),
        3 => layered!(laz::las::v3::LasWavepacketCompressor::default()),
        _ => layered!(laz::las::v3::LasExtraByteCompressor::new(rng.usize(60))),
    }
    c.rng = rng;
    c.add("refusals by fields", bad);
    c.add("fields abused", 1);
}

/// Codecs moved, swapped, boxed, sent to threads and dropped between calls.
fn moved(c: &mut Ctx) {
    let s = material(c);
    c.note(format!("moved codecs: {}", s.describe()));
    c.sig = s.signature();
    let size = s.size();
    let new = || laz::LasZipCompressor::new(Cursor::new(vec![]), s.vlr()).ok();
    let mut ks: Vec<Option<Box<laz::LasZipCompressor<Cursor<Vec<u8>>>>>> = (0..3).map(|_| new().map(Box::new)).collect();
    let mut rest = 0;
    for _ in 0..4 + c.rng.usize(20) {
        let (i, j) = (c.rng.usize(3), c.rng.usize(3));
        let a = c.rng.usize(s.n);
        let b = (a + 1 + c.rng.usize(s.n)).min(s.n);
        let pts = &s.points[a * size..b * size];
        match c.rng.below(7) {
            0 => ks.swap(i, j),
            1 => {
                if i != j {
                    let (a, b) = (i.min(j), i.max(j));
                    let (x, y) = ks.split_at_mut(b);
                    if let (Some(x), Some(y)) = (x[a].as_mut(), y[0].as_mut()) {
                        std::mem::swap(&mut **x, &mut **y);
                    }
                }
            }
            2 => {
                if let Some(k) = ks[i].take() {
                    let unboxed = *k;
                    ks[i] = Some(Box::new(unboxed));
                }
            }
            3 => {
                if let Some(mut k) = ks[i].take() {
                    ks[i] = std::thread::scope(|sc| {
                        sc.spawn(move || {
                            let _ = k.compress_many(pts);
                            k
                        })
                        .join()
                        .ok()
                    });
                }
            }
            4 if c.rng.chance(1, 4) => {
                ks[i] = new().map(Box::new);
                rest += 1;
            }
            _ => {
                if let Some(k) = ks[i].as_mut() {
                    let _ = k.compress_many(pts);
                }
            }
        }
    }
    let mut streams = vec![];
    for mut k in ks.into_iter().flatten() {
        if k.done().is_ok() {
            streams.push((*k).into_inner().into_inner());
        }
    }
    // the same with the readers, over the streams just written
    let mut ds: Vec<laz::LasZipDecompressor<Cursor<&Vec<u8>>>> =
        streams.iter().filter_map(|b| laz::LasZipDecompressor::new(Cursor::new(b), s.vlr()).ok()).collect();
    let mut out = vec![0u8; 16 * size];
    for _ in 0..10 {
        if ds.is_empty() {
            break;
        }
        let (i, j) = (c.rng.usize(ds.len()), c.rng.usize(ds.len()));
        ds.swap(i, j);
        let _ = guarded(|| ds[i].decompress_many(&mut out).is_ok());
        if c.rng.chance(1, 6) {
            let d = ds.remove(i);
            let d = Box::new(d);
            ds.push(*d);
        }
    }
    c.add("moved codecs", 3);
    c.add("dropped half way", rest);
}
