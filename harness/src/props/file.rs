//! C19: the format does not drift. C22: the bundled file reader.
use crate::ctx::*;
use crate::gen::{self, Layout};
use crate::mio::{MonFile, Plan};
use crate::ops;
use crate::rng::{hash_bytes, hash_str, mix};
use crate::{guarded, Prop};
use laz::las::file as lf;
use std::io::{Cursor, Read, Seek, SeekFrom};

pub fn register(v: &mut Vec<Prop>) {
    v.push(Prop { id: "C19", run: drift, directed: FIXTURES.len() as u64 * 4, quick: 4000, thorough: 200000, workers: 0 });
    v.push(Prop { id: "C22", run: simple_reader, directed: FIXTURES.len() as u64 * 2, quick: 10000, thorough: 500000, workers: 0 });
}

/// LAS files and what LASzip made of them.
const FIXTURES: [(&str, &[u8], &[u8]); 6] = [
    ("point10", include_bytes!("../../../fixtures/point10.las"), include_bytes!("../../../fixtures/point10.laz")),
    ("point-time", include_bytes!("../../../fixtures/point-time.las"), include_bytes!("../../../fixtures/point-time.laz")),
    ("point-color", include_bytes!("../../../fixtures/point-color.las"), include_bytes!("../../../fixtures/point-color.laz")),
    (
        "point-time-color",
        include_bytes!("../../../fixtures/point-time-color.las"),
        include_bytes!("../../../fixtures/point-time-color.laz"),
    ),
    ("extra-bytes", include_bytes!("../../../fixtures/extra-bytes.las"), include_bytes!("../../../fixtures/extra-bytes.laz")),
    (
        "version-1",
        include_bytes!("../../../fixtures/point-version-1-point-wise.las"),
        include_bytes!("../../../fixtures/point-version-1-point-wise.laz"),
    ),
];

fn u16_at(b: &[u8], i: usize) -> usize {
    u16::from_le_bytes(b[i..i + 2].try_into().unwrap()) as usize
}
fn u32_at(b: &[u8], i: usize) -> usize {
    u32::from_le_bytes(b[i..i + 4].try_into().unwrap()) as usize
}

/// The points of an old-style LAS file, and the laszip record of a LAZ one.
struct Las {
    offset: usize,
    size: usize,
    n: usize,
    laszip: Option<Vec<u8>>,
}
fn parse_las(b: &[u8]) -> Las {
    let mut at = u16_at(b, 94);
    let mut laszip = None;
    for _ in 0..u32_at(b, 100) {
        let len = u16_at(b, at + 20);
        if &b[at + 2..at + 16] == b"laszip encoded" && u16_at(b, at + 18) == 22204 {
            laszip = Some(b[at + 54..at + 54 + len].to_vec());
        }
        at += 54 + len;
    }
    Las { offset: u32_at(b, 96), size: u16_at(b, 105), n: u32_at(b, 107), laszip }
}

// ---------------------------------------------------------------- C19

fn drift(c: &mut Ctx) -> R {
    let k = c.idx as usize;
    if k < FIXTURES.len() * 4 {
        return fixture(c, k % FIXTURES.len(), k / FIXTURES.len());
    }
    match c.rng.below(20) {
        0..=11 => exchange(c),
        12..=16 => unchunked(c),
        _ => record_of_formats(c),
    }
}

fn fixture(c: &mut Ctx, i: usize, way: usize) -> R {
    let (name, las, laz_) = FIXTURES[i];
    let (a, b) = (parse_las(las), parse_las(laz_));
    c.note(format!("file {name} way {way}"));
    c.signature(mix(&[hash_str(name), way as u64]));
    let expected = &las[a.offset..a.offset + a.n * a.size];
    let vlr = laz::LazVlr::from_buffer(b.laszip.clone().unwrap()).must("vlr")?;
    let chunked = b.laszip.as_ref().unwrap()[0] == 2;
    let mut src = Cursor::new(laz_);
    src.set_position(b.offset as u64);
    let mut out = vec![0u8; expected.len()];
    match way {
        0 => {
            let mut d = laz::LasZipDecompressor::new(src, vlr).must("open")?;
            for p in out.chunks_mut(a.size) {
                d.decompress_one(p).must("decompress")?;
            }
        }
        1 => laz::decompress_buffer(&laz_[b.offset..], &mut out, vlr).must("decompress_buffer").or_else(|e| {
            // the table's position is the one in the file
            if chunked { Ok(()) } else { Err(e) }
        })?,
        2 if chunked => laz::par_decompress_buffer(&laz_[b.offset..], &mut out, &vlr).or_else(|_| -> laz::Result<()> {
            let mut d = laz::ParLasZipDecompressor::new(src, vlr.clone())?;
            d.decompress_many(&mut out)?;
            Ok(())
        }).must("par decompress")?,
        2 => return Ok(()),
        _ => {
            if !chunked {
                let mut d = laz::LasZipDecompressor::new(src, vlr).must("open")?;
                ensure!(d.seek(1).is_err(), "format:seek-unchunked", "seeking without a table worked");
                return Ok(());
            }
            // writing the points again gives the file again
            let mut dst = Cursor::new(laz_[..b.offset].to_vec());
            dst.set_position(b.offset as u64);
            let mut k = laz::LasZipCompressor::new(dst, vlr).must("compressor")?;
            k.compress_many(expected).must("compress")?;
            k.done().must("done")?;
            let got = k.into_inner().into_inner();
            ensure!(got == laz_, "format:fixture-bytes", "{name}: {:?}", first_diff(laz_, &got, 1));
            out.copy_from_slice(expected);
        }
    }
    if way == 1 && chunked {
        out.clear();
        out.resize(expected.len(), 0);
        let mut d = laz::LasZipDecompressor::new(Cursor::new(laz_), laz::LazVlr::from_buffer(b.laszip.unwrap()).must("vlr")?);
        drop(d);
        let mut s = Cursor::new(laz_);
        s.set_position(b.offset as u64);
        d = laz::LasZipDecompressor::new(s, laz::LazVlr::from_buffer(parse_las(laz_).laszip.unwrap()).must("vlr")?);
        d.must("open")?.decompress_many(&mut out).must("decompress")?;
    }
    ensure!(out == expected, "format:fixture-points", "{name}: {:?}", first_diff(expected, &out, a.size));
    c.add("points of LASzip files", a.n as u64);
    Ok(())
}

/// Streams go back and forth between the frozen implementation and the current one.
fn exchange(c: &mut Ctx) -> R {
    let l = gen::any_layout(&mut c.rng);
    let s = if !c.small && (c.idx < FIXTURES.len() as u64 * 4 + 12 || c.rng.chance(1, 200)) {
        c.add("long streams exchanged", 1);
        match c.rng.below(6) {
            0 => gen::many_chunks(&mut c.rng),
            1 => gen::long_chunks(&mut c.rng),
            _ => gen::big_stream(&mut c.rng),
        }
    } else if c.rng.chance(1, 8) {
        let m = c.max_points(4000);
        gen::decoded(&mut c.rng, l, m)
    } else {
        let m = c.max_points(3000);
        gen::stream(&mut c.rng, l, m)
    };
    c.note(s.describe());
    c.signature(s.signature());
    c.nontrivial = s.n >= 2;
    c.st.seen("layouts", hash_str(&s.layout.name));
    let theirs = ops::reference::compress_vec(&s).must("reference compress")?;
    let ours = if c.rng.chance(2, 3) {
        ops::cur::compress_vec(&s).must("compress")?
    } else {
        ops::par_compress_any(&mut c.rng, &s, Cursor::new(vec![])).must("par compress")?.0.into_inner()
    };
    ensure!(ours == theirs, format!("format:bytes:{}", if s.layout.layered() { "layered" } else { "pointwise" }), "{}: {:?}", s.describe(), first_diff(&theirs, &ours, 1));
    let got = if c.rng.bool() {
        ops::cur::decompress_vec(&s, &theirs).must("decompress")?
    } else {
        let mut out = vec![0u8; s.points.len()];
        let pool = ops::any_pool(&mut c.rng);
        pool.install(|| -> laz::Result<()> {
            let mut d = laz::ParLasZipDecompressor::new(Cursor::new(&theirs), s.vlr())?;
            d.decompress_many(&mut out)?;
            Ok(())
        })
        .must("par decompress")?;
        out
    };
    ensure!(got == s.points, "format:points", "{}: {:?}", s.describe(), first_diff(&s.points, &got, s.size()));
    c.add("streams exchanged", 1);
    c.add("bytes compared", ours.len() as u64);
    Ok(())
}

/// The form of the first versions of LASzip: no chunks, no table, no position of a table.
fn unchunked(c: &mut Ctx) -> R {
    use laz_ref::record::RecordCompressor;
    let l = gen::pointwise_layout(&mut c.rng);
    let m = c.max_points(3000);
    let s = gen::stream(&mut c.rng, l, m);
    let cs = *c.rng.pick(&[0u32, 1, 2, 7, 50_000, u32::MAX - 1, u32::MAX]);
    let before = c.rng.usize(300);
    let after = c.rng.usize(300);
    c.note(format!("unchunked {} chunk size {cs} at {before}", s.describe()));
    c.signature(mix(&[s.signature(), u64::from(cs)]));
    let rec = s.layout.vlr_bytes(1, cs);
    let vlr_ref = laz_ref::LazVlr::from_buffer(rec.clone()).must("vlr")?;
    let mut k = laz_ref::record::SequentialPointRecordCompressor::new(gen::noise(&mut c.rng, before));
    k.set_fields_from(vlr_ref.items()).must("items")?;
    k.compress_many(&s.points).must("compress")?;
    k.done().must("done")?;
    let mut bytes = k.into_inner();
    bytes.extend(gen::noise(&mut c.rng, after));
    let vlr = laz::LazVlr::from_buffer(rec).must("vlr")?;
    let mut out = vec![0u8; s.points.len()];
    let how = c.rng.below(3);
    if how == 0 {
        laz::decompress_buffer(&bytes[before..], &mut out, vlr).must("decompress unchunked")?;
    } else {
        let mut src = Cursor::new(bytes);
        src.set_position(before as u64);
        let mut d = laz::LasZipDecompressor::new(src, vlr).must("open unchunked")?;
        if how == 1 {
            d.decompress_many(&mut out).must("decompress unchunked")?;
        } else {
            let mut at = 0;
            for b in ops::batches(&mut c.rng, s.n, 7) {
                let e = at + b * s.size();
                d.decompress_many(&mut out[at..e]).must("decompress unchunked")?;
                at = e;
            }
            let seek = guarded(|| d.seek(0).is_err())?;
            ensure!(seek, "format:seek-unchunked", "seeking without a table worked");
        }
    }
    ensure!(out == s.points, "format:unchunked", "chunk size {cs} {}: {:?}", s.describe(), first_diff(&s.points, &out, s.size()));
    c.add("unchunked streams", 1);
    Ok(())
}

/// The laszip records built for the point formats.
fn record_of_formats(c: &mut Ctx) -> R {
    let fmt = c.rng.below(12) as u8;
    let eb = *c.rng.pick(&[0u16, 1, 2, 27, 255, 1000]);
    let cs = *c.rng.pick(&[1u32, 5, 50_000, u32::MAX]);
    c.note(format!("record of format {fmt} with {eb} extra bytes, chunk size {cs}"));
    c.signature(mix(&[u64::from(fmt), u64::from(eb), u64::from(cs)]));
    macro_rules! record {
        ($laz:ident, $how:expr) => {{
            let mut out = vec![];
            match $how {
                0 => {
                    let items = $laz::LazItemRecordBuilder::default_for_point_format_id(fmt, eb);
                    items.map(|i| {
                        $laz::LazVlr::from_laz_items(i).write_to(&mut out).unwrap();
                    }).is_ok()
                }
                _ => {
                    let b = $laz::LazVlrBuilder::default();
                    b.with_point_format(fmt, eb).map(|b| {
                        #[allow(deprecated)]
                        let b = match $how {
                            _ if cs == u32::MAX => b.with_variable_chunk_size(),
                            1 => b.with_fixed_chunk_size(cs),
                            2 => b.with_chunk_size(cs),
                            _ => b,
                        };
                        b.build().write_to(&mut out).unwrap();
                    }).is_ok()
                }
            }
            .then_some(out)
        }};
    }
    let how = c.rng.below(4);
    let (ours, theirs) = (record!(laz, how), record!(laz_ref, how));
    ensure!(ours == theirs, "format:record", "format {fmt} extra bytes {eb} way {how}: {ours:?} instead of {theirs:?}");
    if fmt <= 10 {
        // what the specification says of it
        let want: Vec<(u16, u16, u16)> = Layout::las_format(fmt, if fmt < 6 { 2 } else { 3 }, eb)
            .items
            .iter()
            .map(|(k, v)| (k.code(), k.size() as u16, *v))
            .collect();
        let b = ours.ok_or(Fail { sig: "format:record".into(), msg: format!("format {fmt} was refused") })?;
        let got: Vec<(u16, u16, u16)> =
            b[34..].chunks(6).map(|i| (u16_at(i, 0) as u16, u16_at(i, 2) as u16, u16_at(i, 4) as u16)).collect();
        ensure!(got == want, "format:record", "format {fmt} extra bytes {eb} way {how}: {got:?} instead of {want:?}");
    }
    c.add("records compared", 1);
    Ok(())
}

// ---------------------------------------------------------------- C22

struct File {
    bytes: Vec<u8>,
    points: Vec<u8>,
    fmt: u8,
    size: usize,
    n: usize,
    eb: u16,
    minor: u8,
    header_size: u16,
    offset: usize,
    vlrs: u32,
    compressed: bool,
    what: String,
}

fn make_file(c: &mut Ctx) -> File {
    let rng = &mut c.rng;
    let minor = rng.below(5) as u8;
    let fmt = match minor {
        0 | 1 => rng.below(2),
        2 => rng.below(4),
        3 => rng.below(6),
        _ => rng.below(11),
    } as u8;
    let eb = if rng.bool() { 0 } else { *rng.pick(&[1u16, 2, 5, 27]) };
    let eb = if rng.chance(1, 40) { *rng.pick(&[200, 256, 300, 1500]) } else { eb };
    let version = if fmt < 6 { if rng.bool() { 2 } else { 1 } } else if rng.bool() { 3 } else { 4 };
    let l = Layout::las_format(fmt, version, eb);
    let size = l.size();
    let compressed = rng.chance(2, 3);
    let none = rng.chance(1, 12);
    let mut s = if !c.small && size < 80 && (rng.chance(1, 2500)) {
        let n = 65_530 + rng.usize(10_000);
        let (profile, variable) = (gen::any_profile(rng), rng.bool());
        gen::stream_with(rng, l, profile, n, variable)
    } else {
        gen::stream(rng, l, if c.small { 20 } else { 600 })
    };
    if none {
        s.n = 0;
        s.points.clear();
        s.cuts.clear();
    }
    let standard: usize = match minor {
        0..=2 => 227,
        3 => 235,
        _ => 375,
    };
    let header_size = standard
        + match rng.below(40) {
            0 => *rng.pick(&[32_767, 32_768, 65_535]) - standard,
            1..=10 => 1 + rng.usize(400),
            _ => 0,
        };
    let mut b = gen::noise(rng, header_size);
    b[..4].copy_from_slice(b"LASF");
    b[24] = 1;
    b[25] = minor;
    b[94..96].copy_from_slice(&(header_size as u16).to_le_bytes());
    b[104] = fmt | if compressed { 0x80 } else { 0 };
    b[105..107].copy_from_slice(&(size as u16).to_le_bytes());
    let legacy = if minor < 4 || (fmt < 6 && rng.bool()) { s.n as u32 } else { 0 };
    b[107..111].copy_from_slice(&legacy.to_le_bytes());
    if minor >= 4 {
        b[247..255].copy_from_slice(&(s.n as u64).to_le_bytes());
    }
    // records, the laszip one anywhere among them, and others that look like it
    let many = !c.small && rng.chance(1, 200);
    let others = match () {
        _ if !many => rng.usize(5),
        _ if rng.chance(1, 8) => 65_500 + rng.usize(300),
        _ => 250 + rng.usize(400),
    };
    let place = rng.usize(others + 1);
    let unchunked = compressed && fmt < 6 && rng.chance(1, 6);
    let mut vlrs = 0u32;
    let mut push = |b: &mut Vec<u8>, user: &[u8], id: u16, data: &[u8], noise: u64| {
        b.extend((noise as u16).to_le_bytes());
        let mut u = [0u8; 16];
        u[..user.len()].copy_from_slice(user);
        b.extend(u);
        b.extend(id.to_le_bytes());
        b.extend((data.len() as u16).to_le_bytes());
        b.extend([noise as u8; 32]);
        b.extend(data);
        vlrs += 1;
    };
    let record = s.layout.vlr_bytes(if unchunked { 1 } else { s.layout.compressor() }, s.chunk_size);
    for i in 0..=others {
        if i == place && compressed {
            push(&mut b, b"laszip encoded", 22204, &record, rng.u64());
        } else {
            let len = match rng.below(12) {
                0 => 0,
                1 if !many => 65535,
                _ => rng.usize(if others > 60_000 { 20 } else { 300 }),
            };
            let data = gen::noise(rng, len);
            let noise = rng.u64();
            match rng.below(6) {
                0 => push(&mut b, b"laszip encoded", 22203, &data, noise),
                1 => push(&mut b, b"laszip encodec", 22204, &data, noise),
                2 => push(&mut b, b"laszip encoded12", 22204, &data, noise),
                3 => push(&mut b, b"", 22204, &data, noise),
                4 => push(&mut b, b"LASF_Projection", 34735, &data, noise),
                _ => push(&mut b, b"laszip", 22204, &data, noise),
            }
        }
    }
    if rng.bool() {
        let gap = rng.usize(500);
        b.extend(gen::noise(rng, gap));
    }
    let offset = b.len();
    b[96..100].copy_from_slice(&(offset as u32).to_le_bytes());
    b[100..104].copy_from_slice(&vlrs.to_le_bytes());
    if unchunked {
        use laz_ref::record::RecordCompressor;
        let v = laz_ref::LazVlr::from_buffer(record).expect("vlr");
        let mut k = laz_ref::record::SequentialPointRecordCompressor::new(b);
        k.set_fields_from(v.items()).expect("items");
        k.compress_many(&s.points).expect("ref");
        k.done().expect("ref");
        b = k.into_inner();
    } else if compressed {
        let mut dst = Cursor::new(b);
        dst.set_position(offset as u64);
        b = ops::reference::compress(&s, dst).expect("ref").into_inner();
    } else {
        b.extend_from_slice(&s.points);
    }
    if rng.bool() {
        let len = rng.usize(300);
        b.extend(gen::noise(rng, len));
    }
    let what = format!(
        "1.{minor} format {fmt} eb {eb} {} header {header_size} vlrs {vlrs} points at {offset}: {}",
        if unchunked { "unchunked" } else if compressed { "compressed" } else { "raw" },
        s.describe()
    );
    File {
        bytes: b,
        points: s.points,
        fmt,
        size,
        n: s.n,
        eb,
        minor,
        header_size: header_size as u16,
        offset,
        vlrs,
        compressed,
        what,
    }
}

fn fixture_file(i: usize, compressed: bool) -> File {
    let (name, las, laz_) = FIXTURES[i];
    let a = parse_las(las);
    let bytes = if compressed { laz_ } else { las }.to_vec();
    let p = parse_las(&bytes);
    let fmt = las[104];
    let base = [20, 28, 26, 34, 57, 63][fmt as usize];
    File {
        points: las[a.offset..a.offset + a.n * a.size].to_vec(),
        fmt,
        size: a.size,
        n: a.n,
        eb: (a.size - base) as u16,
        minor: bytes[25],
        header_size: u16_at(&bytes, 94) as u16,
        offset: p.offset,
        vlrs: u32_at(&bytes, 100) as u32,
        compressed,
        bytes,
        what: format!("file {name} compressed {compressed}"),
    }
}

fn header_is(h: &lf::QuickHeader, f: &File, id: u8) -> R {
    ensure!(
        h.major == 1
            && h.minor == f.minor
            && h.offset_to_points as usize == f.offset
            && h.num_vlrs == f.vlrs
            && h.point_size as usize == f.size
            && h.num_points == f.n as u64
            && h.header_size == f.header_size
            && h.point_format_id == id,
        "reader:header",
        "{}: {h:?}",
        f.what
    );
    Ok(())
}

/// Points up to 4 GiB behind the header, and more points than 32 bits can count.
fn far_reader(c: &mut Ctx) -> R {
    let rng = &mut c.rng;
    let fmt = rng.below(11) as u8;
    let minor = if fmt >= 6 || rng.bool() { 4u8 } else { 3 };
    let version = if fmt < 6 { if rng.bool() { 2 } else { 1 } } else if rng.bool() { 3 } else { 4 };
    let eb = *rng.pick(&[0u16, 0, 3]);
    let mut s = gen::stream(rng, Layout::las_format(fmt, version, eb), 100);
    let compressed = rng.bool();
    let header_size: usize = if minor == 4 { 375 } else { 235 };
    let offset = *rng.pick(&[2000u64, 65_536, 1 << 24, 0x7FFF_FFFF, 0x8000_0000, 0x8000_0001, 0xFFFF_FFFF]);
    let offset = offset - rng.below(2);
    // the points behind the first ones are all zeroes, there are too many of them to read
    let more = if minor == 4 && !compressed { *rng.pick(&[0u64, 1 << 20, (1 << 32) - 1, 1 << 32, (1 << 32) + 1, 1 << 40]) } else { 0 };
    let n = s.n as u64 + more;
    let mut b = gen::noise(rng, header_size);
    b[..4].copy_from_slice(b"LASF");
    b[24] = 1;
    b[25] = minor;
    b[94..96].copy_from_slice(&(header_size as u16).to_le_bytes());
    b[96..100].copy_from_slice(&(offset as u32).to_le_bytes());
    b[104] = fmt | if compressed { 0x80 } else { 0 };
    b[105..107].copy_from_slice(&(s.size() as u16).to_le_bytes());
    b[107..111].copy_from_slice(&(if fmt >= 6 || n > u64::from(u32::MAX) { 0 } else { n as u32 }).to_le_bytes());
    if minor == 4 {
        b[247..255].copy_from_slice(&n.to_le_bytes());
    }
    b[100..104].copy_from_slice(&(compressed as u32).to_le_bytes());
    if compressed {
        let record = s.layout.vlr_bytes(s.layout.compressor(), s.chunk_size);
        let mut user = [0u8; 16];
        user[..14].copy_from_slice(b"laszip encoded");
        b.extend([0u8; 2]);
        b.extend(user);
        b.extend(22204u16.to_le_bytes());
        b.extend((record.len() as u16).to_le_bytes());
        b.extend([0u8; 32]);
        b.extend(record);
    }
    let mut file = crate::far::FarFile::default();
    file.put(0, &b);
    if compressed {
        file.pos = offset;
        file = ops::reference::compress(&s, file).expect("ref");
    } else {
        file.put(offset, &s.points);
        file.len = offset + n * s.size() as u64;
    }
    file.pos = 0;
    let what = format!("1.{minor} format {fmt} compressed {compressed} points at {offset}, {n} of them: {}", s.describe());
    c.note(what.clone());
    c.signature(mix(&[s.signature(), offset, more, compressed as u64]));
    let mut r = lf::SimpleReader::new(file.clone()).must("open")?;
    let h = &r.header;
    ensure!(
        h.offset_to_points as u64 == offset && h.num_points == n && h.point_format_id == fmt && h.point_size as usize == s.size(),
        "reader:header",
        "{what}: {h:?}"
    );
    for i in 0..s.n {
        match r.read_next() {
            Some(p) => {
                let p = p.must("read_next")?;
                ensure!(p == s.point(i), "reader:points", "{what}: point {i}: {} instead of {}", hex(p), hex(s.point(i)));
            }
            None => return fail("reader:count", format!("{what}: no point {i}")),
        }
    }
    let next = r.read_next().map(|p| p.map(|p| p.to_vec()));
    match next {
        None => ensure!(more == 0, "reader:count", "{what}: no point {}", s.n),
        Some(p) => {
            ensure!(more > 0, "reader:count", "{what}: more points");
            ensure!(p.must("read_next")?.iter().all(|b| *b == 0), "reader:points", "{what}: the first of the zeroes");
        }
    }
    let (h, vlr) = lf::read_header_and_vlrs(&mut file).must("read_header_and_vlrs")?;
    ensure!(h.num_points == n && vlr.is_some() == compressed && file.pos == offset, "reader:position", "{what}: left at {}", file.pos);
    c.add("files with points far away", 1);
    s.points.clear();
    Ok(())
}

fn simple_reader(c: &mut Ctx) -> R {
    let k = c.idx as usize;
    if k >= FIXTURES.len() * 2 && !c.small && c.rng.chance(1, 60) {
        return far_reader(c);
    }
    let f = if k < FIXTURES.len() * 2 { fixture_file(k / 2, k % 2 == 1) } else { make_file(c) };
    c.note(f.what.clone());
    c.signature(mix(&[hash_bytes(&f.bytes)]));
    c.nontrivial = f.n > 0;
    c.add(if f.compressed { "compressed files" } else { "raw files" }, 1);
    c.st.seen("formats", mix(&[u64::from(f.fmt), u64::from(f.minor), f.compressed as u64, u64::from(f.eb)]));

    // the header and records alone
    if c.rng.chance(1, 3) {
        let mut src = Cursor::new(&f.bytes);
        src.seek(SeekFrom::Start(c.rng.below(50))).unwrap();
        let (h, vlr) = lf::read_header_and_vlrs(&mut src).must("read_header_and_vlrs")?;
        header_is(&h, &f, f.fmt | if f.compressed { 0x80 } else { 0 })?;
        ensure!(lf::point_format_id_compressed_to_uncompressd(h.point_format_id) == f.fmt, "reader:format", "{}", f.what);
        ensure!(vlr.is_some() == f.compressed, "reader:record", "{}: laszip record {}", f.what, vlr.is_some());
        ensure!(src.position() == f.offset as u64, "reader:position", "{}: left at {}", f.what, src.position());
        let mut out = vec![0u8; f.points.len()];
        match vlr {
            Some(v) => laz::LasZipDecompressor::new(src, v).must("open")?.decompress_many(&mut out).must("decompress")?,
            None => src.read_exact(&mut out).must("read")?,
        }
        ensure!(out == f.points, "reader:points", "{}: {:?}", f.what, first_diff(&f.points, &out, f.size));
    }

    let start = c.rng.below(f.bytes.len() as u64);
    let plan = Plan { short: c.rng.chance(1, 4), seed: c.rng.u64(), ..Plan::default() };
    let src = MonFile::with(f.bytes.clone(), if c.rng.bool() { 0 } else { start }, plan);
    let mut r = lf::SimpleReader::new(src).must("open")?;
    header_is(&r.header, &f, f.fmt)?;
    ensure!(r.header.num_extra_bytes() == f.eb, "reader:extra-bytes", "{}: {}", f.what, r.header.num_extra_bytes());
    let single = match c.rng.below(4) {
        0 => 0,
        1 => f.n,
        2 => f.n.min(1 + c.rng.usize(3)),
        _ => c.rng.usize(f.n + 1),
    };
    for i in 0..single {
        let p = match r.read_next() {
            Some(p) => p.must("read_next")?,
            None => return fail("reader:count", format!("{}: no point {i}", f.what)),
        };
        let e = &f.points[i * f.size..(i + 1) * f.size];
        ensure!(p == e, "reader:points", "{} point {i}: {} instead of {}", f.what, hex(p), hex(e));
    }
    for again in 0..2 {
        let mut rest = vec![];
        let n = r.read_to_end(&mut rest).must("read_to_end")?;
        let from = if again == 0 { single } else { f.n };
        ensure!(n == f.n - from, "reader:count", "{}: {n} points after {from}", f.what);
        let e = &f.points[from * f.size..];
        ensure!(rest == e, "reader:points", "{} after {from}: {:?}", f.what, first_diff(e, &rest, f.size));
    }
    ensure!(r.read_next().is_none(), "reader:count", "{}: more points", f.what);
    c.add("points", f.n as u64);
    c.add("single reads", single as u64);
    Ok(())
}
