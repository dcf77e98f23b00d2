//! C31: the record codecs, used without the streams around them.
use super::hist::{any_selection, promised};
use super::stream::parse;
use crate::ctx::*;
use crate::gen::{self, Kind, Layout, Stream};
use crate::ops;
use crate::rng::{hash_str, Rng};
use crate::Prop;
use laz::las::{v1, v2, v3, v4};
use laz::record::{
    LayeredPointRecordCompressor, LayeredPointRecordDecompressor, RecordCompressor, RecordDecompressor,
    SequentialPointRecordCompressor, SequentialPointRecordDecompressor,
};
use std::io::{Cursor, Seek, SeekFrom, Write};

pub fn register(v: &mut Vec<Prop>) {
    v.push(Prop { id: "C31", run: record_codecs, directed: 0, quick: 2500, thorough: 200000, workers: 0 });
}

type W = Cursor<Vec<u8>>;

macro_rules! fields {
    ($r:expr, $l:expr, $add:ident, pointwise, $p0:ident, $g1:ident, $g2:ident, $rgb:ident, $eb:ident, $wp:ident) => {
        for (k, ver) in &$l.items {
            match (k, ver) {
                (Kind::Point10, 1) => $r.$add(v1::$p0::default()),
                (Kind::Point10, _) => $r.$add(v2::$p0::default()),
                (Kind::Gps, 1) => $r.$add(v1::$g1::default()),
                (Kind::Gps, _) => $r.$add(v2::$g2::default()),
                (Kind::Rgb12, 1) => $r.$add(v1::$rgb::default()),
                (Kind::Rgb12, _) => $r.$add(v2::$rgb::default()),
                (Kind::Bytes(n), 1) => $r.$add(v1::$eb::new(*n as usize)),
                (Kind::Bytes(n), _) => $r.$add(v2::$eb::new(*n as usize)),
                (Kind::Wave13, 1) => $r.$add(v1::$wp::default()),
                (Kind::Wave13, _) => $r.$add(v2::$wp::default()),
                _ => unreachable!(),
            }
        }
    };
    ($r:expr, $l:expr, $add:ident, layered, $p6:ident, $rgb:ident, $nir:ident, $eb:ident, $wp:ident) => {
        for (k, ver) in &$l.items {
            match (k, ver) {
                (Kind::Point14, 3) => $r.$add(v3::$p6::default()),
                (Kind::Point14, _) => $r.$add(v4::$p6::default()),
                (Kind::Rgb14, 3) => $r.$add(v3::$rgb::default()),
                (Kind::Rgb14, _) => $r.$add(v4::$rgb::default()),
                (Kind::RgbNir14, 3) => {
                    $r.$add(v3::$rgb::default());
                    $r.$add(v3::$nir::default());
                }
                (Kind::RgbNir14, _) => {
                    $r.$add(v4::$rgb::default());
                    $r.$add(v4::$nir::default());
                }
                (Kind::Bytes14(n), 3) => $r.$add(v3::$eb::new(*n as usize)),
                (Kind::Bytes14(n), _) => $r.$add(v4::$eb::new(*n as usize)),
                (Kind::Wave14, 3) => $r.$add(v3::$wp::default()),
                (Kind::Wave14, _) => $r.$add(v4::$wp::default()),
                _ => unreachable!(),
            }
        }
    };
}

/// Chunk after chunk through one record compressor.
fn write_chunks<C: RecordCompressor<W> + ?Sized>(
    rng: &mut Rng,
    s: &Stream,
    c: &mut C,
    used: bool,
    by_hand: &dyn Fn(&mut C, &Layout),
    how: &mut String,
) -> Result<Vec<u64>, Fail> {
    let size = s.size();
    let items = s.vlr().items().clone();
    let mut ends = vec![];
    for (k, chunk) in s.chunk_bytes().into_iter().enumerate() {
        if k > 0 || used {
            c.reset();
        }
        if rng.bool() {
            how.push_str("by hand, ");
            by_hand(c, &s.layout);
        } else {
            c.set_fields_from(&items).must("set_fields_from")?;
        }
        ensure!(c.record_size() == size, "record-size", "{}: compressor says {}", s.describe(), c.record_size());
        let mut at = 0;
        for b in ops::batches(rng, chunk.len() / size, 5) {
            let p = &chunk[at..at + b * size];
            at += b * size;
            if rng.bool() {
                c.compress_many(p).must("compress_many")?;
            } else {
                for q in p.chunks_exact(size) {
                    c.compress_next(q).must("compress_next")?;
                }
            }
        }
        c.done().must("done")?;
        ensure!(c.get().position() == c.get().get_ref().len() as u64, "record-position", "{}: chunk {k}", s.describe());
        ends.push(c.get_mut().stream_position().unwrap());
    }
    Ok(ends)
}

fn compress(rng: &mut Rng, streams: &[&Stream], head: &[u8], how: &mut String) -> Result<(Vec<u8>, Vec<u64>), Fail> {
    let mut dst = Cursor::new(vec![]);
    dst.write_all(head).unwrap();
    let boxed = rng.bool();
    macro_rules! go {
        ($c:expr, $hand:expr) => {{
            let mut c = $c;
            let mut ends = vec![];
            for (k, s) in streams.iter().enumerate() {
                ends.extend(write_chunks(rng, s, &mut c, k > 0, $hand, how)?);
            }
            let w = if boxed { Box::new(c).box_into_inner() } else { c.into_inner() };
            Ok((w.into_inner(), ends))
        }};
    }
    if streams[0].layout.layered() {
        go!(LayeredPointRecordCompressor::new(dst), &|c: &mut LayeredPointRecordCompressor<W>, l: &Layout| {
            fields!(c, l, add_field_compressor, layered, LasPoint6Compressor, LasRGBCompressor, LasNIRCompressor, LasExtraByteCompressor, LasWavepacketCompressor)
        })
    } else {
        go!(SequentialPointRecordCompressor::new(dst), &|c: &mut SequentialPointRecordCompressor<W>, l: &Layout| {
            fields!(c, l, add_field_compressor, pointwise, LasPoint0Compressor, LasGpsTimeCompressor, GpsTimeCompressor, LasRGBCompressor, LasExtraByteCompressor, LasWavepacketCompressor)
        })
    }
}

type Rd<'b> = Cursor<&'b [u8]>;

fn read_chunks<'b, D: RecordDecompressor<Rd<'b>> + ?Sized>(
    rng: &mut Rng,
    s: &Stream,
    d: &mut D,
    used: bool,
    places: &[(u64, u64)],
    by_hand: &dyn Fn(&mut D, &Layout),
    how: &mut String,
) -> R {
    let size = s.size();
    let items = s.vlr().items().clone();
    for (k, (a, n)) in s.chunk_spans().into_iter().enumerate() {
        if k > 0 || used {
            d.reset();
        }
        if rng.bool() {
            how.push_str("by hand, ");
            by_hand(d, &s.layout);
        } else {
            d.set_fields_from(&items).must("set_fields_from")?;
        }
        ensure!(d.record_size() == size, "record-size", "{}: decompressor says {}", s.describe(), d.record_size());
        ensure!(d.get().position() == places[k].0, "record-position", "{} chunk {k}: at {} instead of {}", s.describe(), d.get().position(), places[k].0);
        let sel = if rng.chance(1, 3) { any_selection(rng) } else { laz::DecompressionSelection::all() };
        d.set_selection(sel);
        let mask = promised(s, sel);
        let want = &s.points[a * size..(a + n) * size];
        let mut out = vec![0u8; want.len()];
        let mut at = 0;
        let whole = rng.chance(1, 4);
        if whole {
            let r = d.decompress_until_end_of_file(&mut out).must("decompress_until_end_of_file")?;
            ensure!(r == out.len(), "until-end", "{} chunk {k}: {r} of {} bytes", s.describe(), out.len());
        } else {
            for b in ops::batches(rng, n, 5) {
                let p = &mut out[at..at + b * size];
                at += b * size;
                if rng.bool() {
                    d.decompress_many(p).must("decompress_many")?;
                } else {
                    for q in p.chunks_exact_mut(size) {
                        d.decompress_next(q).must("decompress_next")?;
                    }
                }
                // too late to be heard
                if at > 0 {
                    d.set_selection(any_selection(rng));
                }
            }
        }
        let count = d.record_count();
        let expected = if s.layout.layered() { n as u64 } else { 0 };
        ensure!(count == expected, "record-count", "{} chunk {k}: {count} instead of {expected}", s.describe());
        let end = d.get_mut().stream_position().unwrap();
        ensure!(end == places[k].1, "record-end", "{} chunk {k}: left at {end} instead of {}", s.describe(), places[k].1);
        for (i, (x, y)) in want.iter().zip(&out).enumerate() {
            if (x ^ y) & mask[i % size] != 0 {
                return fail("record-points", format!("{} chunk {k} [{how}] {sel:?}: point {} byte {}: {x} / {y}", s.describe(), i / size, i % size));
            }
        }
    }
    Ok(())
}

/// All the points of one chunk, then the end of the file.
fn until_end<'b, D: RecordDecompressor<Rd<'b>>>(s: &Stream, d: &mut D, want: &[u8], extra: usize) -> R {
    let size = s.size();
    d.set_fields_from(s.vlr().items()).must("set_fields_from")?;
    let mut out = vec![0u8; want.len() + extra * size];
    let n = d.decompress_until_end_of_file(&mut out).must("decompress_until_end_of_file")?;
    ensure!(n % size == 0 && n >= want.len() && n <= out.len(), "until-end", "{}: {n} of {} bytes", s.describe(), want.len());
    ensure!(out[..want.len()] == *want, "until-end-points", "{}", s.describe());
    Ok(())
}

/// A further stream of the same family, of any layout.
fn another(c: &mut Ctx, s: &Stream) -> Stream {
    let l = if s.layout.layered() { gen::layered_layout(&mut c.rng) } else { gen::pointwise_layout(&mut c.rng) };
    let m = c.max_points(200);
    gen::stream(&mut c.rng, l, m)
}

fn record_codecs(c: &mut Ctx) -> R {
    let l = gen::any_layout(&mut c.rng);
    let m = c.max_points(900);
    let s = gen::stream(&mut c.rng, l, m);
    c.note(s.describe());
    c.signature(s.signature());
    let k = c.rng.usize(40);
    let head = gen::noise(&mut c.rng, k);
    // chunks of other layouts may follow, through the same codec
    let mut all = vec![s];
    while c.rng.chance(1, 3) && all.len() < 4 {
        let o = another(c, &all[0]);
        all.push(o);
    }
    let mut at = head.len() as u64;
    let mut body = vec![];
    let mut places: Vec<Vec<(u64, u64)>> = vec![];
    for s in &all {
        let plain = ops::cur::compress_vec(s).must("compress")?;
        let p = parse(s, &plain, 0)?;
        body.extend_from_slice(&plain[p.data_start as usize..p.table_pos as usize]);
        places.push(p.table.iter().map(|e| { at += e.byte_count; (at - e.byte_count, at) }).collect());
    }
    let what = all.iter().map(|s| s.describe()).collect::<Vec<_>>().join(" then ");
    let all: Vec<&Stream> = all.iter().collect();
    let s = all[0];

    let mut how = String::new();
    let (bytes, ends) = crate::guarded(|| compress(&mut c.rng, &all, &head, &mut how))
        .map_err(|f| Fail { sig: f.sig, msg: format!("{} {what}", f.msg) })??;
    ensure!(bytes[..head.len()] == head[..], "record-head", "{what}");
    let ends_want: Vec<u64> = places.iter().flatten().map(|p| p.1).collect();
    ensure!(ends == ends_want, "record-chunk-ends", "{what} [{how}]: {ends:?} instead of {ends_want:?}");
    ensure!(bytes[head.len()..] == *body, "record-bytes", "{what} [{how}]");

    let mut file = bytes;
    let k = c.rng.usize(30);
    file.extend(gen::noise(&mut c.rng, k));
    let mut src = Cursor::new(&file[..]);
    src.seek(SeekFrom::Start(head.len() as u64)).unwrap();
    how.clear();
    let rng = &mut c.rng;
    let last = places.iter().flatten().last().map_or(head.len() as u64, |p| p.1);
    macro_rules! go {
        ($d:expr, $hand:expr) => {{
            let mut d = $d;
            for (k, s) in all.iter().enumerate() {
                read_chunks(rng, s, &mut d, k > 0, &places[k], $hand, &mut how)?;
            }
            let end = if rng.bool() { d.into_inner() } else { Box::new(d).box_into_inner() };
            ensure!(end.position() == last, "record-inner", "{what}");
        }};
    }
    crate::guarded(|| -> R {
        if s.layout.layered() {
            go!(LayeredPointRecordDecompressor::new(src), &|d: &mut LayeredPointRecordDecompressor<Rd>, l: &Layout| {
                fields!(d, l, add_field_decompressor, layered, LasPoint6Decompressor, LasRGBDecompressor, LasNIRDecompressor, LasExtraByteDecompressor, LasWavepacketDecompressor)
            })
        } else {
            go!(SequentialPointRecordDecompressor::new(src), &|d: &mut SequentialPointRecordDecompressor<Rd>, l: &Layout| {
                fields!(d, l, add_field_decompressor, pointwise, LasPoint0Decompressor, LasGpsTimeDecompressor, GpsTimeDecompressor, LasRGBDecompressor, LasExtraByteDecompressor, LasWavepacketDecompressor)
            })
        }
        Ok(())
    })
    .map_err(|f| Fail { sig: f.sig, msg: format!("{} {what}", f.msg) })??;

    let size = s.size();
    let places = &places[0];
    // a chunk that is all there is
    let i = c.rng.usize(places.len());
    let (a, n) = s.chunk_spans()[i];
    let lone = Cursor::new(&file[places[i].0 as usize..places[i].1 as usize]);
    let want = &s.points[a * size..(a + n) * size];
    let extra = c.rng.usize(4);
    crate::guarded(|| {
        if s.layout.layered() {
            until_end(s, &mut LayeredPointRecordDecompressor::new(lone), want, extra)
        } else {
            until_end(s, &mut SequentialPointRecordDecompressor::new(lone), want, extra)
        }
    })??;
    c.add("chunks", all.iter().map(|s| s.cuts.len() as u64).sum());
    c.add("points", all.iter().map(|s| s.n as u64).sum());
    c.add("changes of layout", all.len() as u64 - 1);
    c.add("chunks composed by hand", how.matches("by hand").count() as u64);
    c.st.seen("layouts", hash_str(&s.layout.name));
    Ok(())
}
