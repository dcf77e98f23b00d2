//! C11, C12, C23, C27: chunk tables, laszip records, typed points, refused requests.
use crate::ctx::*;
use crate::gen::{self, Kind, Layout, VARIABLE};
use crate::mio::MonFile;
use crate::ops;
use crate::rng::{hash_bytes, mix, Rng};
use crate::{guarded, Prop};
use laz::las::extra_bytes::{ExtraBytes, LasExtraBytes};
use laz::las::gps::{GpsTime, LasGpsTime};
use laz::las::nir::{LasNIR, Nir};
use laz::las::point0::LasPoint0;
use laz::las::point6::LasPoint6;
use laz::las::rgb::{LasRGB, RGB};
use laz::las::wavepacket::LasWavepacket;
use laz::las::*;
use laz::laszip::{ChunkTable, ChunkTableEntry};
use laz::packers::Packable;
use laz::{LasZipError, LazItemRecordBuilder, LazItemType, LazVlr, LazVlrBuilder};
use std::io::{Cursor, Seek, SeekFrom};

pub fn register(v: &mut Vec<Prop>) {
    v.push(Prop { id: "C11", run: chunk_tables, directed: 8, quick: 150000, thorough: 3000000, workers: 0 });
    v.push(Prop { id: "C12", run: records, directed: 0, quick: 400000, thorough: 20000000, workers: 0 });
    v.push(Prop { id: "C23", run: typed, directed: 256, quick: 2000000, thorough: 30000000, workers: 0 });
    v.push(Prop { id: "C27", run: refused, directed: 0, quick: 6000, thorough: 400000, workers: 0 });
}

// ------------------------------------------------------------------------------------------------

fn entries(rng: &mut Rng, n: usize) -> Vec<(u64, u64)> {
    let style = rng.below(6);
    let base = rng.u32();
    let mut walk = (rng.u32(), rng.u32());
    let one = |rng: &mut Rng, w: &mut u32| -> u64 {
        let v = match style {
            0 => base,
            1 => rng.u32(),
            2 => *rng.pick(&[0, 1, 2, 0x7FFF_FFFF, 0x8000_0000, 0x8000_0001, u32::MAX, u32::MAX - 1, 50_000]),
            3 => {
                *w = w.wrapping_add(rng.range(-3000, 3000) as u32);
                *w
            }
            4 => rng.below(1 << (1 + rng.clone().below(32))) as u32,
            _ => *w ^ 1u32.wrapping_shl(rng.below(32) as u32),
        };
        u64::from(v)
    };
    (0..n)
        .map(|_| {
            let a = one(rng, &mut walk.0);
            (a, one(rng, &mut walk.1))
        })
        .collect()
}

fn chunk_tables(c: &mut Ctx) -> R {
    let n = match c.idx {
        0 => 0,
        1 => 1,
        2 => 2,
        3 if !c.small => 70_000,
        4 if !c.small => 200_000,
        _ => match c.rng.below(20) {
            0 => 0,
            1..=8 => 1 + c.rng.usize(6),
            19 if !c.small => c.rng.usize(8000),
            _ => 1 + c.rng.usize(120),
        },
    };
    let variable = c.rng.bool();
    let e = entries(&mut c.rng, n);
    let layout = gen::any_layout(&mut c.rng);
    let cs = if variable { VARIABLE } else { 1 + c.rng.below(u64::from(VARIABLE) - 2) as u32 };
    let vlr = layout.vlr(cs);
    c.note(format!("{n} entries, {}", if variable { "variable".into() } else { format!("fixed {cs}") }));
    c.signature(mix(&[n as u64, cs.into(), e.iter().fold(0, |a, x| mix(&[a, x.0, x.1]))]));
    c.nontrivial = n > 0;

    // the list itself
    let mut t = if c.rng.bool() { ChunkTable::default() } else { ChunkTable::with_capacity(n) };
    let split = c.rng.usize(n + 1);
    let mut rest = ChunkTable::default();
    for (i, x) in e.iter().enumerate() {
        let entry = ChunkTableEntry { point_count: x.0, byte_count: x.1 };
        if i < split {
            t.push(entry);
        } else {
            rest.push(entry);
        }
    }
    t.extend(&rest);
    let list = |t: &ChunkTable| -> Vec<(u64, u64)> { t.into_iter().map(|x| (x.point_count, x.byte_count)).collect() };
    ensure!(list(&t) == e && t.len() == n && t.is_empty() == (n == 0), "table-list", "push and extend lose entries");
    if n > 0 {
        let i = c.rng.usize(n);
        ensure!((t[i].point_count, t[i].byte_count) == e[i], "table-list", "entry {i} differs");
        ensure!(t.as_ref().len() == n && t[..i].len() == i, "table-list", "slices differ");
        let mut u = t.clone();
        u.truncate(i);
        ensure!(list(&u) == e[..i], "table-list", "truncate({i})");
        let mut u = t.clone();
        let last = u.pop().map(|x| (x.point_count, x.byte_count));
        ensure!(last == Some(e[n - 1]) && u.len() == n - 1, "table-list", "pop");
    }

    // its bytes
    let mut bytes = vec![];
    t.write_to(&mut bytes, &vlr).must("write_to")?;
    ensure!(bytes.len() >= 8 && bytes[..4] == [0; 4] && bytes[4..8] == (n as u32).to_le_bytes(), "table-header", "header {:?}", &bytes[..8.min(bytes.len())]);
    ensure!(n > 0 || bytes.len() == 8, "table-empty", "an empty table takes {} bytes", bytes.len());
    let mut theirs = vec![];
    {
        let mut r = laz_ref::laszip::ChunkTable::default();
        for x in &e {
            r.push(laz_ref::laszip::ChunkTableEntry { point_count: x.0, byte_count: x.1 });
        }
        r.write_to(&mut theirs, &layout.vlr_ref(cs)).must("reference write_to")?;
    }
    ensure!(bytes == theirs, "table-bytes", "the table is not written as it was");

    // read back in place, wherever it is
    let prefix = if c.rng.bool() { 0 } else { c.rng.usize(500) };
    let gap = c.rng.usize(300);
    let start = prefix as u64;
    let mut file = gen::noise(&mut c.rng, prefix + 8 + gap);
    let at = file.len() as u64;
    // a gap of zero bytes is legal: a stream without chunks
    file.extend(&bytes);
    let end = file.len() as u64;
    let front = c.rng.bool();
    let placeholder: i64 = if front {
        let k = c.rng.usize(40);
        file.extend(gen::noise(&mut c.rng, k));
        at as i64
    } else {
        let k = c.rng.usize(20);
        file.extend(gen::noise(&mut c.rng, k));
        file.extend((at as i64).to_le_bytes());
        *c.rng.pick(&[-1, 0, start as i64, i64::MIN, (start / 2) as i64])
    };
    file[prefix..prefix + 8].copy_from_slice(&placeholder.to_le_bytes());
    let expected: Vec<(u64, u64)> = if variable { e.clone() } else { e.iter().map(|x| (u64::from(cs), x.1)).collect() };
    let how = format!("start {start} table at {at} {}", if front { "in front" } else { "at the end" });
    let mut f = MonFile::new(file.clone(), start);
    let got = match ChunkTable::read_from(&mut f, &vlr) {
        Ok(g) => g,
        Err(x) => return fail("table-read-error", format!("{how}: {x:?}")),
    };
    let got = list(&got);
    if got != expected {
        let i = (0..got.len().min(n)).find(|i| got[*i] != expected[*i]);
        return fail(
            "table-differs",
            format!("{how}: {} entries for {n}, first difference {:?} {:?} {:?}", got.len(), i, i.map(|i| got[i]), i.map(|i| expected[i])),
        );
    }
    ensure!(f.pos == start + 8, "table-position", "{how}: the source is left at {}", f.pos);

    // `read` stays inside of the table
    let mut f = MonFile::new(file.clone(), at);
    let g = ChunkTable::read(&mut &mut f, variable).must("read")?;
    let g: Vec<(u64, u64)> = list(&g);
    let expected: Vec<(u64, u64)> = if variable { e.clone() } else { e.iter().map(|x| (0, x.1)).collect() };
    ensure!(g == expected, "table-differs", "{how}: read() differs");
    let r = f.read.unwrap_or((at, at));
    ensure!(r.0 >= at && r.1 <= end, "table-over-read", "{how}: bytes {}..{} read of a table in {at}..{end}", r.0, r.1);

    // no table
    if !front {
        let m = file.len();
        file[m - 8..].copy_from_slice(&(*c.rng.pick(&[-1i64, 0, start as i64])).to_le_bytes());
        let r = ChunkTable::read_from(Cursor::new(&file[..]).at(start), &vlr);
        ensure!(matches!(r, Err(LasZipError::MissingChunkTable)), "table-missing", "{how}: a missing table gives {:?}", r.map(|t| t.len()));
    }
    c.add("entries", n as u64);
    c.add(if front { "position in front" } else { "position at the end" }, 1);
    c.add(if variable { "variable-size" } else { "fixed-size" }, 1);
    c.st.max("longest table", n as u64);
    Ok(())
}

trait At {
    fn at(self, p: u64) -> Self;
}
impl<T> At for Cursor<T> {
    fn at(mut self, p: u64) -> Self {
        self.set_position(p);
        self
    }
}

// ------------------------------------------------------------------------------------------------

fn kinds_of(v: &LazVlr) -> Vec<(u16, u16, u16)> {
    v.items().iter().map(|i| (u16::from(i.item_type()), i.size(), i.version())).collect()
}

fn bytes_of(v: &LazVlr) -> Result<Vec<u8>, Fail> {
    let mut b = vec![];
    v.write_to(&mut b).must("write_to")?;
    Ok(b)
}

fn builder_items(rng: &mut Rng, f: u8, ver: u16, eb: u16) -> Vec<laz::LazItem> {
    use LazItemRecordBuilder as B;
    let default = if f < 6 { 2 } else { 3 };
    if ver == default && rng.bool() {
        return match rng.below(2) {
            0 => B::default_for_point_format_id(f, eb).unwrap(),
            _ => match f {
                0 => B::default_version_of::<Point0>(eb),
                1 => B::default_version_of::<Point1>(eb),
                2 => B::default_version_of::<Point2>(eb),
                3 => B::default_version_of::<Point3>(eb),
                4 => B::default_version_of::<Point4>(eb),
                5 => B::default_version_of::<Point5>(eb),
                6 => B::default_version_of::<Point6>(eb),
                7 => B::default_version_of::<Point7>(eb),
                8 => B::default_version_of::<Point8>(eb),
                9 => B::default_version_of::<Point9>(eb),
                _ => B::default_version_of::<Point10>(eb),
            },
        };
    }
    match (f, ver) {
        (0, 1) => B::version_1_of::<Point0>(eb),
        (1, 1) => B::version_1_of::<Point1>(eb),
        (2, 1) => B::version_1_of::<Point2>(eb),
        (3, 1) => B::version_1_of::<Point3>(eb),
        (4, 1) => B::version_1_of::<Point4>(eb),
        (5, 1) => B::version_1_of::<Point5>(eb),
        (0, 2) => B::version_2_of::<Point0>(eb),
        (1, 2) => B::version_2_of::<Point1>(eb),
        (2, 2) => B::version_2_of::<Point2>(eb),
        (3, 2) => B::version_2_of::<Point3>(eb),
        (4, 2) => B::version_2_of::<Point4>(eb),
        (5, 2) => B::version_2_of::<Point5>(eb),
        (6, 3) => B::version_3_of::<Point6>(eb),
        (7, 3) => B::version_3_of::<Point7>(eb),
        (8, 3) => B::version_3_of::<Point8>(eb),
        (9, 3) => B::version_3_of::<Point9>(eb),
        (10, 3) => B::version_3_of::<Point10>(eb),
        (6, 4) => B::version_4_of::<Point6>(eb),
        (7, 4) => B::version_4_of::<Point7>(eb),
        (8, 4) => B::version_4_of::<Point8>(eb),
        (9, 4) => B::version_4_of::<Point9>(eb),
        _ => B::version_4_of::<Point10>(eb),
    }
}

const FORMAT_SIZES: [u16; 11] = [20, 28, 26, 34, 57, 63, 30, 36, 38, 59, 67];

fn any_kind(rng: &mut Rng) -> Kind {
    let n = match rng.below(3) {
        0 => rng.below(4) as u16,
        1 => rng.below(300) as u16,
        _ => rng.u32() as u16 & 0x7FFF,
    };
    *rng.pick(&[
        Kind::Bytes(n), Kind::Point10, Kind::Gps, Kind::Rgb12, Kind::Wave13, Kind::Point14, Kind::Rgb14,
        Kind::RgbNir14, Kind::Wave14, Kind::Bytes14(n),
    ])
}

fn item_type(k: Kind) -> LazItemType {
    match k {
        Kind::Bytes(n) => LazItemType::Byte(n),
        Kind::Point10 => LazItemType::Point10,
        Kind::Gps => LazItemType::GpsTime,
        Kind::Rgb12 => LazItemType::RGB12,
        Kind::Wave13 => LazItemType::WavePacket13,
        Kind::Point14 => LazItemType::Point14,
        Kind::Rgb14 => LazItemType::RGB14,
        Kind::RgbNir14 => LazItemType::RGBNIR14,
        Kind::Wave14 => LazItemType::WavePacket14,
        Kind::Bytes14(n) => LazItemType::Byte14(n),
    }
}

fn layered_kind(k: Kind) -> bool {
    matches!(k, Kind::Point14 | Kind::Rgb14 | Kind::RgbNir14 | Kind::Wave14 | Kind::Bytes14(_))
}

fn records(c: &mut Ctx) -> R {
    match c.rng.below(3) {
        0 => built_records(c),
        _ => parsed_records(c),
    }
}

fn check_built(vlr: &LazVlr, l: &Layout, cs: u32, what: &str) -> R {
    let expected: Vec<(u16, u16, u16)> = l.items.iter().map(|(k, v)| (k.code(), k.size() as u16, *v)).collect();
    ensure!(kinds_of(vlr) == expected, "record-items", "{what}: items {:?} expected {expected:?}", kinds_of(vlr));
    ensure!(vlr.items_size() == l.size() as u64, "record-size", "{what}: size {} expected {}", vlr.items_size(), l.size());
    ensure!(vlr.chunk_size() == cs, "record-chunk-size", "{what}: chunk size {} expected {cs}", vlr.chunk_size());
    ensure!(vlr.uses_variable_size_chunks() == (cs == VARIABLE), "record-variable", "{what}: variable flag");
    let b = bytes_of(vlr)?;
    let e = l.vlr_bytes(l.compressor(), cs);
    ensure!(b == e, "record-bytes", "{what}: bytes {} expected {}", hex(&b), hex(&e));
    let back = LazVlr::from_buffer(&b).must("parse")?;
    ensure!(back == *vlr, "record-roundtrip", "{what}: {back:?} parsed from {vlr:?}");
    Ok(())
}

fn built_records(c: &mut Ctx) -> R {
    let rng = &mut c.rng;
    let all = gen::all_format_versions();
    let (f, ver) = *rng.pick(&all);
    let eb = match rng.below(4) {
        0 => 0,
        1 => 1 + rng.below(30) as u16,
        2 => *rng.pick(&[255, 256, 257, u16::MAX - FORMAT_SIZES[f as usize]]),
        _ => rng.below(u64::from(u16::MAX - FORMAT_SIZES[f as usize])) as u16,
    };
    let cs = *rng.pick(&[1, 2, 50_000, 0x7FFF_FFFF, 0x8000_0000, VARIABLE - 1, VARIABLE]);
    let items = builder_items(rng, f, ver, eb);
    let l = Layout::las_format(f, ver, eb);
    let what = format!("format {f} version {ver} with {eb} extra bytes");
    let style = rng.below(4);
    c.note(what.clone());
    c.signature(mix(&[f.into(), ver.into(), eb.into(), cs.into(), style]));
    ensure!(l.size() as u16 == FORMAT_SIZES[f as usize] + eb, "harness", "format sizes");
    let vlr = match style {
        0 => {
            let v = LazVlr::from_laz_items(items);
            check_built(&v, &l, 50_000, &what)?;
            v
        }
        1 => {
            let b = LazVlrBuilder::default().with_laz_items(items);
            let b = if cs == VARIABLE { b.with_variable_chunk_size() } else { b.with_fixed_chunk_size(cs) };
            let v = b.build();
            check_built(&v, &l, cs, &what)?;
            v
        }
        2 if ver == if f < 6 { 2 } else { 3 } => {
            let b = LazVlrBuilder::default().with_point_format(f, eb).must("with_point_format")?;
            let v = b.with_fixed_chunk_size(cs.min(VARIABLE - 1)).build();
            check_built(&v, &l, cs.min(VARIABLE - 1), &what)?;
            v
        }
        _ => {
            let v = LazVlrBuilder::new(items).build();
            check_built(&v, &l, 50_000, &what)?;
            v
        }
    };
    // a record builder asked several things does the last of each kind
    if c.rng.chance(1, 3) {
        let rng = &mut c.rng;
        let (mut items, mut want, mut cs) = (builder_items(rng, f, ver, eb), l.clone(), 50_000);
        #[allow(deprecated)]
        let mut b = if rng.bool() { LazVlrBuilder::new(items) } else { LazVlrBuilder::from_laz_items(items) };
        let mut asked = vec![];
        for _ in 0..1 + rng.usize(6) {
            let (f, v) = *rng.pick(&all);
            let eb = rng.below(40) as u16;
            let n = *rng.pick(&[1, 7, 50_000, VARIABLE - 1]);
            b = match rng.below(5) {
                0 => {
                    items = builder_items(rng, f, v, eb);
                    want = Layout::las_format(f, v, eb);
                    asked.push(format!("items of {f}.{v}+{eb}"));
                    b.with_laz_items(items)
                }
                1 => {
                    want = Layout::las_format(f, if f < 6 { 2 } else { 3 }, eb);
                    asked.push(format!("format {f}+{eb}"));
                    b.with_point_format(f, eb).must("with_point_format")?
                }
                2 => {
                    cs = n;
                    asked.push(format!("chunks of {n}"));
                    b.with_fixed_chunk_size(n)
                }
                3 => {
                    cs = n;
                    asked.push(format!("chunk size {n}"));
                    #[allow(deprecated)]
                    b.with_chunk_size(n)
                }
                _ => {
                    cs = VARIABLE;
                    asked.push("variable".into());
                    b.with_variable_chunk_size()
                }
            };
        }
        check_built(&b.build(), &want, cs, &asked.join(", "))?;
        c.add("builders asked several things", 1);
    }
    // the parser stops where the record does
    let mut b = bytes_of(&vlr)?;
    let end = b.len() as u64;
    b.extend([0xAB; 16]);
    let mut cur = Cursor::new(&b);
    LazVlr::read_from(&mut cur).must("read_from")?;
    ensure!(cur.position() == end, "record-position", "the source is left at {} of {end}", cur.position());

    // lists of any items
    let n = if c.rng.chance(1, 30) { 1 + c.rng.usize(600) } else { 1 + c.rng.usize(8) };
    let kinds: Vec<Kind> = (0..n).map(|_| any_kind(&mut c.rng)).collect();
    let mut b = LazItemRecordBuilder::new();
    for k in &kinds {
        b.add_item(item_type(*k));
    }
    let items = b.build();
    ensure!(items.len() == n, "builder-items", "{} items for {n}", items.len());
    for (i, k) in items.iter().zip(&kinds) {
        let v = if layered_kind(*k) { 3 } else { 2 };
        ensure!(
            u16::from(i.item_type()) == k.code() && i.size() as usize == k.size() && i.version() == v && i.item_type() == item_type(*k),
            "builder-items",
            "{i:?} for {k:?}"
        );
    }

    // formats that do not exist
    let id = 11 + c.rng.below(245) as u8;
    let r = LazItemRecordBuilder::default_for_point_format_id(id, eb);
    ensure!(matches!(r, Err(LasZipError::UnsupportedPointFormat(x)) if x == id), "record-format", "format {id} gives {r:?}");
    ensure!(
        matches!(LazVlrBuilder::default().with_point_format(id, eb), Err(LasZipError::UnsupportedPointFormat(x)) if x == id),
        "record-format",
        "format {id} accepted by the builder"
    );
    c.add("built", 1);
    Ok(())
}

fn parsed_records(c: &mut Ctx) -> R {
    let rng = &mut c.rng;
    let n = match rng.below(10) {
        0 => rng.usize(400),
        1 => 0,
        _ => 1 + rng.usize(6),
    };
    // many items, but not more than fit in a point
    let slim = n > 6 && rng.chance(3, 4);
    let mut items: Vec<(u16, u16, u16)> = (0..n)
        .map(|_| {
            let k = match any_kind(rng) {
                Kind::Bytes(n) if slim => Kind::Bytes(n % 16),
                Kind::Bytes14(n) if slim => Kind::Bytes14(n % 16),
                k => k,
            };
            let v = if rng.chance(1, 4) { rng.u32() as u16 } else { rng.below(6) as u16 };
            (k.code(), k.size() as u16, v)
        })
        .collect();
    let mut compressor = rng.below(4) as u16;
    let mut bad = None;
    let mut cut = None;
    match rng.below(8) {
        0 if n > 0 => {
            // a type nobody knows
            let i = rng.usize(n);
            items[i].0 = *rng.pick(&[1, 2, 3, 4, 5, 15, 16, 255, 256, 262, 0xFFFF]);
            bad = Some("item");
        }
        1 => {
            compressor = *rng.pick(&[4, 5, 255, 256, 258, 0xFFFF]);
            bad = Some("compressor");
        }
        2 if n > 0 => {
            let i = rng.usize(n);
            if items[i].0 != 0 && items[i].0 != 14 {
                items[i].1 ^= 1 << rng.below(16);
                bad = Some("size");
            }
        }
        3 => cut = Some(()),
        _ => {}
    }
    let total: u64 = items.iter().map(|i| u64::from(i.1)).sum();
    if bad.is_none() && (total == 0 || total > 65535) {
        bad = Some("total");
    }
    let mut b = vec![];
    b.extend(compressor.to_le_bytes());
    b.extend(gen::noise(rng, 2 + 4 + 4)); // coder, version, options
    let cs = *rng.pick(&[0, 1, 2, 50_000, 0x8000_0000, VARIABLE - 1, VARIABLE]);
    b.extend(cs.to_le_bytes());
    b.extend(gen::noise(rng, 16)); // special evlrs
    b.extend((n as u16).to_le_bytes());
    for i in &items {
        b.extend(i.0.to_le_bytes());
        b.extend(i.1.to_le_bytes());
        b.extend(i.2.to_le_bytes());
    }
    let what = format!("compressor {compressor} chunk size {cs} {n} items {:?}", &items[..n.min(8)]);
    c.note(format!("{what} bad {bad:?} cut {}", cut.is_some()));
    c.signature(mix(&[hash_bytes(&b), cut.is_some() as u64]));
    if cut.is_some() {
        let k = c.rng.usize(b.len());
        let r = LazVlr::from_buffer(&b[..k]);
        ensure!(r.is_err(), "record-short", "{what}: accepted with {k} of {} bytes", b.len());
        c.add("cut", 1);
        return Ok(());
    }
    let r = if c.rng.bool() { LazVlr::from_buffer(&b) } else { LazVlr::read_from(&b[..]) };
    match (bad, r) {
        (Some("item"), Err(LasZipError::UnknownLazItem(t))) => {
            // the first unknown type, unless an earlier check came first
            ensure!(items.iter().any(|i| i.0 == t), "record-refusal", "{what}: UnknownLazItem({t})");
        }
        (Some("compressor"), Err(LasZipError::UnknownCompressorType(t))) => {
            ensure!(t == compressor, "record-refusal", "{what}: UnknownCompressorType({t})");
        }
        (Some("size") | Some("total"), Err(_)) => {}
        (Some(k), r) => return fail(format!("record-accepted:{k}"), format!("{what}: {r:?}")),
        (None, Err(e)) => return fail("record-refused", format!("{what}: {e:?}")),
        (None, Ok(v)) => {
            ensure!(kinds_of(&v) == items, "record-items", "{what}: parsed as {:?}", kinds_of(&v));
            ensure!(v.items_size() == total, "record-size", "{what}: size {}", v.items_size());
            let eff = if cs == 0 { VARIABLE } else { cs };
            ensure!(v.chunk_size() == eff && v.uses_variable_size_chunks() == (eff == VARIABLE), "record-chunk-size", "{what}: chunk size {}", v.chunk_size());
            let mut again = b.clone();
            again[12..16].copy_from_slice(&eff.to_le_bytes());
            let w = bytes_of(&v)?;
            ensure!(w == again, "record-bytes", "{what}: {} written for {}", hex(&w), hex(&again));
            let v2 = LazVlr::from_buffer(&w).must("parse")?;
            ensure!(v2 == v, "record-roundtrip", "{what}: parsed again differently");
        }
    }
    c.add(&format!("parsed, bad {}", bad.unwrap_or("nothing")), 1);
    Ok(())
}

// ------------------------------------------------------------------------------------------------

/// Values that code may want to treat apart from others.
fn special(rng: &mut Rng) -> u64 {
    match rng.below(10) {
        0 => *rng.pick(&[0u64, 1, u64::MAX, 1 << 63, u64::MAX >> 1, (1 << 63) | 1]),
        1 => (*rng.pick(&[0u32, 1, u32::MAX, 1 << 31, u32::MAX >> 1]) as u64) << *rng.pick(&[0, 16, 32]),
        2 => f64::to_bits(*rng.pick(&[-0.0, 1.0, -1.0, f64::INFINITY, f64::NEG_INFINITY, f64::MAX, f64::MIN, f64::MIN_POSITIVE, f64::EPSILON])),
        // all kinds of NaN
        3 => (0x7FF0u64 << 48 | (rng.below(2)) << 63) | *rng.pick(&[1u64, 1 << 51, (1 << 51) | 1, (1 << 52) - 1]),
        // subnormal numbers
        4 => (rng.u64() >> 12 >> rng.below(52)) | rng.below(2) << 63,
        5 => u64::from(f32::to_bits(*rng.pick(&[-0.0f32, 1.0, f32::INFINITY, f32::NEG_INFINITY, f32::MIN_POSITIVE, f32::MAX]))) << (32 * rng.below(2)),
        6 => u64::from(0x7F80_0000u32 | *rng.pick(&[1u32, 1 << 22, (1 << 22) | 1]) | (rng.below(2) as u32) << 31) << (32 * rng.below(2)),
        7 => f64::to_bits(rng.u64() as i64 as f64 / 1024.0),
        8 => 1 << rng.below(64),
        _ => rng.below(40).wrapping_sub(20),
    }
}

fn value(rng: &mut Rng) -> u64 {
    if rng.chance(1, 3) { special(rng) } else { rng.u64() }
}

fn pack_exact<T: Packable>(rng: &mut Rng, image: &[u8], what: &str) -> Result<T, Fail> {
    let n = image.len();
    let (a, z) = (rng.usize(9), rng.usize(9));
    let mut src = gen::noise(rng, a);
    src.extend(image);
    src.extend(gen::noise(rng, z));
    let v = T::unpack_from(&src[a..]);
    let before = gen::noise(rng, a + n + z);
    let mut dst = before.clone();
    v.pack_into(&mut dst[a..]);
    ensure!(dst[a..a + n] == *image, format!("pack:{what}"), "{what} {} packs to {}", hex(image), hex(&dst[a..a + n]));
    ensure!(dst[..a] == before[..a] && dst[a + n..] == before[a + n..], format!("pack-around:{what}"), "{what} changes bytes around its own");
    // exactly as long as needed is enough, anything shorter is refused and nothing is written
    let mut exact = vec![0u8; n];
    T::unpack_from(image).pack_into(&mut exact);
    ensure!(exact == image, format!("pack:{what}"), "{what} in an exact buffer");
    if rng.chance(1, 16) {
        let k = rng.usize(n);
        ensure!(guarded(|| T::unpack_from(&image[..k])).is_err(), format!("unpack-short:{what}"), "{what} unpacked from {k} bytes");
        let mut short = vec![0x55u8; k];
        ensure!(guarded(|| v.pack_into(&mut short[..])).is_err(), format!("pack-short:{what}"), "{what} packed into {k} bytes");
        ensure!(short.iter().all(|b| *b == 0x55), format!("pack-short:{what}"), "{what} partly packed into {k} bytes");
    }
    Ok(v)
}

fn i32at(b: &[u8], i: usize) -> i32 {
    i32::from_le_bytes(b[i..i + 4].try_into().unwrap())
}
fn u16at(b: &[u8], i: usize) -> u16 {
    u16::from_le_bytes(b[i..i + 2].try_into().unwrap())
}
fn u64at(b: &[u8], i: usize) -> u64 {
    u64::from_le_bytes(b[i..i + 8].try_into().unwrap())
}

/// What the accessors of a point say, as the record they should describe.
fn image0<T: LasPoint0>(p: &T) -> Vec<u8> {
    let mut v = vec![];
    v.extend(p.x().to_le_bytes());
    v.extend(p.y().to_le_bytes());
    v.extend(p.z().to_le_bytes());
    v.extend(p.intensity().to_le_bytes());
    v.push(
        p.return_number() | p.number_of_returns_of_given_pulse() << 3
            | (p.scan_direction_flag() as u8) << 6
            | (p.edge_of_flight_line() as u8) << 7,
    );
    v.push(p.classification());
    v.push(p.scan_angle_rank() as u8);
    v.push(p.user_data());
    v.extend(p.point_source_id().to_le_bytes());
    v
}
fn image6<T: LasPoint6>(p: &T) -> Vec<u8> {
    let mut v = vec![];
    v.extend(p.x().to_le_bytes());
    v.extend(p.y().to_le_bytes());
    v.extend(p.z().to_le_bytes());
    v.extend(p.intensity().to_le_bytes());
    v.push(p.return_number() | p.number_of_returns_of_given_pulse() << 4);
    v.push(
        p.classification_flags() | p.scanner_channel() << 4
            | (p.scan_direction_flag() as u8) << 6
            | (p.edge_of_flight_line() as u8) << 7,
    );
    v.push(p.classification());
    v.push(p.user_data());
    v.extend(p.scan_angle_rank().to_le_bytes());
    v.extend(p.point_source_id().to_le_bytes());
    v.extend(p.gps_time().to_bits().to_le_bytes());
    v
}
fn image_rgb<T: LasRGB>(p: &T) -> Vec<u8> {
    let mut v = p.red().to_le_bytes().to_vec();
    v.extend(p.green().to_le_bytes());
    v.extend(p.blue().to_le_bytes());
    v
}
fn image_gps<T: LasGpsTime>(p: &T) -> Vec<u8> {
    p.gps_time().to_bits().to_le_bytes().to_vec()
}

/// One random setter of a point based on Point0, and the same change to its record.
fn set0<T: LasPoint0>(p: &mut T, b: &mut [u8], rng: &mut Rng) -> &'static str {
    let v = value(rng).to_le_bytes();
    let (r, n): (std::ops::Range<usize>, _) = match rng.below(9) {
        0 => { p.set_x(i32at(&v, 0)); (0..4, "x") }
        1 => { p.set_y(i32at(&v, 0)); (4..8, "y") }
        2 => { p.set_z(i32at(&v, 0)); (8..12, "z") }
        3 => { p.set_intensity(u16at(&v, 0)); (12..14, "intensity") }
        4 => { p.set_bit_fields(v[0]); (14..15, "bit_fields") }
        5 => { p.set_classification(v[0]); (15..16, "classification") }
        6 => { p.set_scan_angle_rank(v[0] as i8); (16..17, "scan_angle_rank") }
        7 => { p.set_user_data(v[0]); (17..18, "user_data") }
        _ => { p.set_point_source_id(u16at(&v, 0)); (18..20, "point_source_id") }
    };
    let k = r.len();
    b[r].copy_from_slice(&v[..k]);
    n
}

fn set6<T: LasPoint6>(p: &mut T, b: &mut [u8], rng: &mut Rng) -> &'static str {
    let v = value(rng).to_le_bytes();
    let (r, n): (std::ops::Range<usize>, _) = match rng.below(14) {
        0 => { p.set_x(i32at(&v, 0)); (0..4, "x") }
        1 => { p.set_y(i32at(&v, 0)); (4..8, "y") }
        2 => { p.set_z(i32at(&v, 0)); (8..12, "z") }
        3 => { p.set_intensity(u16at(&v, 0)); (12..14, "intensity") }
        4 => { p.set_bit_fields(v[0]); (14..15, "bit_fields") }
        5 => { p.set_flags(v[0]); (15..16, "flags") }
        6 => {
            p.set_return_number(v[0]);
            b[14] = b[14] & 0xF0 | v[0] & 0x0F;
            return "return_number";
        }
        7 => {
            p.set_number_of_returns(v[0]);
            b[14] = b[14] & 0x0F | v[0] << 4;
            return "number_of_returns";
        }
        8 => {
            p.set_scanner_channel(v[0]);
            b[15] = b[15] & 0b1100_1111 | (v[0] & 3) << 4;
            return "scanner_channel";
        }
        9 => { p.set_classification(v[0]); (16..17, "classification") }
        10 => { p.set_user_data(v[0]); (17..18, "user_data") }
        11 => { p.set_scan_angle_rank(u16at(&v, 0) as i16); (18..20, "scan_angle_rank") }
        12 => { p.set_point_source_id(u16at(&v, 0)); (20..22, "point_source_id") }
        _ => { p.set_gps_time(f64::from_bits(u64at(&v, 0))); (22..30, "gps_time") }
    };
    let k = r.len();
    b[r].copy_from_slice(&v[..k]);
    n
}
fn set_rgb<T: LasRGB>(p: &mut T, b: &mut [u8], rng: &mut Rng) -> &'static str {
    let v = value(rng) as u16;
    let i = rng.usize(3);
    match i {
        0 => p.set_red(v),
        1 => p.set_green(v),
        _ => p.set_blue(v),
    }
    b[2 * i..2 * i + 2].copy_from_slice(&v.to_le_bytes());
    ["red", "green", "blue"][i]
}
fn set_gps<T: LasGpsTime>(p: &mut T, b: &mut [u8], rng: &mut Rng) -> &'static str {
    let v = value(rng);
    p.set_gps_time(f64::from_bits(v));
    b.copy_from_slice(&v.to_le_bytes());
    "gps_time"
}

/// Drives the accessors of a composite point against the records of its parts.
macro_rules! composite {
    ($c:expr, $t:ty, $($part:literal, $img:ident, $set:ident, $n:literal);+) => {{
        let mut p = <$t>::default();
        let mut model: Vec<(&str, Vec<u8>)> = vec![$(($part, vec![0u8; $n])),+];
        for _ in 0..24 {
            let k = $c.rng.usize(model.len());
            let mut at = 0;
            let mut name = "";
            $(
                if at == k {
                    name = $set(&mut p, &mut model[k].1, &mut $c.rng);
                }
                at += 1;
            )+
            let _ = at;
            for (part, img) in [$(($part, $img(&p))),+] {
                let m = &model.iter().find(|m| m.0 == part).unwrap().1;
                ensure!(img == *m, format!("accessor:{}:{name}", stringify!($t)), "{} after set_{name}: {part} {} expected {}", stringify!($t), hex(&img), hex(m));
            }
        }
    }};
}

fn typed(c: &mut Ctx) -> R {
    let extreme = c.rng.below(5);
    let image = |rng: &mut Rng, n: usize| -> Vec<u8> {
        match extreme {
            0 => vec![*rng.pick(&[0u8, 0xFF, 0x80, 0x7F, 1]); n],
            1 => (0..n).map(|_| *rng.pick(&[0u8, 0xFF, 0x80, 0x7F])).collect(),
            2 => {
                // aligned to the start or to the end of the record
                let mut v: Vec<u8> = (0..n / 8 + 1).flat_map(|_| special(rng).to_le_bytes()).collect();
                if rng.bool() {
                    v.drain(..v.len() - n);
                }
                v.truncate(n);
                v
            }
            _ => gen::noise(rng, n),
        }
    };
    let seed = c.rng.u64();
    let which = c.rng.below(12);
    c.note(format!("kind {which} seed {seed:016x}"));
    c.signature(mix(&[which, seed]));
    let rng = &mut c.rng;
    match which {
        0 => {
            let b = image(rng, 8);
            let v: u64 = pack_exact(rng, &b, "u64")?;
            ensure!(v == u64at(&b, 0), "unpack:u64", "{v} from {}", hex(&b));
            let v: u32 = pack_exact(rng, &b[..4], "u32")?;
            ensure!(v == i32at(&b, 0) as u32, "unpack:u32", "{v} from {}", hex(&b));
            let v: u16 = pack_exact(rng, &b[..2], "u16")?;
            ensure!(v == u16at(&b, 0), "unpack:u16", "{v} from {}", hex(&b));
            let v: u8 = pack_exact(rng, &b[..1], "u8")?;
            ensure!(v == b[0], "unpack:u8", "{v} from {}", hex(&b));
            let v: i32 = pack_exact(rng, &b[..4], "i32")?;
            ensure!(v == i32at(&b, 0), "unpack:i32", "{v} from {}", hex(&b));
            let v: i16 = pack_exact(rng, &b[..2], "i16")?;
            ensure!(v == u16at(&b, 0) as i16, "unpack:i16", "{v} from {}", hex(&b));
            let v: i8 = pack_exact(rng, &b[..1], "i8")?;
            ensure!(v == b[0] as i8, "unpack:i8", "{v} from {}", hex(&b));
            let v: f32 = pack_exact(rng, &b[..4], "f32")?;
            ensure!(v.to_bits() == i32at(&b, 0) as u32, "unpack:f32", "{v} from {}", hex(&b));
            c.add("numbers", 8);
        }
        1 | 2 => {
            let mut b = image(rng, 20);
            let mut p: Point0 = pack_exact(rng, &b, "Point0")?;
            ensure!(image0(&p) == b, "unpack:Point0", "{p:?} from {}", hex(&b));
            ensure!(p.bit_fields() == b[14] && p.bit_fields_to_byte() == b[14], "accessor:Point0:bit_fields", "{:02x} for {:02x}", p.bit_fields(), b[14]);
            for _ in 0..8 {
                let n = set0(&mut p, &mut b, rng);
                let mut out = vec![0u8; 20];
                p.pack_into(&mut out);
                ensure!(out == b && image0(&p) == b, format!("accessor:Point0:{n}"), "after set_{n}: {} expected {}", hex(&out), hex(&b));
            }
            // fields are public: values too wide for their bits must not spill into others
            p.return_number = rng.u32() as u8;
            p.number_of_returns_of_given_pulse = rng.u32() as u8;
            let e = p.return_number & 7 | (p.number_of_returns_of_given_pulse & 7) << 3 | b[14] & 0xC0;
            ensure!(p.bit_fields_to_byte() == e, "accessor:Point0:wide", "{p:?}: {:02x} expected {e:02x}", p.bit_fields_to_byte());
            c.add("Point0", 1);
        }
        3 | 4 => {
            let mut b = image(rng, 30);
            let mut p: Point6 = pack_exact(rng, &b, "Point6")?;
            ensure!(image6(&p) == b, "unpack:Point6", "{p:?} from {}", hex(&b));
            ensure!(p.bit_fields() == b[14] && p.flags() == b[15], "accessor:Point6:bit_fields", "{p:?}");
            for _ in 0..8 {
                let n = set6(&mut p, &mut b, rng);
                let mut out = vec![0u8; 30];
                p.pack_into(&mut out);
                ensure!(out == b && image6(&p) == b, format!("accessor:Point6:{n}"), "after set_{n}: {} expected {}", hex(&out), hex(&b));
            }
            c.add("Point6", 1);
        }
        5 => {
            let mut b = image(rng, 6);
            let mut p: RGB = pack_exact(rng, &b, "RGB")?;
            for _ in 0..4 {
                ensure!(image_rgb(&p) == b, "accessor:RGB", "{p:?} for {}", hex(&b));
                set_rgb(&mut p, &mut b, rng);
            }
            c.add("RGB", 1);
        }
        6 => {
            let mut b = image(rng, 8);
            let mut p: GpsTime = pack_exact(rng, &b, "GpsTime")?;
            ensure!(p.value as u64 == u64at(&b, 0) && i64::from(p) == p.value, "unpack:GpsTime", "{p:?}");
            ensure!(f64::from(p).to_bits() == u64at(&b, 0), "accessor:GpsTime", "{p:?}");
            ensure!(GpsTime::from(f64::from(p)) == p && GpsTime::from(p.value) == p, "accessor:GpsTime", "conversions of {p:?}");
            ensure!(image_gps(&p) == b, "accessor:GpsTime", "{p:?}");
            set_gps(&mut p, &mut b, rng);
            ensure!(image_gps(&p) == b, "accessor:GpsTime", "{p:?}");
            let bits = value(rng);
            let mut q = GpsTime::from(0);
            q.read_from(&mut &bits.to_le_bytes()[..]).must("GpsTime::read_from")?;
            ensure!(q.value as u64 == bits, "accessor:GpsTime", "read_from {bits:x}");
            let d = value(rng) as i64;
            let e = p.value.wrapping_add(d);
            let mut r = p;
            r += d;
            ensure!((p + d).value == e && r.value == e, "accessor:GpsTime", "addition");
            c.add("GpsTime", 1);
        }
        7 => {
            let b = image(rng, 29);
            let _: LasWavepacket = pack_exact(rng, &b, "LasWavepacket")?;
            let n = rng.usize(40);
            let b = image(rng, n);
            let mut e = if rng.chance(1, 2) {
                let z = ExtraBytes::new(n);
                ensure!(z.extra_bytes() == vec![0u8; n], "accessor:ExtraBytes", "new({n}) holds {}", hex(z.extra_bytes()));
                z
            } else {
                let f = gen::noise(rng, n);
                let z = ExtraBytes::from(f.clone());
                ensure!(z.extra_bytes() == f, "accessor:ExtraBytes", "from {} holds {}", hex(&f), hex(z.extra_bytes()));
                z
            };
            e.set_extra_bytes(&b);
            ensure!(e.extra_bytes() == b, "accessor:ExtraBytes", "set to {}, holds {}", hex(&b), hex(e.extra_bytes()));
            let v = rng.u32() as u16;
            let mut n = Nir::default();
            n.set_nir(v);
            ensure!(n.nir() == v, "accessor:Nir", "{n:?} for {v}");
            c.add("LasWavepacket", 1);
        }
        8 => {
            composite!(c, Point1, "point", image0, set0, 20; "gps", image_gps, set_gps, 8);
            composite!(c, Point2, "point", image0, set0, 20; "rgb", image_rgb, set_rgb, 6);
            c.add("composites", 2);
        }
        9 => {
            composite!(c, Point3, "point", image0, set0, 20; "gps", image_gps, set_gps, 8; "rgb", image_rgb, set_rgb, 6);
            composite!(c, Point4, "point", image0, set0, 20; "gps", image_gps, set_gps, 8);
            c.add("composites", 2);
        }
        10 => {
            composite!(c, Point5, "point", image0, set0, 20; "gps", image_gps, set_gps, 8);
            composite!(c, Point7, "point", image6, set6, 30; "rgb", image_rgb, set_rgb, 6);
            c.add("composites", 2);
        }
        _ => {
            composite!(c, Point9, "point", image6, set6, 30);
            composite!(c, Point10, "point", image6, set6, 30);
            c.add("composites", 2);
        }
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------------

fn supported(items: &[(Kind, u16)]) -> bool {
    !items.is_empty()
        && (items.iter().all(|(k, v)| !layered_kind(*k) && (*v == 1 || *v == 2))
            || items.iter().all(|(k, v)| layered_kind(*k) && (*v == 3 || *v == 4)))
}

fn refused(c: &mut Ctx) -> R {
    match c.rng.below(4) {
        0 => odd_buffers(c),
        1 => odd_compressor(c),
        _ => odd_items(c),
    }
}

/// Every way of writing points with a record; what it gave and what it left written.
fn write_ways(rng: &mut Rng, vlr: &LazVlr, points: &[u8]) -> Vec<(&'static str, Result<Result<(), String>, Fail>, Vec<u8>)> {
    let mut out = vec![];
    let seven = [7u8; 7];
    let size = vlr.items_size() as usize;
    let _ = rng;
    macro_rules! way {
        ($n:literal, $f:expr) => {{
            let mut dst = Cursor::new(seven.to_vec()).at(7);
            let r = guarded(|| $f(&mut dst));
            out.push(($n, r, dst.into_inner()));
        }};
    }
    fn s<T, E: std::fmt::Debug>(r: Result<T, E>) -> Result<T, String> {
        r.map_err(|e| format!("{e:?}"))
    }
    way!("LasZipCompressor", |d: &mut Cursor<Vec<u8>>| {
        let mut k = s(laz::LasZipCompressor::new(d, vlr.clone()))?;
        if vlr.uses_variable_size_chunks() {
            s(k.compress_chunks([points]))?;
        } else {
            s(k.compress_many(points))?;
        }
        s(k.done())
    });
    if !vlr.uses_variable_size_chunks() {
        way!("compress_buffer", |d: &mut Cursor<Vec<u8>>| s(laz::compress_buffer(d, points, vlr.clone())));
        way!("par_compress_buffer", |d: &mut Cursor<Vec<u8>>| s(laz::par_compress_buffer(d, points, vlr)));
        way!("from_laz_items", |d: &mut Cursor<Vec<u8>>| {
            if !matches!(vlr.items()[0].version(), 1..=4) {
                return Err("documented panic".into());
            }
            let mut k = s(laz::LasZipCompressor::from_laz_items(d, vlr.items().clone()))?;
            for p in points.chunks_exact(size) {
                s(k.compress_one(p))?;
            }
            s(k.done())
        });
    }
    way!("ParLasZipCompressor", |d: &mut Cursor<Vec<u8>>| {
        let mut k = s(laz::ParLasZipCompressor::new(d, vlr.clone()))?;
        if vlr.uses_variable_size_chunks() {
            s(k.compress_chunks(vec![points]))?;
        } else {
            s(k.compress_many(points))?;
        }
        s(k.done())
    });
    out
}

fn odd_items(c: &mut Ctx) -> R {
    let rng = &mut c.rng;
    let kind = |rng: &mut Rng| -> Kind {
        match any_kind(rng) {
            Kind::Bytes(n) => Kind::Bytes(1 + n % 12),
            Kind::Bytes14(n) => Kind::Bytes14(1 + n % 12),
            k => k,
        }
    };
    let mut items: Vec<(Kind, u16)> = match rng.below(3) {
        0 => {
            // a good layout, one item spoiled
            let mut l = gen::any_layout(rng);
            if l.items.len() < 2 || rng.bool() {
                let i = rng.usize(l.items.len());
                l.items[i].1 = *rng.pick(&[0, 1, 2, 3, 4, 5, 6, 7, 255, 256 + 2, 65535]);
            } else {
                let i = rng.usize(l.items.len());
                l.items[i] = (kind(rng), l.items[i].1);
            }
            l.items
        }
        1 => {
            // the items of two layouts, or one layout in another order
            let mut a = gen::any_layout(rng).items;
            if rng.bool() {
                a.extend(gen::any_layout(rng).items);
            }
            rng.shuffle(&mut a);
            a
        }
        _ => (0..1 + rng.usize(5)).map(|_| (kind(rng), rng.below(6) as u16)).collect(),
    };
    items.truncate(7);
    let good = supported(&items);
    let l = Layout { name: format!("{items:?}"), items };
    let size = l.size();
    let n = 1 + rng.usize(12);
    let points = gen::noise(rng, n * size);
    let cs = if rng.chance(1, 4) { VARIABLE } else { 1 + rng.below(8) as u32 };
    let compressor = match l.items[0].1 {
        1 | 2 => 2,
        3 | 4 => 3,
        _ => 2 + rng.below(2) as u16,
    };
    c.note(format!("{} x{n} chunk size {cs} supported {good}", l.name));
    c.signature(mix(&[crate::rng::hash_str(&l.name), n as u64, cs.into()]));
    let vlr = match LazVlr::from_buffer(l.vlr_bytes(compressor, cs)) {
        Ok(v) => v,
        Err(_) => {
            c.nontrivial = false;
            return Ok(()); // too big for a point: C12's concern
        }
    };
    for (name, r, dst) in write_ways(&mut c.rng, &vlr, &points) {
        let r = r.map_err(|f| Fail { sig: format!("refuse-panic:{name}:{}", f.sig), msg: format!("{name} {}: {}", l.name, f.msg) })?;
        ensure!(dst[..7] == [7; 7], format!("refuse-write:{name}"), "{}: bytes in front changed", l.name);
        match r {
            Err(e) => {
                ensure!(!good, format!("refuse-good:{name}"), "{name} refuses {}: {e}", l.name);
                // the place of the table's position may be there, points may not
                ensure!(dst.len() <= 7 + 8, format!("refuse-write:{name}"), "{name} wrote {} bytes for {} before {e}", dst.len() - 7, l.name);
                c.add("refused", 1);
            }
            Ok(()) => {
                ensure!(good, format!("refuse-accepted:{name}"), "{name} accepts {}", l.name);
                let cs2 = if name == "from_laz_items" { 50_000 } else { cs };
                let v2 = LazVlr::from_buffer(l.vlr_bytes(compressor, cs2)).must("vlr")?;
                let mut out = vec![0u8; n * size];
                let mut d = laz::LasZipDecompressor::new(Cursor::new(&dst[..]).at(7), v2.clone()).must("open")?;
                d.decompress_many(&mut out).must("decompress")?;
                ensure!(out == points, format!("refuse-lossy:{name}"), "{name} {}: {:?}", l.name, first_diff(&points, &out, size));
                let mut out = vec![0u8; n * size];
                let mut d = laz::ParLasZipDecompressor::new(Cursor::new(&dst[..]).at(7), v2).must("open in parallel")?;
                d.decompress_many(&mut out).must("decompress in parallel")?;
                ensure!(out == points, format!("refuse-lossy:{name}"), "{name} {} in parallel: {:?}", l.name, first_diff(&points, &out, size));
                c.add("accepted and read back", 1);
            }
        }
    }
    if !good {
        // a stream of another layout, read and extended with this record
        let lay = gen::any_layout(&mut c.rng);
        let s = gen::stream_with(&mut c.rng, lay, gen::Profile::Mixed, 20, cs == VARIABLE);
        let bytes = ops::cur::compress_vec(&s).must("compress")?;
        let vlr = LazVlr::from_buffer(l.vlr_bytes(compressor, if cs == VARIABLE { cs } else { s.chunk_size })).must("vlr")?;
        let mut out = vec![0u8; size * 4];
        let mut file = Cursor::new(bytes.clone());
        macro_rules! must_refuse {
            ($n:literal, $f:expr) => {{
                let r = guarded(|| $f).map_err(|f| Fail { sig: format!("refuse-panic:{}:{}", $n, f.sig), msg: format!("{} {}: {}", $n, l.name, f.msg) })?;
                ensure!(r.is_err(), format!("refuse-accepted:{}", $n), "{} accepts {}", $n, l.name);
                c.add("refused", 1);
            }};
        }
        must_refuse!("LasZipDecompressor", laz::LasZipDecompressor::new(Cursor::new(&bytes), vlr.clone()).map(|_| ()));
        must_refuse!("LasZipDecompressor::selective", laz::LasZipDecompressor::selective(Cursor::new(&bytes), vlr.clone(), laz::DecompressionSelection::all()).map(|_| ()));
        must_refuse!("decompress_buffer", laz::decompress_buffer(&bytes, &mut out, vlr.clone()));
        must_refuse!("ParLasZipDecompressor", {
            match laz::ParLasZipDecompressor::new(Cursor::new(&bytes), vlr.clone()) {
                Ok(mut d) => d.decompress_many(&mut out),
                Err(e) => Err(e),
            }
        });
        must_refuse!("par_decompress_buffer", laz::par_decompress_buffer(&bytes, &mut out, &vlr));
        must_refuse!("LasZipAppender", laz::LasZipAppender::new(&mut file, vlr.clone(), 20).map(|_| ()));
        ensure!(*file.get_ref() == bytes, "refuse-write:LasZipAppender", "{}: the stream was changed", l.name);
        file.set_position(0);
        must_refuse!("ParLasZipAppender", laz::ParLasZipAppender::new(&mut file, vlr.clone(), 20).map(|_| ()));
        ensure!(*file.get_ref() == bytes, "refuse-write:ParLasZipAppender", "{}: the stream was changed", l.name);
    }
    Ok(())
}

/// Records whose compressor does not fit.
fn odd_compressor(c: &mut Ctx) -> R {
    let l = gen::any_layout(&mut c.rng);
    let size = l.size();
    let compressor = c.rng.below(4) as u16;
    let cs = if c.rng.chance(1, 4) { VARIABLE } else { 1 + c.rng.below(8) as u32 };
    let n = 1 + c.rng.usize(20);
    let points = gen::noise(&mut c.rng, n * size);
    let what = format!("{} compressor {compressor} chunk size {cs} x{n}", l.name);
    c.note(what.clone());
    c.signature(mix(&[crate::rng::hash_str(&what), hash_bytes(&points)]));
    let vlr = LazVlr::from_buffer(l.vlr_bytes(compressor, cs)).must("vlr")?;
    for (name, r, dst) in write_ways(&mut c.rng, &vlr, &points) {
        if name == "from_laz_items" || (compressor < 2 && name == "par_compress_buffer") {
            continue; // does not look at the compressor of the record
        }
        let r = r.map_err(|f| Fail { sig: format!("refuse-panic:{name}:{}", f.sig), msg: format!("{name} {what}: {}", f.msg) })?;
        match r {
            Err(e) => {
                ensure!(dst.len() <= 7 + 8, format!("refuse-write:{name}"), "{name} wrote {} bytes for {what} before {e}", dst.len() - 7);
                ensure!(compressor < 2 || compressor != l.compressor(), format!("refuse-good:{name}"), "{name} refuses {what}: {e}");
                c.add("refused", 1);
            }
            Ok(()) => {
                ensure!(compressor >= 2, format!("refuse-accepted:{name}"), "{name} accepts {what}");
                let mut out = vec![0u8; n * size];
                let mut d = laz::LasZipDecompressor::new(Cursor::new(&dst[..]).at(7), vlr.clone()).must("open")?;
                d.decompress_many(&mut out).must("decompress")?;
                ensure!(out == points, format!("refuse-lossy:{name}"), "{name} {what}: {:?}", first_diff(&points, &out, size));
                c.add("accepted and read back", 1);
            }
        }
    }
    // reading chunked data with a record without compressor or with the
    // compressor that does not cut the points into chunks
    if compressor < 2 {
        let s = gen::stream_with(&mut c.rng, l.clone(), gen::Profile::Mixed, 10, cs == VARIABLE);
        let bytes = ops::cur::compress_vec(&s).must("compress")?;
        let vlr = LazVlr::from_buffer(l.vlr_bytes(compressor, s.chunk_size)).must("vlr")?;
        let mut out = vec![0u8; s.points.len()];
        macro_rules! must_refuse {
            ($n:literal, $f:expr) => {{
                let r = guarded(|| $f).map_err(|f| Fail { sig: format!("refuse-panic:{}:{}", $n, f.sig), msg: format!("{} {what}: {}", $n, f.msg) })?;
                ensure!(matches!(r, Err(LasZipError::UnsupportedCompressorType(_))), format!("refuse-accepted:{}", $n), "{} {what}: {r:?}", $n);
                c.add("refused", 1);
            }};
        }
        if compressor == 0 {
            must_refuse!("LasZipDecompressor", laz::LasZipDecompressor::new(Cursor::new(&bytes), vlr.clone()).map(|_| ()));
            must_refuse!("decompress_buffer", laz::decompress_buffer(&bytes, &mut out, vlr.clone()));
        }
        must_refuse!("ParLasZipDecompressor", laz::ParLasZipDecompressor::new(Cursor::new(&bytes), vlr.clone()).map(|_| ()));
        must_refuse!("ParLasZipDecompressor::selective", {
            laz::ParLasZipDecompressor::selective(Cursor::new(&bytes), vlr.clone(), laz::DecompressionSelection::all()).map(|_| ())
        });
        let mut f = Cursor::new(bytes.clone());
        must_refuse!("LasZipAppender", laz::LasZipAppender::new(&mut f, vlr.clone(), s.n as u64).map(|_| ()));
        must_refuse!("ParLasZipAppender", laz::ParLasZipAppender::new(&mut f, vlr.clone(), s.n as u64).map(|_| ()));
        ensure!(*f.get_ref() == bytes, "refuse-write:appenders", "{what}: the stream was changed");
    }
    Ok(())
}

/// Buffers that do not hold whole points, and calls for the other kind of chunks.
fn odd_buffers(c: &mut Ctx) -> R {
    let l = gen::any_layout(&mut c.rng);
    let size = l.size();
    let variable = c.rng.chance(1, 3);
    let cs = if variable { VARIABLE } else { 1 + c.rng.below(8) as u32 };
    let vlr = l.vlr(cs);
    let calls = 1 + c.rng.usize(6);
    let bufs: Vec<Vec<u8>> = (0..calls)
        .map(|_| {
            let k = c.rng.usize(12) * size;
            let extra = if c.rng.bool() { 0 } else { c.rng.usize(size) };
            gen::noise(&mut c.rng, k + extra)
        })
        .collect();
    let what = format!("{} chunk size {cs} buffers {:?}", l.name, bufs.iter().map(|b| b.len()).collect::<Vec<_>>());
    c.note(what.clone());
    c.signature(mix(&[crate::rng::hash_str(&what), c.seed]));
    c.nontrivial = bufs.iter().any(|b| b.len() % size != 0);
    let check = |dst: Vec<u8>, expected: &[u8], how: &str| -> R {
        let n = expected.len() / size;
        let mut out = vec![0u8; n * size];
        let mut d = laz::LasZipDecompressor::new(Cursor::new(&dst), vlr.clone()).must("open")?;
        d.decompress_many(&mut out).must(&format!("odd-buffer decompress {how}"))?;
        ensure!(out == expected, format!("odd-buffer:{how}"), "{how} {what}: {:?}", first_diff(expected, &out, size));
        if variable {
            let r = d.decompress_one(&mut vec![0u8; size]);
            ensure!(r.is_err(), format!("odd-buffer:{how}"), "{how} {what}: more points than were given");
        }
        Ok(())
    };
    let floors: Vec<u8> = bufs.iter().flat_map(|b| b[..b.len() / size * size].to_vec()).collect();

    // sequential, many points
    let r = guarded(|| -> Result<Vec<u8>, String> {
        let mut k = laz::LasZipCompressor::new(Cursor::new(vec![]), vlr.clone()).map_err(|e| e.to_string())?;
        for b in &bufs {
            k.compress_many(b).map_err(|e| e.to_string())?;
        }
        k.done().map_err(|e| e.to_string())?;
        Ok(k.into_inner().into_inner())
    });
    match r {
        Ok(Ok(dst)) => check(dst, &floors, "compress_many")?,
        _ => c.add("refused", 1),
    }
    // sequential, one point from a buffer too short or too long
    let short = c.rng.bool();
    let at = c.rng.usize(5);
    let many = 1 + at + c.rng.usize(4);
    let points = gen::noise(&mut c.rng, many * size);
    let odd = if short { size - 1 - c.rng.usize(size) } else { size + 1 + c.rng.usize(3 * size) };
    let mut odd_buf = points[at * size..(at + 1) * size].to_vec();
    odd_buf.resize(odd, 0xEE);
    let r = guarded(|| -> Result<Vec<u8>, String> {
        let mut k = laz::LasZipCompressor::new(Cursor::new(vec![]), vlr.clone()).map_err(|e| e.to_string())?;
        for (i, p) in points.chunks(size).enumerate() {
            k.compress_one(if i == at { &odd_buf } else { p }).map_err(|e| e.to_string())?;
        }
        k.done().map_err(|e| e.to_string())?;
        Ok(k.into_inner().into_inner())
    });
    match r {
        Ok(Ok(dst)) => {
            ensure!(!short, "odd-buffer:short-point", "{what}: a point of {odd} bytes was accepted");
            check(dst, &points, "compress_one")?;
            c.add("long buffers accepted", 1);
        }
        _ => c.add("refused", 1),
    }
    // parallel
    let all: Vec<u8> = bufs.concat();
    let r = guarded(|| -> Result<Vec<u8>, String> {
        let mut k = laz::ParLasZipCompressor::new(Cursor::new(vec![]), vlr.clone()).map_err(|e| e.to_string())?;
        if variable {
            k.compress_chunks(bufs.clone()).map_err(|e| e.to_string())?;
        } else {
            for b in &bufs {
                k.compress_many(b).map_err(|e| e.to_string())?;
            }
        }
        k.done().map_err(|e| e.to_string())?;
        Ok(k.into_inner().into_inner())
    });
    match r {
        Ok(Ok(dst)) if variable => check(dst, &floors, "par compress_chunks")?,
        Ok(Ok(dst)) => check(dst, &all[..all.len() / size * size], "par compress_many")?,
        _ => c.add("refused", 1),
    }
    // the other kind of chunks
    let mut k = laz::ParLasZipCompressor::new(Cursor::new(vec![]), vlr.clone()).must("new")?;
    let r = guarded(|| {
        if variable {
            k.compress_many(&floors).is_ok()
        } else {
            k.compress_chunks(vec![&floors]).is_ok()
        }
    });
    ensure!(!matches!(r, Ok(true)), "other-chunks", "{what}: the parallel compressor accepts a call for the other kind of chunks");
    ensure!(k.get().get_ref().is_empty(), "other-chunks", "{what}: a refused call wrote {} bytes", k.get().get_ref().len());

    // reading into buffers that do not hold whole points
    let s = gen::stream_with(&mut c.rng, l.clone(), gen::Profile::Mixed, 12, variable);
    let bytes = ops::cur::compress_vec(&s).must("compress")?;
    let k = c.rng.usize(12) * size + c.rng.usize(size);
    let mut out = vec![0xEEu8; k];
    let whole = k / size * size;
    for par in [false, true] {
        out.fill(0xEE);
        let r = guarded(|| -> Result<(), String> {
            if par {
                let mut d = laz::ParLasZipDecompressor::new(Cursor::new(&bytes), s.vlr()).map_err(|e| e.to_string())?;
                d.decompress_many(&mut out).map_err(|e| e.to_string())
            } else {
                let mut d = laz::LasZipDecompressor::new(Cursor::new(&bytes), s.vlr()).map_err(|e| e.to_string())?;
                d.decompress_many(&mut out).map_err(|e| e.to_string())
            }
        });
        if let Ok(Ok(())) = r {
            ensure!(out[..whole] == s.points[..whole], "odd-read", "{what}: {k} bytes asked for, parallel {par}: {:?}", first_diff(&s.points[..whole], &out[..whole], size));
        } else {
            c.add("refused", 1);
        }
    }
    let mut d = laz::LasZipDecompressor::new(Cursor::new(&bytes), s.vlr()).must("open")?;
    d.seek(0).must("seek")?;
    let mut one = vec![0u8; odd];
    match guarded(|| d.decompress_one(&mut one)) {
        Ok(Ok(())) => {
            ensure!(!short, "odd-read:short", "{what}: a point read into {odd} bytes");
            ensure!(one[..size] == s.points[..size] && one[size..].iter().all(|b| *b == 0), "odd-read:long", "{what}: wrong point in a long buffer");
        }
        _ => c.add("refused", 1),
    }
    let _ = SeekFrom::Start(0);
    let _ = d.into_inner().stream_position();
    c.add("odd buffers", 1);
    Ok(())
}
