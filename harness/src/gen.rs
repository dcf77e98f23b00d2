//! Workload generation: point layouts, chunk plans and point streams.
use crate::rng::Rng;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Kind {
    Point10,
    Gps,
    Rgb12,
    Wave13,
    Bytes(u16),
    Point14,
    Rgb14,
    RgbNir14,
    Wave14,
    Bytes14(u16),
}

impl Kind {
    pub fn size(self) -> usize {
        match self {
            Kind::Point10 => 20,
            Kind::Gps => 8,
            Kind::Rgb12 | Kind::Rgb14 => 6,
            Kind::RgbNir14 => 8,
            Kind::Wave13 | Kind::Wave14 => 29,
            Kind::Point14 => 30,
            Kind::Bytes(n) | Kind::Bytes14(n) => n as usize,
        }
    }
    pub fn code(self) -> u16 {
        match self {
            Kind::Bytes(_) => 0,
            Kind::Point10 => 6,
            Kind::Gps => 7,
            Kind::Rgb12 => 8,
            Kind::Wave13 => 9,
            Kind::Point14 => 10,
            Kind::Rgb14 => 11,
            Kind::RgbNir14 => 12,
            Kind::Wave14 => 13,
            Kind::Bytes14(_) => 14,
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Layout {
    pub name: String,
    pub items: Vec<(Kind, u16)>,
}

pub const VARIABLE: u32 = u32::MAX;

impl Layout {
    pub fn new(name: impl Into<String>, kinds: &[Kind], version: u16) -> Self {
        Self {
            name: name.into(),
            items: kinds.iter().map(|k| (*k, version)).collect(),
        }
    }

    /// The layout the LAS specification gives to a point format.
    pub fn las_format(fmt: u8, version: u16, eb: u16) -> Self {
        let mut k = match fmt {
            0 => vec![Kind::Point10],
            1 => vec![Kind::Point10, Kind::Gps],
            2 => vec![Kind::Point10, Kind::Rgb12],
            3 => vec![Kind::Point10, Kind::Gps, Kind::Rgb12],
            4 => vec![Kind::Point10, Kind::Gps, Kind::Wave13],
            5 => vec![Kind::Point10, Kind::Gps, Kind::Rgb12, Kind::Wave13],
            6 => vec![Kind::Point14],
            7 => vec![Kind::Point14, Kind::Rgb14],
            8 => vec![Kind::Point14, Kind::RgbNir14],
            9 => vec![Kind::Point14, Kind::Wave14],
            10 => vec![Kind::Point14, Kind::RgbNir14, Kind::Wave14],
            _ => panic!("no such point format"),
        };
        if eb > 0 {
            k.push(if fmt < 6 { Kind::Bytes(eb) } else { Kind::Bytes14(eb) });
        }
        Self::new(format!("fmt{fmt}.v{version}.eb{eb}"), &k, version)
    }

    pub fn layered(&self) -> bool {
        self.items[0].1 >= 3
    }
    pub fn size(&self) -> usize {
        self.items.iter().map(|(k, _)| k.size()).sum()
    }

    /// Bytes of the laszip VLR record describing this layout.
    pub fn vlr_bytes(&self, compressor: u16, chunk_size: u32) -> Vec<u8> {
        let mut v = vec![];
        v.extend_from_slice(&compressor.to_le_bytes());
        v.extend_from_slice(&0u16.to_le_bytes());
        v.push(2);
        v.push(2);
        v.extend_from_slice(&0u16.to_le_bytes());
        v.extend_from_slice(&0u32.to_le_bytes());
        v.extend_from_slice(&chunk_size.to_le_bytes());
        v.extend_from_slice(&(-1i64).to_le_bytes());
        v.extend_from_slice(&(-1i64).to_le_bytes());
        v.extend_from_slice(&(self.items.len() as u16).to_le_bytes());
        for (k, ver) in &self.items {
            v.extend_from_slice(&k.code().to_le_bytes());
            v.extend_from_slice(&(k.size() as u16).to_le_bytes());
            v.extend_from_slice(&ver.to_le_bytes());
        }
        v
    }

    pub fn compressor(&self) -> u16 {
        if self.layered() {
            3
        } else {
            2
        }
    }

    pub fn vlr(&self, chunk_size: u32) -> laz::LazVlr {
        laz::LazVlr::from_buffer(self.vlr_bytes(self.compressor(), chunk_size)).expect("vlr")
    }
    pub fn vlr_ref(&self, chunk_size: u32) -> laz_ref::LazVlr {
        laz_ref::LazVlr::from_buffer(self.vlr_bytes(self.compressor(), chunk_size)).expect("vlr")
    }

    /// Byte ranges of the individually predicted fields of one record, with a name.
    pub fn fields(&self) -> Vec<(String, std::ops::Range<usize>)> {
        let mut out = vec![];
        let mut at = 0usize;
        let mut put = |at: &mut usize, n: &str, len: usize| {
            out.push((n.to_string(), *at..*at + len));
            *at += len;
        };
        for (k, _) in &self.items {
            match k {
                Kind::Point10 => {
                    for (n, l) in [
                        ("x", 4), ("y", 4), ("z", 4), ("intensity", 2), ("flags", 1),
                        ("class", 1), ("angle", 1), ("user", 1), ("psid", 2),
                    ] {
                        put(&mut at, n, l);
                    }
                }
                Kind::Gps => put(&mut at, "gps", 8),
                Kind::Rgb12 | Kind::Rgb14 => put(&mut at, "rgb", 6),
                Kind::RgbNir14 => {
                    put(&mut at, "rgb", 6);
                    put(&mut at, "nir", 2);
                }
                Kind::Wave13 | Kind::Wave14 => put(&mut at, "wave", 29),
                Kind::Bytes(n) | Kind::Bytes14(n) => put(&mut at, "extra", *n as usize),
                Kind::Point14 => {
                    for (n, l) in [
                        ("x", 4), ("y", 4), ("z", 4), ("intensity", 2), ("returns", 1),
                        ("flags14", 1), ("class", 1), ("user", 1), ("angle14", 2), ("psid", 2),
                        ("gps", 8),
                    ] {
                        put(&mut at, n, l);
                    }
                }
            }
        }
        out
    }
}

/// Every layout family the library supports.
pub fn any_layout(rng: &mut Rng) -> Layout {
    if rng.bool() {
        pointwise_layout(rng)
    } else {
        layered_layout(rng)
    }
}

fn eb(rng: &mut Rng) -> u16 {
    if !cfg!(miri) && rng.chance(1, 60) {
        // more than fits in eight bits, more than anybody has
        return if rng.chance(1, 5) { rng.range(401, 2500) as u16 } else { rng.range(65, 400) as u16 };
    }
    match rng.below(8) {
        0..=3 => 0,
        4 => 1,
        5 => rng.range(2, 6) as u16,
        6 => rng.range(7, 20) as u16,
        _ => rng.range(21, 64) as u16,
    }
}

pub fn pointwise_layout(rng: &mut Rng) -> Layout {
    if rng.chance(1, 8) {
        // unusual orders and stand-alone items: the item list decides the record
        let mut pool = vec![
            Kind::Point10, Kind::Gps, Kind::Rgb12, Kind::Wave13, Kind::Bytes(rng.range(1, 9) as u16),
        ];
        rng.shuffle(&mut pool);
        let n = 1 + rng.usize(pool.len());
        let v = 1 + rng.below(2) as u16;
        let mut items: Vec<(Kind, u16)> = pool[..n].iter().map(|k| (*k, v)).collect();
        if rng.bool() {
            // version 1 and 2 items may be mixed inside one record
            for it in &mut items {
                it.1 = 1 + rng.below(2) as u16;
            }
        }
        let name = format!("custom{:?}", items);
        return Layout { name, items };
    }
    let fmt = rng.below(6) as u8;
    let v = if rng.chance(2, 3) { 2 } else { 1 };
    let e = eb(rng);
    Layout::las_format(fmt, v, e)
}

pub fn layered_layout(rng: &mut Rng) -> Layout {
    let v = 3 + rng.below(2) as u16;
    if rng.chance(1, 8) {
        let mut pool = vec![if rng.bool() { Kind::Rgb14 } else { Kind::RgbNir14 }, Kind::Wave14, Kind::Bytes14(rng.range(1, 9) as u16)];
        rng.shuffle(&mut pool);
        pool.truncate(1 + rng.usize(3));
        match rng.below(6) {
            // the item that tells the scanner channel usually comes first
            0 => {}
            1 => pool.insert(rng.usize(pool.len() + 1), Kind::Point14),
            _ => pool.insert(0, Kind::Point14),
        }
        let mut items: Vec<(Kind, u16)> = pool.iter().map(|k| (*k, v)).collect();
        if rng.bool() {
            for it in &mut items {
                it.1 = 3 + rng.below(2) as u16;
            }
        }
        let name = format!("custom{:?}", items);
        return Layout { name, items };
    }
    let fmt = 6 + rng.below(5) as u8;
    let e = eb(rng);
    Layout::las_format(fmt, v, e)
}

/// Every (format, version) pair once, in order; used for directed cases.
pub fn all_format_versions() -> Vec<(u8, u16)> {
    let mut v = vec![];
    for f in 0..6u8 {
        v.push((f, 1));
        v.push((f, 2));
    }
    for f in 6..11u8 {
        v.push((f, 3));
        v.push((f, 4));
    }
    v
}

// ------------------------------------------------------------------------------------------------

#[derive(Clone, Debug)]
enum Mode {
    Const,
    Walk(i64),
    Step(i64),
    Uniform,
    Extreme,
    Sparse(u64),
    Few(Vec<u64>),
    Alternate(u64, u64),
    Burst(u64),
    BitFlip,
}

#[derive(Clone, Debug)]
struct Field {
    bits: u32,
    v: u64,
    mode: Mode,
}

fn mask(bits: u32) -> u64 {
    if bits >= 64 {
        u64::MAX
    } else {
        (1u64 << bits) - 1
    }
}

fn extreme(rng: &mut Rng, bits: u32) -> u64 {
    let m = mask(bits);
    let half = 1u64 << (bits - 1);
    *rng.pick(&[
        0, 1, 2, m, m - 1, half, half.wrapping_sub(1), half + 1, m / 3, m - m / 3, m >> 1, 255 & m, 256 & m,
    ]) & m
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Profile {
    Smooth,
    Uniform,
    Extremes,
    Mixed,
    OneVarying,
    Constant,
    Sparse,
    /// see `decoded`
    Decoded,
}

pub const PROFILES: [Profile; 7] = [
    Profile::Mixed,
    Profile::Smooth,
    Profile::Uniform,
    Profile::Extremes,
    Profile::OneVarying,
    Profile::Constant,
    Profile::Sparse,
];

impl Field {
    fn new(rng: &mut Rng, bits: u32, profile: Profile) -> Self {
        let v = rng.u64() & mask(bits);
        let mut f = Field { bits, v, mode: Mode::Const };
        f.choose(rng, profile);
        f
    }
    fn choose(&mut self, rng: &mut Rng, profile: Profile) {
        let m = mask(self.bits);
        let e = 1 + rng.below(u64::from(self.bits.min(20)) / 2 + 1);
        let small = 1 + rng.below(1 << e) as i64;
        self.mode = match profile {
            Profile::Smooth => match rng.below(4) {
                0 => Mode::Const,
                1 => Mode::Step(small),
                2 => Mode::Few((0..3).map(|_| rng.u64() & m).collect()),
                _ => Mode::Walk(small),
            },
            Profile::Uniform => Mode::Uniform,
            Profile::Extremes => Mode::Extreme,
            Profile::Constant => Mode::Const,
            Profile::Sparse => Mode::Sparse(2 + rng.below(40)),
            Profile::OneVarying | Profile::Decoded => Mode::Const,
            Profile::Mixed => match rng.below(12) {
                0 => Mode::Const,
                1 | 2 => Mode::Walk(small),
                3 => Mode::Step(small),
                4 => Mode::Uniform,
                5 => Mode::Extreme,
                6 => Mode::Sparse(2 + rng.below(30)),
                7 => {
                    let n = 2 + rng.usize(5);
                    Mode::Few((0..n).map(|_| rng.u64() & m).collect())
                }
                8 => Mode::Alternate(rng.u64() & m, extreme(rng, self.bits)),
                9 => Mode::Burst(5 + rng.below(50)),
                10 => Mode::BitFlip,
                _ => Mode::Step(rng.u64() as i64),
            },
        };
    }
    fn next(&mut self, rng: &mut Rng) -> u64 {
        let m = mask(self.bits);
        match &self.mode {
            Mode::Const => {}
            Mode::Walk(s) => {
                let s = *s;
                self.v = self.v.wrapping_add(rng.range(-s, s) as u64) & m;
            }
            Mode::Step(s) => self.v = self.v.wrapping_add(*s as u64) & m,
            Mode::Uniform => self.v = rng.u64() & m,
            Mode::Extreme => self.v = extreme(rng, self.bits),
            Mode::Sparse(d) => {
                if rng.chance(1, *d) {
                    self.v = rng.u64() & m;
                }
            }
            Mode::Few(vs) => self.v = *rng.pick(vs),
            Mode::Alternate(a, b) => self.v = if self.v == *a { *b } else { *a },
            Mode::Burst(d) => {
                if rng.below(*d) < 3 {
                    self.v = self.v.wrapping_add(rng.range(-300, 300) as u64) & m;
                } else if rng.chance(1, 200) {
                    self.v = rng.u64() & m;
                }
            }
            Mode::BitFlip => self.v ^= 1u64 << rng.below(u64::from(self.bits)),
        }
        self.v
    }
}

#[derive(Clone, Debug)]
enum GpsMode {
    Same,
    RegularF64(f64),
    BitsStep(i64),
    Multi { base: i64, lo: i64, hi: i64 },
    Sequences { seqs: Vec<(i64, i64)>, p: u64 },
    Huge,
    Random,
    ZeroSign,
    Extreme,
    SparseJump(u64),
}

#[derive(Clone, Debug)]
struct Gps {
    bits: i64,
    mode: GpsMode,
}

impl Gps {
    fn new(rng: &mut Rng, profile: Profile) -> Self {
        let t: f64 = 100_000.0 + rng.below(400_000_000) as f64 / 17.0;
        let mut g = Gps { bits: t.to_bits() as i64, mode: GpsMode::Same };
        if rng.chance(1, 10) {
            g.bits = rng.u64() as i64;
        }
        g.choose(rng, profile);
        g
    }
    fn choose(&mut self, rng: &mut Rng, profile: Profile) {
        let e = rng.range(1, 30);
        let small = rng.range(1, 1 << e);
        self.mode = match profile {
            Profile::Constant | Profile::OneVarying | Profile::Decoded => GpsMode::Same,
            Profile::Uniform => GpsMode::Random,
            Profile::Extremes => match rng.below(3) {
                0 => GpsMode::ZeroSign,
                _ => GpsMode::Extreme,
            },
            Profile::Smooth => match rng.below(3) {
                0 => GpsMode::RegularF64(1e-6 * (1 + rng.below(1000)) as f64),
                1 => GpsMode::BitsStep(small),
                _ => GpsMode::Multi { base: small, lo: 0, hi: 3 },
            },
            Profile::Sparse => GpsMode::SparseJump(2 + rng.below(40)),
            Profile::Mixed => match rng.below(12) {
                0 => GpsMode::Same,
                1 => GpsMode::RegularF64(1e-5 * (1 + rng.below(100000)) as f64),
                2 => GpsMode::BitsStep(if rng.bool() { small } else { -small }),
                3 => GpsMode::Multi { base: small.min(1 << 20), lo: -30, hi: 40 },
                4 => GpsMode::Multi { base: small.min(1 << 20), lo: -20, hi: 700 },
                5 | 6 => {
                    let n = 2 + rng.usize(6);
                    let mut seqs = vec![];
                    for _ in 0..n {
                        seqs.push((self.bits.wrapping_add(rng.u64() as i64 >> 8), rng.range(-(small >> 2), small)));
                    }
                    GpsMode::Sequences { seqs, p: 1 + rng.below(20) }
                }
                7 => GpsMode::Huge,
                8 => GpsMode::Random,
                9 => GpsMode::ZeroSign,
                10 => GpsMode::Extreme,
                _ => GpsMode::SparseJump(2 + rng.below(60)),
            },
        };
    }
    fn next(&mut self, rng: &mut Rng) -> i64 {
        match &mut self.mode {
            GpsMode::Same => {}
            GpsMode::RegularF64(dt) => {
                let t = f64::from_bits(self.bits as u64) + *dt;
                self.bits = t.to_bits() as i64;
            }
            GpsMode::BitsStep(d) => self.bits = self.bits.wrapping_add(*d),
            GpsMode::Multi { base, lo, hi } => {
                let k = rng.range(*lo, *hi);
                let jitter = if rng.chance(1, 4) { rng.range(-3, 3) } else { 0 };
                self.bits = self.bits.wrapping_add(base.wrapping_mul(k)).wrapping_add(jitter);
            }
            GpsMode::Sequences { seqs, p } => {
                if rng.chance(1, *p) || !seqs.iter().any(|s| s.0 == self.bits) {
                    let i = rng.usize(seqs.len());
                    self.bits = seqs[i].0;
                }
                for s in seqs.iter_mut() {
                    if s.0 == self.bits {
                        if rng.chance(3, 4) {
                            s.0 = s.0.wrapping_add(s.1);
                        }
                        self.bits = s.0;
                        break;
                    }
                }
            }
            GpsMode::Huge => {
                if rng.chance(1, 3) {
                    self.bits = self.bits.wrapping_add((rng.u64() as i64) >> rng.below(40));
                }
            }
            GpsMode::Random => self.bits = rng.u64() as i64,
            GpsMode::ZeroSign => {
                self.bits = *rng.pick(&[0i64, i64::MIN, 0, i64::MIN, 1, i64::MIN + 1]);
            }
            GpsMode::Extreme => {
                self.bits = *rng.pick(&[
                    0, i64::MIN, i64::MAX, -1, 1, f64::NAN.to_bits() as i64, f64::INFINITY.to_bits() as i64,
                    f64::NEG_INFINITY.to_bits() as i64, f64::MIN_POSITIVE.to_bits() as i64, i64::MAX - 1,
                    i64::MIN + 1, 0x7fff_ffff, 0x8000_0000, 0xffff_ffff, -0x8000_0000, -0x8000_0001,
                    (1.0f64).to_bits() as i64, (-1.0f64).to_bits() as i64,
                ]);
            }
            GpsMode::SparseJump(d) => {
                if rng.chance(1, *d) {
                    self.bits = self.bits.wrapping_add(rng.range(-1_000_000, 5_000_000_000));
                }
            }
        }
        self.bits
    }
}

struct Pulse {
    mode: u8,
    n: u8,
    r: u8,
    max: u8,
}

impl Pulse {
    fn new(rng: &mut Rng, max: u8, profile: Profile) -> Self {
        let mode = match profile {
            Profile::Constant | Profile::OneVarying | Profile::Decoded => 0,
            Profile::Uniform | Profile::Extremes => 2,
            _ => rng.below(5) as u8,
        };
        Pulse { mode, n: 1, r: 1, max }
    }
    /// (return number, number of returns)
    fn next(&mut self, rng: &mut Rng) -> (u8, u8) {
        match self.mode {
            0 => (1, 1),
            1 | 3 => {
                if self.r >= self.n {
                    let top = if rng.chance(1, 10) { self.max } else { 4.min(self.max) };
                    self.n = 1 + rng.below(u64::from(top)) as u8;
                    self.r = 1;
                } else {
                    self.r += 1;
                }
                (self.r, self.n)
            }
            2 => (
                rng.below(u64::from(self.max) + 1) as u8,
                rng.below(u64::from(self.max) + 1) as u8,
            ),
            _ => {
                // mostly regular, sometimes anything
                if rng.chance(1, 7) {
                    self.r = rng.below(u64::from(self.max) + 1) as u8;
                    self.n = rng.below(u64::from(self.max) + 1) as u8;
                }
                (self.r, self.n)
            }
        }
    }
}

struct Channel {
    mode: u8,
    c: u8,
}

impl Channel {
    fn next(&mut self, rng: &mut Rng) -> u8 {
        match self.mode {
            0 => {}
            1 => {
                if rng.chance(1, 25) {
                    self.c = rng.below(4) as u8;
                }
            }
            2 => self.c = rng.below(4) as u8,
            3 => self.c = (self.c + 1) & 3,
            4 => {
                if rng.chance(1, 200) {
                    self.c = (self.c + 1 + rng.below(3) as u8) & 3;
                }
            }
            _ => self.c = if rng.bool() { 0 } else { 3 },
        }
        self.c
    }
}

/// Generates a stream of records for a layout.
pub struct PointGen {
    layout: Layout,
    pub profile: Profile,
    item_gens: Vec<ItemGen>,
    varying: usize,
    switch_every: u64,
}

enum ItemGen {
    P10 { xyz: [Field; 3], intensity: Field, pulse: Pulse, bits: Field, class: Field, angle: Field, user: Field, psid: Field },
    Gps(Gps),
    Rgb { f: [Field; 3], gray: u8, nir: Option<Field> },
    Wave { index: Field, offset_mode: u8, offset: u64, size: Field, floats: [Field; 4], fmode: u8 },
    Bytes(Vec<Field>),
    P14 { xyz: [Field; 3], intensity: Field, pulse: Pulse, chan: Channel, bits: Field, class: Field, user: Field, angle: Field, psid: Field, gps: Gps },
}

impl PointGen {
    pub fn new(rng: &mut Rng, layout: &Layout, profile: Profile) -> Self {
        let f = |rng: &mut Rng, bits| Field::new(rng, bits, profile);
        let xyz = |rng: &mut Rng| [Field::new(rng, 32, profile), Field::new(rng, 32, profile), Field::new(rng, 32, profile)];
        let mut item_gens = vec![];
        for (k, _) in &layout.items {
            item_gens.push(match k {
                Kind::Point10 => ItemGen::P10 {
                    xyz: xyz(rng),
                    intensity: f(rng, 16),
                    pulse: Pulse::new(rng, 7, profile),
                    bits: f(rng, 2),
                    class: f(rng, 8),
                    angle: f(rng, 8),
                    user: f(rng, 8),
                    psid: f(rng, 16),
                },
                Kind::Gps => ItemGen::Gps(Gps::new(rng, profile)),
                Kind::Rgb12 | Kind::Rgb14 | Kind::RgbNir14 => ItemGen::Rgb {
                    f: [f(rng, 16), f(rng, 16), f(rng, 16)],
                    gray: rng.below(6) as u8,
                    nir: if *k == Kind::RgbNir14 { Some(f(rng, 16)) } else { None },
                },
                Kind::Wave13 | Kind::Wave14 => ItemGen::Wave {
                    index: f(rng, 8),
                    offset_mode: match profile {
                        Profile::Constant | Profile::OneVarying | Profile::Decoded => 0,
                        _ => rng.below(7) as u8,
                    },
                    offset: rng.below(1 << 40),
                    size: if rng.chance(1, 3) { f(rng, 32) } else { f(rng, 12) },
                    floats: [f(rng, 32), f(rng, 32), f(rng, 32), f(rng, 32)],
                    fmode: match profile {
                        Profile::Constant | Profile::OneVarying | Profile::Decoded => 0,
                        _ => rng.below(4) as u8,
                    },
                },
                Kind::Bytes(n) | Kind::Bytes14(n) => ItemGen::Bytes((0..*n).map(|_| f(rng, 8)).collect()),
                Kind::Point14 => ItemGen::P14 {
                    xyz: xyz(rng),
                    intensity: f(rng, 16),
                    pulse: Pulse::new(rng, 15, profile),
                    chan: Channel {
                        mode: match profile {
                            Profile::Constant => 0,
                            Profile::Uniform => 2,
                            _ => rng.below(6) as u8,
                        },
                        c: rng.below(4) as u8,
                    },
                    bits: f(rng, 6),
                    class: f(rng, 8),
                    user: f(rng, 8),
                    angle: f(rng, 16),
                    psid: f(rng, 16),
                    gps: Gps::new(rng, profile),
                },
            });
        }
        let varying = rng.usize(64);
        let switch_every = if rng.bool() { 0 } else { 20 + rng.below(2000) };
        let mut g = PointGen { layout: layout.clone(), profile, item_gens, varying, switch_every };
        if profile == Profile::OneVarying {
            g.make_one_vary(rng);
        }
        g
    }

    fn fields_mut(&mut self) -> Vec<&mut Field> {
        let mut v: Vec<&mut Field> = vec![];
        for g in &mut self.item_gens {
            match g {
                ItemGen::P10 { xyz, intensity, bits, class, angle, user, psid, .. } => {
                    v.extend(xyz.iter_mut());
                    v.extend([intensity, bits, class, angle, user, psid]);
                }
                ItemGen::Gps(_) => {}
                ItemGen::Rgb { f, nir, .. } => {
                    v.extend(f.iter_mut());
                    v.extend(nir.iter_mut());
                }
                ItemGen::Wave { index, size, floats, .. } => {
                    v.push(index);
                    v.push(size);
                    v.extend(floats.iter_mut());
                }
                ItemGen::Bytes(b) => v.extend(b.iter_mut()),
                ItemGen::P14 { xyz, intensity, bits, class, user, angle, psid, .. } => {
                    v.extend(xyz.iter_mut());
                    v.extend([intensity, bits, class, user, angle, psid]);
                }
            }
        }
        v
    }

    fn make_one_vary(&mut self, rng: &mut Rng) {
        // exactly one source of variation: a field, the gps time, the pulses or the channel
        let k = self.varying;
        let what = rng.below(6);
        let mut done = false;
        for g in &mut self.item_gens {
            match g {
                ItemGen::P10 { pulse, .. } if what == 0 => {
                    pulse.mode = 2;
                    done = true;
                }
                ItemGen::Gps(t) if what <= 1 && !done => {
                    t.choose(rng, Profile::Mixed);
                    done = true;
                }
                ItemGen::P14 { pulse, chan, gps, .. } => match what {
                    0 => {
                        pulse.mode = 2;
                        chan.mode = 0;
                        done = true;
                    }
                    1 => {
                        gps.choose(rng, Profile::Mixed);
                        chan.mode = 0;
                        done = true;
                    }
                    2 => {
                        done = chan.mode != 0;
                    }
                    _ => chan.mode = if rng.chance(3, 4) { 0 } else { chan.mode },
                },
                ItemGen::Wave { offset_mode, fmode, .. } if what == 2 => {
                    *offset_mode = 1 + rng.below(6) as u8;
                    *fmode = rng.below(4) as u8;
                    done = true;
                }
                _ => {}
            }
        }
        if !done {
            let mut fs = self.fields_mut();
            if !fs.is_empty() {
                let i = k % fs.len();
                let mut tries = 0;
                loop {
                    fs[i].choose(rng, Profile::Mixed);
                    tries += 1;
                    if !matches!(fs[i].mode, Mode::Const) || tries > 10 {
                        break;
                    }
                }
            }
        }
    }

    pub fn points(&mut self, rng: &mut Rng, n: usize) -> Vec<u8> {
        let size = self.layout.size();
        let mut out = Vec::with_capacity(n * size);
        for i in 0..n {
            if self.switch_every != 0 && i as u64 % self.switch_every == self.switch_every - 1
                && self.profile == Profile::Mixed
            {
                for f in self.fields_mut() {
                    if rng.chance(1, 3) {
                        f.choose(rng, Profile::Mixed);
                    }
                }
                for g in &mut self.item_gens {
                    if rng.bool() {
                        match g {
                            ItemGen::Gps(t) | ItemGen::P14 { gps: t, .. } => t.choose(rng, Profile::Mixed),
                            _ => {}
                        }
                    }
                }
            }
            self.one(rng, &mut out);
        }
        debug_assert_eq!(out.len(), n * size);
        out
    }

    fn one(&mut self, rng: &mut Rng, out: &mut Vec<u8>) {
        for g in &mut self.item_gens {
            match g {
                ItemGen::P10 { xyz, intensity, pulse, bits, class, angle, user, psid } => {
                    for f in xyz {
                        out.extend_from_slice(&(f.next(rng) as u32).to_le_bytes());
                    }
                    out.extend_from_slice(&(intensity.next(rng) as u16).to_le_bytes());
                    let (r, n) = pulse.next(rng);
                    out.push((r & 7) | ((n & 7) << 3) | ((bits.next(rng) as u8) << 6));
                    out.push(class.next(rng) as u8);
                    out.push(angle.next(rng) as u8);
                    out.push(user.next(rng) as u8);
                    out.extend_from_slice(&(psid.next(rng) as u16).to_le_bytes());
                }
                ItemGen::Gps(t) => out.extend_from_slice(&t.next(rng).to_le_bytes()),
                ItemGen::Rgb { f, gray, nir } => {
                    let mut c = [f[0].next(rng) as u16, f[1].next(rng) as u16, f[2].next(rng) as u16];
                    match *gray {
                        0 => {
                            c[1] = c[0];
                            c[2] = c[0];
                        }
                        1 => c.iter_mut().for_each(|x| *x &= 0xff),
                        2 => c.iter_mut().for_each(|x| *x <<= 8),
                        3 if rng.chance(1, 2) => {
                            c[1] = c[0];
                            c[2] = c[0];
                        }
                        _ => {}
                    }
                    for x in c {
                        out.extend_from_slice(&x.to_le_bytes());
                    }
                    if let Some(nf) = nir {
                        out.extend_from_slice(&(nf.next(rng) as u16).to_le_bytes());
                    }
                }
                ItemGen::Wave { index, offset_mode, offset, size, floats, fmode } => {
                    let prev_size = size.v;
                    match *offset_mode {
                        0 => {}
                        1 => *offset = offset.wrapping_add(prev_size),
                        2 => *offset = offset.wrapping_add(rng.range(-1000, 5000) as u64),
                        3 => *offset = rng.u64(),
                        4 => {
                            *offset = match rng.below(6) {
                                0 => *offset,
                                1 => offset.wrapping_add(prev_size),
                                2 => offset.wrapping_sub(prev_size),
                                3 => offset.wrapping_add(rng.range(-(1 << 33), 1 << 33) as u64),
                                4 => extreme(rng, 64),
                                _ => offset.wrapping_add(rng.below(100)),
                            }
                        }
                        5 => *offset = extreme(rng, 64),
                        _ => {
                            if rng.chance(1, 20) {
                                *offset = offset.wrapping_add(prev_size);
                            }
                        }
                    }
                    out.push(index.next(rng) as u8);
                    out.extend_from_slice(&offset.to_le_bytes());
                    out.extend_from_slice(&(size.next(rng) as u32).to_le_bytes());
                    for f in floats {
                        let raw = f.next(rng) as u32;
                        let v = match *fmode {
                            0 => ((raw & 0xfff) as f32 / 7.0).to_bits(),
                            1 => raw,
                            2 => *rng.pick(&[0, 0x8000_0000, 0x7fc0_0000, 0x7f80_0000, 0xff80_0000, 1, 0x7fa0_0001]),
                            _ => (raw as i32 as f32 * 1e-4).to_bits(),
                        };
                        out.extend_from_slice(&v.to_le_bytes());
                    }
                }
                ItemGen::Bytes(b) => {
                    for f in b {
                        out.push(f.next(rng) as u8);
                    }
                }
                ItemGen::P14 { xyz, intensity, pulse, chan, bits, class, user, angle, psid, gps } => {
                    for f in xyz {
                        out.extend_from_slice(&(f.next(rng) as u32).to_le_bytes());
                    }
                    out.extend_from_slice(&(intensity.next(rng) as u16).to_le_bytes());
                    let (r, n) = pulse.next(rng);
                    out.push((r & 15) | ((n & 15) << 4));
                    let b = bits.next(rng) as u8;
                    out.push((b & 15) | (chan.next(rng) << 4) | ((b >> 4) << 6));
                    out.push(class.next(rng) as u8);
                    out.push(user.next(rng) as u8);
                    out.extend_from_slice(&(angle.next(rng) as u16).to_le_bytes());
                    out.extend_from_slice(&(psid.next(rng) as u16).to_le_bytes());
                    out.extend_from_slice(&gps.next(rng).to_le_bytes());
                }
            }
        }
    }
}

pub fn any_profile(rng: &mut Rng) -> Profile {
    *rng.pick(&[
        Profile::Mixed, Profile::Mixed, Profile::Mixed, Profile::Mixed, Profile::Mixed, Profile::Smooth,
        Profile::Uniform, Profile::Extremes, Profile::OneVarying, Profile::OneVarying, Profile::Constant,
        Profile::Sparse,
    ])
}

/// A whole stream: layout, points and how they are chunked.
#[derive(Clone, Debug)]
pub struct Stream {
    pub layout: Layout,
    pub profile: Profile,
    /// `VARIABLE` means that `cuts` gives the chunk sizes
    pub chunk_size: u32,
    /// number of points of every chunk, in order (all > 0)
    pub cuts: Vec<usize>,
    pub points: Vec<u8>,
    pub n: usize,
}

impl Stream {
    pub fn describe(&self) -> String {
        let cuts = if self.chunk_size == VARIABLE {
            let head: Vec<_> = self.cuts.iter().take(8).collect();
            format!("variable x{} {:?}..", self.cuts.len(), head)
        } else {
            format!("fixed {}", self.chunk_size)
        };
        format!("{} {:?} n={} chunks={}", self.layout.name, self.profile, self.n, cuts)
    }
    pub fn size(&self) -> usize {
        self.layout.size()
    }
    pub fn point(&self, i: usize) -> &[u8] {
        let s = self.size();
        &self.points[i * s..(i + 1) * s]
    }
    pub fn vlr(&self) -> laz::LazVlr {
        self.layout.vlr(self.chunk_size)
    }
    pub fn variable(&self) -> bool {
        self.chunk_size == VARIABLE
    }
    /// (first point, number of points) of every chunk
    pub fn chunk_spans(&self) -> Vec<(usize, usize)> {
        let mut at = 0;
        self.cuts
            .iter()
            .map(|c| {
                let s = (at, *c);
                at += c;
                s
            })
            .collect()
    }
    pub fn chunk_of(&self, i: usize) -> usize {
        let mut at = 0;
        for (k, c) in self.cuts.iter().enumerate() {
            at += c;
            if i < at {
                return k;
            }
        }
        panic!("out of range")
    }
    pub fn chunk_bytes(&self) -> Vec<&[u8]> {
        let s = self.size();
        self.chunk_spans()
            .into_iter()
            .map(|(a, n)| &self.points[a * s..(a + n) * s])
            .collect()
    }
    pub fn signature(&self) -> u64 {
        crate::rng::mix(&[
            crate::rng::hash_str(&self.layout.name),
            u64::from(self.chunk_size),
            self.n as u64,
            crate::rng::hash_bytes(&self.points),
        ])
    }
    pub fn fixed_cuts(n: usize, c: u32) -> Vec<usize> {
        let c = c as usize;
        let mut v = vec![c; n / c];
        if n % c != 0 {
            v.push(n % c);
        }
        v
    }
}

pub fn point_count(rng: &mut Rng, max: usize) -> usize {
    let n = match rng.below(10) {
        0 => 1 + rng.usize(3),
        1..=3 => 1 + rng.usize(60),
        4..=7 => 1 + rng.usize(600),
        _ => 1 + rng.usize(max),
    };
    n.min(max)
}

pub fn fixed_chunk_size(rng: &mut Rng, n: usize) -> u32 {
    let n = n.max(1) as u64;
    let c = match rng.below(9) {
        0 => 1 + rng.below(4),
        1 => n,
        2 => n + 1,
        3 => n.saturating_sub(1).max(1),
        4 => 50_000,
        5 => (n / 2).max(1),
        6 => (n / 3 + 1).max(1),
        _ => 1 + rng.below(n),
    };
    // keep the number of chunks in the hundreds
    let most = if rng.chance(1, 10) { 200 } else { 40 };
    c.max(n / most).max(1) as u32
}

pub fn variable_cuts(rng: &mut Rng, n: usize) -> Vec<usize> {
    let mut left = n;
    let mut v = vec![];
    let style = rng.below(4);
    let most = if rng.chance(1, 10) { 150 } else { 40 };
    while left > 0 {
        let c = match style {
            0 => 1 + rng.usize(5.max(n / 60)),
            1 => 1 + rng.usize(left),
            2 => {
                if rng.bool() {
                    1
                } else {
                    1 + rng.usize(n / 2 + 1)
                }
            }
            _ => 1 + rng.usize(n / 4 + 1),
        }
        .max(n / most)
        .min(left);
        v.push(c);
        left -= c;
    }
    v
}

pub fn stream_with(rng: &mut Rng, layout: Layout, profile: Profile, n: usize, variable: bool) -> Stream {
    let mut g = PointGen::new(rng, &layout, profile);
    let points = g.points(rng, n);
    let (chunk_size, cuts) = if variable {
        (VARIABLE, variable_cuts(rng, n))
    } else {
        let c = fixed_chunk_size(rng, n);
        (c, Stream::fixed_cuts(n, c))
    };
    Stream { layout, profile, chunk_size, cuts, points, n }
}

/// Long streams with long chunks.
pub fn big_stream(rng: &mut Rng) -> Stream {
    let layout = loop {
        let l = any_layout(rng);
        if l.size() < 80 {
            break l;
        }
    };
    let profile = any_profile(rng);
    let n = 50_001 + rng.usize(100_000);
    let variable = rng.bool();
    let mut s = stream_with(rng, layout, profile, n, variable);
    if !s.variable() {
        s.chunk_size = *rng.pick(&[50_000, 65_535, 65_536, 65_537, 20_000, 40_000, n as u32]);
        s.cuts = Stream::fixed_cuts(n, s.chunk_size);
    }
    s
}

/// Chunks of a variable number of points, some of more than 65535.
pub fn long_chunks(rng: &mut Rng) -> Stream {
    let k = match rng.below(6) {
        0 => Kind::Gps,
        1 => Kind::Rgb12,
        2 => Kind::Point10,
        _ => Kind::Bytes(1),
    };
    let v = 1 + rng.below(2) as u16;
    let layout = Layout::new(format!("long {k:?}.v{v}"), &[k], v);
    let mut cuts = vec![*rng.pick(&[65_535, 65_536, 65_537, 66_000, 131_073])];
    for _ in 0..1 + rng.usize(3) {
        cuts.insert(rng.usize(cuts.len() + 1), if rng.chance(1, 3) { 65_536 + rng.usize(3000) } else { 1 + rng.usize(40) });
    }
    let n = cuts.iter().sum();
    let profile = any_profile(rng);
    let mut s = stream_with(rng, layout, profile, n, true);
    s.cuts = cuts;
    s
}

/// Very many very short chunks, of layouts whose models are built quickly.
pub fn many_chunks(rng: &mut Rng) -> Stream {
    let k = match rng.below(5) {
        0 => Kind::Gps,
        1 => Kind::Rgb12,
        2 => Kind::Wave13,
        _ => Kind::Bytes(1),
    };
    let v = 1 + rng.below(2) as u16;
    let layout = Layout::new(format!("lone {k:?}.v{v}"), &[k], v);
    let n = if k == Kind::Bytes(1) { *rng.pick(&[5000, 65_535, 65_536, 65_537, 70_000, 100_000]) } else { *rng.pick(&[255, 256, 257, 1000, 3000]) };
    let variable = rng.bool();
    let mut s = stream_with(rng, layout, Profile::Mixed, n, variable);
    if variable {
        s.cuts.clear();
        let mut left = n;
        while left > 0 {
            let c = (1 + rng.usize(2)).min(left);
            s.cuts.push(c);
            left -= c;
        }
    } else {
        s.chunk_size = 1 + rng.below(2) as u32;
        s.cuts = Stream::fixed_cuts(n, s.chunk_size);
    }
    s
}

pub fn stream(rng: &mut Rng, layout: Layout, max: usize) -> Stream {
    let max = max.min(1 + 2_000_000 / layout.size());
    let profile = any_profile(rng);
    let n = point_count(rng, max);
    let variable = rng.bool();
    stream_with(rng, layout, profile, n, variable)
}

pub fn noise(rng: &mut Rng, n: usize) -> Vec<u8> {
    (0..n).map(|_| rng.u64() as u8).collect()
}

/// Bytes that drive an arithmetic decoder into rare states; `carry`: a carry decided after so many bytes.
pub fn hostile(rng: &mut Rng, carry: Option<usize>) -> Vec<u8> {
    let mut b = vec![];
    if let Some(n) = carry {
        // prefix, then a carry that is only decided after n bytes
        for _ in 0..rng.usize(9000) {
            b.push(rng.u32() as u8);
        }
        b.push(0x80);
        b.extend(std::iter::repeat(0).take(n));
        b.extend(std::iter::repeat(0xFF).take(16));
        for _ in 0..rng.usize(9000) {
            b.push(rng.u32() as u8);
        }
        return b;
    }
    let segments = 1 + rng.usize(8);
    for _ in 0..segments {
        let n = match rng.below(3) {
            0 => rng.usize(40),
            1 => rng.usize(3000),
            _ => rng.usize(9000),
        };
        match rng.below(5) {
            0 => b.extend(std::iter::repeat(0x00).take(n)),
            1 => b.extend(std::iter::repeat(0xFF).take(n)),
            2 => {
                b.push(0x80);
                b.extend(std::iter::repeat(0x00).take(n));
                b.extend([0xFF; 8]);
            }
            3 => {
                b.push(0x7F);
                b.extend(std::iter::repeat(0xFF).take(n));
                b.extend([0; 8]);
            }
            _ => b.extend((0..n).map(|_| rng.u32() as u8)),
        }
    }
    b
}


fn layers(k: Kind) -> usize {
    match k {
        Kind::Point14 => 9,
        Kind::RgbNir14 => 2,
        Kind::Bytes14(n) => n as usize,
        _ => 1,
    }
}

/// Points that are what a decoder makes of hostile or damaged data: histories that no natural
/// data has, with long carries when they are compressed again. The frozen decoder makes them.
pub fn decoded(rng: &mut Rng, layout: Layout, max: usize) -> Stream {
    let size = layout.size();
    let mut data = vec![0u8; 8];
    if rng.bool() {
        data.extend(noise(rng, size));
        let carry = if rng.bool() { Some(rng.usize(12000)) } else { None };
        if layout.layered() {
            data.extend((max as u32).to_le_bytes());
            let n: usize = layout.items.iter().map(|i| layers(i.0)).sum();
            let parts: Vec<Vec<u8>> = (0..n)
                .map(|_| if rng.chance(1, 4) { vec![] } else { hostile(rng, carry) })
                .collect();
            for p in &parts {
                data.extend((p.len() as u32).to_le_bytes());
            }
            for p in parts {
                data.extend(p);
            }
        } else {
            data.extend(hostile(rng, carry));
        }
    } else {
        let mut s = stream_with(rng, layout.clone(), Profile::Mixed, max.max(2), false);
        s.chunk_size = VARIABLE - 1;
        let mut c = laz_ref::LasZipCompressor::new(std::io::Cursor::new(vec![]), layout.vlr_ref(s.chunk_size)).expect("ref");
        c.compress_many(&s.points).expect("ref");
        c.done().expect("ref");
        data = c.into_inner().into_inner();
        let skip = 8 + size + if layout.layered() { 4 + 4 * layout.items.iter().map(|i| layers(i.0)).sum::<usize>() } else { 0 };
        for _ in 0..1 + rng.usize(6) {
            if data.len() > skip {
                let at = skip + rng.usize(data.len() - skip);
                let n = 1 + rng.usize(8);
                let end = (at + n).min(data.len());
                data[at..end].fill(0);
                data[at..end].iter_mut().for_each(|b| *b = rng.u32() as u8);
            }
        }
    }
    data[..8].fill(0xFF);
    let mut points = vec![];
    let vlr = layout.vlr_ref(VARIABLE - 1);
    if let Ok(mut d) = laz_ref::LasZipDecompressor::new(std::io::Cursor::new(&data[..]), vlr) {
        let mut p = vec![0u8; size];
        while points.len() < max * size && d.decompress_one(&mut p).is_ok() {
            points.extend_from_slice(&p);
        }
    }
    if points.is_empty() {
        points = noise(rng, size);
    }
    let n = points.len() / size;
    let (chunk_size, cuts) = if rng.chance(1, 3) {
        (VARIABLE, variable_cuts(rng, n))
    } else {
        let c = if rng.bool() { n.max(1) as u32 } else { fixed_chunk_size(rng, n) };
        (c, Stream::fixed_cuts(n, c))
    };
    Stream { layout, profile: Profile::Decoded, chunk_size, cuts, points, n }
}
