//! C21: the arithmetic coder and the integer correctors on their own.
use crate::ctx::*;
use crate::rng::{mix, Rng};
use crate::Prop;
use laz::compressors::IntegerCompressor;
use laz::decoders::ArithmeticDecoder;
use laz::decompressors::IntegerDecompressor;
use laz::encoders::ArithmeticEncoder;
use laz::models::{ArithmeticBitModel, ArithmeticModel};

pub fn register(v: &mut Vec<Prop>) {
    v.push(Prop { id: "C21", run: entropy, directed: 24, quick: 20000, thorough: 2000000, workers: 0 });
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    Bit(u8, u32),
    Sym(u8, u32),
    RawBit(u32),
    Raw(u32, u32),
    Byte(u8),
    Short(u16),
    Int(u32),
    Long(u64),
    /// corrector, context, prediction, value
    Corr(u8, u32, i32, i32),
}

impl Op {
    fn kind(&self) -> &'static str {
        match self {
            Op::Bit(..) => "bit",
            Op::Sym(..) => "symbol",
            Op::RawBit(_) => "raw bit",
            Op::Raw(..) => "raw bits",
            Op::Byte(_) => "byte",
            Op::Short(_) => "short",
            Op::Int(_) => "int",
            Op::Long(_) => "int64",
            Op::Corr(..) => "integer",
        }
    }
}

/// The models and correctors a sequence uses.
#[derive(Clone, Debug)]
struct Setup {
    bits: usize,
    syms: Vec<(u32, bool, bool)>,
    corrs: Vec<(u32, u32, u32, u32)>,
}

impl Setup {
    fn any(rng: &mut Rng) -> Self {
        let n = rng.usize(4);
        let syms = (0..=n)
            .map(|_| {
                let k = match rng.below(4) {
                    0 => 2 + rng.below(15) as u32,
                    1 => *rng.pick(&[2, 3, 4, 16, 17, 64, 128, 256, 512, 516, 1024, 2047, 2048]),
                    2 => 17 + rng.below(300) as u32,
                    _ => 2 + rng.below(2047) as u32,
                };
                // the `compress` flag only says whether the model holds a decoder table
                (k, rng.bool(), rng.chance(1, 4))
            })
            .collect();
        let n = rng.usize(3);
        let corrs = (0..=n)
            .map(|_| {
                let high = if rng.chance(1, 3) { 1 + rng.below(11) as u32 } else { 8 };
                let contexts = 1 + rng.below(5) as u32;
                match rng.below(4) {
                    0 => (32, contexts, high, 0),
                    1 => (1 + rng.below(30) as u32, contexts, high, 0),
                    2 => (*rng.pick(&[8, 16, 24, 30, 32]), contexts, high, 0),
                    _ => {
                        let most = if rng.bool() { 600 } else { 1 << 29 };
                        (0, contexts, high, 2 + rng.below(most) as u32)
                    }
                }
            })
            .collect();
        Setup { bits: 1 + rng.usize(3), syms, corrs }
    }

    /// Number of values of a corrector, None for the full 32 bits.
    fn span(&self, i: usize) -> Option<u64> {
        match self.corrs[i] {
            (_, _, _, r) if r != 0 => Some(u64::from(r)),
            (32, ..) => None,
            (b, ..) => Some(1 << b),
        }
    }
}

fn value(rng: &mut Rng, span: Option<u64>, around: i32) -> i32 {
    match span {
        None => match rng.below(6) {
            0 => rng.u32() as i32,
            1 => *rng.pick(&[0, 1, -1, i32::MAX, i32::MIN, i32::MIN + 1, i32::MAX - 1]),
            2 => around.wrapping_add(1i32.wrapping_shl(rng.below(32) as u32)),
            3 => around.wrapping_sub(1i32.wrapping_shl(rng.below(32) as u32)),
            _ => around.wrapping_add(rng.range(-20, 20) as i32),
        },
        Some(n) => match rng.below(5) {
            0 => rng.below(n) as i32,
            1 => *rng.pick(&[0, n - 1, n / 2, (n / 2).saturating_sub(1), 1]) as i32,
            _ => (i64::from(around) + rng.range(-20, 20)).clamp(0, n as i64 - 1) as i32,
        },
    }
}

/// A sequence chosen op by op; returns ops and how they were chosen.
fn forward(rng: &mut Rng, s: &Setup, n: usize) -> Vec<Op> {
    let mut ops = Vec::with_capacity(n);
    let weights: Vec<u64> = (0..9).map(|_| if rng.chance(1, 3) { 0 } else { rng.below(20) }).collect();
    let total: u64 = weights.iter().sum::<u64>().max(1);
    let skew = rng.below(4);
    let mut last = vec![0i32; s.corrs.len()];
    for _ in 0..n {
        let mut w = rng.below(total);
        let mut k = 0;
        while k < 8 && w >= weights[k] {
            w -= weights[k];
            k += 1;
        }
        let small = |rng: &mut Rng, n: u64| match skew {
            0 => rng.below(n),
            1 => {
                let m = 1 + rng.below(n);
                rng.below(m)
            }
            2 => n - 1 - rng.below(1 + n / 64),
            _ => {
                if rng.chance(1, 100) {
                    rng.below(n)
                } else {
                    0
                }
            }
        };
        ops.push(match k {
            0 => Op::Bit(rng.usize(s.bits) as u8, small(rng, 2) as u32),
            1 | 8 => {
                let i = rng.usize(s.syms.len());
                Op::Sym(i as u8, small(rng, u64::from(s.syms[i].0)) as u32)
            }
            2 => Op::RawBit(rng.below(2) as u32),
            3 => {
                let b = 1 + rng.below(31) as u32;
                let m = (1u64 << b) - 1;
                Op::Raw(b, if rng.chance(1, 3) { *rng.pick(&[0, m as u32]) } else { rng.u32() & m as u32 })
            }
            4 => Op::Byte(*rng.pick(&[0, 255, 128, rng.clone().u32() as u8])),
            5 => Op::Short(if rng.bool() { rng.u32() as u16 } else { *rng.pick(&[0, 0xFFFF, 0xFF00, 0x00FF]) }),
            6 => {
                if rng.bool() {
                    Op::Int(rng.u32())
                } else {
                    Op::Long(rng.u64())
                }
            }
            _ => {
                let i = rng.usize(s.corrs.len());
                let span = s.span(i);
                let pred = if rng.chance(1, 4) { value(rng, span, last[i]) } else { last[i] };
                let v = value(rng, span, pred);
                last[i] = v;
                Op::Corr(i as u8, rng.below(u64::from(s.corrs[i].1)) as u32, pred, v)
            }
        });
    }
    ops
}

struct Dec {
    bits: Vec<ArithmeticBitModel>,
    syms: Vec<ArithmeticModel>,
    corrs: Vec<IntegerDecompressor>,
}

impl Dec {
    fn new(s: &Setup) -> Self {
        Dec {
            bits: vec![ArithmeticBitModel::new(); s.bits],
            syms: s.syms.iter().map(|x| ArithmeticModel::new(x.0, x.2, &[])).collect(),
            corrs: s
                .corrs
                .iter()
                .map(|x| {
                    let mut c = IntegerDecompressor::new(x.0, x.1, x.2, x.3);
                    c.init();
                    c
                })
                .collect(),
        }
    }
    /// Decodes the op that `o` is the template of.
    fn next<R: std::io::Read>(&mut self, d: &mut ArithmeticDecoder<R>, o: &Op) -> std::io::Result<Op> {
        Ok(match *o {
            Op::Bit(i, _) => Op::Bit(i, d.decode_bit(&mut self.bits[i as usize])?),
            Op::Sym(i, _) => Op::Sym(i, d.decode_symbol(&mut self.syms[i as usize])?),
            Op::RawBit(_) => Op::RawBit(d.read_bit()?),
            Op::Raw(b, _) => Op::Raw(b, d.read_bits(b)?),
            Op::Byte(_) => Op::Byte(d.read_bits(8)? as u8),
            Op::Short(_) => Op::Short(d.read_bits(16)? as u16),
            Op::Int(_) => Op::Int(d.read_int()?),
            Op::Long(_) => Op::Long(d.read_int_64()?),
            Op::Corr(i, ctx, pred, _) => {
                Op::Corr(i, ctx, pred, self.corrs[i as usize].decompress(d, pred, ctx)?)
            }
        })
    }
}

/// What a decoder makes of hostile bytes is a sequence too, and the one whose encoding comes
/// close to these bytes: long carries, long runs of equal bytes.
fn from_bytes(rng: &mut Rng, s: &Setup, bytes: &[u8], n: usize) -> Vec<Op> {
    let mut d = ArithmeticDecoder::new(bytes);
    let mut ops = vec![];
    if d.read_init_bytes().is_err() {
        return ops;
    }
    let mut m = Dec::new(s);
    let full: Vec<usize> = (0..s.corrs.len()).filter(|i| s.span(*i).is_none()).collect();
    let only = if rng.bool() { Some(rng.below(9)) } else { None };
    while ops.len() < n {
        let o = match only.unwrap_or_else(|| rng.below(9)) {
            0 => Op::Bit(rng.usize(s.bits) as u8, 0),
            1 => Op::RawBit(0),
            2 => Op::Raw(1 + rng.below(31) as u32, 0),
            3 => Op::Byte(0),
            4 => Op::Short(0),
            5 => Op::Int(0),
            6 if !full.is_empty() => {
                let i = *rng.pick(&full);
                Op::Corr(i as u8, rng.below(u64::from(s.corrs[i].1)) as u32, rng.u32() as i32, 0)
            }
            _ => Op::Sym(rng.usize(s.syms.len()) as u8, 0),
        };
        match m.next(&mut d, &o) {
            Ok(o) => ops.push(o),
            Err(_) => break,
        }
    }
    ops
}

struct Enc {
    bits: Vec<ArithmeticBitModel>,
    syms: Vec<ArithmeticModel>,
    corrs: Vec<IntegerCompressor>,
}

impl Enc {
    fn new(s: &Setup) -> Self {
        Enc {
            bits: vec![ArithmeticBitModel::new(); s.bits],
            syms: s.syms.iter().map(|x| ArithmeticModel::new(x.0, x.1, &[])).collect(),
            corrs: s
                .corrs
                .iter()
                .map(|x| {
                    let mut c = IntegerCompressor::new(x.0, x.1, x.2, x.3);
                    c.init();
                    c
                })
                .collect(),
        }
    }
    fn put<W: std::io::Write>(&mut self, e: &mut ArithmeticEncoder<W>, o: &Op) -> std::io::Result<()> {
        match *o {
            Op::Bit(i, v) => e.encode_bit(&mut self.bits[i as usize], v),
            Op::Sym(i, v) => e.encode_symbol(&mut self.syms[i as usize], v),
            Op::RawBit(v) => e.write_bit(v),
            Op::Raw(b, v) => e.write_bits(b, v),
            Op::Byte(v) => e.write_byte(v),
            Op::Short(v) => e.write_short(v),
            Op::Int(v) => e.write_int(v),
            Op::Long(v) => e.write_int64(v),
            Op::Corr(i, ctx, pred, real) => self.corrs[i as usize].compress(e, pred, real, ctx),
        }
    }
}

fn longest_run(b: &[u8], v: u8) -> usize {
    let (mut best, mut cur) = (0, 0);
    for x in b {
        cur = if *x == v { cur + 1 } else { 0 };
        best = best.max(cur);
    }
    best
}

fn entropy(c: &mut Ctx) -> R {
    let mut rng = c.rng.clone();
    let setup = Setup::any(&mut rng);
    let directed = c.idx < 24;
    let n = if c.small {
        200
    } else if rng.chance(1, if c.thorough { 10 } else { 40 }) {
        60_000 + rng.usize(60_000)
    } else {
        1 + rng.usize(6000)
    };
    let (ops, how) = if directed || rng.chance(1, 3) {
        let carry = if c.small {
            Some(rng.usize(40))
        } else if directed {
            Some([0usize, 1, 2, 4000, 4094, 4095, 4096, 4097, 5000, 8190, 8191, 8192, 8193, 8200, 10000, 12288, 12289, 16384, 16400, 20000, 30000, 40000, 3000, 6000][c.idx as usize])
        } else if rng.chance(1, 4) {
            Some(rng.usize(14000))
        } else {
            None
        };
        let h = crate::gen::hostile(&mut rng, carry);
        (from_bytes(&mut rng, &setup, &h, 400_000), "decoded from hostile bytes")
    } else {
        (forward(&mut rng, &setup, n), "random")
    };
    c.note(format!("{} operations {how}, {setup:?}", ops.len()));
    c.signature(mix(&[ops.len() as u64, c.seed]));
    c.nontrivial = ops.len() > 1;

    // one encoder may serve several streams, reset in between
    let rounds = 1 + rng.usize(2);
    let mut e = ArithmeticEncoder::new(Vec::<u8>::new());
    let mut outs = vec![];
    for r in 0..rounds {
        if r > 0 || rng.chance(1, 4) {
            e.reset();
            e.get_mut().clear();
        }
        let mut m = Enc::new(&setup);
        for o in &ops {
            m.put(&mut e, o).must("encode")?;
        }
        e.done().must("done")?;
        outs.push(e.get_ref().clone());
    }
    if rounds == 2 {
        ensure!(outs[0] == outs[1], "reused-encoder", "an encoder reset after use writes other bytes");
    }
    let out = &outs[0];
    for round in 0..rounds {
        let mut d = ArithmeticDecoder::new(&out[..]);
        if round > 0 {
            // a decoder may be reset and fed another stream too
            let _ = d.read_init_bytes();
            let mut m = Dec::new(&setup);
            for o in ops.iter().take(5) {
                let _ = m.next(&mut d, o);
            }
            d.reset();
            *d.get_mut() = &out[..];
        }
        let mut m = Dec::new(&setup);
        d.read_init_bytes().must("init bytes")?;
        for (i, o) in ops.iter().enumerate() {
            let got = match m.next(&mut d, o) {
                Ok(g) => g,
                Err(e) => {
                    return fail(
                        format!("entropy-error:{}", o.kind()),
                        format!("operation {i} of {} ({o:?}): {e}", ops.len()),
                    )
                }
            };
            ensure!(
                got == *o,
                format!("entropy:{}", o.kind()),
                "operation {i} of {} encoded {o:?} decoded {got:?} ({how})",
                ops.len()
            );
        }
    }
    for o in &ops {
        c.add(o.kind(), 1);
    }
    c.add(how, 1);
    c.add("bytes", out.len() as u64);
    c.st.max("longest run of FF written", longest_run(out, 0xFF) as u64);
    c.st.max("longest run of 00 written", longest_run(&out[..out.len().saturating_sub(4)], 0) as u64);
    c.st.max("operations in one stream", ops.len() as u64);
    for s in &setup.syms {
        c.st.seen("alphabet sizes", u64::from(s.0));
    }
    for x in &setup.corrs {
        c.st.seen("corrector shapes", mix(&[x.0.into(), x.2.into(), x.3.into()]));
    }
    Ok(())
}
