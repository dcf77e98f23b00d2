//! C01/C02: what goes in comes out, bit for bit.
use crate::ctx::*;
use crate::gen::{self, Layout, Profile, Stream};
use crate::ops;
use crate::Prop;

pub fn register(v: &mut Vec<Prop>) {
    v.push(Prop { id: "C01", run: pointwise, directed: 12 * 7, quick: 4000, thorough: 200000, workers: 0 });
    v.push(Prop { id: "C02", run: layered, directed: 10 * 7, quick: 3000, thorough: 150000, workers: 0 });
}

fn directed(c: &mut Ctx, fv: &[(u8, u16)]) -> Option<Stream> {
    let i = c.idx as usize;
    if i >= fv.len() * gen::PROFILES.len() {
        return None;
    }
    let (f, v) = fv[i % fv.len()];
    let p = gen::PROFILES[i / fv.len()];
    let eb = [0, 1, 3, 27][i % 4];
    let n = c.max_points(1500);
    let variable = i % 2 == 1;
    Some(gen::stream_with(&mut c.rng, Layout::las_format(f, v, eb), p, n, variable))
}

fn pointwise(c: &mut Ctx) -> R {
    let fv: Vec<_> = gen::all_format_versions().into_iter().filter(|x| x.0 < 6).collect();
    let s = match directed(c, &fv) {
        Some(s) => s,
        None => {
            let l = gen::pointwise_layout(&mut c.rng);
            any(c, l)
        }
    };
    check(c, s)
}

fn layered(c: &mut Ctx) -> R {
    let fv: Vec<_> = gen::all_format_versions().into_iter().filter(|x| x.0 >= 6).collect();
    let s = match directed(c, &fv) {
        Some(s) => s,
        None => {
            let l = gen::layered_layout(&mut c.rng);
            any(c, l)
        }
    };
    check(c, s)
}

fn any(c: &mut Ctx, l: Layout) -> Stream {
    match c.rng.below(400) {
        0 => {
            // long enough for every adaptive model to saturate and be halved
            let m = c.max_points(90_000).min(1 + 8_000_000 / l.size());
            let n = m / 3 + c.rng.usize(m);
            let p = gen::any_profile(&mut c.rng);
            let mut s = gen::stream_with(&mut c.rng, l, p, n, false);
            s.chunk_size = n as u32;
            s.cuts = Stream::fixed_cuts(n, n as u32);
            s
        }
        1..=60 => {
            let m = c.max_points(20_000).min(1 + 2_000_000 / l.size());
            gen::decoded(&mut c.rng, l, m)
        }
        _ => {
            let m = c.max_points(3000);
            gen::stream(&mut c.rng, l, m)
        }
    }
}

fn check(c: &mut Ctx, s: Stream) -> R {
    c.note(s.describe());
    c.signature(s.signature());
    c.nontrivial = s.n >= 2 && s.profile != Profile::Constant;
    let bytes = ops::cur::compress_vec(&s).must("compress")?;
    let back = ops::cur::decompress_vec(&s, &bytes).must("decompress")?;
    if let Some(d) = first_diff(&s.points, &back, s.size()) {
        let f = field_of(&s, &back);
        return fail(format!("lossy:{f}"), format!("{} [{}]: {d}", s.describe(), f));
    }
    c.add("points", s.n as u64);
    c.add("chunks", s.cuts.len() as u64);
    c.add("compressed_bytes", bytes.len() as u64);
    c.st.seen("layouts", crate::rng::hash_str(&s.layout.name));
    c.add(&format!("profile {:?}", s.profile), 1);
    Ok(())
}

/// Name of the field holding the first difference.
pub fn field_of(s: &Stream, got: &[u8]) -> String {
    let size = s.size();
    match (0..s.points.len().min(got.len())).find(|i| s.points[*i] != got[*i]) {
        None => "length".into(),
        Some(i) => {
            let o = i % size;
            s.layout.fields().into_iter().find(|f| f.1.contains(&o)).map(|f| f.0).unwrap_or_default()
        }
    }
}
