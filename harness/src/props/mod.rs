use crate::Prop;
mod blocks;
mod coder;
mod conc;
mod fault;
mod file;
mod hist;
mod records;
mod roundtrip;
mod safety;
pub mod stream;

pub fn all() -> Vec<Prop> {
    let mut v = vec![];
    roundtrip::register(&mut v);
    stream::register(&mut v);
    hist::register(&mut v);
    fault::register(&mut v);
    file::register(&mut v);
    coder::register(&mut v);
    records::register(&mut v);
    safety::register(&mut v);
    conc::register(&mut v);
    blocks::register(&mut v);
    v
}
