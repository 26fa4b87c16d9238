use combine::{EasyParser, Parser};
use combine::stream::position;
use mc_core::gram::*;
use std::sync::Arc;
fn main() {
    let w: &'static str = Box::leak(std::env::args().nth(1).unwrap().into_boxed_str());
    for t in std::env::args().skip(2) {
        let g = Arc::new(G::parse(&t).unwrap());
        let mut p = mc_core::real::build::<combine::easy::Stream<position::Stream<&'static str, position::IndexPositioner>>>(&g);
        match p.easy_parse(position::Stream::with_positioner(w, position::IndexPositioner::default())) {
            Ok((v, r)) => println!("{:?} {:?}: ok {:?} at {}", g, w, v, combine::stream::Positioned::position(&r)),
            Err(e) => println!("{:?} {:?}: err at {} {:?}", g, w, e.position, e.errors),
        }
    }
}
