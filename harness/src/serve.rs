//! Runs cases for C29 in builds with fewer features.
#![allow(dead_code, unused)]

mod funcs;
mod model;
mod obs;
mod rng;
mod val;
mod wire;

fn main() {
    let t = std::thread::Builder::new().stack_size(1 << 28).spawn(|| {
        obs::silence_panics();
        let (mut i, mut o) = (std::io::stdin().lock(), std::io::stdout().lock());
        while let Ok(v) = wire::receive(&mut i) {
            let case = obs::case_from_value(&v);
            let got = obs::got_to_value(&obs::run_real(&case));
            if wire::send(&mut o, &got).is_err() {
                break;
            }
        }
    });
    t.unwrap().join().unwrap();
}
