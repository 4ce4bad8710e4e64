use crate::check::Prop;

mod common;
mod cost;
mod diffs;
mod lexical;
mod data;
mod features;
mod functions;
mod io;
mod macros;
mod registry;
mod scale;
mod semantic;
mod threads;
#[cfg(feature = "shapes")]
mod shapes;

pub fn all() -> Vec<Prop> {
    let mut v = vec![];
    v.extend(diffs::props());
    v.extend(lexical::props());
    v.extend(semantic::props());
    v.extend(functions::props());
    v.extend(data::props());
    v.extend(io::props());
    v.extend(cost::props());
    v.extend(registry::props());
    v.extend(threads::props());
    v.extend(features::props());
    v
}
