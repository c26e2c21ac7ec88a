use crate::Prop;
pub mod algo;
pub mod dtf;
pub mod edit;
pub mod io;
pub mod maps;
pub mod mixed;
pub mod trav;

pub fn all() -> Vec<Prop> {
    let mut v = vec![];
    v.extend(io::props());
    v.extend(edit::props());
    v.extend(trav::props());
    v.extend(algo::props());
    v.extend(dtf::props());
    v.extend(mixed::props());
    v.extend(maps::props());
    v
}
