//! C13: derived point types. The structs are generated by checks/c13.py (one module each) and compiled in here.
use proptest::prelude::*;
use ros_pointcloud2::{PointCloud2Msg, PointConvertible};
use rpcl2_harness::api::{points_of, read_t, write_t, Outcome, Reader, Writer};
use rpcl2_harness::engine::{self, Class, Prop};
use rpcl2_harness::gen::{self, Points};
use rpcl2_harness::msg::{conforms, diff, view};
use rpcl2_harness::types::{FieldDesc, TestPoint};
use serde::{Deserialize, Serialize};

pub struct Entry {
    pub name: &'static str,
    pub fields: fn() -> Vec<FieldDesc>,
    pub c_layout: bool,
    pub size: usize,
    pub canon: fn(&mut [u64]),
    pub write: fn(Writer, &[Vec<u64>]) -> Outcome<PointCloud2Msg>,
    pub read: fn(Reader, PointCloud2Msg, usize) -> Outcome,
}

fn wr<const N: usize, T: TestPoint + PointConvertible<N>>(w: Writer, rows: &[Vec<u64>]) -> Outcome<PointCloud2Msg> {
    write_t::<N, T>(w, points_of::<T>(rows))
}

fn rd<const N: usize, T: TestPoint + PointConvertible<N>>(r: Reader, m: PointCloud2Msg, limit: usize) -> Outcome {
    match read_t::<N, T>(r, m, limit) {
        Outcome::Ok(v) => Outcome::Ok(v.iter().map(|p| p.to_words()).collect()),
        Outcome::Err(e) => Outcome::Err(e),
        Outcome::Panic(p) => Outcome::Panic(p),
    }
}

pub const fn entry<const N: usize, T: TestPoint + PointConvertible<N>>() -> Entry {
    Entry {
        name: T::NAME,
        fields: T::fields,
        c_layout: T::C_LAYOUT,
        size: core::mem::size_of::<T>(),
        canon: T::canon,
        write: wr::<N, T>,
        read: rd::<N, T>,
    }
}

mod generated {
    use super::{entry, Entry};
    include!(concat!(env!("C13_GEN"), "/mod.rs"));
}
use generated::TABLE;

struct C13;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    /// index of the generated struct
    of: usize,
    points: Points,
}

impl Prop for C13 {
    type Case = Case;
    const ID: &'static str = "C13";
    const RULE: &'static str = "A case is a generated struct deriving PointConvertible (random representation, fields, attributes, renames) and a point list; the \
        messages of all 3 writers are checked against the struct's description (and rustc's own offset_of/size_of for C layouts) and read back by all 4 readers. \
        Non-trivial: at least 1 point.";

    fn strategy() -> BoxedStrategy<Case> {
        (0..TABLE.len())
            .prop_flat_map(|of| gen::points_of((TABLE[of].fields)().len(), if TABLE[of].size > 1000 { 6000 } else { 0 }, false).prop_map(move |points| Case { of, points }))
            .boxed()
    }

    fn check(c: &Case) -> Result<(), String> {
        let e = &TABLE[c.of];
        let fields = (e.fields)();
        let rows = c.points.rows_for(fields.len(), e.canon);
        let mut views = Vec::new();
        for w in Writer::ALL {
            let msg = match (e.write)(w, &rows) {
                Outcome::Ok(m) => m,
                Outcome::Err(x) => return Err(format!("writer {w:?} of {} failed on {} points: {x:?}", e.name, rows.len())),
                Outcome::Panic(p) => return Err(format!("writer {w:?} of {} panicked on {} points: {p}", e.name, rows.len())),
            };
            let v = view(&msg);
            conforms(&fields, true, &v, &rows).map_err(|x| format!("writer {w:?} of {}: {x}", e.name))?;
            views.push(v);
            for r in Reader::ALL {
                match (e.read)(r, msg.clone(), rows.len() + 3) {
                    Outcome::Ok(got) => {
                        if let Some(d) = diff(&got, &rows, &fields) {
                            return Err(format!("{w:?} -> {r:?} of {}: {d}", e.name));
                        }
                    }
                    Outcome::Err(x) => return Err(format!("{w:?} -> {r:?} of {}: {x:?}", e.name)),
                    Outcome::Panic(p) => return Err(format!("{w:?} -> {r:?} of {} panicked: {p}", e.name)),
                }
            }
        }
        let (vec, par) = (&views[1], &views[2]);
        if vec.fields != par.fields || vec.point_step != par.point_step {
            return Err(format!("{}: vector and parallel writers describe points differently", e.name));
        }
        if e.c_layout {
            if vec.point_step as usize != e.size {
                return Err(format!("{}: vector-written point step {} but the struct has {} bytes", e.name, vec.point_step, e.size));
            }
            for (f, w) in vec.fields.iter().zip(&fields) {
                if f.offset as usize != w.mem {
                    return Err(format!("{}: vector-written offset of {:?} is {} but {} in memory", e.name, w.name, f.offset, w.mem));
                }
            }
        }
        Ok(())
    }

    fn classify(c: &Case) -> Class {
        let e = &TABLE[c.of];
        let fields = (e.fields)();
        let sum: usize = fields.iter().map(|f| f.dt.size()).sum();
        let ordered = fields.windows(2).all(|p| p[0].mem < p[1].mem);
        Class {
            nontrivial: !c.points.is_empty(),
            labels: vec![
                if e.c_layout { "C layout" } else { "Rust layout" },
                match (ordered, sum == e.size) {
                    (false, _) => "fields reordered in memory",
                    (true, true) => "no padding",
                    (true, false) => "padding",
                },
                match fields.len() {
                    1 => "1 field",
                    2..=6 => "2..6 fields",
                    _ => "7 or more fields",
                },
            ],
        }
    }
}

fn main() {
    engine::main(|id, a| if id == "C13" { engine::command::<C13>(a) } else { engine::usage() })
}
