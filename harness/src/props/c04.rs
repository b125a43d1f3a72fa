use crate::api::{write, Outcome, Writer};
use crate::engine::{Class, Prop};
use crate::gen;
use crate::gen::Points;
use crate::msg::{conforms, view};
use crate::types::Ty;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

pub struct C04;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub ty: Ty,
    pub points: Points,
}

impl Prop for C04 {
    type Case = Case;
    const ID: &'static str = "C04";
    const RULE: &'static str = "A case is a point type (29) and a point list; the messages of all 3 writers are checked against the PointCloud2 description, decoded \
        by an independent decoder, and the vector/parallel ones compared with each other and with the compiler's struct layout. Non-trivial: at least 1 point.";

    fn strategy() -> BoxedStrategy<Case> {
        gen::any_ty()
            .prop_flat_map(|ty| gen::points(ty, true).prop_map(move |points| Case { ty, points }))
            .boxed()
    }

    fn check(c: &Case) -> Result<(), String> {
        let rows = c.points.rows(c.ty);
        let mut views = Vec::new();
        for w in Writer::ALL {
            match write(c.ty, w, &rows) {
                Outcome::Ok(m) => {
                    let v = view(&m);
                    conforms(&c.ty.fields(), c.ty.plain(), &v, &rows).map_err(|e| format!("writer {w:?} of {:?}: {e}", c.ty))?;
                    views.push(v);
                }
                Outcome::Err(e) => return Err(format!("writer {w:?} of {:?}: {e:?}", c.ty)),
                Outcome::Panic(p) => return Err(format!("writer {w:?} of {:?} panicked: {p}", c.ty)),
            }
        }
        let (vec, par) = (&views[1], &views[2]);
        if vec.fields != par.fields || vec.point_step != par.point_step {
            return Err(format!("{:?}: vector and parallel writers describe points differently", c.ty));
        }
        if c.ty.c_layout() {
            if vec.point_step as usize != c.ty.mem_size() {
                return Err(format!("{:?}: vector-written point step {} but the struct has {} bytes", c.ty, vec.point_step, c.ty.mem_size()));
            }
            for (f, w) in vec.fields.iter().zip(c.ty.fields()) {
                if f.offset as usize != w.mem {
                    return Err(format!("{:?}: vector-written offset of {:?} is {} but {} in memory", c.ty, w.name, f.offset, w.mem));
                }
            }
        }
        Ok(())
    }

    fn classify(c: &Case) -> Class {
        let n = c.points.len();
        Class {
            nontrivial: n >= 1,
            labels: vec![
                match n {
                    0 => "0 points",
                    1 => "1 point",
                    2..=300 => "2..300 points",
                    301..=5000 => "301..5000 points",
                    _ => "more than 5000 points",
                },
                if c.ty.c_layout() { "C layout" } else { "Rust layout" },
            ],
        }
    }
}
