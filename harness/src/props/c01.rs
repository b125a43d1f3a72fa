use crate::api::{read, write, Outcome, Reader, Writer};
use crate::engine::{Class, Prop};
use crate::gen;
use crate::gen::Points;
use crate::msg::{brief, diff};
use crate::types::Ty;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

pub struct C01;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub ty: Ty,
    pub points: Points,
}

impl Prop for C01 {
    type Case = Case;
    const ID: &'static str = "C01";
    const RULE: &'static str = "A case is a point type (9 predefined, 20 custom, or a generated description over 12 sizes and alignments) and a point list (explicit arbitrary bits or long patterns, \
        sizes 0..131072); it is written by all 3 writers and every message read by all 4 readers. Non-trivial: at least 2 points with differing values.";

    fn strategy() -> BoxedStrategy<Case> {
        gen::any_ty()
            .prop_flat_map(|ty| gen::points(ty, true).prop_map(move |points| Case { ty, points }))
            .boxed()
    }

    fn check(c: &Case) -> Result<(), String> {
        let rows = c.points.rows(c.ty);
        let fields = c.ty.fields();
        for w in Writer::ALL {
            let msg = match write(c.ty, w, &rows) {
                Outcome::Ok(m) => m,
                Outcome::Err(e) => return Err(format!("writer {w:?} of {:?} failed on {} points: {e:?}", c.ty, rows.len())),
                Outcome::Panic(p) => return Err(format!("writer {w:?} of {:?} panicked on {} points: {p}", c.ty, rows.len())),
            };
            for r in Reader::ALL {
                match read(c.ty, r, msg.clone(), rows.len() + 3) {
                    Outcome::Ok(got) => {
                        if let Some(d) = diff(&got, &rows, &fields) {
                            return Err(format!("{w:?} -> {r:?} of {:?}: {d}", c.ty));
                        }
                    }
                    o => return Err(format!("{w:?} -> {r:?} of {:?} with {} points: {}", c.ty, rows.len(), brief(&o))),
                }
            }
        }
        Ok(())
    }

    fn classify(c: &Case) -> Class {
        let n = c.points.len();
        let nontrivial = n >= 2
            && match &c.points {
                Points::Explicit(v) => v.iter().any(|r| r != &v[0]),
                _ => true,
            };
        Class {
            nontrivial,
            labels: vec![
                match n {
                    0 => "0 points",
                    1 => "1 point",
                    2..=300 => "2..300 points",
                    301..=5000 => "301..5000 points",
                    _ => "more than 5000 points",
                },
                match Ty::ALL.iter().position(|t| *t == c.ty) {
                    None => "generated type",
                    Some(k) if k < Ty::PREDEFINED => "predefined type",
                    _ => "custom type",
                },
                if c.ty.c_layout() { "C layout" } else { "Rust layout" },
            ],
        }
    }
}
