use crate::api::{read, Outcome, Reader};
use crate::engine::{Class, Prop};
use crate::gen::{self, Source};
use crate::msg::{brief, diff};
use crate::types::Ty;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

pub struct C02;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub ty: Ty,
    pub src: Source,
}

impl Prop for C02 {
    type Case = Case;
    const ID: &'static str = "C02";
    const RULE: &'static str = "A case is a point type and a message: foreign well-formed (free, exact-memory, near-memory, packed, short-tail layouts, both \
        byte orders, organised clouds), malformed, or library-written (possibly as another type, possibly altered). Vector and per-point reads are compared. \
        Non-trivial: both reads succeed with at least one point, or the message has at least one requested field and is rejected.";

    fn strategy() -> BoxedStrategy<Case> {
        gen::plain_ty()
            .prop_flat_map(|ty| {
                prop_oneof![
                    5 => gen::foreign(ty, true).prop_map(Source::Spec),
                    2 => gen::malformed(ty).prop_map(Source::Spec),
                    2 => gen::written(ty, 0..=0),
                    2 => gen::written(ty, 1..=2),
                ]
                .prop_map(move |src| Case { ty, src })
            })
            .boxed()
    }

    fn check(c: &Case) -> Result<(), String> {
        let Some(spec) = c.src.spec() else { return Ok(()) };
        let msg = spec.build();
        let limit = msg.data.len() + 3;
        let per_point = read(c.ty, Reader::Iter, msg.clone(), limit);
        let vector = read(c.ty, Reader::Vec, msg, limit);
        match (&per_point, &vector) {
            (Outcome::Ok(a), Outcome::Ok(b)) => match diff(b, a, &c.ty.fields()) {
                None => Ok(()),
                Some(d) => Err(format!("{:?}: vector read differs from per-point read: {d}", c.ty)),
            },
            (a, b) if a.is_ok() != b.is_ok() => Err(format!("{:?}: per-point read: {}, vector read: {}", c.ty, brief(a), brief(b))),
            _ => Ok(()),
        }
    }

    fn classify(c: &Case) -> Class {
        let mut labels = vec![c.src.label()];
        let mut nontrivial = false;
        if let Source::Spec(m) = &c.src {
            let j = crate::msg::judge(c.ty, m);
            let mem = same_prefix(c.ty, m);
            labels.push(if j.must_accept() { "must be accepted" } else { "faulty or unspecified" });
            if mem && !m.big {
                labels.push(if m.point_step as usize == c.ty.mem_size() {
                    "exact memory layout"
                } else if (m.point_step as usize) < c.ty.mem_size() {
                    "memory layout, short tail"
                } else {
                    "memory layout, longer step"
                });
            }
            if m.height > 1 {
                labels.push("multi-row");
            }
            if m.big {
                labels.push("big-endian");
            }
            nontrivial = if j.must_accept() { m.points() > 0 } else { m.fields.iter().any(|f| c.ty.fields().iter().any(|w| w.name == f.name)) };
        } else if let Source::Written { points, from, .. } = &c.src {
            nontrivial = points.len() > 0;
            labels.push(if *from == c.ty { "same type" } else { "other type" });
        }
        Class { nontrivial, labels }
    }
}

fn same_prefix(ty: Ty, m: &crate::msg::MsgSpec) -> bool {
    let f = ty.fields();
    m.fields.len() >= f.len() && f.iter().zip(&m.fields).all(|(w, g)| w.name == g.name && w.mem as u32 == g.offset && w.dt.code() == g.datatype)
}
