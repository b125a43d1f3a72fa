use crate::api::{read, Outcome, Reader};
use crate::engine::{Class, Prop};
use crate::gen;
use crate::msg::{brief, decode, diff, judge, MsgSpec};
use crate::types::Ty;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

pub struct C03;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub ty: Ty,
    pub msg: MsgSpec,
}

impl Prop for C03 {
    type Case = Case;
    const ID: &'static str = "C03";
    const RULE: &'static str = "A case is a point type and a well-formed foreign message holding its fields (permuted declaration and placement, gaps, overlays, \
        extra fields, tails, both byte orders, organised clouds, arbitrary header/row step/density), among them a few sparse ones of 2 to 4.6 GiB; all 4 readers are compared with an independent decoder. \
        Non-trivial: at least 1 point, and the message is not simply the type's own memory layout in little endian.";

    fn strategy() -> BoxedStrategy<Case> {
        if gen::heavy() {
            return gen::any_ty().prop_flat_map(|ty| gen::giant(ty).prop_map(move |msg| Case { ty, msg })).boxed();
        }
        gen::any_ty()
            .prop_flat_map(|ty| gen::foreign(ty, true).prop_map(move |msg| Case { ty, msg }))
            .boxed()
    }

    fn check(c: &Case) -> Result<(), String> {
        let j = judge(c.ty, &c.msg);
        assert!(j.must_accept(), "generator produced a message that is not well-formed: {:?}", j.faults);
        let want = decode(c.ty, &c.msg);
        for r in Reader::ALL {
            if r == Reader::Vec && !c.ty.plain() {
                continue;
            }
            match read(c.ty, r, c.msg.build(), want.len() + 3) {
                Outcome::Ok(got) => {
                    if let Some(d) = diff(&got, &want, &c.ty.fields()) {
                        return Err(format!("{r:?} of {:?}: {d}", c.ty));
                    }
                }
                o => return Err(format!("{r:?} of {:?} on a well-formed message of {} points: {}", c.ty, want.len(), brief(&o))),
            }
        }
        Ok(())
    }

    fn classify(c: &Case) -> Class {
        let f = c.ty.fields();
        let m = &c.msg;
        let own = m.fields.len() == f.len()
            && m.point_step as usize == c.ty.mem_size()
            && f.iter().zip(&m.fields).all(|(w, g)| w.name == g.name && w.mem as u32 == g.offset);
        let mut labels = vec![if m.big { "big-endian" } else { "little-endian" }];
        if own {
            labels.push("own memory layout");
        }
        let reordered = {
            let pos: Vec<usize> = f.iter().filter_map(|w| m.fields.iter().position(|g| g.name == w.name)).collect();
            pos.windows(2).any(|p| p[0] > p[1])
        };
        if reordered {
            labels.push("declaration order differs");
        }
        let offs: Vec<u32> = f.iter().filter_map(|w| m.fields.iter().find(|g| g.name == w.name).map(|g| g.offset)).collect();
        if offs.windows(2).any(|p| p[0] > p[1]) {
            labels.push("offset order differs");
        }
        if m.fields.len() > f.len() {
            labels.push("extra fields");
        }
        if m.height > 1 && m.width > 0 {
            labels.push("multi-row");
        }
        if m.points() == 0 {
            labels.push("no points");
        }
        if m.data.len() >= 1 << 31 {
            labels.push("2 GiB and more");
        }
        Class { nontrivial: m.points() > 0 && (!own || m.big), labels }
    }
}
