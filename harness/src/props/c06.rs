use crate::api::{read, ErrRepr, Outcome, Reader};
use crate::engine::{Class, Prop};
use crate::gen::{self, Source};
use crate::msg::{brief, error_fits, judge, Fault};
use crate::types::Ty;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

pub struct C06;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub ty: Ty,
    pub src: Source,
}

impl Prop for C06 {
    type Case = Case;
    const ID: &'static str = "C06";
    const RULE: &'static str = "A case is a point type and a message: well-formed, with 0..2 injected faults, malformed, or library-written as another type; each reader's \
        accept/reject and error kind are compared with an independent judgement. Non-trivial: at least one fault is present, or none and the message has points.";

    fn strategy() -> BoxedStrategy<Case> {
        gen::any_ty()
            .prop_flat_map(|ty| {
                prop_oneof![
                    5 => (gen::foreign(ty, false), vec(gen::mutation(), 0..=2), 0u8..4).prop_map(|(mut m, mus, refit)| {
                        for mu in &mus {
                            gen::apply(&mut m, mu);
                        }
                        if refit > 0 {
                            gen::fix_length(&mut m);
                        }
                        Source::Spec(m)
                    }),
                    1 => gen::malformed(ty).prop_map(Source::Spec),
                    2 => gen::written(ty, 0..=1),
                ]
                .prop_map(move |src| Case { ty, src })
            })
            .boxed()
    }

    fn check(c: &Case) -> Result<(), String> {
        let Some(spec) = c.src.spec() else { return Ok(()) };
        let j = judge(c.ty, &spec);
        let msg = spec.build();
        let limit = msg.data.len() + 3;
        for r in Reader::ALL {
            if r == Reader::Vec && !c.ty.plain() {
                continue;
            }
            let out = read(c.ty, r, msg.clone(), limit);
            match &out {
                Outcome::Ok(_) if !j.faults.is_empty() && !j.unspecified => {
                    return Err(format!("{r:?} of {:?} accepted a message with {:?}", c.ty, j.faults));
                }
                Outcome::Ok(_) => {}
                Outcome::Err(e) if j.must_accept() => return Err(format!("{r:?} of {:?} rejected a readable message: {e:?}", c.ty)),
                Outcome::Err(e) => {
                    if !j.unspecified && !error_fits(e, r, &j) {
                        return Err(format!("{r:?} of {:?}: error {e:?} although the faults are {:?}", c.ty, j.faults));
                    }
                    // absent names are absent whatever else is unusual about the message
                    if let ErrRepr::FieldsNotFound(names) = e {
                        if r != Reader::Vec && !j.faults.iter().any(|f| matches!(f, Fault::Missing(m) if m == names)) {
                            return Err(format!("{r:?} of {:?}: reports {names:?} as absent, faults are {:?}", c.ty, j.faults));
                        }
                    }
                }
                Outcome::Panic(_) => return Err(format!("{r:?} of {:?}: {}, faults {:?}", c.ty, brief(&out), j.faults)),
            }
        }
        Ok(())
    }

    fn classify(c: &Case) -> Class {
        let mut labels = vec![c.src.label()];
        let mut nontrivial = true;
        if let Source::Spec(m) = &c.src {
            let j = judge(c.ty, m);
            labels.push(match j.faults.len() {
                0 => "no fault",
                1 => "one fault",
                _ => "several faults",
            });
            if j.faults.len() == 1 {
                labels.push(match &j.faults[0] {
                    Fault::Missing(n) if n.len() > 1 => "only: several missing fields",
                    Fault::Missing(_) => "only: missing field",
                    Fault::UnknownType => "only: unknown datatype",
                    Fault::TypeMismatch => "only: datatype mismatch",
                    Fault::Beyond => "only: field beyond point step",
                    Fault::Length { overflow: true } => "only: length, overflowing product",
                    Fault::Length { .. } => "only: length",
                });
            }
            if j.unspecified {
                labels.push("unspecified feature");
            }
            nontrivial = !j.faults.is_empty() || m.points() > 0;
        }
        Class { nontrivial, labels }
    }
}
