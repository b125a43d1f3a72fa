use crate::api::{read, write, Outcome, Reader, Writer};
use crate::engine::{Class, Prop};
use crate::gen::{self, Points};
use crate::msg::{brief, diff};
use crate::types::{Dt, Ty};
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};

pub struct C10;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub from: Ty,
    pub to: Ty,
    pub points: Points,
}

/// For each field of `to`: its index in `from`, if a field of that name and datatype is written.
fn mapping(from: Ty, to: Ty) -> Option<Vec<usize>> {
    let src = from.fields();
    to.fields().iter().map(|w| src.iter().position(|f| f.name == w.name && f.dt == w.dt)).collect()
}

fn pairs(subset: bool) -> Vec<(Ty, Ty)> {
    let mut v = Vec::new();
    for &a in Ty::ALL {
        for &b in Ty::ALL {
            let sharing = b.fields().iter().any(|w| a.fields().iter().any(|f| f.name == w.name));
            if a != b && sharing && mapping(a, b).is_some() == subset {
                v.push((a, b));
            }
        }
    }
    v
}

impl Prop for C10 {
    type Case = Case;
    const ID: &'static str = "C10";
    const RULE: &'static str = "A case is an ordered pair of point types (fixed ones, or generated ones drawing on the same similar names; fields a subset, sharing only some, or differing in datatype; any field order) and points of the \
        first; each writer's message is read by each reader as the second type and compared field by name. Non-trivial: the types differ, share a field, and there is a point.";

    fn strategy() -> BoxedStrategy<Case> {
        let all: Vec<(Ty, Ty)> = Ty::ALL.iter().flat_map(|a| Ty::ALL.iter().map(move |b| (*a, *b))).collect();
        // generated types of one universe share names; the smaller is mostly a subset of the larger
        let related = (gen::dyn_ty(), 0..crate::dynamic::COMBOS.len() as u8, any::<u32>(), any::<u8>()).prop_map(|(a, combo, pick, how)| {
            let Ty::Dyn(g) = a else { unreachable!() };
            let mut h = crate::dynamic::Gen { combo, universe: g.universe, pick };
            let mut g = g;
            if how % 8 != 0 && h.combo() > g.combo() {
                std::mem::swap(&mut g, &mut h);
            }
            (Ty::Dyn(g), Ty::Dyn(h))
        });
        prop_oneof![6 => select(pairs(true)), 3 => select(pairs(false)), 1 => select(all), 10 => related]
            .prop_flat_map(|(from, to)| gen::points(from, false).prop_map(move |points| Case { from, to, points }))
            .boxed()
    }

    fn check(c: &Case) -> Result<(), String> {
        let rows = c.points.rows(c.from);
        let want = mapping(c.from, c.to).map(|ix| {
            let tf = c.to.fields();
            rows.iter()
                .map(|r| {
                    ix.iter()
                        .zip(&tf)
                        .map(|(i, f)| if !c.to.plain() && f.dt == Dt::U8 { r[*i].min(2) } else { r[*i] })
                        .collect::<Vec<u64>>()
                })
                .collect::<Vec<_>>()
        });
        for w in Writer::ALL {
            // a writer that fails is another property's finding
            let Outcome::Ok(msg) = write(c.from, w, &rows) else { continue };
            for r in Reader::ALL {
                if r == Reader::Vec && !c.to.plain() {
                    continue;
                }
                let out = read(c.to, r, msg.clone(), rows.len() + 3);
                match (&out, &want) {
                    (Outcome::Ok(got), Some(want)) => {
                        if let Some(d) = diff(got, want, &c.to.fields()) {
                            return Err(format!("{:?} written by {w:?}, read by {r:?} as {:?}: {d}", c.from, c.to));
                        }
                    }
                    (Outcome::Ok(got), None) => {
                        return Err(format!(
                            "{:?} written by {w:?}, read by {r:?} as {:?}: {} points although a field is missing or has another datatype",
                            c.from,
                            c.to,
                            got.len()
                        ))
                    }
                    (Outcome::Err(_), None) => {}
                    _ => return Err(format!("{:?} written by {w:?}, read by {r:?} as {:?} ({} points): {}", c.from, c.to, rows.len(), brief(&out))),
                }
            }
        }
        Ok(())
    }

    fn classify(c: &Case) -> Class {
        let sharing = c.to.fields().iter().any(|w| c.from.fields().iter().any(|f| f.name == w.name));
        let sub = mapping(c.from, c.to);
        let mut labels = vec![
            if sub.is_some() { "subset" } else { "not a subset" },
            if matches!(c.from, Ty::Dyn(_)) { "generated types" } else { "fixed types" },
        ];
        if let Some(ix) = &sub {
            if ix.windows(2).any(|p| p[0] > p[1]) {
                labels.push("different field order");
            } else if ix.iter().copied().eq(0..ix.len()) {
                labels.push("prefix");
            }
        }
        Class { nontrivial: sharing && c.from != c.to && !c.points.is_empty(), labels }
    }
}
