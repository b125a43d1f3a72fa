use crate::api::{guard, read, Outcome, Reader};
use crate::dispatch;
use crate::engine::{Class, Prop};
use crate::gen::{self, Source};
use crate::msg::{decode, diff, judge, Fault, MsgSpec};
use crate::types::{TestPoint, Ty};
use proptest::prelude::*;
use ros_pointcloud2::iterator::PointCloudIterator;
use serde::{Deserialize, Serialize};

pub struct C05;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub ty: Ty,
    pub src: Source,
    pub k: u16,
}

/// Other ways to drain the public iterator; only calls whose meaning is fixed for every accepted message.
fn cursor_variants(ty: Ty, m: &MsgSpec, k: usize) -> Result<(), String> {
    let n = m.points() as usize;
    let lim = m.data.len() + 3;
    dispatch!(ty, T, N => {
        let fresh = || PointCloudIterator::<N, T>::try_from(m.build());
        let r = guard(|| {
            let Ok(it) = fresh() else { return Ok(None) };
            let hint = it.size_hint();
            let back = Iterator::rev(it).take(lim).map(|p: T| p.to_words()).collect::<Vec<_>>();
            let mut it = match fresh() { Ok(i) => i, Err(_) => return Err("second conversion of the same message failed".to_string()) };
            let nth = Iterator::nth(&mut it, k).map(|p: T| p.to_words());
            let rest = Iterator::count(Iterator::take(it, lim));
            let halves = match fresh() { Ok(i) if n >= 1 => {
                let (a, b) = i.split_at(k % (n + 1));
                Iterator::take(a, lim).count() + Iterator::take(b, lim).count()
            } _ => n };
            Ok(Some((hint, back, nth, rest, halves)))
        });
        match r {
            Err(p) => Err(format!("{ty:?}: draining the point iterator panicked: {p}")),
            Ok(Err(e)) => Err(format!("{ty:?}: {e}")),
            Ok(Ok(None)) => Ok(()),
            Ok(Ok(Some((hint, back, nth, rest, halves)))) => {
                if hint != (n, Some(n)) { return Err(format!("{ty:?}: size hint {hint:?} for {n} points")); }
                if back.len() != n { return Err(format!("{ty:?}: {} points from the back instead of {n}", back.len())); }
                if nth.is_some() != (k < n) { return Err(format!("{ty:?}: nth({k}) of {n} points is {nth:?}")); }
                if rest != n.saturating_sub(k + 1) { return Err(format!("{ty:?}: {rest} points left after nth({k}) of {n}")); }
                if halves != n { return Err(format!("{ty:?}: split halves hold {halves} of {n} points")); }
                if let Some(w) = nth { if back[n - 1 - k] != w { return Err(format!("{ty:?}: nth({k}) differs from the same point read from the back")); } }
                Ok(())
            }
        }
    })
}

impl Prop for C05 {
    type Case = Case;
    const ID: &'static str = "C05";
    const RULE: &'static str = "A case is a point type and an arbitrary message: well-formed with 1..4 inconsistencies (dimensions, steps, offsets, datatypes, counts, names, \
        truncated or oversized buffers, products wrapping 32 or 64 bits), raw junk, or library-written and altered; every reader is run with debug assertions and under \
        AddressSanitizer. Non-trivial: the message has at least one fault or an unusual (unspecified) feature.";

    fn strategy() -> BoxedStrategy<Case> {
        (gen::plain_ty(), any::<u16>())
            .prop_flat_map(|(ty, k)| {
                prop_oneof![
                    7 => gen::malformed(ty).prop_map(Source::Spec),
                    2 => gen::written(ty, 1..=3),
                    1 => gen::foreign(ty, false).prop_map(Source::Spec),
                ]
                .prop_map(move |src| Case { ty, src, k: k % 23 })
            })
            .boxed()
    }

    fn check(c: &Case) -> Result<(), String> {
        let Some(spec) = c.src.spec() else { return Ok(()) };
        let msg = spec.build();
        let n = spec.points();
        let limit = msg.data.len() + 3;
        let j = judge(c.ty, &spec);
        let decodable = j.faults.is_empty()
            && c.ty.fields().iter().all(|w| spec.fields.iter().filter(|f| f.name == w.name).count() == 1);
        let mut accepted = false;
        for r in Reader::ALL {
            match read(c.ty, r, msg.clone(), limit) {
                Outcome::Ok(rows) => {
                    accepted |= r == Reader::Cursor;
                    if rows.len() as u64 != n {
                        return Err(format!("{r:?} of {:?}: {} points from a message of {} x {}", c.ty, rows.len(), spec.width, spec.height));
                    }
                    if decodable {
                        if let Some(d) = diff(&rows, &decode(c.ty, &spec), &c.ty.fields()) {
                            return Err(format!("{r:?} of {:?}: {d}", c.ty));
                        }
                    } else if j.faults.iter().any(|f| matches!(f, Fault::Length { .. })) && n > 0 {
                        return Err(format!(
                            "{r:?} of {:?}: produced {n} points of {} bytes from a buffer of {} bytes",
                            c.ty, spec.point_step, msg.data.len()
                        ));
                    }
                }
                Outcome::Err(_) => {}
                Outcome::Panic(p) => return Err(format!("{r:?} of {:?} panicked: {p}", c.ty)),
            }
        }
        if accepted {
            cursor_variants(c.ty, &spec, c.k as usize)?;
        }
        Ok(())
    }

    fn classify(c: &Case) -> Class {
        let mut labels = vec![c.src.label()];
        let mut nontrivial = false;
        if let Source::Spec(m) = &c.src {
            let j = judge(c.ty, m);
            for f in &j.faults {
                let l = match f {
                    Fault::Missing(_) => "missing field",
                    Fault::UnknownType => "unknown datatype",
                    Fault::TypeMismatch => "datatype mismatch",
                    Fault::Beyond => "field beyond point step",
                    Fault::Length { overflow: true } => "length, product above 64 bits",
                    Fault::Length { overflow: false } => "length",
                };
                if !labels.contains(&l) {
                    labels.push(l);
                }
            }
            if j.unspecified {
                labels.push("unspecified feature");
            }
            if j.faults.is_empty() {
                labels.push("no fault");
            }
            if j.faults.len() == 1 {
                labels.push("exactly one fault");
            }
            nontrivial = !j.must_accept();
        } else if let Source::Written { points, alter, .. } = &c.src {
            nontrivial = !points.is_empty() && !alter.is_empty();
        }
        Class { nontrivial, labels }
    }
}
