use crate::api::{guard, points_of};
use crate::engine::{Class, Prop};
use crate::gen::{self, Source};
use crate::msg::view;
use crate::types::reexport::*;
use crate::types::{TestPoint, Ty};
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use ros_pointcloud2::PointCloud2Msg;
use serde::de::DeserializeOwned;
use serde::{Deserialize, Serialize};

pub struct C12;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Case {
    Message(Source),
    Points { ty: Ty, rows: Vec<Vec<u64>> },
    Colour(u32),
}

fn bin<T: Serialize + DeserializeOwned>(x: &T) -> Result<T, String> {
    guard(|| {
        let b = bincode::serialize(x).map_err(|e| format!("bincode serialise: {e}"))?;
        bincode::deserialize(&b).map_err(|e| format!("bincode deserialise: {e}"))
    })
    .unwrap_or_else(|p| Err(format!("bincode panicked: {p}")))
}

fn json<T: Serialize + DeserializeOwned>(x: &T) -> Result<T, String> {
    guard(|| {
        let b = serde_json::to_string(x).map_err(|e| format!("json serialise: {e}"))?;
        serde_json::from_str(&b).map_err(|e| format!("json deserialise: {e}"))
    })
    .unwrap_or_else(|p| Err(format!("json panicked: {p}")))
}

/// Through the self-describing value tree, whose objects are sorted by key: declaration order is lost.
fn json_reordered<T: Serialize + DeserializeOwned>(x: &T) -> Result<T, String> {
    guard(|| {
        let v = serde_json::to_value(x).map_err(|e| format!("json value: {e}"))?;
        serde_json::from_value(v).map_err(|e| format!("json from value: {e}"))
    })
    .unwrap_or_else(|p| Err(format!("json value panicked: {p}")))
}

macro_rules! predefined {
    ($ty:expr, $T:ident => $e:expr) => {
        match $ty {
            Ty::XYZ => { type $T = PointXYZ; $e }
            Ty::XYZI => { type $T = PointXYZI; $e }
            Ty::XYZL => { type $T = PointXYZL; $e }
            Ty::XYZRGB => { type $T = PointXYZRGB; $e }
            Ty::XYZRGBA => { type $T = PointXYZRGBA; $e }
            Ty::XYZRGBNormal => { type $T = PointXYZRGBNormal; $e }
            Ty::XYZINormal => { type $T = PointXYZINormal; $e }
            Ty::XYZRGBL => { type $T = PointXYZRGBL; $e }
            Ty::XYZNormal => { type $T = PointXYZNormal; $e }
            _ => unreachable!("predefined types only"),
        }
    };
}

fn finite(ty: Ty, row: &[u64]) -> bool {
    ty.fields().iter().zip(row).all(|(f, w)| f.dt != crate::types::Dt::F32 || f32::from_bits(*w as u32).is_finite())
}

impl Prop for C12 {
    type Case = Case;
    const ID: &'static str = "C12";
    const RULE: &'static str = "A case is any message (well-formed, malformed, library-written; arbitrary header, flags, fields), a list of predefined points with arbitrary \
        bits, or a packed colour; each goes through bincode (exact bits) and JSON text and value (finite floats only, the format's own limit). Non-trivial: a message with \
        fields and data, at least one point, or a colour with more than one non-zero byte.";

    fn strategy() -> BoxedStrategy<Case> {
        let msgs = gen::any_ty().prop_flat_map(|ty| {
            prop_oneof![
                2 => gen::foreign(ty, false).prop_map(Source::Spec),
                2 => gen::malformed(ty).prop_map(Source::Spec),
                1 => gen::written(ty, 0..=1),
            ]
        });
        let pts = select(&Ty::ALL[..Ty::PREDEFINED])
            .prop_flat_map(|ty| vec(vec(gen::word(), ty.fields().len()), 1..=4).prop_map(move |rows| Case::Points { ty, rows }));
        prop_oneof![3 => msgs.prop_map(Case::Message), 3 => pts, 1 => any::<u32>().prop_map(Case::Colour)].boxed()
    }

    fn check(c: &Case) -> Result<(), String> {
        match c {
            Case::Message(src) => {
                let Some(spec) = src.spec() else { return Ok(()) };
                let msg = spec.build();
                let want = view(&msg);
                let mut all: Vec<(&str, PointCloud2Msg)> = vec![("bincode", bin(&msg)?)];
                if msg.data.len() < 5000 {
                    all.push(("json", json(&msg)?));
                    all.push(("json value", json_reordered(&msg)?));
                }
                for (name, got) in all {
                    let got = view(&got);
                    if got != want {
                        let s = |v| format!("{v:?}").chars().take(500).collect::<String>();
                        return Err(format!("message through {name}: {} instead of {}", s(&got), s(&want)));
                    }
                }
            }
            Case::Points { ty, rows } => {
                let mut rows = rows.clone();
                for r in rows.iter_mut() {
                    ty.canon(r);
                }
                predefined!(*ty, T => {
                    let pts: Vec<T> = points_of(&rows);
                    let back: Vec<T> = bin(&pts)?;
                    let got: Vec<Vec<u64>> = back.iter().map(|p| p.to_words()).collect();
                    if got != rows {
                        return Err(format!("{ty:?} points through bincode: {got:x?} instead of {rows:x?}"));
                    }
                    for (p, r) in pts.iter().zip(&rows) {
                        if finite(*ty, r) {
                            for (name, q) in [("json", json(p)?), ("json value", json_reordered(p)?)] {
                                if q.to_words() != *r {
                                    return Err(format!("{ty:?} point through {name}: {:x?} instead of {r:x?}", q.to_words()));
                                }
                            }
                        }
                    }
                });
            }
            Case::Colour(bits) => {
                let x = RGB::new_from_packed(*bits);
                let want = x.raw().to_bits();
                let back: RGB = bin(&x)?;
                if back.raw().to_bits() != want || want != *bits {
                    return Err(format!("colour {bits:#x} through bincode: {:#x}", back.raw().to_bits()));
                }
                if f32::from_bits(*bits).is_finite() {
                    for (name, q) in [("json", json(&x)?), ("json value", json_reordered(&x)?)] {
                        if q.raw().to_bits() != want {
                            return Err(format!("colour {bits:#x} through {name}: {:#x}", q.raw().to_bits()));
                        }
                    }
                }
                let (a, b): (Vec<RGB>, Option<RGB>) = bin(&(vec![x, RGB::default()], Some(x)))?;
                if a[0].raw().to_bits() != want || b.map(|c| c.raw().to_bits()) != Some(want) {
                    return Err(format!("colour {bits:#x} nested in containers changes"));
                }
            }
        }
        Ok(())
    }

    fn classify(c: &Case) -> Class {
        match c {
            Case::Message(Source::Spec(m)) => Class { nontrivial: !m.fields.is_empty() && m.data.len() > 0, labels: vec!["message described directly"] },
            Case::Message(Source::Written { points, .. }) => Class { nontrivial: !points.is_empty(), labels: vec!["library-written message"] },
            Case::Points { ty, rows } => {
                let mut rows = rows.clone();
                rows.iter_mut().for_each(|r| ty.canon(r));
                Class {
                    nontrivial: true,
                    labels: vec![if rows.iter().all(|r| finite(*ty, r)) { "points, finite" } else { "points, some not finite" }],
                }
            }
            Case::Colour(b) => Class { nontrivial: b.to_le_bytes().iter().filter(|x| **x != 0).count() > 1, labels: vec!["colour"] },
        }
    }
}
