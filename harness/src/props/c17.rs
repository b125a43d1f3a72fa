use crate::api::{guard, ErrRepr, Outcome};
use crate::engine::{Class, Prop};
use crate::types::reexport::*;
use crate::types::TestPoint;
use proptest::prelude::*;
use proptest::sample::select;
use rayon::prelude::*;
use ros_pointcloud2::{CloudDimensionsBuilder, PointCloud2Msg, PointConvertible};
use serde::{Deserialize, Serialize};

pub struct C17;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum T17 {
    OneU8,
    OneF64,
    Xyz12,
    XYZ,
    XYZRGBA,
    BigGap,
    Wide,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum How {
    Vec,
    Iter,
    Par,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Case {
    /// the smallest total that does not fit, in points, plus `beyond` points
    TooLarge { ty: T17, how: How, beyond: u32 },
    /// the largest total that fits, minus `below` points
    Fits { ty: T17, how: How, below: u32 },
    Dimensions { width: u64 },
}

macro_rules! on {
    ($ty:expr, $f:ident ( $($a:expr),* )) => {
        match $ty {
            T17::OneU8 => $f::<1, OneU8>($($a),*),
            T17::OneF64 => $f::<1, OneF64>($($a),*),
            T17::Xyz12 => $f::<3, Xyz12>($($a),*),
            T17::XYZ => $f::<3, PointXYZ>($($a),*),
            T17::XYZRGBA => $f::<5, PointXYZRGBA>($($a),*),
            T17::BigGap => $f::<3, BigGap>($($a),*),
            T17::Wide => $f::<33, Wide>($($a),*),
        }
    };
}

/// Bytes per point in the message.
fn step<const N: usize, T: TestPoint + PointConvertible<N>>(how: How) -> u64 {
    match how {
        How::Iter => T::fields().iter().map(|f| f.dt.size() as u64).sum(),
        _ => T::mem_size() as u64,
    }
}

/// `n` all-zero points without touching the memory (every test type here is valid when zero).
fn zeroed<T: TestPoint>(n: usize) -> Vec<T> {
    let layout = std::alloc::Layout::array::<T>(n).expect("layout");
    unsafe {
        let p = std::alloc::alloc_zeroed(layout).cast::<T>();
        assert!(!p.is_null(), "out of memory in the harness");
        Vec::from_raw_parts(p, n, n)
    }
}

fn write_n<const N: usize, T: TestPoint + PointConvertible<N> + Copy>(how: How, n: u64) -> Outcome<(u32, u32, u32, u32, usize)> {
    let n = n as usize;
    let r = guard(|| {
        match how {
            How::Vec => PointCloud2Msg::try_from_vec(zeroed::<T>(n)),
            How::Iter => PointCloud2Msg::try_from_iter(std::iter::repeat_n(T::default(), n)),
            How::Par => PointCloud2Msg::try_from_par_iter((0..n).into_par_iter().map(|_| T::default())),
        }
        .map(|m| (m.dimensions.width, m.dimensions.height, m.point_step, m.row_step, m.data.len()))
    });
    match r {
        Ok(Ok(v)) => Outcome::Ok(v),
        Ok(Err(e)) => Outcome::Err(ErrRepr::from(e)),
        Err(p) => Outcome::Panic(p),
    }
}

const MAX: u64 = u32::MAX as u64;

fn points_of_case(c: &Case) -> Option<(u64, u64)> {
    match c {
        Case::TooLarge { ty, how, beyond } => {
            let s = on!(*ty, step(*how));
            Some((MAX / s + 1 + *beyond as u64, s))
        }
        Case::Fits { ty, how, below } => {
            let s = on!(*ty, step(*how));
            Some(((MAX / s).saturating_sub(*below as u64), s))
        }
        _ => None,
    }
}

impl Prop for C17 {
    type Case = Case;
    const ID: &'static str = "C17";
    const RULE: &'static str = "A case is a writer, a point type and a point count just above (or at) the largest total that fits 32 bits, from lazily zeroed sources (also totals that are small again modulo 2^32), or a \
        width for the dimension builder; above the limit the number-conversion error is required, at or below it exact dimensions. Non-trivial: a writer case.";

    fn strategy() -> BoxedStrategy<Case> {
        let any_t = || select(&[T17::OneU8, T17::OneF64, T17::Xyz12, T17::XYZ, T17::XYZRGBA, T17::BigGap, T17::Wide][..]);
        let beyond = || prop_oneof![3 => 0u32..3, 2 => 0u32..100_000, 1 => select(&[1u32 << 20, (1 << 20) + 1][..])];
        // per-point writers go through every point, so only wide points keep them affordable
        let heavy = std::env::var("C17_HEAVY").ok().and_then(|s| s.parse::<u32>().ok()).unwrap_or(1);
        let mut v: Vec<(u32, BoxedStrategy<Case>)> = vec![
            (60, (any_t(), beyond()).prop_map(|(ty, beyond)| Case::TooLarge { ty, how: How::Vec, beyond }).boxed()),
            // totals that are small again modulo 2^32
            (
                12,
                (any_t(), 0u32..40)
                    .prop_map(|(ty, k)| {
                        let s = on!(ty, step(How::Vec));
                        let beyond = if s == 1 { k } else { ((2 * (MAX + 1)).div_ceil(s) - MAX / s - 1) as u32 + k };
                        Case::TooLarge { ty, how: How::Vec, beyond }
                    })
                    .boxed(),
            ),
            (
                30,
                prop_oneof![0u64..3, (0u64..5).prop_map(|k| MAX - 2 + k), any::<u64>(), any::<u32>().prop_map(u64::from), (0u64..9).prop_map(|k| (1u64 << 33) - 4 + k)]
                    .prop_map(|width| Case::Dimensions { width })
                    .boxed(),
            ),
        ];
        if heavy > 0 {
            v.push((heavy, (select(&[T17::BigGap, T17::Wide][..]), 0u32..3).prop_map(|(ty, below)| Case::Fits { ty, how: How::Vec, below }).boxed()));
            v.push((heavy, (0u32..3).prop_map(|below| Case::Fits { ty: T17::Wide, how: How::Iter, below }).boxed()));
            v.push((heavy, (0u32..3).prop_map(|beyond| Case::TooLarge { ty: T17::BigGap, how: How::Par, beyond }).boxed()));
            v.push((heavy, (0u32..3).prop_map(|beyond| Case::TooLarge { ty: T17::Wide, how: How::Iter, beyond }).boxed()));
        }
        proptest::strategy::Union::new_weighted(v).boxed()
    }

    fn check(c: &Case) -> Result<(), String> {
        match c {
            Case::TooLarge { ty, how, .. } => {
                let (n, s) = points_of_case(c).expect("writer case");
                match on!(*ty, write_n(*how, n)) {
                    Outcome::Err(ErrRepr::NumberConversion) => Ok(()),
                    o => Err(format!("{how:?} writer of {ty:?}: {n} points of {s} bytes give {o:?}")),
                }
            }
            Case::Fits { ty, how, .. } => {
                let (n, s) = points_of_case(c).expect("writer case");
                let total = n * s;
                match on!(*ty, write_n(*how, n)) {
                    Outcome::Ok((w, h, ps, rs, len)) if w as u64 == n && h == 1 && ps as u64 == s && rs as u64 == total && len as u64 == total => Ok(()),
                    o => Err(format!("{how:?} writer of {ty:?}: {n} points of {s} bytes give {o:?}")),
                }
            }
            Case::Dimensions { width } => {
                let r = guard(|| CloudDimensionsBuilder::new_with_width(*width as usize).build()).map_err(|p| format!("dimension builder panicked: {p}"))?;
                match r.map_err(ErrRepr::from) {
                    Ok(d) if *width <= MAX && d.width as u64 == *width && d.height == u32::from(*width > 0) => Ok(()),
                    Err(e) if *width > MAX && e == ErrRepr::NumberConversion => Ok(()),
                    _ => Err(format!("dimension builder with width {width}")),
                }
            }
        }
    }

    fn classify(c: &Case) -> Class {
        Class {
            nontrivial: !matches!(c, Case::Dimensions { .. }),
            labels: vec![match c {
                Case::TooLarge { how: How::Vec, .. } => "vector writer above the limit",
                Case::TooLarge { how: How::Iter, .. } => "iterator writer above the limit",
                Case::TooLarge { how: How::Par, .. } => "parallel writer above the limit",
                Case::Fits { .. } => "writer at the limit",
                Case::Dimensions { .. } => "dimension builder",
            }],
        }
    }
}
