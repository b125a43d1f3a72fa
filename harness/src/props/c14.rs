use crate::api::{guard, points_of, write_t, Outcome, Writer};
use crate::engine::{Class, Prop};
use crate::gen;
use crate::msg::get_scalar;
use crate::types::reexport::*;
use crate::types::{Dt, TestPoint, Ty};
use ros_pointcloud2::{PointData, RPCL2Point};
use nalgebra::Point3;
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};

pub struct C14;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub ty: Ty,
    /// one word per field
    pub words: Vec<u64>,
    /// double-precision coordinates for the conversions from nalgebra points
    pub wide: Vec<u64>,
    pub rgb: (u8, u8, u8),
    pub copies: u8,
}

fn f(w: u64) -> f32 {
    f32::from_bits(w as u32)
}

fn bits3(what: &str, got: [f32; 3], want: [f32; 3]) -> Result<(), String> {
    if got.map(f32::to_bits) == want.map(f32::to_bits) {
        Ok(())
    } else {
        Err(format!("{what}: {got:?} instead of {want:?}"))
    }
}

fn same64(a: f64, b: f64) -> bool {
    a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan())
}

fn bits3d(what: &str, got: [f64; 3], want: [f64; 3]) -> Result<(), String> {
    if got.iter().zip(&want).all(|(a, b)| same64(*a, *b)) {
        Ok(())
    } else {
        Err(format!("{what}: {got:?} instead of {want:?}"))
    }
}

fn arr<T: nalgebra::Scalar + Copy>(p: Point3<T>) -> [T; 3] {
    [p.x, p.y, p.z]
}

macro_rules! coords {
    ($p:expr, $want:expr) => {{
        let (p, want) = ($p, $want);
        bits3("fields x, y, z", [p.x, p.y, p.z], want)?;
        bits3("xyz_f32", arr(p.xyz_f32()), want)?;
        #[allow(deprecated)]
        bits3("xyz", arr(p.xyz()), want)?;
        bits3d("xyz_f64", arr(p.xyz_f64()), want.map(|v| v as f64))?;
    }};
}

fn eq<T: PartialEq + std::fmt::Debug>(what: &str, got: T, want: T) -> Result<(), String> {
    if got == want {
        Ok(())
    } else {
        Err(format!("{what}: {got:?} instead of {want:?}"))
    }
}

macro_rules! channels {
    ($p:expr, $rgb:expr) => {{
        let (p, (r, g, b)) = (&$p, $rgb);
        eq("r()", p.r(), r)?;
        eq("g()", p.g(), g)?;
        eq("b()", p.b(), b)?;
        eq("rgb field", (p.rgb.r(), p.rgb.g(), p.rgb.b()), (r, g, b))?;
        eq("packed colour", p.rgb.raw().to_bits() & 0xff_ffff, (r as u32) << 16 | (g as u32) << 8 | b as u32)?;
    }};
}

/// Constructor, fields and accessors of one predefined type.
fn accessors(c: &Case) -> Result<(), String> {
    let w = &c.words;
    let xyz = [f(w[0]), f(w[1]), f(w[2])];
    let [x, y, z] = xyz;
    let (r, g, b) = c.rgb;
    let e = |what: &str, got: f32, word: u64| eq(what, got.to_bits(), word as u32);
    match c.ty {
        Ty::XYZ => {
            let p = PointXYZ::new(x, y, z);
            coords!(p, xyz);
            bits3("Point3<f32> from point", arr(Point3::<f32>::from(p)), xyz)?;
            bits3("Point3<f32> from &point", arr(Point3::<f32>::from(&p)), xyz)?;
            bits3d("Point3<f64> from point", arr(Point3::<f64>::from(p)), xyz.map(|v| v as f64))?;
            bits3d("Point3<f64> from &point", arr(Point3::<f64>::from(&p)), xyz.map(|v| v as f64))?;
            let q = Point3::new(x, y, z);
            let a = PointXYZ::from(q);
            let b = PointXYZ::from(&q);
            bits3("point from Point3<f32>", [a.x, a.y, a.z], xyz)?;
            bits3("point from &Point3<f32>", [b.x, b.y, b.z], xyz)?;
            let d: Vec<f64> = c.wide.iter().map(|w| f64::from_bits(*w)).collect();
            let q = Point3::new(d[0], d[1], d[2]);
            let want = [d[0] as f32, d[1] as f32, d[2] as f32];
            for (what, p) in [("point from Point3<f64>", PointXYZ::from(q)), ("point from &Point3<f64>", PointXYZ::from(&q))] {
                let got = [p.x, p.y, p.z];
                if !got.iter().zip(&want).all(|(a, b)| a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan())) {
                    return Err(format!("{what}: {got:?} instead of {want:?}"));
                }
            }
        }
        Ty::XYZI => {
            let p = PointXYZI::new(x, y, z, f(w[3]));
            coords!(p, xyz);
            e("intensity", p.intensity, w[3])?;
        }
        Ty::XYZL => {
            let p = PointXYZL::new(x, y, z, w[3] as u32);
            coords!(p, xyz);
            eq("label", p.label, w[3] as u32)?;
        }
        Ty::XYZRGB => {
            let p = PointXYZRGB::new(x, y, z, r, g, b);
            coords!(p, xyz);
            channels!(p, c.rgb);
        }
        Ty::XYZRGBA => {
            let p = PointXYZRGBA::new(x, y, z, r, g, b, w[4] as u8);
            coords!(p, xyz);
            channels!(p, c.rgb);
            eq("a", p.a, w[4] as u8)?;
        }
        Ty::XYZRGBNormal => {
            let p = PointXYZRGBNormal::new(x, y, z, RGB::new(r, g, b), f(w[4]), f(w[5]), f(w[6]));
            coords!(p, xyz);
            channels!(p, c.rgb);
            bits3("normal", [p.normal_x, p.normal_y, p.normal_z], [f(w[4]), f(w[5]), f(w[6])])?;
        }
        Ty::XYZINormal => {
            let p = PointXYZINormal::new(x, y, z, f(w[3]), f(w[4]), f(w[5]), f(w[6]));
            coords!(p, xyz);
            e("intensity", p.intensity, w[3])?;
            bits3("normal", [p.normal_x, p.normal_y, p.normal_z], [f(w[4]), f(w[5]), f(w[6])])?;
        }
        Ty::XYZRGBL => {
            let p = PointXYZRGBL::new(x, y, z, r, g, b, w[4] as u32);
            coords!(p, xyz);
            channels!(p, c.rgb);
            eq("label", p.label, w[4] as u32)?;
        }
        Ty::XYZNormal => {
            let p = PointXYZNormal::new(x, y, z, f(w[3]), f(w[4]), f(w[5]));
            coords!(p, xyz);
            bits3("normal", [p.normal_x, p.normal_y, p.normal_z], [f(w[3]), f(w[4]), f(w[5])])?;
        }
        _ => unreachable!("predefined types only"),
    }
    Ok(())
}

/// The documented field names of each predefined type.
fn names(ty: Ty) -> &'static [&'static str] {
    match ty {
        Ty::XYZ => &["x", "y", "z"],
        Ty::XYZI => &["x", "y", "z", "intensity"],
        Ty::XYZL => &["x", "y", "z", "label"],
        Ty::XYZRGB => &["x", "y", "z", "rgb"],
        Ty::XYZRGBA => &["x", "y", "z", "rgb", "a"],
        Ty::XYZRGBNormal => &["x", "y", "z", "rgb", "normal_x", "normal_y", "normal_z"],
        Ty::XYZINormal => &["x", "y", "z", "intensity", "normal_x", "normal_y", "normal_z"],
        Ty::XYZRGBL => &["x", "y", "z", "rgb", "label"],
        Ty::XYZNormal => &["x", "y", "z", "normal_x", "normal_y", "normal_z"],
        _ => unreachable!("predefined types only"),
    }
}

/// The field list of a point, in both directions and independent of any message.
fn field_list<const N: usize, T: TestPoint + ros_pointcloud2::PointConvertible<N>>(rows: &[Vec<u64>]) -> Result<(), String> {
    let desc = T::fields();
    for r in rows {
        let list: RPCL2Point<N> = T::from_words(r).into();
        for (k, (d, word)) in desc.iter().zip(r).enumerate() {
            let got = match d.dt {
                Dt::F32 if d.rgb => list[k].get::<RGB>().raw().to_bits() as u64,
                Dt::F32 => list[k].get::<f32>().to_bits() as u64,
                Dt::U32 => list[k].get::<u32>() as u64,
                Dt::U8 => list[k].get::<u8>() as u64,
                other => unreachable!("{other:?} in a predefined type"),
            };
            if got != *word {
                return Err(format!("entry {k} of the field list ({:?}): {got:#x} instead of {word:#x}", d.name));
            }
        }
        let entries: Vec<PointData> = desc
            .iter()
            .zip(r)
            .map(|(d, word)| match d.dt {
                Dt::F32 => f32::from_bits(*word as u32).into(),
                Dt::U32 => (*word as u32).into(),
                _ => (*word as u8).into(),
            })
            .collect();
        let Ok(entries) = <[PointData; N]>::try_from(entries) else {
            return Err("number of fields".into());
        };
        let back = T::from(RPCL2Point::from(entries)).to_words();
        if back != *r {
            return Err(format!("point from its field list: {back:x?} instead of {r:x?}"));
        }
    }
    Ok(())
}

fn layout<const N: usize, T: TestPoint + ros_pointcloud2::PointConvertible<N> + Copy>(c: &Case) -> Result<(), String> {
    let mut w = c.words.clone();
    T::canon(&mut w);
    let n = c.copies as usize % 4 + 1;
    let rows: Vec<Vec<u64>> = (0..n)
        .map(|i| {
            let mut r: Vec<u64> = w.iter().map(|x| x.rotate_left(i as u32 * 3)).collect();
            T::canon(&mut r);
            r
        })
        .collect();
    field_list::<N, T>(&rows)?;
    let pts: Vec<T> = points_of(&rows);
    let Outcome::Ok(m) = write_t::<N, T>(Writer::Vec, pts) else {
        return Err("vector writer failed".into());
    };
    let size = core::mem::size_of::<T>();
    if size % 16 != 0 || m.point_step as usize != size {
        return Err(format!("point step {} and struct size {size}, expected equal multiples of 16", m.point_step));
    }
    let desc = T::fields();
    let want = names(c.ty);
    eq("field names", m.fields.iter().map(|f| f.name.as_str()).collect::<Vec<_>>(), want.to_vec())?;
    for (k, (f, d)) in m.fields.iter().zip(&desc).enumerate() {
        eq("offset", (d.name, f.offset as usize), (d.name, d.mem))?;
        eq("datatype", (d.name, f.datatype), (d.name, d.dt.code()))?;
        if k < 3 {
            eq("coordinate offset", f.offset as usize, 4 * k)?;
        }
    }
    // the bytes at the struct's own offsets
    if m.data.len() != n * size {
        return Err(format!("{} data bytes for {n} points of {size}", m.data.len()));
    }
    for (i, r) in rows.iter().enumerate() {
        for (d, word) in desc.iter().zip(r) {
            let got = get_scalar(&m.data, i * size + d.mem, d.dt, false);
            if got != *word {
                return Err(format!("bytes of {:?} in point {i}: {got:#x} instead of {word:#x}", d.name));
            }
        }
    }
    Ok(())
}

impl Prop for C14 {
    type Case = Case;
    const ID: &'static str = "C14";
    const RULE: &'static str = "A case is a predefined point type with arbitrary field bits, colour channels and double-precision coordinates: constructor, fields, channel \
        accessors, all coordinate getters and nalgebra conversions are compared with the inputs, 1..4 points are turned into their field lists and back, and 1..4 points written by vector are compared with the struct's memory. \
        Non-trivial: x, y, z pairwise different.";

    fn strategy() -> BoxedStrategy<Case> {
        let w32 = prop_oneof![6 => gen::word(), 4 => any::<f32>().prop_map(|x| x.to_bits() as u64)];
        let w64 = prop_oneof![2 => gen::word(), 3 => any::<f64>().prop_map(f64::to_bits), 3 => any::<f32>().prop_map(|x| (x as f64).to_bits())];
        (select(&Ty::ALL[..Ty::PREDEFINED]), vec(w32, 7), vec(w64, 3), any::<(u8, u8, u8)>(), any::<u8>())
            .prop_map(|(ty, mut words, wide, rgb, copies)| {
                words.truncate(ty.fields().len().max(5));
                while words.len() < 7 {
                    words.push(0);
                }
                Case { ty, words, wide, rgb, copies }
            })
            .boxed()
    }

    fn check(c: &Case) -> Result<(), String> {
        let mut c = c.clone();
        guard(|| accessors(&c)).map_err(|p| format!("{:?}: accessor panicked: {p}", c.ty))?.map_err(|e| format!("{:?}: {e}", c.ty))?;
        c.words.truncate(c.ty.fields().len());
        let r = match c.ty {
            Ty::XYZ => layout::<3, PointXYZ>(&c),
            Ty::XYZI => layout::<4, PointXYZI>(&c),
            Ty::XYZL => layout::<4, PointXYZL>(&c),
            Ty::XYZRGB => layout::<4, PointXYZRGB>(&c),
            Ty::XYZRGBA => layout::<5, PointXYZRGBA>(&c),
            Ty::XYZRGBNormal => layout::<7, PointXYZRGBNormal>(&c),
            Ty::XYZINormal => layout::<7, PointXYZINormal>(&c),
            Ty::XYZRGBL => layout::<5, PointXYZRGBL>(&c),
            Ty::XYZNormal => layout::<6, PointXYZNormal>(&c),
            _ => unreachable!("predefined types only"),
        };
        r.map_err(|e| format!("{:?}: {e}", c.ty))
    }

    fn classify(c: &Case) -> Class {
        let w: Vec<u32> = c.words.iter().take(3).map(|w| *w as u32).collect();
        Class {
            nontrivial: w[0] != w[1] && w[1] != w[2] && w[0] != w[2],
            labels: vec![
                match c.ty {
                    Ty::XYZRGB | Ty::XYZRGBA | Ty::XYZRGBNormal | Ty::XYZRGBL => "coloured type",
                    _ => "uncoloured type",
                },
                if w.iter().any(|x| f32::from_bits(*x).is_nan()) { "a NaN coordinate" } else { "no NaN coordinate" },
            ],
        }
    }
}

