//! Point types under test, each with an independent, hand-written description that serves as the oracle:
//! field names, datatypes, declaration order and the offsets the compiler gives them in memory.
use ros_pointcloud2::points::*;
use ros_pointcloud2::{
    FieldDatatype, FromBytes, GetFieldDatatype, LayoutDescription, LayoutField, PointConvertible,
    PointDataBuffer, RPCL2Point,
};
use serde::{Deserialize, Serialize};

/// ROS PointField datatype constants.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Dt {
    I8,
    U8,
    I16,
    U16,
    I32,
    U32,
    F32,
    F64,
}

impl Dt {
    pub const ALL: [Dt; 8] = [
        Dt::I8,
        Dt::U8,
        Dt::I16,
        Dt::U16,
        Dt::I32,
        Dt::U32,
        Dt::F32,
        Dt::F64,
    ];
    pub fn code(self) -> u8 {
        match self {
            Dt::I8 => 1,
            Dt::U8 => 2,
            Dt::I16 => 3,
            Dt::U16 => 4,
            Dt::I32 => 5,
            Dt::U32 => 6,
            Dt::F32 => 7,
            Dt::F64 => 8,
        }
    }
    pub fn from_code(c: u8) -> Option<Dt> {
        Dt::ALL.iter().copied().find(|d| d.code() == c)
    }
    pub fn size(self) -> usize {
        match self {
            Dt::I8 | Dt::U8 => 1,
            Dt::I16 | Dt::U16 => 2,
            Dt::I32 | Dt::U32 | Dt::F32 => 4,
            Dt::F64 => 8,
        }
    }
    pub fn mask(self, w: u64) -> u64 {
        match self.size() {
            8 => w,
            n => w & ((1u64 << (8 * n)) - 1),
        }
    }
}

#[derive(Clone, Debug)]
pub struct FieldDesc {
    pub name: &'static str,
    pub dt: Dt,
    pub rgb: bool,
    /// offset in memory
    pub mem: usize,
}

/// How a scalar (or colour, or user enum) maps to the raw bits of its ROS encoding.
pub trait Scalar: Copy {
    const DT: Dt;
    const RGB: bool = false;
    /// the name used in the layout description
    const TY: &'static str;
    fn from_word(w: u64) -> Self;
    fn to_word(self) -> u64;
    /// canonical word for a raw generated word
    fn canon(w: u64) -> u64 {
        Self::DT.mask(w)
    }
}

macro_rules! scalar_int {
    ($($t:ident $u:ident $d:ident),*) => {$(
        impl Scalar for $t {
            const DT: Dt = Dt::$d;
            const TY: &'static str = stringify!($t);
            fn from_word(w: u64) -> Self { w as $u as $t }
            fn to_word(self) -> u64 { self as $u as u64 }
        }
    )*};
}
scalar_int!(i8 u8 I8, u8 u8 U8, i16 u16 I16, u16 u16 U16, i32 u32 I32, u32 u32 U32);

impl Scalar for f32 {
    const DT: Dt = Dt::F32;
    const TY: &'static str = "f32";
    fn from_word(w: u64) -> Self {
        f32::from_bits(w as u32)
    }
    fn to_word(self) -> u64 {
        self.to_bits() as u64
    }
}
impl Scalar for f64 {
    const DT: Dt = Dt::F64;
    const TY: &'static str = "f64";
    fn from_word(w: u64) -> Self {
        f64::from_bits(w)
    }
    fn to_word(self) -> u64 {
        self.to_bits()
    }
}
impl Scalar for RGB {
    const DT: Dt = Dt::F32;
    const RGB: bool = true;
    const TY: &'static str = "RGB";
    fn from_word(w: u64) -> Self {
        RGB::new_from_packed(w as u32)
    }
    fn to_word(self) -> u64 {
        self.raw().to_bits() as u64
    }
}

/// A user-defined value type encoded as u8, as in the crate's custom_enum_field_filter example.
#[derive(Clone, Copy, Debug, Default, PartialEq)]
pub enum Label {
    #[default]
    Human,
    Deer,
    Car,
}
impl From<Label> for u8 {
    fn from(l: Label) -> u8 {
        match l {
            Label::Human => 0,
            Label::Deer => 1,
            Label::Car => 2,
        }
    }
}
impl From<u8> for Label {
    fn from(l: u8) -> Label {
        match l {
            0 => Label::Human,
            1 => Label::Deer,
            _ => Label::Car,
        }
    }
}
impl GetFieldDatatype for Label {
    fn field_datatype() -> FieldDatatype {
        FieldDatatype::U8
    }
}
impl FromBytes for Label {
    fn from_be_bytes(bytes: PointDataBuffer) -> Self {
        u8::from_be_bytes([bytes[0]]).into()
    }
    fn from_le_bytes(bytes: PointDataBuffer) -> Self {
        u8::from_le_bytes([bytes[0]]).into()
    }
}
impl From<Label> for PointDataBuffer {
    fn from(l: Label) -> Self {
        [u8::from(l)].into()
    }
}
impl Scalar for Label {
    const DT: Dt = Dt::U8;
    const TY: &'static str = "u8";
    fn from_word(w: u64) -> Self {
        Label::from(w as u8)
    }
    fn to_word(self) -> u64 {
        u8::from(self) as u64
    }
    fn canon(w: u64) -> u64 {
        w % 3
    }
}

/// A point type under test.
pub trait TestPoint: Sized + Clone + Send + Sync + 'static {
    const NAME: &'static str;
    /// the struct has C layout, so that a vector-written message is its memory image
    const C_LAYOUT: bool;
    /// every bit pattern of the memory image is a valid value (false for user enums: only per-point conversion is sound)
    const PLAIN: bool;
    fn fields() -> Vec<FieldDesc>;
    fn from_words(w: &[u64]) -> Self;
    fn to_words(&self) -> Vec<u64>;
    fn canon(w: &mut [u64]);
    fn mem_size() -> usize {
        core::mem::size_of::<Self>()
    }
    fn c_layout() -> bool {
        Self::C_LAYOUT
    }
}

macro_rules! describe {
    ($t:ty, $c:expr, $plain:expr, [$($f:ident : $ft:ty => $name:expr),* $(,)?]) => {
        impl TestPoint for $t {
            const NAME: &'static str = stringify!($t);
            const C_LAYOUT: bool = $c;
            const PLAIN: bool = $plain;
            fn fields() -> Vec<FieldDesc> {
                vec![$(FieldDesc {
                    name: $name,
                    dt: <$ft as Scalar>::DT,
                    rgb: <$ft as Scalar>::RGB,
                    mem: core::mem::offset_of!($t, $f),
                }),*]
            }
            #[allow(clippy::needless_update)]
            fn from_words(w: &[u64]) -> Self {
                let mut it = w.iter().copied();
                Self { $($f: <$ft as Scalar>::from_word(it.next().unwrap()),)* ..Default::default() }
            }
            fn to_words(&self) -> Vec<u64> {
                vec![$({ let v: $ft = self.$f; v.to_word() }),*]
            }
            fn canon(w: &mut [u64]) {
                let mut it = w.iter_mut();
                $( { let x = it.next().unwrap(); *x = <$ft as Scalar>::canon(*x); } )*
            }
        }
    };
}

/// A custom point with a manual `PointConvertible` implementation written as the documentation recommends: the layout lists
/// the fields in declaration order with the gaps the compiler leaves (the same computation the derive macro performs).
macro_rules! custom {
    ($(#[$m:meta])* $t:ident, $n:expr, $c:expr, $plain:expr, [$($f:ident : $ft:ty => $name:expr),* $(,)?], extra { $($ef:ident : $eft:ty = $edef:expr),* }) => {
        $(#[$m])*
        #[derive(Clone, Copy)]
        pub struct $t { $(pub $f: $ft,)* $(pub $ef: $eft,)* }
        impl Default for $t {
            fn default() -> Self { Self { $($f: Default::default(),)* $($ef: $edef,)* } }
        }
        impl From<RPCL2Point<$n>> for $t {
            fn from(p: RPCL2Point<$n>) -> Self {
                let mut i = 0..;
                Self { $($f: p[i.next().unwrap()].get(),)* $($ef: $edef,)* }
            }
        }
        impl From<$t> for RPCL2Point<$n> {
            fn from(p: $t) -> Self {
                [$({ let v: $ft = p.$f; ros_pointcloud2::PointData::new(v) }),*].into()
            }
        }
        unsafe impl PointConvertible<$n> for $t {
            fn layout() -> LayoutDescription {
                let mut end = 0usize;
                let mut v: Vec<LayoutField> = Vec::new();
                $(
                    let off = core::mem::offset_of!($t, $f);
                    if off > end { v.push(LayoutField::padding(off - end)); }
                    let sz = core::mem::size_of::<$ft>();
                    v.push(LayoutField::new($name, <$ft as Scalar>::TY, sz));
                    end = off + sz;
                )*
                let total = core::mem::size_of::<$t>();
                if total > end { v.push(LayoutField::padding(total - end)); }
                LayoutDescription::new(&v)
            }
        }
        describe!($t, $c, $plain, [$($f: $ft => $name),*]);
    };
}

describe!(PointXYZ, true, true, [x: f32 => "x", y: f32 => "y", z: f32 => "z"]);
describe!(PointXYZI, true, true, [x: f32 => "x", y: f32 => "y", z: f32 => "z", intensity: f32 => "intensity"]);
describe!(PointXYZL, true, true, [x: f32 => "x", y: f32 => "y", z: f32 => "z", label: u32 => "label"]);
describe!(PointXYZRGB, true, true, [x: f32 => "x", y: f32 => "y", z: f32 => "z", rgb: RGB => "rgb"]);
describe!(PointXYZRGBA, true, true, [x: f32 => "x", y: f32 => "y", z: f32 => "z", rgb: RGB => "rgb", a: u8 => "a"]);
describe!(PointXYZRGBNormal, true, true, [x: f32 => "x", y: f32 => "y", z: f32 => "z", rgb: RGB => "rgb",
    normal_x: f32 => "normal_x", normal_y: f32 => "normal_y", normal_z: f32 => "normal_z"]);
describe!(PointXYZINormal, true, true, [x: f32 => "x", y: f32 => "y", z: f32 => "z", intensity: f32 => "intensity",
    normal_x: f32 => "normal_x", normal_y: f32 => "normal_y", normal_z: f32 => "normal_z"]);
describe!(PointXYZRGBL, true, true, [x: f32 => "x", y: f32 => "y", z: f32 => "z", rgb: RGB => "rgb", label: u32 => "label"]);
describe!(PointXYZNormal, true, true, [x: f32 => "x", y: f32 => "y", z: f32 => "z",
    normal_x: f32 => "normal_x", normal_y: f32 => "normal_y", normal_z: f32 => "normal_z"]);

custom!(#[repr(C)] Mixed, 8, true, true,
    [a: u8 => "a", b: f64 => "b", c: i16 => "c", d: u32 => "d", e: i8 => "e", f: f32 => "f", g: u16 => "g", h: i32 => "h"], extra {});
custom!(#[repr(C, packed)] PackedPt, 5, true, true,
    [a: u8 => "a", b: f64 => "b", c: i16 => "c", f: f32 => "f", h: i32 => "h"], extra {});
custom!(/* default representation: the compiler reorders these fields */ RustRepr, 4, false, true,
    [a: u8 => "a", b: f64 => "b", g: u16 => "g", f: f32 => "f"], extra {});
custom!(/* default representation without room for reordering */ RustPlain, 3, false, true,
    [x: f32 => "x", y: f32 => "y", z: f32 => "z"], extra {});
custom!(#[repr(C)] OneU8, 1, true, true, [a: u8 => "a"], extra {});
custom!(#[repr(C)] OneF64, 1, true, true, [b: f64 => "b"], extra {});
custom!(#[repr(C, align(64))] OverAligned, 3, true, true,
    [x: f32 => "x", y: f32 => "y", label: u8 => "label"], extra {});
custom!(#[repr(C)] LabelPt, 5, true, false,
    [x: f32 => "x", y: f32 => "y", z: f32 => "z", intensity: f32 => "intensity", my_custom_label: Label => "label"], extra {});
custom!(#[repr(C)] OddNames, 6, true, true,
    [p: f32 => "x", q: f32 => "X", r: u16 => "xx", s: u16 => "", t: i32 => "größe µ", u: i8 => "x "], extra {});
custom!(#[repr(C)] Xy, 2, true, true, [x: f32 => "x", y: f32 => "y"], extra {});
custom!(#[repr(C)] Zyx, 3, true, true, [z: f32 => "z", y: f32 => "y", x: f32 => "x"], extra {});
custom!(#[repr(C)] Xyz12, 3, true, true, [x: f32 => "x", y: f32 => "y", z: f32 => "z"], extra {});
custom!(#[repr(C)] XyzF64, 3, true, true, [x: f64 => "x", y: f64 => "y", z: f64 => "z"], extra {});
custom!(#[repr(C)] MixedSub, 4, true, true, [h: i32 => "h", a: u8 => "a", b: f64 => "b", c: i16 => "c"], extra {});
custom!(#[repr(C)] MixedPrefix, 3, true, true, [a: u8 => "a", b: f64 => "b", c: i16 => "c"], extra {});
custom!(#[repr(C)] XLabel, 2, true, true, [x: f32 => "x", label: u32 => "label"], extra {});
custom!(#[repr(C)] LabelRgb, 2, true, true, [label: u32 => "label", rgb: RGB => "rgb"], extra {});
custom!(#[repr(C)] BigGap, 3, true, true,
    [x: f32 => "x", y: u16 => "y", label: u32 => "label"], extra { tail: [u8; 1001] = [0; 1001] });
custom!(#[repr(C)] Ouster, 9, true, true,
    [x: f32 => "x", y: f32 => "y", z: f32 => "z", intensity: f32 => "intensity", t: u32 => "t", reflectivity: u16 => "reflectivity",
     ring: u16 => "ring", ambient: u16 => "ambient", range: u32 => "range"], extra {});
custom!(#[repr(C)] Wide, 33, true, true,
    [f00: u8 => "f00", f01: i8 => "f01", f02: u16 => "f02", f03: i16 => "f03", f04: u32 => "f04", f05: i32 => "f05", f06: f32 => "f06", f07: f64 => "f07",
     f08: u8 => "f08", f09: i8 => "f09", f10: u16 => "f10", f11: i16 => "f11", f12: u32 => "f12", f13: i32 => "f13", f14: f32 => "f14", f15: f64 => "f15",
     f16: u8 => "f16", f17: i8 => "f17", f18: u16 => "f18", f19: i16 => "f19", f20: u32 => "f20", f21: i32 => "f21", f22: f32 => "f22", f23: f64 => "f23",
     f24: u8 => "f24", f25: i8 => "f25", f26: u16 => "f26", f27: i16 => "f27", f28: u32 => "f28", f29: i32 => "f29", f30: f32 => "f30", f31: f64 => "f31",
     f32_: f32 => "f32"], extra {});

pub mod reexport {
    pub use super::*;
    pub use ros_pointcloud2::points::*;
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Ty {
    XYZ,
    XYZI,
    XYZL,
    XYZRGB,
    XYZRGBA,
    XYZRGBNormal,
    XYZINormal,
    XYZRGBL,
    XYZNormal,
    Mixed,
    PackedPt,
    RustRepr,
    RustPlain,
    OneU8,
    OneF64,
    OverAligned,
    LabelPt,
    OddNames,
    Xy,
    Zyx,
    Xyz12,
    XyzF64,
    MixedSub,
    MixedPrefix,
    XLabel,
    LabelRgb,
    BigGap,
    Ouster,
    Wide,
    /// a generated description (see `dynamic`)
    Dyn(crate::dynamic::Gen),
}

impl Ty {
    pub const ALL: &'static [Ty] = &[Ty::XYZ, Ty::XYZI, Ty::XYZL, Ty::XYZRGB, Ty::XYZRGBA, Ty::XYZRGBNormal, Ty::XYZINormal, Ty::XYZRGBL, Ty::XYZNormal, Ty::Mixed, Ty::PackedPt, Ty::RustRepr, Ty::RustPlain, Ty::OneU8, Ty::OneF64, Ty::OverAligned, Ty::LabelPt, Ty::OddNames, Ty::Xy, Ty::Zyx, Ty::Xyz12, Ty::XyzF64, Ty::MixedSub, Ty::MixedPrefix, Ty::XLabel, Ty::LabelRgb, Ty::BigGap, Ty::Ouster, Ty::Wide];
    pub const PREDEFINED: usize = 9;

    pub fn fields(self) -> Vec<FieldDesc> {
        crate::dispatch!(self, T, N => <T as TestPoint>::fields())
    }
    pub fn plain(self) -> bool {
        crate::dispatch!(self, T, N => <T as TestPoint>::PLAIN)
    }
    pub fn c_layout(self) -> bool {
        crate::dispatch!(self, T, N => <T as TestPoint>::c_layout())
    }
    pub fn mem_size(self) -> usize {
        crate::dispatch!(self, T, N => <T as TestPoint>::mem_size())
    }
    pub fn canon(self, w: &mut [u64]) {
        crate::dispatch!(self, T, N => <T as TestPoint>::canon(w))
    }
}

/// Evaluates an expression with the alias `$T` and the const `$N` bound for a runtime type tag.
#[macro_export]
macro_rules! dispatch {
    ($ty:expr, $T:ident, $N:ident => $e:expr) => {
        match $ty {
            $crate::types::Ty::XYZ => {
                #[allow(dead_code)]
                type $T = $crate::types::reexport::PointXYZ;
                #[allow(dead_code)]
                const $N: usize = 3;
                $e
            }
            $crate::types::Ty::XYZI => {
                #[allow(dead_code)]
                type $T = $crate::types::reexport::PointXYZI;
                #[allow(dead_code)]
                const $N: usize = 4;
                $e
            }
            $crate::types::Ty::XYZL => {
                #[allow(dead_code)]
                type $T = $crate::types::reexport::PointXYZL;
                #[allow(dead_code)]
                const $N: usize = 4;
                $e
            }
            $crate::types::Ty::XYZRGB => {
                #[allow(dead_code)]
                type $T = $crate::types::reexport::PointXYZRGB;
                #[allow(dead_code)]
                const $N: usize = 4;
                $e
            }
            $crate::types::Ty::XYZRGBA => {
                #[allow(dead_code)]
                type $T = $crate::types::reexport::PointXYZRGBA;
                #[allow(dead_code)]
                const $N: usize = 5;
                $e
            }
            $crate::types::Ty::XYZRGBNormal => {
                #[allow(dead_code)]
                type $T = $crate::types::reexport::PointXYZRGBNormal;
                #[allow(dead_code)]
                const $N: usize = 7;
                $e
            }
            $crate::types::Ty::XYZINormal => {
                #[allow(dead_code)]
                type $T = $crate::types::reexport::PointXYZINormal;
                #[allow(dead_code)]
                const $N: usize = 7;
                $e
            }
            $crate::types::Ty::XYZRGBL => {
                #[allow(dead_code)]
                type $T = $crate::types::reexport::PointXYZRGBL;
                #[allow(dead_code)]
                const $N: usize = 5;
                $e
            }
            $crate::types::Ty::XYZNormal => {
                #[allow(dead_code)]
                type $T = $crate::types::reexport::PointXYZNormal;
                #[allow(dead_code)]
                const $N: usize = 6;
                $e
            }
            $crate::types::Ty::Mixed => {
                #[allow(dead_code)]
                type $T = $crate::types::reexport::Mixed;
                #[allow(dead_code)]
                const $N: usize = 8;
                $e
            }
            $crate::types::Ty::PackedPt => {
                #[allow(dead_code)]
                type $T = $crate::types::reexport::PackedPt;
                #[allow(dead_code)]
                const $N: usize = 5;
                $e
            }
            $crate::types::Ty::RustRepr => {
                #[allow(dead_code)]
                type $T = $crate::types::reexport::RustRepr;
                #[allow(dead_code)]
                const $N: usize = 4;
                $e
            }
            $crate::types::Ty::RustPlain => {
                #[allow(dead_code)]
                type $T = $crate::types::reexport::RustPlain;
                #[allow(dead_code)]
                const $N: usize = 3;
                $e
            }
            $crate::types::Ty::OneU8 => {
                #[allow(dead_code)]
                type $T = $crate::types::reexport::OneU8;
                #[allow(dead_code)]
                const $N: usize = 1;
                $e
            }
            $crate::types::Ty::OneF64 => {
                #[allow(dead_code)]
                type $T = $crate::types::reexport::OneF64;
                #[allow(dead_code)]
                const $N: usize = 1;
                $e
            }
            $crate::types::Ty::OverAligned => {
                #[allow(dead_code)]
                type $T = $crate::types::reexport::OverAligned;
                #[allow(dead_code)]
                const $N: usize = 3;
                $e
            }
            $crate::types::Ty::LabelPt => {
                #[allow(dead_code)]
                type $T = $crate::types::reexport::LabelPt;
                #[allow(dead_code)]
                const $N: usize = 5;
                $e
            }
            $crate::types::Ty::OddNames => {
                #[allow(dead_code)]
                type $T = $crate::types::reexport::OddNames;
                #[allow(dead_code)]
                const $N: usize = 6;
                $e
            }
            $crate::types::Ty::Xy => {
                #[allow(dead_code)]
                type $T = $crate::types::reexport::Xy;
                #[allow(dead_code)]
                const $N: usize = 2;
                $e
            }
            $crate::types::Ty::Zyx => {
                #[allow(dead_code)]
                type $T = $crate::types::reexport::Zyx;
                #[allow(dead_code)]
                const $N: usize = 3;
                $e
            }
            $crate::types::Ty::Xyz12 => {
                #[allow(dead_code)]
                type $T = $crate::types::reexport::Xyz12;
                #[allow(dead_code)]
                const $N: usize = 3;
                $e
            }
            $crate::types::Ty::XyzF64 => {
                #[allow(dead_code)]
                type $T = $crate::types::reexport::XyzF64;
                #[allow(dead_code)]
                const $N: usize = 3;
                $e
            }
            $crate::types::Ty::MixedSub => {
                #[allow(dead_code)]
                type $T = $crate::types::reexport::MixedSub;
                #[allow(dead_code)]
                const $N: usize = 4;
                $e
            }
            $crate::types::Ty::MixedPrefix => {
                #[allow(dead_code)]
                type $T = $crate::types::reexport::MixedPrefix;
                #[allow(dead_code)]
                const $N: usize = 3;
                $e
            }
            $crate::types::Ty::XLabel => {
                #[allow(dead_code)]
                type $T = $crate::types::reexport::XLabel;
                #[allow(dead_code)]
                const $N: usize = 2;
                $e
            }
            $crate::types::Ty::LabelRgb => {
                #[allow(dead_code)]
                type $T = $crate::types::reexport::LabelRgb;
                #[allow(dead_code)]
                const $N: usize = 2;
                $e
            }
            $crate::types::Ty::BigGap => {
                #[allow(dead_code)]
                type $T = $crate::types::reexport::BigGap;
                #[allow(dead_code)]
                const $N: usize = 3;
                $e
            }
            $crate::types::Ty::Ouster => {
                #[allow(dead_code)]
                type $T = $crate::types::reexport::Ouster;
                #[allow(dead_code)]
                const $N: usize = 9;
                $e
            }
            $crate::types::Ty::Wide => {
                #[allow(dead_code)]
                type $T = $crate::types::reexport::Wide;
                #[allow(dead_code)]
                const $N: usize = 33;
                $e
            }
            $crate::types::Ty::Dyn(gen) => {
                let _description = $crate::dynamic::enter(gen);
                match gen.combo() {
                    0 => {
                        #[allow(dead_code)]
                        type $T = $crate::dynamic::Dyn0;
                        #[allow(dead_code)]
                        const $N: usize = 1;
                        $e
                    }
                    1 => {
                        #[allow(dead_code)]
                        type $T = $crate::dynamic::Dyn1;
                        #[allow(dead_code)]
                        const $N: usize = 1;
                        $e
                    }
                    2 => {
                        #[allow(dead_code)]
                        type $T = $crate::dynamic::Dyn2;
                        #[allow(dead_code)]
                        const $N: usize = 2;
                        $e
                    }
                    3 => {
                        #[allow(dead_code)]
                        type $T = $crate::dynamic::Dyn3;
                        #[allow(dead_code)]
                        const $N: usize = 2;
                        $e
                    }
                    4 => {
                        #[allow(dead_code)]
                        type $T = $crate::dynamic::Dyn4;
                        #[allow(dead_code)]
                        const $N: usize = 3;
                        $e
                    }
                    5 => {
                        #[allow(dead_code)]
                        type $T = $crate::dynamic::Dyn5;
                        #[allow(dead_code)]
                        const $N: usize = 3;
                        $e
                    }
                    6 => {
                        #[allow(dead_code)]
                        type $T = $crate::dynamic::Dyn6;
                        #[allow(dead_code)]
                        const $N: usize = 4;
                        $e
                    }
                    7 => {
                        #[allow(dead_code)]
                        type $T = $crate::dynamic::Dyn7;
                        #[allow(dead_code)]
                        const $N: usize = 4;
                        $e
                    }
                    8 => {
                        #[allow(dead_code)]
                        type $T = $crate::dynamic::Dyn8;
                        #[allow(dead_code)]
                        const $N: usize = 5;
                        $e
                    }
                    9 => {
                        #[allow(dead_code)]
                        type $T = $crate::dynamic::Dyn9;
                        #[allow(dead_code)]
                        const $N: usize = 6;
                        $e
                    }
                    10 => {
                        #[allow(dead_code)]
                        type $T = $crate::dynamic::Dyn10;
                        #[allow(dead_code)]
                        const $N: usize = 8;
                        $e
                    }
                    11 => {
                        #[allow(dead_code)]
                        type $T = $crate::dynamic::Dyn11;
                        #[allow(dead_code)]
                        const $N: usize = 12;
                        $e
                    }
                    12 => {
                        #[allow(dead_code)]
                        type $T = $crate::dynamic::Dyn12;
                        #[allow(dead_code)]
                        const $N: usize = 70;
                        $e
                    }
                    _ => {
                        #[allow(dead_code)]
                        type $T = $crate::dynamic::Dyn13;
                        #[allow(dead_code)]
                        const $N: usize = 3;
                        $e
                    }
                }
            }
        }
    };
}
