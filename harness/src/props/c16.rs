use crate::api::{guard, ErrRepr};
use crate::engine::{Class, Prop};
use crate::gen;
use crate::types::{Dt, Scalar};
use proptest::prelude::*;
use proptest::sample::select;
use ros_pointcloud2::points::RGB;
use ros_pointcloud2::ros::PointFieldMsg;
use ros_pointcloud2::{FieldDatatype, FromBytes, GetFieldDatatype, PointData, PointDataBuffer};
use serde::{Deserialize, Serialize};
use std::str::FromStr;

pub struct C16;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Kind {
    S(Dt),
    Rgb,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub kind: Kind,
    pub word: u64,
    pub junk: [u8; 8],
    pub code: u8,
    pub name: String,
}

fn scalar<T: Scalar + FromBytes>(word: u64, junk: [u8; 8], ty_name: &str, datatype: FieldDatatype) -> Result<(), String> {
    let n = T::DT.size();
    let word = T::DT.mask(word);
    let v = T::from_word(word);
    let back: T = PointData::new(v).get();
    if back.to_word() != word {
        return Err(format!("{ty_name} {word:#x} through a point-data entry: {:#x}", back.to_word()));
    }
    let le = word.to_le_bytes();
    let buf: PointDataBuffer = T::from_word(word).into();
    if buf.as_slice() != &le[..] {
        return Err(format!("{ty_name} {word:#x} as buffer: {:x?}", buf.as_slice()));
    }
    for k in 0..8 {
        if buf[k] != le[k] {
            return Err(format!("{ty_name} {word:#x}: buffer[{k}] = {:#x}", buf[k]));
        }
    }
    if buf.raw() != le {
        return Err(format!("{ty_name} {word:#x}: raw buffer"));
    }
    // decoding looks at exactly the value's bytes
    let mut bytes = junk;
    bytes[..n].copy_from_slice(&le[..n]);
    let a = T::from_le_bytes(PointDataBuffer::new(bytes)).to_word();
    if a != word {
        return Err(format!("{ty_name}: little-endian {:x?} decodes to {a:#x}, expected {word:#x}", &bytes[..n]));
    }
    bytes[..n].reverse();
    let b = T::from_be_bytes(PointDataBuffer::new(bytes)).to_word();
    if b != word {
        return Err(format!("{ty_name}: big-endian {:x?} decodes to {b:#x}, expected {word:#x}", &bytes[..n]));
    }
    let c = T::from_be_bytes(PointDataBuffer::from(&bytes[..n])).to_word();
    let d = T::from_be_bytes(PointDataBuffer::from_slice(&bytes[..n])).to_word();
    if c != word || d != word {
        return Err(format!("{ty_name}: buffer from a slice of {n} bytes decodes to {c:#x} / {d:#x}, expected {word:#x}"));
    }
    if <T as GetFieldDatatype>::field_datatype() != datatype {
        return Err(format!("{ty_name} reports datatype {:?}", <T as GetFieldDatatype>::field_datatype()));
    }
    if datatype.size() != n {
        return Err(format!("{ty_name} has datatype size {}", datatype.size()));
    }
    if u8::from(datatype) != T::DT.code() {
        return Err(format!("{ty_name} has datatype code {}", u8::from(datatype)));
    }
    match FieldDatatype::from_str(ty_name) {
        Ok(d) if d == datatype => Ok(()),
        o => Err(format!("the name {ty_name:?} maps to {:?}", o.ok())),
    }
}

macro_rules! via_from {
    ($t:ty, $w:expr, $name:expr) => {{
        let v = <$t as Scalar>::from_word($w);
        let pd: PointData = v.into();
        let back: $t = pd.get();
        if back.to_word() != <$t as Scalar>::DT.mask($w) {
            return Err(format!("{} {:#x} through Into<PointData>: {:#x}", $name, $w, back.to_word()));
        }
    }};
}

fn datatype(d: Dt) -> (FieldDatatype, &'static str) {
    match d {
        Dt::I8 => (FieldDatatype::I8, "i8"),
        Dt::U8 => (FieldDatatype::U8, "u8"),
        Dt::I16 => (FieldDatatype::I16, "i16"),
        Dt::U16 => (FieldDatatype::U16, "u16"),
        Dt::I32 => (FieldDatatype::I32, "i32"),
        Dt::U32 => (FieldDatatype::U32, "u32"),
        Dt::F32 => (FieldDatatype::F32, "f32"),
        Dt::F64 => (FieldDatatype::F64, "f64"),
    }
}

fn check_case(c: &Case) -> Result<(), String> {
    let w = c.word;
    match c.kind {
        Kind::S(Dt::I8) => { scalar::<i8>(w, c.junk, "i8", FieldDatatype::I8)?; via_from!(i8, w, "i8"); }
        Kind::S(Dt::U8) => { scalar::<u8>(w, c.junk, "u8", FieldDatatype::U8)?; via_from!(u8, w, "u8"); }
        Kind::S(Dt::I16) => { scalar::<i16>(w, c.junk, "i16", FieldDatatype::I16)?; via_from!(i16, w, "i16"); }
        Kind::S(Dt::U16) => { scalar::<u16>(w, c.junk, "u16", FieldDatatype::U16)?; via_from!(u16, w, "u16"); }
        Kind::S(Dt::I32) => { scalar::<i32>(w, c.junk, "i32", FieldDatatype::I32)?; via_from!(i32, w, "i32"); }
        Kind::S(Dt::U32) => { scalar::<u32>(w, c.junk, "u32", FieldDatatype::U32)?; via_from!(u32, w, "u32"); }
        Kind::S(Dt::F32) => { scalar::<f32>(w, c.junk, "f32", FieldDatatype::F32)?; via_from!(f32, w, "f32"); }
        Kind::S(Dt::F64) => { scalar::<f64>(w, c.junk, "f64", FieldDatatype::F64)?; via_from!(f64, w, "f64"); }
        Kind::Rgb => scalar::<RGB>(w, c.junk, "rgb", FieldDatatype::RGB)?,
    }
    // codes
    let field = PointFieldMsg { name: "f".into(), offset: 0, datatype: c.code, count: 1 };
    for (how, r) in [("code", FieldDatatype::try_from(c.code)), ("field", FieldDatatype::try_from(&field))] {
        match (r, Dt::from_code(c.code)) {
            (Ok(d), Some(want)) => {
                if d != datatype(want).0 || d.size() != want.size() || u8::from(d) != c.code {
                    return Err(format!("{how} {} maps to {d:?} (size {}, code {})", c.code, d.size(), u8::from(d)));
                }
            }
            (Ok(d), None) => return Err(format!("{how} {} is accepted as {d:?}", c.code)),
            (Err(e), None) => {
                if !matches!(ErrRepr::from(e), ErrRepr::UnsupportedFieldType(_)) {
                    return Err(format!("{how} {} is rejected with another error", c.code));
                }
            }
            (Err(_), Some(_)) => return Err(format!("{how} {} is rejected", c.code)),
        }
    }
    // names
    let known = Dt::ALL.iter().map(|d| datatype(*d)).find(|(_, n)| *n == c.name).map(|(d, _)| d).or(if c.name == "rgb" { Some(FieldDatatype::RGB) } else { None });
    match (FieldDatatype::from_str(&c.name), known) {
        (Ok(d), Some(k)) if d == k => Ok(()),
        (Err(_), None) => Ok(()),
        (r, k) => Err(format!("the name {:?} maps to {:?}, expected {k:?}", c.name, r.ok())),
    }
}

impl Prop for C16 {
    type Case = Case;
    const ID: &'static str = "C16";
    const RULE: &'static str = "A case is a scalar type (or packed colour), a value's bits, junk bytes beyond the value, a datatype code (0..255) and a type name; encoding, \
        decoding in both byte orders, buffers, codes, sizes and names are compared with the language's own conversions and the ROS constants. Non-trivial: the value's bytes \
        are not all equal (8-bit: non-zero).";

    fn strategy() -> BoxedStrategy<Case> {
        let kind = prop_oneof![8 => select(&Dt::ALL[..]).prop_map(Kind::S), 1 => Just(Kind::Rgb)];
        const KNOWN: &[&str] = &["i8", "u8", "i16", "u16", "i32", "u32", "f32", "f64", "rgb"];
        const ADDED: &[&str] = &["_t", "t", "_", " ", "\t", "\n", "\0", "0", "1", "2", "4", "8", "x", "be", "le", "_be", "_le", "[1]", "[]", "*", "&", "::", "core::", "std::primitive::", "r#", "_rgb", "a", "s", "u", "i", "f", "'", "\"", "-", "+", "=", ";", ",", ".", "/"];
        const OTHER: &[&str] = &["", "f16", "i64", "u64", "u128", "i128", "f128", "bool", "usize", "isize", "char", "str", "byte", "short", "int", "uint", "long", "float", "double", "real", "int8", "uint8", "int16",
            "uint16", "int32", "uint32", "int64", "float32", "float64", "INT8", "UINT8", "INT16", "UINT16", "INT32", "UINT32", "FLOAT32", "FLOAT64", "Float32", "single", "half", "rgba", "bgr", "bgra", "argb", "color", "colour", "xyz",
            "u", "i", "f", "u3", "i3", "f3", "f6", "u1", "i1", "rg", "r", "8", "16", "32", "64", "1", "7", "i08", "u08", "U+38", "f\u{ff13}\u{ff12}", "\u{456}8", "i\u{200b}8", "\u{feff}i8", "empty", "None", "?"];
        let near = (select(KNOWN), select(ADDED), 0u8..7, any::<u8>()).prop_map(|(k, a, how, at)| {
            let at = at as usize % k.len();
            match how {
                0 => format!("{k}{a}"),
                1 => format!("{a}{k}"),
                2 => k.chars().enumerate().map(|(i, c)| if i == at { c.to_ascii_uppercase() } else { c }).collect(),
                3 => k.to_uppercase(),
                4 => k.chars().enumerate().filter(|(i, _)| *i != at).map(|(_, c)| c).collect(),
                5 => format!("{}{a}{}", &k[..at], &k[at..]),
                _ => k.chars().rev().collect(),
            }
        });
        let name = prop_oneof![
            3 => select(KNOWN).prop_map(str::to_string),
            4 => near,
            2 => select(OTHER).prop_map(str::to_string),
            1 => "[fiu][0-9]{1,3}",
            1 => "[a-z0-9_]{0,5}",
        ];
        (kind, gen::word(), any::<[u8; 8]>(), prop_oneof![1 => 0u8..=10, 1 => any::<u8>()], name)
            .prop_map(|(kind, word, junk, code, name)| Case { kind, word, junk, code, name })
            .boxed()
    }

    fn check(c: &Case) -> Result<(), String> {
        guard(|| check_case(c)).map_err(|p| format!("panicked: {p}"))?
    }

    fn classify(c: &Case) -> Class {
        let (n, l) = match c.kind {
            Kind::S(d) => (d.size(), datatype(d).1),
            Kind::Rgb => (4, "rgb"),
        };
        let b = &c.word.to_le_bytes()[..n];
        Class { nontrivial: if n == 1 { b[0] != 0 } else { b.iter().any(|x| *x != b[0]) }, labels: vec![l] }
    }
}
