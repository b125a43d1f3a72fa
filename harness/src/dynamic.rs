//! Point types whose description is generated: names, datatypes, gaps and memory order are a pure function of a small seed.
//! The struct itself is opaque storage of one of several sizes and alignments; the description in force is set by `dispatch!`.
use crate::engine::splitmix;
use crate::types::{Dt, FieldDesc, Scalar, TestPoint};
use ros_pointcloud2::points::RGB;
use ros_pointcloud2::{LayoutDescription, LayoutField, PointConvertible, PointData, RPCL2Point};
use serde::{Deserialize, Serialize};
use std::sync::atomic::{AtomicPtr, Ordering};

/// Which generated type: types of the same universe draw on the same twelve (name, datatype) pairs.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Gen {
    pub combo: u8,
    pub universe: u16,
    pub pick: u32,
}

/// (number of fields, size in memory)
pub const COMBOS: [(usize, usize); 14] = [(1, 1), (1, 8), (2, 8), (2, 24), (3, 12), (3, 16), (4, 16), (4, 32), (5, 21), (6, 48), (8, 40), (12, 96), (70, 320), (3, 66000)];

impl Gen {
    pub fn combo(self) -> usize {
        self.combo as usize % COMBOS.len()
    }
}

const LONG: &str = "a_very_long_field_name_that_exceeds_any_inline_string_buffer_and_goes_on_and_on_until_its_end_differs_0123456789_0123456789_0123456789_0123456789_0123456789_0123456789_0123456789_0123456789_0123456789_0123456789_0123456789_0123456789_0123456789_012345";
const LONG_1: &str = "a_very_long_field_name_that_exceeds_any_inline_string_buffer_and_goes_on_and_on_until_its_end_differs_0123456789_0123456789_0123456789_0123456789_0123456789_0123456789_0123456789_0123456789_0123456789_0123456789_0123456789_0123456789_0123456789_0123451";
const LONG_2: &str = "a_very_long_field_name_that_exceeds_any_inline_string_buffer_and_goes_on_and_on_until_its_end_differs_0123456789_0123456789_0123456789_0123456789_0123456789_0123456789_0123456789_0123456789_0123456789_0123456789_0123456789_0123456789_0123456789_0123452";

/// Families of names that are easily taken for each other.
pub const FAMILIES: &[&[&str]] = &[
    &["x", "y", "z", "xy", "yz", "zx"],
    &["x", "X", "xx", "x ", " x", "_x", "x_", "x0", "x\u{0}", "0x", "x.", "\u{445}"],
    &["intensity", "intensities", "Intensity", "intensit", "intensity2", "intensity ", "INTENSITY", "_intensity"],
    &["normal", "normal_x", "normal_xx", "normal_", "normal_y", "norma", "Normal_x", "normalx", "normal-x"],
    &["rgb", "rgba", "RGB", "r", "rg", "bgr", "g", "b", "a"],
    &["t", "time", "timestamp", "stamp", "ti", "t_", "time_offset", "time_offset_ns"],
    &["label", "labels", "lab", "Label", "label_", "_label", "label1"],
    &["ring", "range", "rang", "ranging", "ring ", "r", "ringid", "ring_id"],
    &["", " ", "_", "__", "padding", "pad", "\u{0}", "\n"],
    &["größe", "größe µ", "grosse", "µ", "größe\u{301}", "GRÖSSE", "点", "点云"],
    &[LONG, LONG_1, LONG_2, "a_very_long_field_name"],
    &["f1", "f10", "f11", "f01", "f", "1", "10", "-1", "f1 "],
];

/// Further names, for types with more fields than a universe has.
const MORE: [&str; 70] = [
    "n00", "n01", "n02", "n03", "n04", "n05", "n06", "n07", "n08", "n09", "n10", "n11", "n12", "n13",
    "n14", "n15", "n16", "n17", "n18", "n19", "n20", "n21", "n22", "n23", "n24", "n25", "n26", "n27",
    "n28", "n29", "n30", "n31", "n32", "n33", "n34", "n35", "n36", "n37", "n38", "n39", "n40", "n41",
    "n42", "n43", "n44", "n45", "n46", "n47", "n48", "n49", "n50", "n51", "n52", "n53", "n54", "n55",
    "n56", "n57", "n58", "n59", "n60", "n61", "n62", "n63", "n64", "n65", "n66", "n67", "n68", "n69",
];

/// The twelve (name, datatype, colour) triples of a universe; names are distinct.
fn universe(u: u16) -> Vec<(&'static str, Dt, bool)> {
    let mut s = 0xC0FF_EE00_0000_0000 ^ u as u64;
    let mut v: Vec<(&'static str, Dt, bool)> = Vec::new();
    let fams: Vec<usize> = (0..3).map(|i| if i == 0 { u as usize % FAMILIES.len() } else { splitmix(&mut s) as usize % FAMILIES.len() }).collect();
    let mut tries = 0;
    while v.len() < 12 {
        let r = splitmix(&mut s);
        tries += 1;
        // a family runs out of names eventually
        let fam = if tries < 60 { fams[r as usize % 3] } else { (r as usize >> 8) % FAMILIES.len() };
        let name = FAMILIES[fam][(r >> 24) as usize % FAMILIES[fam].len()];
        if v.iter().any(|x| x.0 == name) {
            continue;
        }
        let d = (r >> 40) as usize % 10;
        let (dt, rgb) = match d {
            8 => (Dt::F32, true),
            9 => (Dt::F32, false),
            d => (Dt::ALL[d], false),
        };
        v.push((name, dt, rgb));
    }
    v
}

pub struct Desc {
    pub fields: Vec<FieldDesc>,
    pub c_layout: bool,
    /// how the layout is put down: letter case of type names, one or several padding entries, borrowed or owned strings
    pub notation: u8,
}

/// Names of the datatypes as a layout may spell them.
fn type_name(dt: Dt, rgb: bool, case: u8) -> &'static str {
    let all: [&str; 3] = match dt {
        Dt::I8 => ["i8", "I8", "i8"],
        Dt::U8 => ["u8", "U8", "u8"],
        Dt::I16 => ["i16", "I16", "i16"],
        Dt::U16 => ["u16", "U16", "u16"],
        Dt::I32 => ["i32", "I32", "i32"],
        Dt::U32 => ["u32", "U32", "u32"],
        Dt::F32 if rgb => ["RGB", "rgb", "Rgb"],
        Dt::F32 => ["f32", "F32", "f32"],
        Dt::F64 => ["f64", "F64", "f64"],
    };
    all[case as usize % 3]
}

/// The layout in the description's notation.
fn put_down(d: &Desc, total: usize) -> LayoutDescription {
    let mut end = 0usize;
    let mut v: Vec<LayoutField> = Vec::new();
    let padding = |v: &mut Vec<LayoutField>, n: usize| match d.notation & 3 {
        3 => {
            // the same gap in pieces
            v.push(LayoutField::padding(n / 2));
            v.push(LayoutField::padding(n - n / 2));
        }
        2 if n == 0 => v.push(LayoutField::padding(0)),
        _ if n == 0 => {}
        _ => v.push(LayoutField::padding(n)),
    };
    for (i, f) in d.fields.iter().enumerate() {
        if f.mem >= end {
            padding(&mut v, f.mem - end);
        }
        let case = match (d.notation >> 2) & 7 {
            0..=3 => 0,
            4 => 1,
            5 => 2,
            _ => i as u8,
        };
        let ty = type_name(f.dt, f.rgb, case);
        v.push(if d.notation & 0x20 != 0 {
            LayoutField::Field { name: f.name.to_string().into(), ty: ty.to_string().into(), size: f.dt.size() }
        } else {
            LayoutField::new(f.name, ty, f.dt.size())
        });
        end = f.mem + f.dt.size();
    }
    if total >= end {
        padding(&mut v, total - end);
    }
    LayoutDescription::new(&v)
}

pub fn describe(g: Gen) -> Desc {
    let (n, size) = COMBOS[g.combo()];
    let mut s = 0xD15C_0000_0000_0000 ^ ((g.combo() as u64) << 48) ^ ((g.universe as u64) << 32) ^ g.pick as u64;
    let mut r = |m: usize| (splitmix(&mut s) >> 16) as usize % m;
    let mut uni = universe(g.universe);
    if n > uni.len() {
        for name in MORE {
            if uni.iter().all(|x| x.0 != name) {
                uni.push((name, Dt::ALL[r(8)], false));
            }
        }
    }
    // mostly the first n of the universe, so that smaller types of a universe are subsets of larger ones
    let pool = if r(4) > 0 { n } else { uni.len() };
    let mut order: Vec<usize> = (0..pool).collect();
    for i in 0..n {
        let j = i + r(pool - i);
        order.swap(i, j);
    }
    if r(4) == 0 {
        order[..n].sort_unstable();
    }
    let mut left = size;
    let mut fields: Vec<FieldDesc> = Vec::new();
    for (k, &i) in order[..n].iter().enumerate() {
        let (name, mut dt, mut rgb) = uni[i];
        let room = left - (n - k - 1);
        if dt.size() > room {
            rgb = false;
            dt = match room {
                1 => Dt::U8,
                2 | 3 => Dt::I16,
                _ => Dt::U32,
            };
        }
        left -= dt.size();
        fields.push(FieldDesc { name, dt, rgb, mem: 0 });
    }
    // memory order: declaration order, or (as the default representation may) another one
    let permuted = n > 1 && r(5) == 0;
    let mut mem: Vec<usize> = (0..n).collect();
    if permuted {
        for i in (1..n).rev() {
            let j = r(i + 1);
            mem.swap(i, j);
        }
    }
    let style = r(3);
    let mut at = 0;
    for &i in &mem {
        let gap = match style {
            0 => 0,
            1 => (fields[i].dt.size() - at % fields[i].dt.size()) % fields[i].dt.size(),
            _ if left > 1000 => [0, 200, 256, 32760, 32768, 65528, 65535, 65536][r(8)],
            _ => [0, 0, 1, 2, 3, 5, 8, 13][r(8)],
        };
        let gap = gap.min(left);
        left -= gap;
        at += gap;
        fields[i].mem = at;
        at += fields[i].dt.size();
    }
    let c_layout = mem.windows(2).all(|w| w[0] < w[1]);
    let notation = (splitmix(&mut s) >> 24) as u8;
    Desc { fields, c_layout, notation }
}

static CURRENT: AtomicPtr<Desc> = AtomicPtr::new(std::ptr::null_mut());

/// Puts a description in force until dropped.
pub struct Guard {
    previous: *mut Desc,
}

pub fn enter(g: Gen) -> Guard {
    Guard { previous: CURRENT.swap(Box::into_raw(Box::new(describe(g))), Ordering::SeqCst) }
}

impl Drop for Guard {
    fn drop(&mut self) {
        let mine = CURRENT.swap(self.previous, Ordering::SeqCst);
        // every use of the description lies inside the guard's scope
        drop(unsafe { Box::from_raw(mine) });
    }
}

fn current() -> &'static Desc {
    let p = CURRENT.load(Ordering::Acquire);
    assert!(!p.is_null(), "generated type used outside dispatch!");
    unsafe { &*p }
}

macro_rules! dynamic {
    ($t:ident, $n:expr, $size:expr, $align:expr) => {
        #[derive(Clone, Copy)]
        #[repr(C, align($align))]
        pub struct $t([u8; $size]);

        impl Default for $t {
            fn default() -> Self {
                Self([0x5A; $size])
            }
        }

        impl TestPoint for $t {
            const NAME: &'static str = stringify!($t);
            const C_LAYOUT: bool = true;
            const PLAIN: bool = true;
            fn c_layout() -> bool {
                current().c_layout
            }
            fn fields() -> Vec<FieldDesc> {
                current().fields.clone()
            }
            fn from_words(w: &[u64]) -> Self {
                let mut b = [0xA7u8; $size];
                for (f, w) in current().fields.iter().zip(w) {
                    let k = f.dt.size();
                    b[f.mem..f.mem + k].copy_from_slice(&w.to_le_bytes()[..k]);
                }
                Self(b)
            }
            fn to_words(&self) -> Vec<u64> {
                current()
                    .fields
                    .iter()
                    .map(|f| {
                        let mut w = [0u8; 8];
                        w[..f.dt.size()].copy_from_slice(&self.0[f.mem..f.mem + f.dt.size()]);
                        u64::from_le_bytes(w)
                    })
                    .collect()
            }
            fn canon(w: &mut [u64]) {
                for (f, w) in current().fields.iter().zip(w) {
                    *w = f.dt.mask(*w);
                }
            }
        }
        impl From<RPCL2Point<$n>> for $t {
            fn from(p: RPCL2Point<$n>) -> Self {
                let mut w = [0u64; $n];
                for (i, f) in current().fields.iter().enumerate() {
                    w[i] = match f.dt {
                        Dt::I8 => p[i].get::<i8>().to_word(),
                        Dt::U8 => p[i].get::<u8>().to_word(),
                        Dt::I16 => p[i].get::<i16>().to_word(),
                        Dt::U16 => p[i].get::<u16>().to_word(),
                        Dt::I32 => p[i].get::<i32>().to_word(),
                        Dt::U32 => p[i].get::<u32>().to_word(),
                        Dt::F32 if f.rgb => p[i].get::<RGB>().to_word(),
                        Dt::F32 => p[i].get::<f32>().to_word(),
                        Dt::F64 => p[i].get::<f64>().to_word(),
                    };
                }
                Self::from_words(&w)
            }
        }
        impl From<$t> for RPCL2Point<$n> {
            fn from(p: $t) -> Self {
                let w = p.to_words();
                let d = current();
                let a: [PointData; $n] = core::array::from_fn(|i| {
                    let (f, w) = (&d.fields[i], w[i]);
                    match f.dt {
                        Dt::I8 => PointData::new(i8::from_word(w)),
                        Dt::U8 => PointData::new(u8::from_word(w)),
                        Dt::I16 => PointData::new(i16::from_word(w)),
                        Dt::U16 => PointData::new(u16::from_word(w)),
                        Dt::I32 => PointData::new(i32::from_word(w)),
                        Dt::U32 => PointData::new(u32::from_word(w)),
                        Dt::F32 if f.rgb => PointData::new(RGB::from_word(w)),
                        Dt::F32 => PointData::new(f32::from_word(w)),
                        Dt::F64 => PointData::new(f64::from_word(w)),
                    }
                });
                a.into()
            }
        }
        unsafe impl PointConvertible<$n> for $t {
            fn layout() -> LayoutDescription {
                put_down(current(), core::mem::size_of::<$t>())
            }
        }
    };
}
dynamic!(Dyn0, 1, 1, 1);
dynamic!(Dyn1, 1, 8, 8);
dynamic!(Dyn2, 2, 8, 4);
dynamic!(Dyn3, 2, 24, 8);
dynamic!(Dyn4, 3, 12, 4);
dynamic!(Dyn5, 3, 16, 16);
dynamic!(Dyn6, 4, 16, 4);
dynamic!(Dyn7, 4, 32, 16);
dynamic!(Dyn8, 5, 21, 1);
dynamic!(Dyn9, 6, 48, 8);
dynamic!(Dyn10, 8, 40, 4);
dynamic!(Dyn11, 12, 96, 8);
dynamic!(Dyn12, 70, 320, 8);
dynamic!(Dyn13, 3, 66000, 8);
