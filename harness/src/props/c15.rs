use crate::api::{guard, read_t, write_t, Outcome, Reader, Writer};
use crate::engine::{Class, Prop};
use crate::gen;
use crate::types::reexport::*;
use proptest::collection::vec;
use proptest::prelude::*;
use ros_pointcloud2::{FromBytes, PointData, PointDataBuffer};
use serde::{Deserialize, Serialize};

pub struct C15;

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Op {
    New(u8, u8, u8),
    Packed(u32),
    PackedF32(u32),
    FromF32(u32),
    Default,
    SetR(u8),
    SetG(u8),
    SetB(u8),
    /// unpack and pack again
    ThroughF32,
    ThroughRaw,
    ThroughU32,
    ThroughData,
    ThroughBytes { big: bool },
    ThroughMessage { writer: u8, reader: u8 },
    ThroughCopy,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub ops: Vec<Op>,
    pub other: u32,
    pub flip: u8,
}

fn state(c: &RGB) -> (u8, u8, u8, u32) {
    (c.r(), c.g(), c.b(), c.raw().to_bits())
}

fn apply(c: RGB, word: Option<u32>, op: &Op) -> Result<(RGB, Option<u32>), String> {
    // the model keeps the packed form; the top byte is not specified after new() and default()
    let bits = c.raw().to_bits();
    let mut c = c;
    let set = |w: Option<u32>, shift: u32, v: u8| w.map(|w| (w & !(0xff << shift)) | (v as u32) << shift);
    let w = match op {
        Op::New(r, g, b) => {
            c = RGB::new(*r, *g, *b);
            let top = c.raw().to_bits() & 0xff00_0000;
            Some(top | (*r as u32) << 16 | (*g as u32) << 8 | *b as u32)
        }
        Op::Default => {
            c = RGB::default();
            Some(c.raw().to_bits() & 0xff00_0000)
        }
        Op::Packed(w) => {
            c = RGB::new_from_packed(*w);
            Some(*w)
        }
        Op::PackedF32(w) => {
            c = RGB::new_from_packed_f32(f32::from_bits(*w));
            Some(*w)
        }
        Op::FromF32(w) => {
            c = RGB::from(f32::from_bits(*w));
            Some(*w)
        }
        Op::SetR(v) => {
            c.set_r(*v);
            set(word, 16, *v)
        }
        Op::SetG(v) => {
            c.set_g(*v);
            set(word, 8, *v)
        }
        Op::SetB(v) => {
            c.set_b(*v);
            set(word, 0, *v)
        }
        Op::ThroughF32 => {
            c = RGB::from(f32::from(c));
            word
        }
        Op::ThroughRaw => {
            c = RGB::new_from_packed_f32(c.raw());
            word
        }
        Op::ThroughU32 => {
            c = RGB::new_from_packed(bits);
            word
        }
        Op::ThroughData => {
            c = PointData::new(c).get();
            word
        }
        Op::ThroughBytes { big } => {
            let buf = PointDataBuffer::from(c);
            let raw = buf.raw();
            if raw[..4] != bits.to_le_bytes() || raw[4..] != [0; 4] {
                return Err(format!("byte buffer {raw:x?} of {bits:#x}"));
            }
            c = if *big {
                let mut r = raw;
                r[..4].reverse();
                <RGB as FromBytes>::from_be_bytes(PointDataBuffer::new(r))
            } else {
                <RGB as FromBytes>::from_le_bytes(PointDataBuffer::new(raw))
            };
            word
        }
        Op::ThroughMessage { writer, reader } => {
            let p = PointXYZRGB { x: 1.0, y: 2.0, z: 3.0, rgb: c };
            let Outcome::Ok(m) = write_t::<4, PointXYZRGB>(Writer::ALL[*writer as usize % 3], vec![p, p]) else {
                return Err("writing a message failed".into());
            };
            match read_t::<4, PointXYZRGB>(Reader::ALL[*reader as usize % 4], m, 4) {
                Outcome::Ok(v) if v.len() == 2 => c = v[1].rgb,
                _ => return Err("reading a message failed".into()),
            }
            word
        }
        Op::ThroughCopy => {
            let copies = [c; 3];
            c = copies[2];
            word
        }
    };
    Ok((c, w))
}

fn check_case(case: &Case) -> Result<(), String> {
    let mut c = RGB::default();
    let mut word = Some(c.raw().to_bits() & 0xff00_0000);
    for (i, op) in case.ops.iter().enumerate() {
        let (c2, w2) = apply(c, word, op)?;
        c = c2;
        word = w2;
        let w = word.expect("model");
        let want = ((w >> 16) as u8, (w >> 8) as u8, w as u8, w);
        if state(&c) != want {
            let g = state(&c);
            return Err(format!("after {op:?} (step {i}): r {} g {} b {} packed {:#010x}, expected packed {w:#010x}", g.0, g.1, g.2, g.3));
        }
    }
    // equality, display and debug depend on exactly the channels
    let bits = c.raw().to_bits();
    let same_channels = RGB::new_from_packed((bits & 0xff_ffff) | (case.other & 0xff00_0000));
    let flip = match case.flip % 4 {
        0 => 1u32 << (case.flip / 4 % 8),
        1 => 1u32 << (8 + case.flip / 4 % 8),
        2 => 1u32 << (16 + case.flip / 4 % 8),
        _ => (case.other & 0xff_ffff).max(1),
    };
    let different = RGB::new_from_packed(bits ^ flip);
    #[allow(clippy::eq_op)]
    if c != same_channels || !(c == same_channels) || c != c {
        return Err(format!("{bits:#x} and {:#x} have the same channels but are not equal", same_channels.raw().to_bits()));
    }
    if c == different || different == c || !(c != different) {
        return Err(format!("{bits:#x} and {:#x} differ in a channel but are equal", different.raw().to_bits()));
    }
    for (name, a, b, d) in [
        ("display", format!("{c}"), format!("{same_channels}"), format!("{different}")),
        ("debug", format!("{c:?}"), format!("{same_channels:?}"), format!("{different:?}")),
    ] {
        if a != b {
            return Err(format!("{name} output differs for the same channels: {a} and {b}"));
        }
        if a == d {
            return Err(format!("{name} output {a} is the same for {bits:#x} and {:#x}", different.raw().to_bits()));
        }
    }
    Ok(())
}

impl Prop for C15 {
    type Case = Case;
    const ID: &'static str = "C15";
    const RULE: &'static str = "A case is a history of up to 10 constructions, channel writes and pack/unpack round trips (float, integer, point data, bytes, message) with the \
        packed 32-bit word as model, then equality, display and debug compared against a colour with the same channels and one with a flipped channel bit. Non-trivial: a \
        construction or channel write with a non-zero value and at least 2 operations.";

    fn strategy() -> BoxedStrategy<Case> {
        let w = || prop_oneof![3 => any::<u32>(), 1 => gen::word().prop_map(|x| x as u32)];
        let op = prop_oneof![
            3 => any::<(u8, u8, u8)>().prop_map(|(r, g, b)| Op::New(r, g, b)),
            2 => w().prop_map(Op::Packed),
            1 => w().prop_map(Op::PackedF32),
            1 => w().prop_map(Op::FromF32),
            1 => Just(Op::Default),
            4 => any::<u8>().prop_map(Op::SetR),
            4 => any::<u8>().prop_map(Op::SetG),
            4 => any::<u8>().prop_map(Op::SetB),
            1 => Just(Op::ThroughF32),
            1 => Just(Op::ThroughRaw),
            1 => Just(Op::ThroughU32),
            1 => Just(Op::ThroughData),
            1 => any::<bool>().prop_map(|big| Op::ThroughBytes { big }),
            1 => any::<(u8, u8)>().prop_map(|(writer, reader)| Op::ThroughMessage { writer, reader }),
            1 => Just(Op::ThroughCopy),
        ];
        (vec(op, 0..=10), any::<u32>(), any::<u8>()).prop_map(|(ops, other, flip)| Case { ops, other, flip }).boxed()
    }

    fn check(c: &Case) -> Result<(), String> {
        guard(|| check_case(c)).map_err(|p| format!("panicked: {p}"))?
    }

    fn classify(c: &Case) -> Class {
        let sets = c.ops.iter().filter(|o| matches!(o, Op::SetR(1..) | Op::SetG(1..) | Op::SetB(1..))).count();
        let through = c.ops.iter().any(|o| {
            matches!(o, Op::ThroughF32 | Op::ThroughRaw | Op::ThroughU32 | Op::ThroughData | Op::ThroughBytes { .. } | Op::ThroughMessage { .. })
        });
        let mut labels = vec![];
        if sets > 0 {
            labels.push("channel write");
        }
        if through {
            labels.push("pack/unpack round trip");
        }
        let built = c.ops.iter().any(|o| matches!(o, Op::New(..) | Op::Packed(1..) | Op::PackedF32(1..) | Op::FromF32(1..)));
        Class { nontrivial: c.ops.len() >= 2 && (sets > 0 || built), labels }
    }
}
