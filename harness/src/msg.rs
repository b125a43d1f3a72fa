//! Descriptions of messages (serialisable, shrinkable) and the reference semantics of reading them.
use crate::api::{ErrRepr, Outcome, Reader, Rows};
use crate::engine::splitmix;
use crate::types::{Dt, FieldDesc, Ty};
use ros_pointcloud2::ros::{HeaderMsg, PointFieldMsg, TimeMsg};
use ros_pointcloud2::{CloudDimensions, Denseness, Endian, PointCloud2Msg};
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct FieldSpec {
    pub name: String,
    pub offset: u32,
    pub datatype: u8,
    pub count: u32,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum DataSpec {
    Bytes(Vec<u8>),
    /// `len` bytes from a seeded stream; flavour 0: every byte different from its neighbours, 1: arbitrary
    Pattern { len: u64, seed: u64, flavour: u8 },
    /// zeros with a few pieces written over them; gigabytes of untouched zeros cost nothing
    Sparse { len: u64, pieces: Vec<(u64, Vec<u8>)> },
}

impl DataSpec {
    pub fn len(&self) -> usize {
        match self {
            DataSpec::Bytes(b) => b.len(),
            DataSpec::Pattern { len, .. } | DataSpec::Sparse { len, .. } => *len as usize,
        }
    }
    pub fn bytes(&self) -> Vec<u8> {
        match self {
            DataSpec::Bytes(b) => b.clone(),
            DataSpec::Sparse { len, pieces } => {
                let mut v = vec![0u8; *len as usize];
                for (at, b) in pieces {
                    let at = (*at as usize).min(v.len());
                    let n = b.len().min(v.len() - at);
                    v[at..at + n].copy_from_slice(&b[..n]);
                }
                v
            }
            DataSpec::Pattern { len, seed, flavour } => {
                let n = *len as usize;
                let mut v = Vec::with_capacity(n);
                let mut s = *seed;
                match flavour {
                    0 => {
                        let base = splitmix(&mut s);
                        for i in 0..n {
                            v.push((i as u64).wrapping_mul(0x9d).wrapping_add(base).wrapping_add((i >> 8) as u64 * 7) as u8);
                        }
                    }
                    _ => {
                        while v.len() < n {
                            v.extend_from_slice(&splitmix(&mut s).to_le_bytes());
                        }
                        v.truncate(n);
                    }
                }
                v
            }
        }
    }
    pub fn set_len(&mut self, n: usize) {
        match self {
            DataSpec::Bytes(b) => b.resize(n, 0xA5),
            DataSpec::Pattern { len, .. } | DataSpec::Sparse { len, .. } => *len = n as u64,
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct MsgSpec {
    pub fields: Vec<FieldSpec>,
    pub big: bool,
    pub point_step: u32,
    pub row_step: u32,
    pub width: u32,
    pub height: u32,
    pub data: DataSpec,
    pub seq: u32,
    pub sec: i32,
    pub nanosec: u32,
    pub frame_id: String,
    pub dense: bool,
}

impl MsgSpec {
    pub fn build(&self) -> PointCloud2Msg {
        PointCloud2Msg {
            header: HeaderMsg {
                seq: self.seq,
                stamp: TimeMsg {
                    sec: self.sec,
                    nanosec: self.nanosec,
                },
                frame_id: self.frame_id.clone(),
            },
            dimensions: CloudDimensions {
                width: self.width,
                height: self.height,
            },
            fields: self
                .fields
                .iter()
                .map(|f| PointFieldMsg {
                    name: f.name.clone(),
                    offset: f.offset,
                    datatype: f.datatype,
                    count: f.count,
                })
                .collect(),
            endian: if self.big { Endian::Big } else { Endian::Little },
            point_step: self.point_step,
            row_step: self.row_step,
            data: self.data.bytes(),
            dense: if self.dense { Denseness::Dense } else { Denseness::Sparse },
        }
    }
    pub fn points(&self) -> u64 {
        self.width as u64 * self.height as u64
    }
}

/// A plain-data view of a message, for comparison and for the independent decoder.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct View {
    pub seq: u32,
    pub sec: i32,
    pub nanosec: u32,
    pub frame_id: String,
    pub width: u32,
    pub height: u32,
    pub fields: Vec<FieldSpec>,
    pub big: bool,
    pub point_step: u32,
    pub row_step: u32,
    pub data: Vec<u8>,
    pub dense: bool,
}

pub fn view(m: &PointCloud2Msg) -> View {
    View {
        seq: m.header.seq,
        sec: m.header.stamp.sec,
        nanosec: m.header.stamp.nanosec,
        frame_id: m.header.frame_id.clone(),
        width: m.dimensions.width,
        height: m.dimensions.height,
        fields: m
            .fields
            .iter()
            .map(|f| FieldSpec {
                name: f.name.clone(),
                offset: f.offset,
                datatype: f.datatype,
                count: f.count,
            })
            .collect(),
        big: m.endian == Endian::Big,
        point_step: m.point_step,
        row_step: m.row_step,
        data: m.data.clone(),
        dense: m.dense == Denseness::Dense,
    }
}

/// Reads one scalar the way the ROS description says.
pub fn get_scalar(data: &[u8], at: usize, dt: Dt, big: bool) -> u64 {
    let mut w = 0u64;
    let n = dt.size();
    for k in 0..n {
        let b = data[at + k] as u64;
        let shift = if big { n - 1 - k } else { k };
        w |= b << (8 * shift);
    }
    w
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Fault {
    Missing(Vec<String>),
    UnknownType,
    TypeMismatch,
    Beyond,
    /// length does not match; the flag says that the product exceeds 64 bits or usize
    Length { overflow: bool },
}

pub struct Judgement {
    pub faults: Vec<Fault>,
    /// the statement leaves accept/reject open: duplicate requested names, array counts, colour stored as an integer
    pub unspecified: bool,
}

impl Judgement {
    pub fn must_accept(&self) -> bool {
        self.faults.is_empty() && !self.unspecified
    }
}

fn field<'a>(m: &'a MsgSpec, name: &str) -> Option<&'a FieldSpec> {
    m.fields.iter().find(|f| f.name == name)
}

/// The reference: which of the documented faults a message has for a point type.
pub fn judge(ty: Ty, m: &MsgSpec) -> Judgement {
    let want = ty.fields();
    let mut faults = Vec::new();
    let mut unspecified = false;
    let missing: Vec<String> = want
        .iter()
        .filter(|w| field(m, w.name).is_none())
        .map(|w| w.name.to_string())
        .collect();
    if !missing.is_empty() {
        faults.push(Fault::Missing(missing));
    }
    for w in &want {
        let all: Vec<&FieldSpec> = m.fields.iter().filter(|f| f.name == w.name).collect();
        if all.len() > 1 {
            unspecified = true;
        }
        // with duplicate names any of the declarations may be the one that is looked at
        for f in all {
            match Dt::from_code(f.datatype) {
                None => faults.push(Fault::UnknownType),
                Some(d) => {
                    if d != w.dt {
                        if w.rgb && matches!(d, Dt::U32 | Dt::I32) {
                            unspecified = true;
                        }
                        faults.push(Fault::TypeMismatch);
                    }
                    if f.offset as u64 + d.size() as u64 > m.point_step as u64 {
                        faults.push(Fault::Beyond);
                    }
                }
            }
            if f.count != 1 {
                unspecified = true;
            }
        }
    }
    let product = m.point_step as u128 * m.width as u128 * m.height as u128;
    if product != m.data.len() as u128 {
        faults.push(Fault::Length {
            overflow: product > u64::MAX as u128,
        });
    }
    Judgement { faults, unspecified }
}

/// Is this error one of the faults that are present?
pub fn error_fits(e: &ErrRepr, reader: Reader, j: &Judgement) -> bool {
    j.faults.iter().any(|f| match (f, e) {
        (Fault::Missing(names), ErrRepr::FieldsNotFound(got)) => got == names || reader == Reader::Vec,
        (Fault::Missing(_), ErrRepr::ExhaustedSource) => reader == Reader::Vec,
        (Fault::UnknownType, ErrRepr::UnsupportedFieldType(_)) => true,
        (Fault::TypeMismatch, ErrRepr::InvalidFieldFormat) => true,
        (Fault::Beyond, ErrRepr::DataLengthMismatch) => true,
        (Fault::Length { .. }, ErrRepr::DataLengthMismatch) => true,
        (Fault::Length { overflow }, ErrRepr::NumberConversion) => *overflow,
        _ => false,
    })
}

/// The reference decoder. Only call on messages whose requested fields exist and lie inside the buffer.
pub fn decode(ty: Ty, m: &MsgSpec) -> Rows {
    let data = m.data.bytes();
    decode_with(ty, &m.fields, m.big, m.point_step as usize, m.points() as usize, &data)
}

pub fn decode_with(ty: Ty, fields: &[FieldSpec], big: bool, step: usize, n: usize, data: &[u8]) -> Rows {
    decode_desc(&ty.fields(), ty.plain(), fields, big, step, n, data)
}

pub fn decode_desc(want: &[FieldDesc], plain: bool, fields: &[FieldSpec], big: bool, step: usize, n: usize, data: &[u8]) -> Rows {
    let want: Vec<(usize, Dt)> = want
        .iter()
        .map(|w| {
            let f = fields.iter().find(|f| f.name == w.name).expect("requested field present");
            (f.offset as usize, w.dt)
        })
        .collect();
    (0..n)
        .map(|i| {
            want.iter()
                .map(|(off, dt)| {
                    let w = get_scalar(data, i * step + off, *dt, big);
                    if plain || *dt != Dt::U8 {
                        w
                    } else {
                        w.min(2) // the user enum decodes every other code as its last variant
                    }
                })
                .collect()
        })
        .collect()
}

/// First difference between two row lists, for messages.
pub fn diff(got: &Rows, want: &Rows, fields: &[FieldDesc]) -> Option<String> {
    if got.len() != want.len() {
        return Some(format!("{} points instead of {}", got.len(), want.len()));
    }
    for (i, (g, w)) in got.iter().zip(want).enumerate() {
        if g != w {
            let k = g.iter().zip(w).position(|(a, b)| a != b).unwrap_or(0);
            return Some(format!(
                "point {i} field {:?}: bits {:#x} instead of {:#x}",
                fields.get(k).map(|f| f.name).unwrap_or("?"),
                g[k],
                w[k]
            ));
        }
    }
    None
}

/// Outcome as text without large point lists.
pub fn brief(o: &Outcome) -> String {
    match o {
        Outcome::Ok(r) => format!("Ok({} points)", r.len()),
        Outcome::Err(e) => format!("Err({e:?})"),
        Outcome::Panic(p) => format!("panic: {p}"),
    }
}

/// Everything the statement says about a written message except the relation to the memory layout.
pub fn conforms(want: &[FieldDesc], plain: bool, v: &View, rows: &Rows) -> Result<(), String> {
    let n = rows.len() as u64;
    if v.width as u64 != n {
        return Err(format!("width {} for {n} points", v.width));
    }
    if v.height != u32::from(n > 0) {
        return Err(format!("height {} for {n} points", v.height));
    }
    if v.big {
        return Err("big-endian flag".into());
    }
    if v.row_step as u64 != n * v.point_step as u64 {
        return Err(format!("row step {} for {n} points of {} bytes", v.row_step, v.point_step));
    }
    if v.data.len() as u64 != v.row_step as u64 {
        return Err(format!("{} data bytes, row step {}", v.data.len(), v.row_step));
    }
    if v.fields.len() != want.len() {
        return Err(format!("{} fields described instead of {}", v.fields.len(), want.len()));
    }
    let mut spans = Vec::new();
    for (f, w) in v.fields.iter().zip(want) {
        if f.name != w.name {
            return Err(format!("field {:?} described as {:?}", w.name, f.name));
        }
        if f.datatype != w.dt.code() {
            return Err(format!("field {:?} has datatype {} instead of {}", w.name, f.datatype, w.dt.code()));
        }
        if f.count != 1 {
            return Err(format!("field {:?} has count {}", w.name, f.count));
        }
        let end = f.offset as u64 + Dt::size(w.dt) as u64;
        if end > v.point_step as u64 {
            return Err(format!("field {:?} ends at {end}, point step {}", w.name, v.point_step));
        }
        spans.push((f.offset as u64, end));
    }
    spans.sort();
    if spans.windows(2).any(|p| p[0].1 > p[1].0) {
        return Err(format!("fields overlap: {spans:?}"));
    }
    let got = decode_desc(want, plain, &v.fields, v.big, v.point_step as usize, rows.len(), &v.data);
    if let Some(d) = diff(&got, rows, want) {
        return Err(format!("decoding by the description: {d}"));
    }
    Ok(())
}
