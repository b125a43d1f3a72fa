use crate::api::{guard, ErrRepr};
use crate::engine::{Class, Prop};
use crate::gen::{self, HeaderBits};
use crate::msg::{view, DataSpec, FieldSpec, View};
use crate::types::Dt;
use proptest::collection::vec;
use proptest::prelude::*;
use ros_pointcloud2::ros::{HeaderMsg, PointFieldMsg, TimeMsg};
use ros_pointcloud2::{CloudDimensionsBuilder, MsgConversionError, PointCloud2Msg, PointCloud2MsgBuilder};
use serde::{Deserialize, Serialize};

pub struct C07;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Call {
    Header { seq: u32, sec: i32, nanosec: u32, frame_id: String },
    Width(u32),
    Fields(Vec<FieldSpec>),
    Endian(bool),
    PointStep(u32),
    RowStep(u32),
    Data(DataSpec),
    Dense(bool),
    /// this many zero bytes, never touched
    Zeros(u64),
}

/// Untouched gigabytes are free, except under AddressSanitizer.
fn gigabytes() -> bool {
    std::env::var_os("HARNESS_GIGABYTES").is_some()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub calls: Vec<Call>,
    pub dims: u64,
}

fn to_msg_fields(v: &[FieldSpec]) -> Vec<PointFieldMsg> {
    v.iter()
        .map(|f| PointFieldMsg { name: f.name.clone(), offset: f.offset, datatype: f.datatype, count: f.count })
        .collect()
}

/// The calls, then `build`.
pub fn build(calls: &[Call]) -> Result<Result<PointCloud2Msg, MsgConversionError>, String> {
    guard(|| {
        let mut b = PointCloud2MsgBuilder::new();
        for call in calls {
            b = match call.clone() {
                Call::Header { seq, sec, nanosec, frame_id } => b.header(HeaderMsg { seq, stamp: TimeMsg { sec, nanosec }, frame_id }),
                Call::Width(w) => b.width(w),
                Call::Fields(f) => b.fields(to_msg_fields(&f)),
                Call::Endian(x) => b.endian(x),
                Call::PointStep(s) => b.point_step(s),
                Call::RowStep(s) => b.row_step(s),
                Call::Data(d) => b.data(d.bytes()),
                Call::Dense(d) => b.dense(d),
                Call::Zeros(n) => b.data(vec![0u8; n as usize]),
            };
        }
        b.build()
    })
    .map_err(|p| format!("build panicked: {p}"))
}

fn header_call(h: HeaderBits) -> Call {
    Call::Header { seq: h.seq, sec: h.sec, nanosec: h.nanosec, frame_id: h.frame_id }
}

fn fields() -> BoxedStrategy<Vec<FieldSpec>> {
    let one = |bad: bool| {
        (
            0..gen::NAME_POOL.len(),
            any::<u32>(),
            if bad { prop_oneof![6 => 1u8..=8, 1 => any::<u8>()].boxed() } else { (1u8..=8).boxed() },
            if bad { prop_oneof![6 => Just(1u32), 1 => any::<u32>(), 1 => 0u32..3].boxed() } else { Just(1u32).boxed() },
        )
            .prop_map(|(n, offset, datatype, count)| FieldSpec { name: gen::NAME_POOL[n].to_string(), offset, datatype, count })
    };
    prop_oneof![
        8 => vec(one(false), 1..=6),
        4 => vec(one(true), 1..=5),
        1 => Just(vec![]),
        1 => vec(one(false), 20..=60),
    ]
    .boxed()
}

fn sum(v: &[FieldSpec]) -> u32 {
    v.iter().filter_map(|f| Dt::from_code(f.datatype)).map(|d| d.size() as u32).sum()
}

impl Prop for C07 {
    type Case = Case;
    const ID: &'static str = "C07";
    const RULE: &'static str = "A case is a sequence of builder calls (every setter any number of times, in any order) ending in build, with consistent or inconsistent \
        fields, step and data, plus a width for the dimension builder; a record of the last value per setter is the model. Non-trivial: at least fields and data are set.";

    fn strategy() -> BoxedStrategy<Case> {
        (
            fields(),
            fields(),
            prop_oneof![4 => Just(0i64), 2 => 1i64..=20, 2 => -6i64..=-1, 1 => Just(i64::MIN), 1 => 100i64..=70000],
            0u32..=20,
            prop_oneof![3 => Just(0u32), 1 => 1u32..=20],
            (any::<u64>(), 0u8..2),
            (proptest::option::weighted(0.004, (1u8..=1, -3i8..=8)), prop_oneof![400 => Just(0u16), 1 => 30u16..9000]),
            (gen::header_bits(), gen::header_bits(), prop_oneof![1 => Just(0u32), 3 => any::<u32>()], any::<u32>(), any::<bool>(), any::<bool>()),
            (vec((any::<u8>(), any::<bool>()), 8..=8), vec((0u8..8, any::<u8>(), any::<u32>()), 0..=4), prop_oneof![0u64..4, any::<u32>().prop_map(|x| x as u64), any::<u64>(), (0u64..4).prop_map(|k| u32::MAX as u64 - 1 + k)]),
        )
            .prop_map(|(f, f2, step_delta, k, rem, (seed, flavour), (giga, many), (h, h2, width, row, big, dense), (order, dups, dims))| {
                let s = sum(&f) as i64;
                let step = if step_delta == i64::MIN { 0 } else { (s + step_delta).max(0) as u32 };
                let len = step as u64 * k as u64 + rem as u64;
                let mut base: Vec<(u8, Call)> = vec![
                    (0, header_call(h)),
                    (1, Call::Width(width)),
                    (2, Call::Fields(f)),
                    (3, Call::Endian(big)),
                    (4, Call::PointStep(step)),
                    (5, Call::RowStep(row)),
                    (6, Call::Data(DataSpec::Pattern { len: len.min(1 << 18), seed, flavour })),
                    (7, Call::Dense(dense)),
                ];
                let keys: Vec<(u8, bool)> = order;
                // calls may be missing (mostly not) and come in any order
                let mut idx: Vec<usize> = (0..8).filter(|&i| keys[i].1 || keys[i].0 < 200 || matches!(i, 2 | 4 | 6)).collect();
                idx.sort_by_key(|&i| keys[i].0);
                let mut calls: Vec<Call> = idx.iter().map(|&i| base[i].1.clone()).collect();
                // earlier calls of the same setter, to be overridden
                for (kind, pos, v) in dups {
                    let c = match kind {
                        0 => header_call(h2.clone()),
                        1 => Call::Width(v),
                        2 => Call::Fields(f2.clone()),
                        3 => Call::Endian(v & 1 == 1),
                        4 => Call::PointStep(v % 1000),
                        5 => Call::RowStep(v),
                        6 => Call::Data(DataSpec::Pattern { len: (v % 200) as u64, seed: v as u64, flavour: 1 }),
                        _ => Call::Dense(v & 1 == 1),
                    };
                    let p = pos as usize % (calls.len() + 1);
                    calls.insert(p, c);
                }
                base.clear();
                if let Some((k, off)) = giga {
                    // around a multiple of 2^32 bytes, mostly a whole number of points
                    let whole = ((k as u64) << 32).next_multiple_of(step.max(1) as u64);
                    calls.push(Call::Zeros((whole as i64 + off as i64 * step as i64 / 4) as u64));
                }
                if many > 0 {
                    // sums of field sizes beyond 8 and 16 bits
                    for c in calls.iter_mut().rev() {
                        if let Call::Fields(f) = c {
                            if let Some(first) = f.first().cloned() {
                                let size = Dt::from_code(first.datatype).map_or(0, |d| d.size() as u32);
                                f.extend(std::iter::repeat_n(first, many as usize));
                                for c in calls.iter_mut() {
                                    match c {
                                        Call::PointStep(s) => *s = s.saturating_add(size * many as u32),
                                        Call::Data(d) => d.set_len((step as usize + size as usize * many as usize) * (k as usize % 3) + rem as usize),
                                        _ => {}
                                    }
                                }
                            }
                            break;
                        }
                    }
                }
                Case { calls, dims }
            })
            .boxed()
    }

    fn check(c: &Case) -> Result<(), String> {
        // the model: last value of every setter
        let mut want = View {
            seq: 0,
            sec: 0,
            nanosec: 0,
            frame_id: String::new(),
            width: 0,
            height: 0,
            fields: vec![],
            big: false,
            point_step: 0,
            row_step: 0,
            data: vec![],
            dense: false,
        };
        let mut zeros: Option<u64> = None;
        for call in &c.calls {
            match call {
                Call::Header { seq, sec, nanosec, frame_id } => {
                    want.seq = *seq;
                    want.sec = *sec;
                    want.nanosec = *nanosec;
                    want.frame_id = frame_id.clone();
                }
                Call::Width(w) => want.width = *w,
                Call::Fields(f) => want.fields = f.clone(),
                Call::Endian(b) => want.big = *b,
                Call::PointStep(s) => want.point_step = *s,
                Call::RowStep(s) => want.row_step = *s,
                Call::Data(d) => {
                    want.data = d.bytes();
                    zeros = None;
                }
                Call::Dense(d) => want.dense = *d,
                Call::Zeros(n) => {
                    want.data = vec![];
                    zeros = Some(*n);
                }
            }
        }
        if c.calls.iter().any(|x| matches!(x, Call::Zeros(_))) && !gigabytes() {
            return Ok(());
        }
        let data_len = zeros.unwrap_or(want.data.len() as u64);
        want.height = u32::from(want.width > 0);
        let built = build(&c.calls)?;

        let mut faults: Vec<&str> = Vec::new();
        if want.fields.is_empty() {
            faults.push("no fields");
        }
        if want.fields.iter().any(|f| f.count != 1) {
            faults.push("count");
        }
        if want.fields.iter().any(|f| Dt::from_code(f.datatype).is_none()) {
            faults.push("datatype");
        }
        if want.point_step < sum(&want.fields) {
            faults.push("step");
        }
        if want.point_step == 0 || data_len % want.point_step as u64 != 0 {
            faults.push("length");
        }
        match built {
            Ok(mut m) => {
                if let Some(n) = zeros {
                    if m.data.len() as u64 != n || m.data.iter().take(1000).any(|b| *b != 0) {
                        return Err(format!("{n} zero bytes became {}", m.data.len()));
                    }
                    m.data = vec![];
                }
                if !faults.is_empty() {
                    return Err(format!("accepted although: {faults:?}"));
                }
                let got = view(&m);
                if got != want {
                    return Err(format!("built {}\nexpected {}", short(&got), short(&want)));
                }
            }
            Err(e) => {
                let e: ErrRepr = e.into();
                if faults.is_empty() {
                    return Err(format!("rejected consistent input: {e:?}"));
                }
                let named = match &e {
                    ErrRepr::FieldsNotFound(v) => v.is_empty() && faults.contains(&"no fields"),
                    ErrRepr::UnsupportedFieldCount => faults.contains(&"count"),
                    ErrRepr::UnsupportedFieldType(_) => faults.contains(&"datatype"),
                    ErrRepr::InvalidFieldFormat => faults.contains(&"step"),
                    ErrRepr::DataLengthMismatch => faults.contains(&"length"),
                    _ => false,
                };
                if !named {
                    return Err(format!("error {e:?} although the faults are {faults:?}"));
                }
            }
        }

        // dimensions
        let d = guard(|| CloudDimensionsBuilder::new_with_width(c.dims as usize).build()).map_err(|p| format!("dimension builder panicked: {p}"))?;
        match d {
            Ok(d) => {
                if d.width as u64 != c.dims || d.height != u32::from(c.dims > 0) {
                    return Err(format!("dimension builder: {} x {} for width {}", d.width, d.height, c.dims));
                }
            }
            Err(e) => {
                let e: ErrRepr = e.into();
                if c.dims <= u32::MAX as u64 || e != ErrRepr::NumberConversion {
                    return Err(format!("dimension builder: {e:?} for width {}", c.dims));
                }
            }
        }
        Ok(())
    }

    fn classify(c: &Case) -> Class {
        let has = |f: fn(&Call) -> bool| c.calls.iter().any(f);
        let mut labels = vec![];
        if let Some(Call::Fields(f)) = c.calls.iter().rev().find(|x| matches!(x, Call::Fields(_))) {
            labels.push(if f.is_empty() {
                "no fields"
            } else if f.iter().any(|f| f.count != 1) {
                "bad count"
            } else if f.iter().any(|f| Dt::from_code(f.datatype).is_none()) {
                "bad datatype"
            } else {
                "good fields"
            });
        }
        if has(|x| matches!(x, Call::Zeros(_))) && gigabytes() {
            labels.push("data around 4 GiB");
        }
        if has(|x| matches!(x, Call::Fields(f) if f.len() > 30)) {
            labels.push("more than 30 fields");
        }
        if c.calls.len() > 8 {
            labels.push("setter repeated");
        }
        Class {
            nontrivial: has(|x| matches!(x, Call::Fields(f) if !f.is_empty())) && has(|x| matches!(x, Call::Data(d) if d.len() > 0)),
            labels,
        }
    }
}

fn short(v: &View) -> String {
    let s = format!("{v:?}");
    s.chars().take(600).collect()
}
