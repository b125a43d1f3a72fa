//! Generators. All randomness comes from proptest; sizes and layouts are built by construction, not by rejection.
use crate::api::Writer;
use crate::dynamic::{Gen, COMBOS};
use crate::engine::splitmix;
use crate::msg::{DataSpec, FieldSpec, MsgSpec};
use crate::types::{Dt, Ty};
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};

/// Raw field values: arbitrary bits, with the values that break naive handling over-represented.
pub fn word() -> BoxedStrategy<u64> {
    prop_oneof![
        4 => any::<u64>(),
        2 => 0u64..16,
        2 => select(&[
            0x0102030405060708u64, 0x8182838485868788, u64::MAX, 0x8000000080008080, 0x7fffffff7fff7f7f,
            0x7ff8000000000000, 0x7ff0000000000001, 0xfff0000000000000, 0x8000000000000000, 0x0000000000000001,
            0x7ff123457f812345, 0xffc00001ffc00001, 0x7f8000007f800000, 0x0000000180000000, 0x3ff000003f800000,
            0x00000000ff00ff00, 0x0000000012345678, 0x00000000fe000001,
        ][..]),
        1 => (0u32..64).prop_map(|s| 1u64 << s),
    ]
    .boxed()
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Points {
    Explicit(Vec<Vec<u64>>),
    /// n rows from a seeded stream; flavour 0: a running counter visible in every field, 1: arbitrary bits
    Pattern { n: u32, seed: u64, flavour: u8 },
}

impl Points {
    pub fn len(&self) -> usize {
        match self {
            Points::Explicit(v) => v.len(),
            Points::Pattern { n, .. } => *n as usize,
        }
    }
    pub fn is_empty(&self) -> bool {
        self.len() == 0
    }
    /// Canonical words for a type.
    pub fn rows(&self, ty: Ty) -> Vec<Vec<u64>> {
        self.rows_for(ty.fields().len(), |r| ty.canon(r))
    }
    pub fn rows_for(&self, k: usize, canon: impl Fn(&mut [u64])) -> Vec<Vec<u64>> {
        let mut rows: Vec<Vec<u64>> = match self {
            Points::Explicit(v) => v
                .iter()
                .map(|r| (0..k).map(|i| if r.is_empty() { 0 } else { r[i % r.len()] }).collect())
                .collect(),
            Points::Pattern { n, seed, flavour } => {
                let mut s = *seed;
                (0..*n as u64)
                    .map(|i| {
                        (0..k as u64)
                            .map(|j| match flavour {
                                0 => (i * k as u64 + j + 1).wrapping_mul(0x0101_0101_0101_0101) ^ (i << 3) ^ (i >> 5),
                                _ => splitmix(&mut s),
                            })
                            .collect()
                    })
                    .collect()
            }
        };
        for r in rows.iter_mut() {
            canon(r);
        }
        rows
    }
}

const BIG: &[u32] = &[255, 256, 257, 511, 512, 1000, 1023, 1024, 1025, 4095, 4096, 4097];
const HUGE: &[u32] = &[65535, 65536, 65537, 70000, 100003, 131072];

/// Point lists: mostly short and explicit, sometimes long patterns (sizes around powers of two included).
pub fn points(ty: Ty, allow_huge: bool) -> BoxedStrategy<Points> {
    points_of(ty.fields().len(), ty.mem_size(), allow_huge)
}

pub fn points_of(fields: usize, mem_size: usize, allow_huge: bool) -> BoxedStrategy<Points> {
    let explicit = vec(vec(word(), fields..=fields), 0..=7).prop_map(Points::Explicit);
    if mem_size > 5000 {
        return explicit.boxed();
    }
    let medium = (0u32..300, any::<u64>(), 0u8..2).prop_map(|(n, seed, flavour)| Points::Pattern { n, seed, flavour });
    let big = (select(BIG), any::<u64>(), 0u8..2).prop_map(|(n, seed, flavour)| Points::Pattern { n, seed, flavour });
    if allow_huge {
        let huge = (select(HUGE), any::<u64>(), 0u8..2).prop_map(|(n, seed, flavour)| Points::Pattern { n, seed, flavour });
        prop_oneof![640 => explicit, 120 => medium, 8 => big, 1 => huge].boxed()
    } else {
        prop_oneof![80 => explicit, 16 => medium, 1 => big].boxed()
    }
}

/// Generated point types (see `dynamic`).
pub fn dyn_ty() -> BoxedStrategy<Ty> {
    // the two large ones only now and then
    let small = COMBOS.len() as u8 - 2;
    (prop_oneof![40 => 0..small, 2 => Just(small), 1 => Just(small + 1)], any::<u16>(), any::<u32>()).prop_map(|(combo, universe, pick)| Ty::Dyn(Gen { combo, universe, pick })).boxed()
}

pub fn any_ty() -> BoxedStrategy<Ty> {
    prop_oneof![1 => select(Ty::ALL), 1 => dyn_ty()].boxed()
}

pub fn plain_ty() -> BoxedStrategy<Ty> {
    let v: Vec<Ty> = Ty::ALL.iter().copied().filter(|t| t.plain()).collect();
    prop_oneof![1 => select(v), 1 => dyn_ty()].boxed()
}

/// A name that is easily taken for `name` but is another one.
pub fn near(name: &str, how: u8) -> String {
    let swap_case = |c: char| if c.is_lowercase() { c.to_uppercase().to_string() } else { c.to_lowercase().to_string() };
    let out = match how % 16 {
        0 => format!("{name}_"),
        1 => format!("{name}x"),
        2 => {
            let mut t = name.to_string();
            t.pop();
            t
        }
        3 => name.chars().skip(1).collect(),
        4 => format!("_{name}"),
        5 => name.chars().map(swap_case).collect(),
        6 => format!("{name} "),
        7 => format!(" {name}"),
        8 => format!("{name}\u{0}"),
        9 => format!("{name}{name}"),
        10 => name.chars().rev().collect(),
        11 => {
            let mut it = name.chars();
            match it.next() {
                Some(c) => swap_case(c) + it.as_str(),
                None => "a".into(),
            }
        }
        12 => format!("{name}2"),
        13 => {
            // same length, last character changed
            let mut t = name.to_string();
            match t.pop() {
                Some('w') => t.push('v'),
                Some(_) => t.push('w'),
                None => t.push('w'),
            }
            t
        }
        14 => {
            // same length, first character changed
            let mut it = name.chars();
            match it.next() {
                Some('q') => format!("p{}", it.as_str()),
                Some(_) => format!("q{}", it.as_str()),
                None => "q".into(),
            }
        }
        _ => name.replace('_', "-"),
    };
    if out == name {
        format!("{name}_")
    } else {
        out
    }
}

pub const NAME_POOL: &[&str] = &[
    "x", "y", "z", "intensity", "rgb", "rgba", "label", "a", "t", "ring", "range", "reflectivity", "ambient", "normal_x", "normal_y",
    "normal_z", "curvature", "X", "x ", " x", "xx", "", "_", "padding", "f00", "f01", "f32", "b", "c", "d", "h", "größe µ", "größe",
    "vfh", "time", "tag", "0", "x\u{0}", "intensities", "i",
];

#[derive(Clone, Debug)]
struct Extra {
    name: usize,
    dt: u8,
    count: u32,
    overlay: Option<u8>,
    /// named after a requested field, with a difference
    near: Option<(u8, u8)>,
}

fn extra() -> impl Strategy<Value = Extra> {
    (
        0..NAME_POOL.len(),
        prop_oneof![8 => 1u8..=8, 1 => select(&[0u8, 9, 255][..])],
        prop_oneof![6 => Just(1u32), 1 => 0u32..5, 1 => Just(308u32)],
        proptest::option::weighted(0.25, any::<u8>()),
        proptest::option::weighted(0.5, any::<(u8, u8)>()),
    )
        .prop_map(|(name, dt, count, overlay, near)| Extra { name, dt, count, overlay, near })
}

/// Message dimensions: single rows, organised clouds, zero-sized in either axis, occasionally large.
pub fn dims(allow_big: bool) -> BoxedStrategy<(u32, u32)> {
    let mut v: Vec<(u32, BoxedStrategy<(u32, u32)>)> = vec![
        (40, (0u32..=12).prop_map(|w| (w, 1)).boxed()),
        (30, (0u32..=8, 0u32..=6).boxed()),
        (6, (13u32..=300).prop_map(|w| (w, 1)).boxed()),
        (4, (1u32..=3, 10u32..=60).boxed()),
        (3, (0u32..=20).prop_map(|h| (1, h)).boxed()),
        (3, prop_oneof![(0u32..=2000).prop_map(|w| (w, 0)), (0u32..=2000).prop_map(|h| (0, h))].boxed()),
    ];
    if allow_big {
        v.push((1, prop_oneof![10 => select(BIG), 1 => select(HUGE)].prop_map(|w| (w, 1)).boxed()));
        v.push((1, (10u32..=60, 10u32..=60).boxed()));
    }
    proptest::strategy::Union::new_weighted(v).boxed()
}

pub fn data_spec() -> BoxedStrategy<(u64, u8)> {
    (any::<u64>(), 0u8..2).boxed()
}

#[derive(Clone, Debug)]
pub struct HeaderBits {
    pub seq: u32,
    pub sec: i32,
    pub nanosec: u32,
    pub frame_id: String,
    pub dense: bool,
}

pub fn header_bits() -> BoxedStrategy<HeaderBits> {
    let simple = Just(HeaderBits { seq: 0, sec: 0, nanosec: 0, frame_id: String::new(), dense: false });
    let rich = (any::<u32>(), any::<i32>(), any::<u32>(), select(&["", "map", "base_link", "käse", "a b\n\"'\\{}", "x"][..]), any::<bool>()).prop_map(
        |(seq, sec, nanosec, f, dense)| HeaderBits { seq, sec, nanosec, frame_id: f.to_string(), dense },
    );
    prop_oneof![2 => simple, 3 => rich].boxed()
}

/// Well-formed messages as an arbitrary producer might write them, containing every field of `ty`.
pub fn foreign(ty: Ty, allow_big: bool) -> BoxedStrategy<MsgSpec> {
    let want = ty.fields();
    let n = want.len();
    let mem_size = ty.mem_size();
    (
        (
            prop_oneof![4 => Just(0u8), 2 => Just(1u8), 5 => Just(2u8), 2 => Just(3u8), 2 => Just(4u8)],
            vec(any::<u8>(), n..=n),
            vec(any::<u8>(), n..=n),
            vec(prop_oneof![120 => Just(0u32), 80 => 1u32..=8, 40 => 9u32..=40, 1 => select(&[250u32, 256, 32768, 65530, 65536, 70000][..])], n..=n),
            vec(extra(), 0..=3),
            vec(any::<u8>(), 3..=3),
        ),
        (prop_oneof![48 => Just(0u32), 48 => 1u32..=16, 16 => 17u32..=64, 16 => Just(1000u32), 1 => select(&[32768u32, 65530, 65536, 70000][..])], any::<bool>(), dims(allow_big), data_spec(), header_bits()),
        (prop_oneof![4 => Just(None), 1 => any::<u32>().prop_map(Some)], vec((0u8..10, any::<u8>(), any::<u8>()), 1..=2), any::<bool>()),
    )
        .prop_map(move |((mode, decl_keys, place_keys, gaps, extras, extra_pos), (tail, big, (width, height), (seed, flavour), hb), (row, tweaks, organised))| {
            let mut fields: Vec<FieldSpec> = want
                .iter()
                .map(|w| FieldSpec { name: w.name.to_string(), offset: w.mem as u32, datatype: w.dt.code(), count: 1 })
                .collect();
            let size = |f: &FieldSpec| Dt::from_code(f.datatype).map(|d| d.size() as u32).unwrap_or(1);
            let mut mem_size = mem_size;
            if place_keys[0] & 1 == 1 {
                // where the description puts the fields of a type whose memory has another order
                let (mut at, mut end) = (0, 0);
                for (f, w) in fields.iter_mut().zip(&want) {
                    at += w.mem.saturating_sub(end);
                    f.offset = at as u32;
                    at += w.dt.size();
                    end = w.mem + w.dt.size();
                }
                mem_size = at + mem_size.saturating_sub(end);
            }
            let mut step;
            let last_end = |fields: &[FieldSpec]| fields.iter().map(|f| f.offset + Dt::from_code(f.datatype).map(|d| d.size() as u32).unwrap_or(1)).max().unwrap_or(0);
            match mode {
                0 => {
                    // free placement, free declaration order
                    let mut order: Vec<usize> = (0..n).collect();
                    order.sort_by_key(|&i| place_keys[i]);
                    let mut off = 0;
                    for &i in &order {
                        off += gaps[i];
                        fields[i].offset = off;
                        off += size(&fields[i]);
                    }
                    step = off + tail;
                    let mut decl: Vec<usize> = (0..n).collect();
                    decl.sort_by_key(|&i| decl_keys[i]);
                    fields = decl.iter().map(|&i| fields[i].clone()).collect();
                }
                1 => step = mem_size as u32 + if organised { 0 } else { tail },
                2 => {
                    // the memory layout with one or two deviations
                    step = mem_size as u32 + if tail == 0 { 0 } else { tail };
                    for (kind, a, b) in &tweaks {
                        let (i, j) = (*a as usize % fields.len(), *b as usize % fields.len());
                        match kind {
                            0 => {
                                // two names (with their datatypes) exchange places
                                let (oi, oj) = (fields[i].offset, fields[j].offset);
                                fields.swap(i, j);
                                fields[i].offset = oi;
                                fields[j].offset = oj;
                            }
                            1 => {
                                let t = fields[i].offset;
                                fields[i].offset = fields[j].offset;
                                fields[j].offset = t;
                            }
                            2 => fields[i].offset += 1 + (*b as u32 % 8),
                            3 => fields.swap(i, j),
                            4 => {
                                let d = 1 + (*b as u32 % 8);
                                for f in fields.iter_mut() {
                                    f.offset += d;
                                }
                            }
                            5 => fields.rotate_left(i),
                            6 => {
                                let d = 1 + (*b as u32 % 4);
                                for f in fields.iter_mut().skip(i) {
                                    f.offset += d;
                                }
                            }
                            7 => fields[i].offset = fields[i].offset.saturating_sub(1 + (*b as u32 % 4)),
                            _ => {
                                // a field of a similar name takes the place of the real one, which moves elsewhere
                                let name = near(&fields[i].name, *b);
                                if fields.iter().all(|f| f.name != name) && want.iter().all(|w| w.name != name) {
                                    let mut decoy = fields[i].clone();
                                    decoy.name = name;
                                    fields[i].offset = step.max(last_end(&fields));
                                    step = fields[i].offset + size(&fields[i]);
                                    if *kind == 8 {
                                        // the decoy keeps the position in the declaration, too
                                        let real = fields[i].clone();
                                        fields[i] = decoy;
                                        fields.push(real);
                                    } else {
                                        fields.insert(j, decoy);
                                    }
                                }
                            }
                        }
                    }
                    step = step.max(last_end(&fields));
                }
                3 => {
                    // packed in declaration order, as the iterator writer does
                    let mut off = 0;
                    for f in fields.iter_mut() {
                        f.offset = off;
                        off += size(f);
                    }
                    step = off + tail;
                }
                _ => {
                    // memory offsets, but the trailing padding partly or wholly missing
                    let end = last_end(&fields);
                    step = (mem_size as u32).saturating_sub(tail % 9).max(end);
                }
            }
            let taken: Vec<String> = fields.iter().map(|f| f.name.clone()).collect();
            for (k, e) in extras.iter().enumerate() {
                let name = match e.near {
                    Some((i, how)) => near(want[i as usize % n].name, how),
                    None => NAME_POOL[e.name].to_string(),
                };
                if taken.contains(&name) || want.iter().any(|w| w.name == name) {
                    continue;
                }
                let sz = Dt::from_code(e.dt).map(|d| d.size() as u32).unwrap_or(1) * e.count.min(400);
                let offset = match e.overlay {
                    Some(o) => (o as u32) % step.max(1),
                    None if mode == 1 || mode == 4 || (mode == 2 && organised) => (mem_size as u32).min(step.saturating_sub(1)),
                    None => {
                        let o = step;
                        step += sz;
                        o
                    }
                };
                let pos = match mode {
                    1 | 4 => fields.len(),
                    _ if extra_pos[k] < 64 => fields.len(),
                    _ => extra_pos[k] as usize % (fields.len() + 1),
                };
                fields.insert(pos, FieldSpec { name, offset, datatype: e.dt, count: e.count });
            }
            let len = step as u64 * width as u64 * height as u64;
            // bound the buffer
            let (width, height, len) = if len > 1_300_000 { (width.min(5), height.min(3), step as u64 * width.min(5) as u64 * height.min(3) as u64) } else { (width, height, len) };
            MsgSpec {
                fields,
                big,
                point_step: step,
                row_step: row.unwrap_or_else(|| step.wrapping_mul(width)),
                width,
                height,
                data: DataSpec::Pattern { len, seed, flavour },
                seq: hb.seq,
                sec: hb.sec,
                nanosec: hb.nanosec,
                frame_id: hb.frame_id,
                dense: hb.dense,
            }
        })
        .boxed()
}

/// Only gigantic clouds are wanted (each costs seconds and gigabytes).
pub fn heavy() -> bool {
    std::env::var_os("HARNESS_HEAVY").is_some()
}

/// A foreign message spread over up to 4.6 GiB: the same points, far apart, with zero points in between.
pub fn giant(ty: Ty) -> BoxedStrategy<MsgSpec> {
    (foreign(ty, true), prop_oneof![3 => (1u64 << 32)..(1 << 32) + (600 << 20), 1 => (1u64 << 31)..(1 << 31) + (600 << 20)], 0u32..16, any::<u64>(), 0u8..4)
        .prop_map(|(mut m, total, scale, mut seed, base)| {
            let from = m.point_step as u64;
            let have = m.points().min(40);
            let mut next = || splitmix(&mut seed);
            // few large points, or many smaller ones, at most 65000
            let n = ((1u64 << scale) + next() % (1 << scale)).clamp(3, 65_000).min(total / from.max(1)).max(1);
            let rows = [1, 2, 3, 7][next() as usize % 4].min(n);
            let n = n / rows * rows;
            let step = (total / n).min(u32::MAX as u64);
            let shift = match base {
                0 | 1 => 0,
                2 => step - from,
                _ => next() % (step - from + 1),
            };
            let bytes = m.data.bytes();
            let mut at: Vec<u64> = vec![n - 1, ((1u64 << 32) / step).min(n - 1), ((1u64 << 31) / step).min(n - 1), 0, ((1u64 << 32) / step + 1).min(n - 1)];
            at.extend((0..40).map(|_| next() % n));
            let mut pieces: Vec<(u64, Vec<u8>)> = Vec::new();
            let mut used: Vec<u64> = Vec::new();
            for i in at {
                if (used.len() as u64) < have && !used.contains(&i) {
                    let k = used.len() * from as usize;
                    pieces.push((i * step + shift, bytes[k..k + from as usize].to_vec()));
                    used.push(i);
                }
            }
            for f in &mut m.fields {
                f.offset += shift as u32;
            }
            m.point_step = step as u32;
            m.width = (n / rows) as u32;
            m.height = rows as u32;
            m.data = DataSpec::Sparse { len: n * step, pieces };
            m
        })
        .boxed()
}

/// One deliberate inconsistency.
#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Mutation {
    pub kind: u8,
    pub a: u32,
    pub b: u32,
    pub c: u8,
}

fn interesting() -> BoxedStrategy<u32> {
    prop_oneof![
        3 => 0u32..=9,
        2 => any::<u32>(),
        2 => (0u32..32).prop_map(|s| 1u32 << s),
        2 => (0u32..=9).prop_map(|k| u32::MAX - k),
        1 => select(&[0x7fffffffu32, 0x80000001, 0x55555556, 0xaaaaaaab, 65535, 65536, 65537, 255, 256][..]),
    ]
    .boxed()
}

pub const MUTATIONS: u8 = 22;

pub fn mutation() -> BoxedStrategy<Mutation> {
    (0..MUTATIONS, interesting(), interesting(), any::<u8>())
        .prop_map(|(kind, a, b, c)| Mutation { kind, a, b, c })
        .boxed()
}

fn product(m: &MsgSpec) -> u128 {
    m.point_step as u128 * m.width as u128 * m.height as u128
}

const DATA_CAP: u64 = 1 << 18;

pub fn fix_length(m: &mut MsgSpec) {
    let p = product(m);
    if p <= DATA_CAP as u128 {
        m.data.set_len(p as usize);
    }
}

pub fn apply(m: &mut MsgSpec, mu: &Mutation) {
    let nf = m.fields.len();
    let fi = if nf == 0 { 0 } else { mu.c as usize % nf };
    let len = m.data.len();
    match mu.kind {
        0 => m.data.set_len(len.saturating_sub(1 + mu.a as usize % 8)),
        1 => m.data.set_len(if len == 0 { 0 } else { mu.a as usize % len }),
        2 => m.data.set_len(len + 1 + (mu.a as usize % 40)),
        3 => m.width = mu.a,
        4 => m.height = mu.a,
        5 => m.point_step = mu.a,
        6 if nf > 0 => m.fields[fi].offset = mu.a,
        7 if nf > 0 => m.fields[fi].datatype = if mu.b % 3 == 0 { [0u8, 9, 255, 10, 128][mu.a as usize % 5] } else { 1 + (mu.a % 8) as u8 },
        8 if nf > 0 => m.fields[fi].count = mu.a,
        9 if nf > 0 => {
            m.fields[fi].name = if mu.b % 2 == 0 {
                NAME_POOL[mu.a as usize % NAME_POOL.len()].to_string()
            } else {
                near(&m.fields[fi].name, mu.a as u8)
            }
        }
        10 if nf > 0 => {
            m.fields.remove(fi);
        }
        11 if nf > 0 => {
            let mut f = m.fields[fi].clone();
            match mu.b % 4 {
                0 => f.offset = f.offset.wrapping_add(mu.a % 16),
                1 => f.offset = mu.a,
                2 => f.datatype = 1 + (mu.a % 8) as u8,
                _ => {}
            }
            m.fields.insert(mu.a as usize % (nf + 1), f);
        }
        12 => m.fields.clear(),
        13 => m.data.set_len(0),
        14 => {
            // the product wraps around 64 bits to a small number
            let (p, q) = ((mu.a % 32).max(2), (mu.b % 32).max(2));
            m.point_step = (1u32 << p).wrapping_add(if mu.c & 1 == 0 { 0 } else { m.point_step });
            m.width = 1u32 << q;
            let r = 64u32.saturating_sub(p + q);
            m.height = if r < 32 { 1u32 << r } else { u32::MAX };
            let wrapped = (product(m) & (u64::MAX as u128)) as u64;
            if wrapped <= DATA_CAP {
                m.data.set_len(wrapped as usize);
            }
        }
        15 => {
            // the product wraps around 32 bits to a small number
            let s = m.point_step.max(1);
            m.width = ((1u64 << 32) / s as u64) as u32;
            m.width = m.width.wrapping_add(1 + mu.a % 4);
            m.height = 1;
            let wrapped = (product(m) & (u32::MAX as u128)) as u64;
            if wrapped <= DATA_CAP {
                m.data.set_len(wrapped as usize);
            }
        }
        16 => std::mem::swap(&mut m.width, &mut m.height),
        17 => m.row_step = mu.a,
        18 if nf > 0 => {
            // around the end of the point
            let sz = Dt::from_code(m.fields[fi].datatype).map(|d| d.size() as u32).unwrap_or(1);
            m.fields[fi].offset = m.point_step.wrapping_sub(sz).wrapping_add(mu.a % 6).wrapping_sub(1);
        }
        19 => {
            // shrink the step under the last field
            m.point_step = m.point_step.saturating_sub(1 + mu.a % 12);
            fix_length(m);
        }
        20 => m.big = !m.big,
        _ => fix_length(m),
    }
}

/// Arbitrary, mostly inconsistent messages: a well-formed message with up to four deliberate inconsistencies, or raw junk.
pub fn malformed(ty: Ty) -> BoxedStrategy<MsgSpec> {
    let mutated = (foreign(ty, false), vec(mutation(), 1..=4), any::<bool>())
        .prop_map(|(mut m, mus, refit)| {
            for mu in &mus {
                apply(&mut m, mu);
            }
            if refit {
                fix_length(&mut m);
            }
            m
        })
        .boxed();
    let junk_field = (
        0..NAME_POOL.len(),
        interesting(),
        prop_oneof![4 => 1u8..=8, 1 => any::<u8>()],
        prop_oneof![4 => Just(1u32), 1 => interesting()],
    )
        .prop_map(|(n, offset, datatype, count)| FieldSpec { name: NAME_POOL[n].to_string(), offset, datatype, count });
    let junk = (
        vec(junk_field, 0..=6),
        any::<bool>(),
        interesting(),
        interesting(),
        interesting(),
        interesting(),
        vec(any::<u8>(), 0..=64),
        any::<bool>(),
    )
        .prop_map(|(fields, big, point_step, row_step, width, height, bytes, refit)| {
            let mut m = MsgSpec {
                fields,
                big,
                point_step,
                row_step,
                width,
                height,
                data: DataSpec::Bytes(bytes),
                seq: 0,
                sec: 0,
                nanosec: 0,
                frame_id: String::new(),
                dense: true,
            };
            if refit {
                fix_length(&mut m);
            }
            m
        });
    prop_oneof![9 => mutated, 1 => junk].boxed()
}

/// Where a message comes from.
#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Source {
    Spec(MsgSpec),
    /// written by the library from points of a (possibly different) type, then possibly altered
    Written { from: Ty, writer: Writer, points: Points, alter: Vec<Mutation> },
}

impl Source {
    /// None if the library refused to write (another property's business).
    pub fn spec(&self) -> Option<MsgSpec> {
        match self {
            Source::Spec(m) => Some(m.clone()),
            Source::Written { from, writer, points, alter } => match crate::api::write(*from, *writer, &points.rows(*from)) {
                crate::api::Outcome::Ok(msg) => {
                    let v = crate::msg::view(&msg);
                    let mut m = MsgSpec {
                        fields: v.fields,
                        big: v.big,
                        point_step: v.point_step,
                        row_step: v.row_step,
                        width: v.width,
                        height: v.height,
                        data: DataSpec::Bytes(v.data),
                        seq: v.seq,
                        sec: v.sec,
                        nanosec: v.nanosec,
                        frame_id: v.frame_id,
                        dense: v.dense,
                    };
                    for a in alter {
                        apply(&mut m, a);
                    }
                    Some(m)
                }
                _ => None,
            },
        }
    }
    pub fn label(&self) -> &'static str {
        match self {
            Source::Spec(_) => "message described directly",
            Source::Written { alter, .. } if alter.is_empty() => "message written by the library",
            Source::Written { .. } => "library-written message, altered",
        }
    }
}

pub fn any_writer() -> BoxedStrategy<Writer> {
    select(&Writer::ALL[..]).boxed()
}

/// Library-written messages; `ty` itself half of the time, another type otherwise.
pub fn written(ty: Ty, alter: std::ops::RangeInclusive<usize>) -> BoxedStrategy<Source> {
    (prop_oneof![1 => Just(ty), 1 => any_ty()], any_writer(), vec(mutation(), alter))
        .prop_flat_map(|(from, writer, alter)| {
            points(from, false).prop_map(move |points| Source::Written { from, writer, points, alter: alter.clone() })
        })
        .boxed()
}

/// Counts as histories use them: mostly themselves, the top of the range stands for counts at which index arithmetic wraps.
pub fn amount(n: u16, step: u32) -> usize {
    match n {
        0..=0xFF7F => n as usize,
        0xFF80..=0xFF9F => (usize::MAX / step.max(1) as usize).saturating_add(n as usize - 0xFF80).saturating_sub(0x10),
        0xFFA0..=0xFFBF => (usize::MAX / 2 + 1) + (n as usize - 0xFFA0) - 0x10,
        0xFFC0..=0xFFDF => (1usize << 32) + (n as usize - 0xFFC0) - 0x10,
        0xFFE0.. => usize::MAX - (0xFFFF - n as usize),
    }
}
