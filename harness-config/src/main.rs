//! C18: one generated case, one transcript of everything the library does with it, compared across feature configurations.
//! The same program is built once per configuration. The driving process generates cases and sends each to a process of every
//! other configuration (named in C18_OTHERS), which answers with a digest of its transcript.
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use ros_pointcloud2::iterator::PointCloudIterator;
use ros_pointcloud2::points::RGB;
use ros_pointcloud2::ros::PointFieldMsg;
use ros_pointcloud2::{CloudDimensionsBuilder, FieldDatatype, FromBytes, LayoutDescription, PointCloud2Msg, PointConvertible, PointData};
use rpcl2_harness::api::{guard, points_of, write_t, ErrRepr, Outcome, Writer};
use rpcl2_harness::engine::{self, splitmix, Class, Prop};
use rpcl2_harness::gen::{self, Mutation, Points};
use rpcl2_harness::msg::{view, DataSpec, MsgSpec, View};
use rpcl2_harness::props::c07::{build, Call, C07};
use rpcl2_harness::types::{Dt, FieldDesc, Scalar, TestPoint, Ty};
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::io::{Read, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::str::FromStr;

/// The same struct as `Mixed`; its conversions come from the derive where that feature is on.
#[derive(Clone, Copy, Default)]
#[cfg_attr(feature = "derive", derive(ros_pointcloud2::prelude::PointConvertible))]
#[repr(C)]
struct Twin {
    a: u8,
    b: f64,
    c: i16,
    d: u32,
    e: i8,
    f: f32,
    g: u16,
    h: i32,
}

#[cfg(not(feature = "derive"))]
mod by_hand {
    use super::Twin;
    use ros_pointcloud2::{LayoutDescription, LayoutField, PointConvertible, RPCL2Point};
    impl From<RPCL2Point<8>> for Twin {
        fn from(p: RPCL2Point<8>) -> Self {
            Twin { a: p[0].get(), b: p[1].get(), c: p[2].get(), d: p[3].get(), e: p[4].get(), f: p[5].get(), g: p[6].get(), h: p[7].get() }
        }
    }
    impl From<Twin> for RPCL2Point<8> {
        fn from(p: Twin) -> Self {
            [p.a.into(), p.b.into(), p.c.into(), p.d.into(), p.e.into(), p.f.into(), p.g.into(), p.h.into()].into()
        }
    }
    unsafe impl PointConvertible<8> for Twin {
        fn layout() -> LayoutDescription {
            LayoutDescription::new(&[
                LayoutField::new("a", "u8", 1),
                LayoutField::padding(7),
                LayoutField::new("b", "f64", 8),
                LayoutField::new("c", "i16", 2),
                LayoutField::padding(2),
                LayoutField::new("d", "u32", 4),
                LayoutField::new("e", "i8", 1),
                LayoutField::padding(3),
                LayoutField::new("f", "f32", 4),
                LayoutField::new("g", "u16", 2),
                LayoutField::padding(2),
                LayoutField::new("h", "i32", 4),
            ])
        }
    }
}

impl TestPoint for Twin {
    const NAME: &'static str = "Twin";
    const C_LAYOUT: bool = true;
    const PLAIN: bool = true;
    fn fields() -> Vec<FieldDesc> {
        Ty::Mixed.fields()
    }
    fn from_words(w: &[u64]) -> Self {
        Twin {
            a: Scalar::from_word(w[0]),
            b: Scalar::from_word(w[1]),
            c: Scalar::from_word(w[2]),
            d: Scalar::from_word(w[3]),
            e: Scalar::from_word(w[4]),
            f: Scalar::from_word(w[5]),
            g: Scalar::from_word(w[6]),
            h: Scalar::from_word(w[7]),
        }
    }
    fn to_words(&self) -> Vec<u64> {
        vec![self.a.to_word(), self.b.to_word(), self.c.to_word(), self.d.to_word(), self.e.to_word(), self.f.to_word(), self.g.to_word(), self.h.to_word()]
    }
    fn canon(w: &mut [u64]) {
        Ty::Mixed.canon(w)
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
enum Kind {
    Xyz,
    Xyzi,
    Xyzl,
    Xyzrgb,
    Xyzrgba,
    XyzrgbNormal,
    XyziNormal,
    Xyzrgbl,
    XyzNormal,
    Mixed,
    Packed,
    Rust,
    OneU8,
    OverAligned,
    Label,
    Wide,
    Twin,
}

const KINDS: &[Kind] = &[
    Kind::Xyz,
    Kind::Xyzi,
    Kind::Xyzl,
    Kind::Xyzrgb,
    Kind::Xyzrgba,
    Kind::XyzrgbNormal,
    Kind::XyziNormal,
    Kind::Xyzrgbl,
    Kind::XyzNormal,
    Kind::Mixed,
    Kind::Packed,
    Kind::Rust,
    Kind::OneU8,
    Kind::OverAligned,
    Kind::Label,
    Kind::Wide,
    Kind::Twin,
];

impl Kind {
    fn ty(self) -> Ty {
        match self {
            Kind::Xyz => Ty::XYZ,
            Kind::Xyzi => Ty::XYZI,
            Kind::Xyzl => Ty::XYZL,
            Kind::Xyzrgb => Ty::XYZRGB,
            Kind::Xyzrgba => Ty::XYZRGBA,
            Kind::XyzrgbNormal => Ty::XYZRGBNormal,
            Kind::XyziNormal => Ty::XYZINormal,
            Kind::Xyzrgbl => Ty::XYZRGBL,
            Kind::XyzNormal => Ty::XYZNormal,
            Kind::Mixed | Kind::Twin => Ty::Mixed,
            Kind::Packed => Ty::PackedPt,
            Kind::Rust => Ty::RustRepr,
            Kind::OneU8 => Ty::OneU8,
            Kind::OverAligned => Ty::OverAligned,
            Kind::Label => Ty::LabelPt,
            Kind::Wide => Ty::Wide,
        }
    }
}

macro_rules! with_kind {
    ($k:expr, $T:ident, $N:ident => $e:expr) => {{
        use ros_pointcloud2::points as p;
        use rpcl2_harness::types as t;
        macro_rules! arm {
            ($n:expr, $ty:ty) => {{
                type $T = $ty;
                const $N: usize = $n;
                $e
            }};
        }
        match $k {
            Kind::Xyz => arm!(3, p::PointXYZ),
            Kind::Xyzi => arm!(4, p::PointXYZI),
            Kind::Xyzl => arm!(4, p::PointXYZL),
            Kind::Xyzrgb => arm!(4, p::PointXYZRGB),
            Kind::Xyzrgba => arm!(5, p::PointXYZRGBA),
            Kind::XyzrgbNormal => arm!(7, p::PointXYZRGBNormal),
            Kind::XyziNormal => arm!(7, p::PointXYZINormal),
            Kind::Xyzrgbl => arm!(5, p::PointXYZRGBL),
            Kind::XyzNormal => arm!(6, p::PointXYZNormal),
            Kind::Mixed => arm!(8, t::Mixed),
            Kind::Packed => arm!(5, t::PackedPt),
            Kind::Rust => arm!(4, t::RustRepr),
            Kind::OneU8 => arm!(1, t::OneU8),
            Kind::OverAligned => arm!(3, t::OverAligned),
            Kind::Label => arm!(5, t::LabelPt),
            Kind::Wide => arm!(33, t::Wide),
            Kind::Twin => arm!(8, Twin),
        }
    }};
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
enum Step {
    Next,
    Nth(u16),
    Take(u16),
    Skip(u16),
    /// split what remains at a fraction and go on with one of the pieces; the other is drained later
    Split { at: u16, left: bool },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Case {
    /// write points, then (altered) read the written message as some type
    Points { kind: Kind, points: Points, vec_writer: bool, alter: Vec<Mutation>, read_as: Kind, steps: Vec<Step> },
    /// read a message described directly
    Message { kind: Kind, spec: MsgSpec, steps: Vec<Step> },
    Builder { calls: Vec<Call>, dims: u64 },
    Scalars { word: u64, junk: [u8; 8], code: u8, name: String },
}

/// Digest of a transcript; the text is kept only when somebody wants to see it.
struct Transcript {
    h: u64,
    text: Option<String>,
}

impl Transcript {
    fn mix(&mut self, w: u64) {
        self.h ^= w;
        self.h = splitmix(&mut self.h.clone());
    }
    fn note(&mut self, what: &str, s: &str) {
        self.mix(engine::fnv(what.as_bytes()));
        self.mix(engine::fnv(s.as_bytes()));
        if let Some(t) = &mut self.text {
            t.push_str(&format!("{what}: {s}\n"));
        }
    }
    fn words(&mut self, what: &str, rows: &[Vec<u64>]) {
        self.mix(engine::fnv(what.as_bytes()));
        self.mix(rows.len() as u64);
        for r in rows {
            for w in r {
                self.mix(*w);
            }
        }
        if let Some(t) = &mut self.text {
            t.push_str(&format!("{what}: {} points\n", rows.len()));
            for (i, r) in rows.iter().enumerate() {
                t.push_str(&format!("  {i}: {r:x?}\n"));
            }
        }
    }
    fn error(&mut self, what: &str, e: &ErrRepr) {
        // the text of this one is only kept with the std feature
        let s = match e {
            ErrRepr::UnsupportedFieldType(_) => "UnsupportedFieldType".to_string(),
            o => format!("{o:?}"),
        };
        self.note(what, &s);
    }
    fn view(&mut self, what: &str, v: &View) {
        self.mix(v.data.len() as u64);
        self.mix(engine::fnv(&v.data));
        let head = View { data: vec![], ..v.clone() };
        self.note(what, &format!("{head:?}"));
        if let Some(t) = &mut self.text {
            t.push_str(&format!("  data {:x?}\n", v.data));
        }
    }
}

/// A message from a writer, without the bytes no field covers (their content is not specified).
fn masked(v: &View) -> View {
    let mut out = v.clone();
    let step = v.point_step as usize;
    if step > 0 {
        let mut covered = vec![false; step];
        for f in &v.fields {
            let n = Dt::from_code(f.datatype).map(|d| d.size()).unwrap_or(0);
            for c in covered.iter_mut().skip(f.offset as usize).take(n) {
                *c = true;
            }
        }
        for (i, b) in out.data.iter_mut().enumerate() {
            if !covered[i % step] {
                *b = 0;
            }
        }
    }
    out
}

fn read_all(t: &mut Transcript, kind: Kind, m: &PointCloud2Msg, steps: &[Step]) {
    let limit = (m.dimensions.width as u64 * m.dimensions.height as u64).min(1 << 20) as usize + 3;
    with_kind!(kind, T, N => read_type::<N, T>(t, m, steps, limit));
}

fn row<T: TestPoint>(p: &Option<T>) -> Vec<Vec<u64>> {
    p.iter().map(|p| p.to_words()).collect()
}

fn read_type<const N: usize, T: TestPoint + PointConvertible<N>>(t: &mut Transcript, m: &PointCloud2Msg, steps: &[Step], limit: usize) {
    // raw bytes of a message are not a sound way to make a user's enum
    match if T::PLAIN { guard(|| m.clone().try_into_vec::<N, T>()) } else { Ok(Ok(Vec::new())) } {
        Ok(Ok(v)) => t.words("vector read", &v.iter().map(|p| p.to_words()).collect::<Vec<_>>()),
        Ok(Err(e)) => t.error("vector read", &e.into()),
        Err(_) => t.note("vector read", "panic"),
    }
    let mut notes: Vec<(String, String)> = Vec::new();
    let mut rows: Vec<(String, Vec<Vec<u64>>)> = Vec::new();
    let r = guard(|| -> Result<(), ErrRepr> {
        let mut it = PointCloudIterator::<N, T>::try_from(m.clone())?;
        let mut pieces = Vec::new();
        notes.push(("size hint".into(), format!("{:?}", Iterator::size_hint(&it))));
        for s in steps {
            let got = match s {
                Step::Next => row(&it.next()),
                Step::Nth(k) => row(&Iterator::nth(&mut it, *k as usize)),
                Step::Take(k) => Iterator::take(it.by_ref(), *k as usize).map(|p| p.to_words()).collect(),
                Step::Skip(k) => row(&Iterator::skip(it.by_ref(), *k as usize).next()),
                Step::Split { at, left } => {
                    let n = Iterator::size_hint(&it).0;
                    let (a, b) = it.split_at(*at as usize % (n.min(limit) + 1));
                    notes.push((format!("size hints after {s:?}"), format!("{:?} {:?}", Iterator::size_hint(&a), Iterator::size_hint(&b))));
                    let (keep, other) = if *left { (a, b) } else { (b, a) };
                    it = keep;
                    pieces.push(other);
                    Vec::new()
                }
            };
            rows.push((format!("{s:?}"), got));
            notes.push((format!("size hint after {s:?}"), format!("{:?}", Iterator::size_hint(&it))));
        }
        rows.push(("rest".into(), Iterator::take(it.by_ref(), limit).map(|p| p.to_words()).collect()));
        for (k, mut p) in pieces.into_iter().enumerate() {
            rows.push((format!("piece {k}"), Iterator::take(p.by_ref(), limit).map(|p| p.to_words()).collect()));
            rows.push((format!("after the end of piece {k}"), row(&p.next())));
        }
        let whole = PointCloudIterator::<N, T>::try_from(m.clone())?;
        if Iterator::size_hint(&whole).0 < limit {
            // the iterator's own methods (it has just been seen to end)
            match steps.len() % 3 {
                0 => rows.push(("last".into(), row(&Iterator::last(whole)))),
                1 => notes.push(("count".into(), format!("{}", Iterator::count(whole)))),
                _ => rows.push(("fold".into(), Iterator::fold(whole, Vec::new(), |mut v, p| { v.push(p.to_words()); v }))),
            }
        }
        rows.push(("after the end".into(), row(&it.next())));
        Ok(())
    });
    match r {
        Ok(Ok(())) => t.note("iterator read", "accepted"),
        Ok(Err(e)) => t.error("iterator read", &e),
        Err(_) => t.note("iterator read", "panic"),
    }
    for (a, b) in &notes {
        t.note(a, b);
    }
    for (a, b) in &rows {
        t.words(a, b);
    }
}

fn transcript(c: &Case, text: bool) -> Transcript {
    let mut t = Transcript { h: 1, text: text.then(String::new) };
    match c {
        Case::Points { kind, points, vec_writer, alter, read_as, steps } => {
            let rows = points.rows(kind.ty());
            let layout: LayoutDescription = with_kind!(*kind, T, N => <T as PointConvertible<N>>::layout());
            t.note("layout", &format!("{layout:?}"));
            for w in [Writer::Iter, Writer::Vec] {
                let what = format!("writer {w:?}");
                match with_kind!(*kind, T, N => write_t::<N, T>(w, points_of::<T>(&rows))) {
                    Outcome::Ok(m) => {
                        t.view(&what, &masked(&view(&m)));
                        if *vec_writer == (w == Writer::Vec) {
                            let v = view(&m);
                            let mut spec = MsgSpec {
                                fields: v.fields,
                                big: v.big,
                                point_step: v.point_step,
                                row_step: v.row_step,
                                width: v.width,
                                height: v.height,
                                data: DataSpec::Bytes(masked(&view(&m)).data),
                                seq: v.seq,
                                sec: v.sec,
                                nanosec: v.nanosec,
                                frame_id: v.frame_id,
                                dense: v.dense,
                            };
                            for a in alter {
                                gen::apply(&mut spec, a);
                            }
                            read_all(&mut t, *read_as, &spec.build(), steps);
                        }
                    }
                    Outcome::Err(e) => t.error(&what, &e),
                    Outcome::Panic(_) => t.note(&what, "panic"),
                }
            }
        }
        Case::Message { kind, spec, steps } => read_all(&mut t, *kind, &spec.build(), steps),
        Case::Builder { calls, dims } => {
            match build(calls) {
                Ok(Ok(m)) => t.view("builder", &view(&m)),
                Ok(Err(e)) => t.error("builder", &e.into()),
                Err(_) => t.note("builder", "panic"),
            }
            match guard(|| CloudDimensionsBuilder::new_with_width(*dims as usize).build()) {
                Ok(Ok(d)) => t.note("dimensions", &format!("{} x {}", d.width, d.height)),
                Ok(Err(e)) => t.error("dimensions", &e.into()),
                Err(_) => t.note("dimensions", "panic"),
            }
        }
        Case::Scalars { word, junk, code, name } => {
            let mut lines: Vec<String> = Vec::new();
            let r = guard(|| {
                macro_rules! each {
                    ($($ty:ty),*) => {$({
                        let v = <$ty as Scalar>::from_word(*word);
                        let d = PointData::new(v);
                        let back: $ty = d.get();
                        let le = <$ty as FromBytes>::from_le_bytes((*junk).into());
                        let be = <$ty as FromBytes>::from_be_bytes((*junk).into());
                        lines.push(format!("{} {:x} {:x} {:x}", stringify!($ty), back.to_word(), le.to_word(), be.to_word()));
                    })*};
                }
                each!(u8, i8, u16, i16, u32, i32, f32, f64, RGB);
                let c = RGB::new_from_packed(*word as u32);
                lines.push(format!("{c} {c:?} {} {} {} {:x}", c.r(), c.g(), c.b(), c.raw().to_bits()));
            });
            t.note("scalars", &format!("{lines:?} {}", r.is_ok()));
            let field = PointFieldMsg { name: name.clone(), offset: 0, datatype: *code, count: 1 };
            for (what, r) in [
                ("code", guard(|| FieldDatatype::try_from(*code))),
                ("field", guard(|| FieldDatatype::try_from(&field))),
                ("name", guard(|| FieldDatatype::from_str(name))),
            ] {
                match r {
                    Ok(Ok(d)) => t.note(what, &format!("{d:?} {} {}", d.size(), u8::from(d))),
                    Ok(Err(e)) => t.error(what, &e.into()),
                    Err(_) => t.note(what, "panic"),
                }
            }
        }
    }
    t
}

// ---- the other configurations ----

fn serve() -> ! {
    let (mut input, mut output) = (std::io::stdin().lock(), std::io::stdout().lock());
    loop {
        let mut head = [0u8; 9];
        if input.read_exact(&mut head).is_err() {
            std::process::exit(0);
        }
        let mut body = vec![0u8; u64::from_le_bytes(head[1..].try_into().unwrap()) as usize];
        input.read_exact(&mut body).expect("case");
        let case: Case = bincode::deserialize(&body).expect("case format");
        let t = transcript(&case, head[0] == 1);
        let reply = match t.text {
            Some(s) => s.into_bytes(),
            None => t.h.to_le_bytes().to_vec(),
        };
        output.write_all(&(reply.len() as u64).to_le_bytes()).expect("reply");
        output.write_all(&reply).expect("reply");
        output.flush().expect("reply");
    }
}

struct Other {
    name: String,
    child: Child,
    input: ChildStdin,
    output: ChildStdout,
}

impl Other {
    fn send(&mut self, body: &[u8], text: bool) -> std::io::Result<()> {
        let mut b = Vec::with_capacity(body.len() + 9);
        b.push(text as u8);
        b.extend_from_slice(&(body.len() as u64).to_le_bytes());
        b.extend_from_slice(body);
        self.input.write_all(&b)?;
        self.input.flush()
    }
    fn receive(&mut self) -> std::io::Result<Vec<u8>> {
        let mut n = [0u8; 8];
        self.output.read_exact(&mut n)?;
        let mut reply = vec![0u8; u64::from_le_bytes(n) as usize];
        self.output.read_exact(&mut reply)?;
        Ok(reply)
    }
}

thread_local! {
    static OTHERS: RefCell<(u32, Vec<Other>)> = const { RefCell::new((0, Vec::new())) };
}

fn with_others<R>(f: impl FnOnce(&mut Vec<Other>) -> R) -> R {
    OTHERS.with(|o| {
        let mut o = o.borrow_mut();
        let me = std::process::id();
        if o.0 != me {
            // a forked child starts processes of its own (the parent's are left alone)
            std::mem::forget(std::mem::take(&mut o.1));
            let list = std::env::var("C18_OTHERS").expect("C18_OTHERS");
            o.1 = list
                .split(' ')
                .filter(|s| !s.is_empty())
                .map(|s| {
                    let (name, path) = s.split_once('=').expect("name=path");
                    let mut child = Command::new(path).arg("serve").arg(name).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().expect("other configuration");
                    let (input, output) = (child.stdin.take().unwrap(), child.stdout.take().unwrap());
                    Other { name: name.to_string(), child, input, output }
                })
                .collect();
            o.0 = me;
        }
        f(&mut o.1)
    })
}

fn first_difference(a: &str, b: &str) -> String {
    for (x, y) in a.lines().zip(b.lines()) {
        if x != y {
            let cut = |s: &str| s.chars().take(600).collect::<String>();
            return format!("{}\n  instead of\n{}", cut(x), cut(y));
        }
    }
    format!("{} lines instead of {}", a.lines().count(), b.lines().count())
}

struct C18;

impl Prop for C18 {
    type Case = Case;
    const ID: &'static str = "C18";
    const RULE: &'static str = "A case is a point list to write and read back (possibly altered, possibly as another type), a described message (well-formed or malformed) to read \
        with a history of iterator steps, a builder history, or scalar data; the transcript of every build configuration must be the same. Non-trivial: the case holds at least one \
        point or field.";

    fn strategy() -> BoxedStrategy<Case> {
        let step = prop_oneof![2 => (any::<u16>(), any::<bool>()).prop_map(|(at, left)| Step::Split { at, left }), 3 => Just(Step::Next), 1 => (0u16..12).prop_map(Step::Nth), 1 => (0u16..12).prop_map(Step::Take), 1 => (0u16..12).prop_map(Step::Skip)];
        let steps = vec(step, 0..6);
        let points = (select(KINDS), any::<bool>(), prop_oneof![1 => Just(None), 1 => select(KINDS).prop_map(Some)], vec(gen::mutation(), 0..=2), steps.clone()).prop_flat_map(
            |(kind, vec_writer, other, alter, steps)| {
                gen::points(kind.ty(), true).prop_map(move |points| Case::Points {
                    kind,
                    points,
                    vec_writer,
                    alter: alter.clone(),
                    read_as: other.unwrap_or(kind),
                    steps: steps.clone(),
                })
            },
        );
        let message = (select(KINDS), 0u8..10, steps).prop_flat_map(|(kind, how, steps)| {
            let spec = if how < 6 { gen::foreign(kind.ty(), true) } else { gen::malformed(kind.ty()) };
            spec.prop_map(move |spec| Case::Message { kind, spec, steps: steps.clone() })
        });
        let builder = C07::strategy().prop_map(|c| Case::Builder {
            // every configuration would have to hold the gigabytes
            calls: c.calls.into_iter().filter(|k| !matches!(k, Call::Zeros(_))).collect(),
            dims: c.dims,
        });
        let name = prop_oneof![
            3 => select(&["f32", "f64", "i32", "u8", "u16", "u32", "i8", "i16", "rgb"][..]).prop_map(str::to_string),
            1 => select(&["", "f16", "F64", "i64", "bool", "rgba", "u"][..]).prop_map(str::to_string),
        ];
        let scalars = (gen::word(), any::<[u8; 8]>(), prop_oneof![2 => 0u8..=10, 1 => any::<u8>()], name).prop_map(|(word, junk, code, name)| Case::Scalars { word, junk, code, name });
        prop_oneof![8 => points, 10 => message, 2 => builder, 1 => scalars].boxed()
    }

    fn check(c: &Case) -> Result<(), String> {
        let body = bincode::serialize(c).expect("case serialises");
        with_others(|others| {
            for o in others.iter_mut() {
                o.send(&body, false).map_err(|e| format!("configuration '{}' does not answer: {e}", o.name))?;
            }
            let mine = transcript(c, false);
            let mut differing = None;
            for (k, o) in others.iter_mut().enumerate() {
                match o.receive() {
                    Ok(r) if r == mine.h.to_le_bytes() => {}
                    Ok(_) => differing = differing.or(Some(k)),
                    Err(e) => return Err(format!("configuration '{}' died on a case the full build handles: {e} ({:?})", o.name, o.child.wait().ok())),
                }
            }
            if let Some(k) = differing {
                let o = &mut others[k];
                let theirs = o.send(&body, true).and_then(|_| o.receive()).map_err(|e| format!("configuration '{}' died: {e}", o.name))?;
                let ours = transcript(c, true).text.unwrap_or_default();
                return Err(format!("configuration '{}' behaves differently from the build with every feature:\n{}", o.name, first_difference(&String::from_utf8_lossy(&theirs), &ours)));
            }
            Ok(())
        })
    }

    fn classify(c: &Case) -> Class {
        let (nontrivial, label) = match c {
            Case::Points { points, alter, .. } => (!points.is_empty(), if alter.is_empty() { "points written and read" } else { "points written, altered and read" }),
            Case::Message { spec, .. } => (spec.points() > 0 && !spec.fields.is_empty(), "message read"),
            Case::Builder { .. } => (true, "builder history"),
            Case::Scalars { .. } => (true, "scalars"),
        };
        Class { nontrivial, labels: vec![label] }
    }
}

fn main() {
    if std::env::args().nth(1).as_deref() == Some("serve") {
        rpcl2_harness::api::install_quiet_hook();
        serve();
    }
    engine::main(|id, a| if id == "C18" { engine::command::<C18>(a) } else { engine::usage() })
}
