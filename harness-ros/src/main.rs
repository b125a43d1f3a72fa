//! C11: conversions to and from the ROS crates' messages.
use proptest::prelude::*;
use ros_pointcloud2::ros::{HeaderMsg, TimeMsg};
use ros_pointcloud2::PointCloud2Msg;
use rpcl2_harness::api::guard;
use rpcl2_harness::engine::{self, Class, Prop};
use rpcl2_harness::gen;
use rpcl2_harness::msg::{view, DataSpec, FieldSpec, MsgSpec, View};
use rpcl2_harness::types::Ty;
use serde::{Deserialize, Serialize};

struct C11;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
enum Kind {
    Jazzy,
    R2r,
    Rosrust,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    kind: Kind,
    /// message -> ROS -> message, otherwise ROS -> message -> ROS
    from_msg: bool,
    spec: MsgSpec,
}

/// Builds the expected plain view of a message.
fn plain(s: &MsgSpec) -> View {
    View {
        seq: s.seq,
        sec: s.sec,
        nanosec: s.nanosec,
        frame_id: s.frame_id.clone(),
        width: s.width,
        height: s.height,
        fields: s.fields.clone(),
        big: s.big,
        point_step: s.point_step,
        row_step: s.row_step,
        data: s.data.bytes(),
        dense: s.dense,
    }
}

macro_rules! ros_type {
    ($feature:literal, $m:ident, $pc:path, $pf:path, $header:expr, $stamp:expr, $field:expr) => {
        #[cfg(feature = $feature)]
        mod $m {
            use super::*;
            pub fn make(v: &View) -> $pc {
                use $pc as Pc;
                Pc {
                    header: $header(v),
                    height: v.height,
                    width: v.width,
                    fields: v.fields.iter().map($field).collect(),
                    is_bigendian: v.big,
                    point_step: v.point_step,
                    row_step: v.row_step,
                    data: v.data.clone(),
                    is_dense: v.dense,
                }
            }
            pub fn see(m: &$pc) -> View {
                let (seq, sec, nanosec) = $stamp(m);
                View {
                    seq,
                    sec,
                    nanosec,
                    frame_id: m.header.frame_id.clone(),
                    width: m.width,
                    height: m.height,
                    fields: m.fields.iter().map(|f| FieldSpec { name: f.name.clone(), offset: f.offset, datatype: f.datatype, count: f.count }).collect(),
                    big: m.is_bigendian,
                    point_step: m.point_step,
                    row_step: m.row_step,
                    data: m.data.clone(),
                    dense: m.is_dense,
                }
            }
            pub fn check(spec: &MsgSpec, from_msg: bool) -> Result<(), String> {
                let want = plain(spec);
                if from_msg {
                    let msg = spec.build();
                    let ros: $pc = guard(|| msg.into()).map_err(|p| format!("{}: conversion to the ROS type panicked: {p}", $feature))?;
                    compare(concat!($feature, ", message to ROS type"), &see(&ros), &want, $feature == "rosrust")?;
                    let back: PointCloud2Msg = guard(|| ros.into()).map_err(|p| format!("{}: conversion back panicked: {p}", $feature))?;
                    compare(concat!($feature, ", message to ROS type and back"), &view(&back), &want, $feature == "rosrust")
                } else {
                    let ros = make(&want);
                    let msg: PointCloud2Msg = guard(|| ros.into()).map_err(|p| format!("{}: conversion from the ROS type panicked: {p}", $feature))?;
                    compare(concat!($feature, ", ROS type to message"), &view(&msg), &want, $feature == "rosrust")?;
                    let ros: $pc = guard(|| msg.into()).map_err(|p| format!("{}: conversion back panicked: {p}", $feature))?;
                    compare(concat!($feature, ", ROS type to message and back"), &see(&ros), &want, $feature == "rosrust")
                }
            }
        }
    };
}

ros_type!(
    "jazzy",
    jazzy,
    ros2_interfaces_jazzy::sensor_msgs::msg::PointCloud2,
    ros2_interfaces_jazzy::sensor_msgs::msg::PointField,
    |v: &View| {
        let mut h = ros2_interfaces_jazzy::std_msgs::msg::Header::default();
        h.stamp.sec = v.sec;
        h.stamp.nanosec = v.nanosec;
        h.frame_id = v.frame_id.clone();
        h
    },
    |m: &ros2_interfaces_jazzy::sensor_msgs::msg::PointCloud2| (0u32, m.header.stamp.sec, m.header.stamp.nanosec),
    |f| ros2_interfaces_jazzy::sensor_msgs::msg::PointField { name: f.name.clone(), offset: f.offset, datatype: f.datatype, count: f.count }
);
ros_type!(
    "r2r",
    r2r_,
    r2r::sensor_msgs::msg::PointCloud2,
    r2r::sensor_msgs::msg::PointField,
    |v: &View| r2r::std_msgs::msg::Header {
        stamp: r2r::builtin_interfaces::msg::Time { sec: v.sec, nanosec: v.nanosec },
        frame_id: v.frame_id.clone(),
    },
    |m: &r2r::sensor_msgs::msg::PointCloud2| (0u32, m.header.stamp.sec, m.header.stamp.nanosec),
    |f| r2r::sensor_msgs::msg::PointField { name: f.name.clone(), offset: f.offset, datatype: f.datatype, count: f.count }
);
ros_type!(
    "rosrust",
    rosrust_,
    rosrust_msg::sensor_msgs::PointCloud2,
    rosrust_msg::sensor_msgs::PointField,
    |v: &View| rosrust_msg::std_msgs::Header {
        seq: v.seq,
        stamp: rosrust::Time { sec: v.sec as u32, nsec: v.nanosec },
        frame_id: v.frame_id.clone(),
    },
    |m: &rosrust_msg::sensor_msgs::PointCloud2| (m.header.seq, m.header.stamp.sec as i32, m.header.stamp.nsec),
    |f| rosrust_msg::sensor_msgs::PointField { name: f.name.clone(), offset: f.offset, datatype: f.datatype, count: f.count }
);

/// Everything both types represent; the sequence number only where the ROS type has one.
fn compare(what: &str, got: &View, want: &View, seq: bool) -> Result<(), String> {
    let strip = |v: &View| {
        let mut v = v.clone();
        if !seq {
            v.seq = 0;
        }
        v
    };
    let (a, b) = (strip(got), strip(want));
    if a == b {
        return Ok(());
    }
    macro_rules! each {
        ($($f:ident),*) => {
            $(if a.$f != b.$f {
                let t = format!("{what}: {} is {:?} instead of {:?}", stringify!($f), a.$f, b.$f);
                return Err(t.chars().take(1500).collect());
            })*
        };
    }
    each!(seq, sec, nanosec, frame_id, width, height, fields, big, point_step, row_step, data, dense);
    Err(format!("{what}: differs"))
}

fn header_parts(kind: Kind, s: &MsgSpec) -> Result<(), String> {
    let same = |what: &str, t: TimeMsg| {
        if t.sec == s.sec && t.nanosec == s.nanosec {
            Ok(())
        } else {
            Err(format!("{kind:?} {what}: {}s {}ns instead of {}s {}ns", t.sec, t.nanosec, s.sec, s.nanosec))
        }
    };
    match kind {
        #[cfg(feature = "jazzy")]
        Kind::Jazzy => {
            let t = || ros2_interfaces_jazzy::builtin_interfaces::msg::Time { sec: s.sec, nanosec: s.nanosec };
            same("time", t().into())?;
            let mut h = ros2_interfaces_jazzy::std_msgs::msg::Header::default();
            h.stamp = t();
            h.frame_id = s.frame_id.clone();
            let h: HeaderMsg = h.into();
            same("header stamp", h.stamp)?;
            if h.frame_id != s.frame_id {
                return Err(format!("{kind:?} header: frame {:?} instead of {:?}", h.frame_id, s.frame_id));
            }
        }
        #[cfg(feature = "rosrust")]
        Kind::Rosrust => same("time", rosrust::Time { sec: s.sec as u32, nsec: s.nanosec }.into())?,
        _ => {}
    }
    let _: Option<HeaderMsg> = None;
    Ok(())
}

fn any_spec() -> BoxedStrategy<MsgSpec> {
    let text = || {
        prop_oneof![
            3 => "[a-z_/]{0,12}",
            1 => Just(String::new()),
            2 => ".{0,8}",
            1 => Just("x".repeat(300)),
        ]
    };
    let u = || prop_oneof![2 => 0u32..5, 1 => any::<u32>(), 1 => Just(u32::MAX), 1 => Just(1u32 << 31), 1 => (0u32..32).prop_map(|k| 1 << k)];
    let field = (text(), u(), any::<u8>(), u()).prop_map(|(name, offset, datatype, count)| FieldSpec { name, offset, datatype, count });
    let data = prop_oneof![
        2 => proptest::collection::vec(any::<u8>(), 0..20).prop_map(DataSpec::Bytes),
        2 => (0u64..3000, any::<u64>()).prop_map(|(len, seed)| DataSpec::Pattern { len, seed, flavour: 1 }),
    ];
    let wild = (
        proptest::collection::vec(field, 0..6),
        (any::<bool>(), u(), u(), u(), u()),
        data,
        (u(), any::<i32>(), u(), text(), any::<bool>()),
    )
        .prop_map(|(fields, (big, point_step, row_step, width, height), data, (seq, sec, nanosec, frame_id, dense))| MsgSpec {
            fields,
            big,
            point_step,
            row_step,
            width,
            height,
            data,
            seq,
            sec,
            nanosec,
            frame_id,
            dense,
        });
    let of = |ty: Ty| prop_oneof![gen::foreign(ty, false), gen::malformed(ty)];
    prop_oneof![3 => wild, 1 => of(Ty::XYZ), 1 => of(Ty::Mixed)].boxed()
}

impl Prop for C11 {
    type Case = Case;
    const ID: &'static str = "C11";
    const RULE: &'static str = "A case is a ROS crate (ros2-interfaces-jazzy as is; r2r and rosrust with stand-in types of the same fields), a direction and a message with \
        arbitrary header, dimensions, field descriptors, flags and bytes (mostly not readable), or a well-formed or malformed cloud; the intermediate and the round-tripped \
        value are compared field by field. Non-trivial: the message has a field descriptor and data, and not all numbers are zero.";

    fn strategy() -> BoxedStrategy<Case> {
        let mut kinds = vec![];
        if cfg!(feature = "jazzy") {
            kinds.push(Kind::Jazzy);
        }
        if cfg!(feature = "r2r") {
            kinds.push(Kind::R2r);
        }
        if cfg!(feature = "rosrust") {
            kinds.push(Kind::Rosrust);
        }
        (proptest::sample::select(kinds), any::<bool>(), any_spec()).prop_map(|(kind, from_msg, spec)| Case { kind, from_msg, spec }).boxed()
    }

    fn check(c: &Case) -> Result<(), String> {
        header_parts(c.kind, &c.spec)?;
        match c.kind {
            #[cfg(feature = "jazzy")]
            Kind::Jazzy => jazzy::check(&c.spec, c.from_msg),
            #[cfg(feature = "r2r")]
            Kind::R2r => r2r_::check(&c.spec, c.from_msg),
            #[cfg(feature = "rosrust")]
            Kind::Rosrust => rosrust_::check(&c.spec, c.from_msg),
            #[allow(unreachable_patterns)]
            _ => Ok(()),
        }
    }

    fn classify(c: &Case) -> Class {
        let s = &c.spec;
        Class {
            nontrivial: !s.fields.is_empty() && s.data.len() > 0 && (s.width | s.height | s.point_step | s.row_step) != 0,
            labels: vec![
                match c.kind {
                    Kind::Jazzy => "ros2-interfaces-jazzy",
                    Kind::R2r => "r2r (stand-in types)",
                    Kind::Rosrust => "rosrust (stand-in types)",
                },
                if c.from_msg { "message first" } else { "ROS type first" },
            ],
        }
    }
}

fn main() {
    engine::main(|id, a| if id == C11::ID { engine::command::<C11>(a) } else { engine::usage() })
}
