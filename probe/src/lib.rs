//! Uses the library from a crate without the standard library, with whatever features are on.
#![no_std]
extern crate alloc;

use alloc::vec::Vec;
pub use ros_pointcloud2::prelude::*;
use ros_pointcloud2::{CloudDimensionsBuilder, PointCloud2MsgBuilder};

pub fn round_trip(points: Vec<PointXYZI>) -> Result<Vec<PointXYZ>, MsgConversionError> {
    let msg = PointCloud2Msg::try_from_iter(points)?;
    let sum: f32 = msg.try_into_iter::<3, PointXYZ>()?.map(|p| p.x).sum();
    let mut out: Vec<PointXYZ> = PointCloud2Msg::try_from_vec(Vec::from([PointXYZ::new(sum, 0.0, 0.0)]))?.try_into_vec()?;
    out.extend(PointCloud2Msg::try_from_vec(out.clone())?.try_into_iter::<3, PointXYZ>()?);
    Ok(out)
}

pub fn assemble(data: Vec<u8>) -> Result<PointCloud2Msg, MsgConversionError> {
    let field = PointFieldMsg { name: "x".into(), offset: 0, datatype: FieldDatatype::F32.into(), count: 1 };
    let msg = PointCloud2MsgBuilder::new().width(1).fields(Vec::from([field])).point_step(4).row_step(4).data(data).dense(true).build()?;
    assert!(msg.dimensions.width == CloudDimensionsBuilder::new_with_width(1).build()?.width);
    Ok(msg)
}

/// Errors can be shown, and are errors where there is a trait to say so.
pub fn show(e: &MsgConversionError) -> alloc::string::String {
    alloc::format!("{e} {e:?}")
}

#[cfg(feature = "std")]
pub fn boxed(e: MsgConversionError) -> impl Into<alloc::boxed::Box<dyn core::error::Error>> {
    e
}

#[cfg(feature = "derive")]
mod derived {
    use super::*;
    use alloc::vec;

    #[derive(Clone, Debug, PartialEq, Copy, Default, PointConvertible)]
    #[repr(C)]
    pub struct Plain {
        pub x: f32,
        #[rpcl2(rename("i"))]
        pub intensity: u8,
        pub stamp: f64,
        pub label: i16,
    }

    pub fn derived_round_trip(p: Plain) -> Result<Vec<Plain>, MsgConversionError> {
        PointCloud2Msg::try_from_vec(vec![p])?.try_into_vec()
    }

    pub fn described() -> LayoutDescription {
        Plain::layout()
    }
}
#[cfg(feature = "derive")]
pub use derived::*;

#[cfg(feature = "nalgebra")]
pub fn geometry(p: PointXYZ) -> (nalgebra::Point3<f32>, PointXYZ) {
    (p.xyz_f32(), p.xyz_f32().into())
}

#[cfg(feature = "serde")]
mod exchanged {
    use super::*;
    fn both<T: serde::Serialize + for<'a> serde::Deserialize<'a>>() {}
    pub fn types() {
        both::<PointCloud2Msg>();
        both::<PointFieldMsg>();
        both::<HeaderMsg>();
        both::<TimeMsg>();
        both::<RGB>();
        both::<PointXYZ>();
        both::<PointXYZRGBNormal>();
    }
}
#[cfg(feature = "serde")]
pub use exchanged::types;

#[cfg(feature = "rayon")]
pub fn parallel(msg: PointCloud2Msg) -> Result<usize, MsgConversionError> {
    use rayon::iter::ParallelIterator;
    Ok(msg.try_into_par_iter::<3, PointXYZ>()?.count())
}
