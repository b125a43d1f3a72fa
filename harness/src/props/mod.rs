#[cfg(feature = "c01")]
pub mod c01;
#[cfg(feature = "c02")]
pub mod c02;
#[cfg(feature = "c03")]
pub mod c03;
#[cfg(feature = "c04")]
pub mod c04;
#[cfg(feature = "c05")]
pub mod c05;
#[cfg(feature = "c06")]
pub mod c06;
#[cfg(feature = "builder")]
pub mod c07;
#[cfg(feature = "c08")]
pub mod c08;
#[cfg(feature = "c09")]
pub mod c09;
#[cfg(feature = "c10")]
pub mod c10;
#[cfg(feature = "c12")]
pub mod c12;
#[cfg(feature = "c14")]
pub mod c14;
#[cfg(feature = "c15")]
pub mod c15;
#[cfg(feature = "c16")]
pub mod c16;
#[cfg(feature = "c17")]
pub mod c17;
#[cfg(feature = "c19")]
pub mod c19;
#[cfg(any(feature = "c20", feature = "c21"))]
pub mod c20;
#[cfg(feature = "c21")]
pub mod c21;

#[macro_export]
macro_rules! with_prop {
    ($id:expr, $P:ident => $e:expr, $other:expr) => {
        match $id {
            #[cfg(feature = "c01")]
            "C01" => { type $P = $crate::props::c01::C01; $e }
            #[cfg(feature = "c02")]
            "C02" => { type $P = $crate::props::c02::C02; $e }
            #[cfg(feature = "c03")]
            "C03" => { type $P = $crate::props::c03::C03; $e }
            #[cfg(feature = "c04")]
            "C04" => { type $P = $crate::props::c04::C04; $e }
            #[cfg(feature = "c05")]
            "C05" => { type $P = $crate::props::c05::C05; $e }
            #[cfg(feature = "c06")]
            "C06" => { type $P = $crate::props::c06::C06; $e }
            #[cfg(feature = "c07")]
            "C07" => { type $P = $crate::props::c07::C07; $e }
            #[cfg(feature = "c08")]
            "C08" => { type $P = $crate::props::c08::C08; $e }
            #[cfg(feature = "c09")]
            "C09" => { type $P = $crate::props::c09::C09; $e }
            #[cfg(feature = "c10")]
            "C10" => { type $P = $crate::props::c10::C10; $e }
            #[cfg(feature = "c12")]
            "C12" => { type $P = $crate::props::c12::C12; $e }
            #[cfg(feature = "c14")]
            "C14" => { type $P = $crate::props::c14::C14; $e }
            #[cfg(feature = "c15")]
            "C15" => { type $P = $crate::props::c15::C15; $e }
            #[cfg(feature = "c16")]
            "C16" => { type $P = $crate::props::c16::C16; $e }
            #[cfg(feature = "c17")]
            "C17" => { type $P = $crate::props::c17::C17; $e }
            #[cfg(feature = "c19")]
            "C19" => { type $P = $crate::props::c19::C19; $e }
            #[cfg(feature = "c20")]
            "C20" => { type $P = $crate::props::c20::C20; $e }
            #[cfg(feature = "c21")]
            "C21" => { type $P = $crate::props::c21::C21; $e }
            _ => $other,
        }
    };
}
pub use crate::with_prop;
