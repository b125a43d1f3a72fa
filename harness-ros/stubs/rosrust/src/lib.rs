//! Same public fields as rosrust's time type.
#[derive(Copy, Clone, Default, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Time {
    pub sec: u32,
    pub nsec: u32,
}
