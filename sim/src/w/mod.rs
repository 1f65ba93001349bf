//! Workloads: one entry per claimed property.

pub mod algebra;
pub mod history;
pub mod keys;
pub mod merges;
pub mod pointers;
pub mod scans;
pub mod searches;
#[cfg(any(shape = "f", shape = "g", shape = "h"))]
pub mod bent;
#[cfg(any(shape = "a", shape = "b", shape = "c", shape = "d", shape = "e", shape = "s"))]
pub mod shared;
pub mod sorts;
pub mod threads;
pub mod twins;
pub mod work;
pub mod zips;

pub const WORKLOADS: &[(&str, fn())] = &[
    #[cfg(not(feature = "shared"))]
    ("C01", history::c01),
    #[cfg(any(shape = "f", shape = "g", shape = "h"))]
    ("C01", bent::run),
    ("C02", history::c02),
    ("C03", history::c03),
    ("C04", work::c04),
    ("C05", history::c05),
    ("C06", scans::c06),
    ("C07", sorts::c07),
    ("C08", sorts::c08),
    ("C09", merges::c09),
    ("C10", searches::c10),
    #[cfg(not(feature = "shared"))]
    ("C11", twins::c11),
    #[cfg(any(shape = "f", shape = "g", shape = "h"))]
    ("C11", bent::run),
    #[cfg(not(feature = "shared"))]
    ("C12", threads::c12),
    #[cfg(any(shape = "a", shape = "b", shape = "c", shape = "d", shape = "e", shape = "s"))]
    ("C12", shared::c12),
    #[cfg(not(feature = "shared"))]
    ("C13", pointers::c13),
    #[cfg(any(shape = "f", shape = "g", shape = "h"))]
    ("C13", bent::run),
    ("C14", zips::c14),
    ("C17", keys::c17),
];
