//! C06: scans, by index and by pointer, with predicates the simulator answers for.

use super::{history, pointers};
use crate::sim::weighted;

pub fn c06() {
    match weighted(&[3, 2]) {
        0 => history::run(history::Mix { algebra: 5, read: 1, write: 2, scan: 12, grow: 2, ..history::BASE }, 0, 3),
        _ => pointers::run(pointers::Mix { algebra: 4, read: 1, write: 2, scan: 10, clients: 1, split: 1, index: 1 }, 0),
    }
}
