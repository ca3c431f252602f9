//! In-memory contract storage with cheap clones, an incrementally maintained 128-bit content hash
//! (used to recognise states) and per-thread access counters (used by the cost check).
use cosmwasm_std::{Order, Record, Storage};
use std::cell::Cell;
use std::collections::hash_map::DefaultHasher;
use std::collections::BTreeMap;
use std::hash::Hasher;
use std::ops::Bound;
use std::sync::Arc;

thread_local! {
    pub static READS: Cell<u64> = const { Cell::new(0) };
    pub static WRITES: Cell<u64> = const { Cell::new(0) };
}

pub fn reset_counters() {
    READS.with(|c| c.set(0));
    WRITES.with(|c| c.set(0));
}
pub fn counters() -> (u64, u64) {
    (READS.with(|c| c.get()), WRITES.with(|c| c.get()))
}
fn bump(c: &'static std::thread::LocalKey<Cell<u64>>) {
    c.with(|c| c.set(c.get() + 1));
}

#[derive(Clone, Default)]
pub struct Store {
    pub map: BTreeMap<Arc<[u8]>, Arc<[u8]>>,
    pub hash: u128,
}

pub fn h128(parts: &[&[u8]]) -> u128 {
    let mut out = 0u128;
    for seed in [0x9e37u16, 0x79b9u16] {
        let mut h = DefaultHasher::new();
        h.write_u16(seed);
        for p in parts {
            h.write_usize(p.len());
            h.write(p);
        }
        out = (out << 64) | h.finish() as u128;
    }
    out
}

impl Storage for Store {
    fn get(&self, key: &[u8]) -> Option<Vec<u8>> {
        bump(&READS);
        self.map.get(key).map(|v| v.to_vec())
    }
    fn set(&mut self, key: &[u8], value: &[u8]) {
        bump(&WRITES);
        let h = h128(&[key, value]);
        if let Some(old) = self.map.insert(Arc::from(key), Arc::from(value)) {
            self.hash = self.hash.wrapping_sub(h128(&[key, &old]));
        }
        self.hash = self.hash.wrapping_add(h);
    }
    fn remove(&mut self, key: &[u8]) {
        bump(&WRITES);
        if let Some(old) = self.map.remove(key) {
            self.hash = self.hash.wrapping_sub(h128(&[key, &old]));
        }
    }
    fn range<'a>(
        &'a self,
        start: Option<&[u8]>,
        end: Option<&[u8]>,
        order: Order,
    ) -> Box<dyn Iterator<Item = Record> + 'a> {
        if let (Some(s), Some(e)) = (start, end) {
            if s >= e {
                return Box::new(std::iter::empty());
            }
        }
        let lo: Bound<&[u8]> = start.map_or(Bound::Unbounded, Bound::Included);
        let hi: Bound<&[u8]> = end.map_or(Bound::Unbounded, Bound::Excluded);
        let it = self.map.range::<[u8], _>((lo, hi));
        let f = |(k, v): (&Arc<[u8]>, &Arc<[u8]>)| {
            bump(&READS);
            (k.to_vec(), v.to_vec())
        };
        match order {
            Order::Ascending => Box::new(it.map(f)),
            Order::Descending => Box::new(it.rev().map(f)),
        }
    }
}
