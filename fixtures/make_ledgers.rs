//! Made fixtures/ledgers.tar.xz from the output of `slashing-conformance ledgers`
//! on what TLC prints for spec/LedgerFixtures.tla: compiled as a binary of the
//! command-line client crate, run once as `gen LEDGERS.txt DIR`.
use solana_ledger::{blockstore::Blockstore, blockstore_options::*};
fn hex(s: &str) -> Vec<u8> { (0..s.len()/2).map(|i| u8::from_str_radix(&s[2*i..2*i+2],16).unwrap()).collect() }
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let text = std::fs::read_to_string(&a[1]).unwrap();
    for led in ["main","early","later","empty"] {
        let dir = std::path::PathBuf::from(&a[2]).join(led);
        std::fs::create_dir_all(&dir).unwrap();
        let b = Blockstore::open(&dir).unwrap();
        for l in text.lines() {
            let w: Vec<&str> = l.split(' ').collect();
            if w[0] == led { b.store_duplicate_slot(w[1].parse().unwrap(), hex(w[2]), hex(w.get(3).copied().unwrap_or(""))).unwrap(); }
        }
        for s in b.duplicate_slots_iterator(0).unwrap() { println!("{led} {s}"); }
    }
}
