//! Code tables reviewed against the SMBIOS specification (golden.txt), independent of the library's source.
use crate::val::V;
use std::collections::HashMap;
use std::sync::OnceLock;

enum Entry {
    Name(String),
    /// Name(#): the name carries the code
    Carry(String),
}
struct Table {
    ranges: Vec<(u32, u32, Entry)>,
}
static TABLES: OnceLock<HashMap<&'static str, Table>> = OnceLock::new();

fn tables() -> &'static HashMap<&'static str, Table> {
    TABLES.get_or_init(|| {
        let mut m: HashMap<&'static str, Table> = HashMap::new();
        for line in include_str!("golden.txt").lines() {
            let mut p = line.splitn(3, ' ');
            let (t, c, n) = (p.next().unwrap(), p.next().unwrap(), p.next().unwrap());
            let num = |s: &str| u32::from_str_radix(s.trim_start_matches("0x"), 16).unwrap();
            let (lo, hi) = match c.split_once('-') {
                Some((a, b)) => (num(a), num(b)),
                None => (num(c), num(c)),
            };
            let e = match n.strip_suffix("(#)") {
                Some(x) => Entry::Carry(x.to_string()),
                None => Entry::Name(n.to_string()),
            };
            m.entry(t).or_insert(Table { ranges: Vec::new() }).ranges.push((lo, hi, e));
        }
        for t in m.values_mut() {
            t.ranges.sort_by_key(|r| r.0);
        }
        m
    })
}

pub fn name(table: &str, code: u32) -> String {
    let t = tables().get(table).unwrap_or_else(|| panic!("harness: no code table {table}"));
    let i = t.ranges.partition_point(|r| r.1 < code);
    let r = &t.ranges[i];
    assert!(r.0 <= code && code <= r.1, "harness: {table} {code:#x}");
    match &r.2 {
        Entry::Name(n) => n.clone(),
        Entry::Carry(n) => format!("{n}({code})"),
    }
}
pub fn code(table: &str, code: u32) -> V {
    V::C(name(table, code))
}
/// Boundaries of all ranges: the interesting codes of a table.
pub fn edges(table: &str) -> Vec<u32> {
    let mut v: Vec<u32> = tables()[table].ranges.iter().flat_map(|r| [r.0, r.1]).collect();
    v.dedup();
    v
}
