//! Property ids, what each operation of a client puts at stake, and the profile of runs per property.
use crate::img::ImgProfile;

pub const N_PROPS: usize = 21;
pub type Tags = u32;
pub const fn t(n: u32) -> Tags {
    1 << (n - 1)
}
pub const C01: Tags = t(1);
pub const C02: Tags = t(2);
pub const C03: Tags = t(3);
pub const C04: Tags = t(4);
pub const C05: Tags = t(5);
pub const C06: Tags = t(6);
pub const C07: Tags = t(7);
pub const C08: Tags = t(8);
pub const C09: Tags = t(9);
pub const C10: Tags = t(10);
pub const C11: Tags = t(11);
pub const C12: Tags = t(12);
pub const C13: Tags = t(13);
pub const C14: Tags = t(14);
pub const C15: Tags = t(15);
pub const C16: Tags = t(16);
pub const C17: Tags = t(17);
pub const C18: Tags = t(18);
pub const C19: Tags = t(19);
pub const C20: Tags = t(20);
pub const C21: Tags = t(21);

pub fn id(i: usize) -> String {
    format!("C{:02}", i + 1)
}
pub fn parse(s: &str) -> Option<usize> {
    let n: usize = s.strip_prefix('C')?.parse().ok()?;
    (1..=N_PROPS).contains(&n).then(|| n - 1)
}
pub fn names(tags: Tags) -> String {
    (0..N_PROPS).filter(|i| tags >> i & 1 == 1).map(id).collect::<Vec<_>>().join(",")
}

/// The property that covers the contents of a structure type.
pub fn group(ty: u8) -> Tags {
    match ty {
        0..=3 => C09,
        4 | 7 | 8 | 9 => C10,
        16..=20 => C11,
        11..=15 | 21 | 22 => C12,
        _ => C21,
    }
}

pub const OP_NONE: usize = 0;
pub const OP_SEARCH: usize = 1;
pub const OP_WALK: usize = 2;
pub const OP_INSPECT: usize = 3;
pub const OP_NEST: usize = 4;
pub const OP_BITS: usize = 5;
pub const OP_FORMAT: usize = 6;
pub const OP_HASHEQ: usize = 7;
pub const OP_RAW: usize = 8;
pub const OP_CONVERT: usize = 9;
pub const OP_COLLECT: usize = 10;
pub const OP_NAMES: [&str; 11] = [
    "harness",
    "search",
    "walk",
    "inspect",
    "list",
    "bits",
    "format",
    "hash_eq",
    "raw",
    "convert",
    "collect",
];

/// What is broken when an operation does not return. `ty`: structure type at stake plus one, 0 if none.
pub fn op_tags(op: usize, ty: usize) -> Tags {
    let g = if ty > 0 { group((ty - 1) as u8) } else { 0 };
    C02 | match op {
        OP_SEARCH => C05,
        OP_WALK => C04 | g,
        OP_INSPECT => g,
        OP_NEST => C17,
        OP_BITS | OP_COLLECT => C18,
        OP_FORMAT => C15,
        OP_HASHEQ => C19,
        OP_RAW => C21,
        _ => 0,
    }
}

// indices into Profile::ops
pub const W_STEP: usize = 0;
pub const W_NTH: usize = 1;
pub const W_CLONE: usize = 2;
pub const W_MISC: usize = 3;
pub const W_NEW: usize = 4;
pub const W_SEARCH: usize = 5;
pub const W_INSPECT: usize = 6;
pub const W_LIST: usize = 7;
pub const W_CURSOR: usize = 8;
pub const W_BITS: usize = 9;
pub const W_FMT: usize = 10;
pub const W_HASH: usize = 11;
pub const W_RAW: usize = 12;
pub const W_CONV: usize = 13;
pub const W_COLLECT: usize = 14;
pub const N_W: usize = 15;

pub const M_MIXED: usize = 0;
pub const M_CUT: usize = 1;
pub const M_DAMAGE: usize = 2;
pub const M_TWIN: usize = 3;
pub const M_REREAD: usize = 4;
pub const N_M: usize = 5;
pub const MODE_NAMES: [&str; N_M] = ["mixed", "cut", "damage", "twin", "reread"];

#[derive(Clone)]
pub struct Profile {
    pub prop: usize,
    pub img: ImgProfile,
    pub modes: [u32; N_M],
    pub ops: [u32; N_W],
    pub clients: u32,
    pub max_ops: u32,
    pub kill_pct: u32,
    pub thread_pct: u32,
    pub armed_pct: u32,
    /// weights of fault rates 0, 2, 8, 25 percent per chunk
    pub rates: [u32; 4],
    pub regions: u32,
    /// what all clients of a run mostly format
    pub kind: Option<u32>,
}

pub fn profile(prop: usize) -> Profile {
    let img = ImgProfile {
        focus: &[],
        focus_pct: 0,
        broken_pct: 8,
        odd_len_pct: 20,
        dangling_pct: 3,
        bad_text_pct: 3,
        many_strings_pct: 1,
        large_pct: 1,
        decoy_pct: 10,
        far_permille: 1,
        max_pieces: 8,
    };
    let mut p = Profile {
        prop,
        img,
        modes: [60, 10, 10, 10, 10],
        ops: [20, 2, 2, 2, 2, 4, 6, 4, 8, 3, 4, 4, 4, 2, 1],
        clients: 3,
        max_ops: 16,
        kill_pct: 2,
        thread_pct: 1,
        armed_pct: 10,
        rates: [35, 30, 25, 10],
        regions: 2,
        kind: None,
    };
    let tag: Tags = 1 << prop;
    match tag {
        C01 => {
            p.img.odd_len_pct = 45;
            p.img.broken_pct = 20;
            p.rates = [15, 25, 35, 25];
            p.regions = 4;
            p.modes = [70, 20, 5, 5, 0];
        }
        C02 => {
            p.img.odd_len_pct = 40;
            p.img.broken_pct = 15;
            p.img.dangling_pct = 6;
            p.rates = [15, 25, 35, 25];
            p.ops[W_CONV] = 8;
            p.ops[W_FMT] = 8;
            p.ops[W_HASH] = 6;
            p.modes = [80, 5, 5, 5, 5];
            p.regions = 3;
        }
        C03 => {
            p.img.focus = &[3, 9, 11, 12, 13, 14, 15, 127];
            p.img.focus_pct = 45;
            p.img.broken_pct = 20;
            p.img.bad_text_pct = 12;
            p.img.many_strings_pct = 6;
            p.ops[W_CURSOR] = 24;
            p.ops[W_LIST] = 10;
            p.ops[W_BITS] = 6;
            p.ops[W_STEP] = 30;
            p.modes = [80, 10, 10, 0, 0];
        }
        C04 => {
            p.img.max_pieces = 14;
            p.img.large_pct = 4;
            p.img.broken_pct = 20;
            p.ops[W_STEP] = 40;
            p.ops[W_NTH] = 10;
            p.ops[W_CLONE] = 6;
            p.ops[W_MISC] = 8;
            p.modes = [80, 10, 10, 0, 0];
        }
        C05 => {
            p.img.decoy_pct = 60;
            p.img.far_permille = 12;
            p.img.max_pieces = 2;
            p.ops[W_SEARCH] = 80;
            p.regions = 16;
            p.modes = [100, 0, 0, 0, 0];
            p.rates = [35, 20, 25, 20];
        }
        C06 => {
            p.modes = [0, 100, 0, 0, 0];
            p.img.broken_pct = 0;
            p.img.max_pieces = 10;
            p.img.large_pct = 4;
        }
        C07 => {
            p.modes = [0, 0, 100, 0, 0];
            p.img.max_pieces = 10;
            p.img.broken_pct = 4;
        }
        C08 => {
            p.img.dangling_pct = 15;
            p.img.bad_text_pct = 14;
            p.img.many_strings_pct = 6;
            p.img.odd_len_pct = 8;
            p.ops[W_RAW] = 20;
            p.rates = [50, 30, 15, 5];
        }
        C09 | C10 | C11 | C12 => {
            p.img.focus = match tag {
                C09 => &[0, 1, 2, 3],
                C10 => &[4, 7, 8, 9],
                C11 => &[16, 17, 18, 19, 20],
                _ => &[11, 12, 13, 14, 15, 21, 22],
            };
            p.img.focus_pct = 85;
            p.img.broken_pct = 3;
            p.img.odd_len_pct = 25;
            p.img.max_pieces = 12;
            p.img.many_strings_pct = if tag == C12 { 4 } else { 1 };
            p.ops[W_INSPECT] = 12;
            p.rates = [55, 30, 12, 3];
            p.modes = [70, 5, 10, 10, 5];
        }
        C13 => {
            p.img.odd_len_pct = 60;
            p.img.broken_pct = 0;
            p.img.dangling_pct = 1;
            p.img.bad_text_pct = 1;
            p.img.max_pieces = 10;
            p.modes = [35, 5, 0, 60, 0];
            p.rates = [70, 20, 10, 0];
        }
        C14 => {
            p.clients = 4;
            p.max_ops = 24;
            p.thread_pct = 12;
            p.kill_pct = 3;
            p.ops[W_CLONE] = 6;
            p.ops[W_CURSOR] = 16;
            p.ops[W_LIST] = 8;
            p.ops[W_FMT] = 8;
            p.ops[W_HASH] = 8;
            p.rates = [60, 25, 15, 0];
        }
        C15 => {
            p.ops[W_FMT] = 60;
            p.ops[W_STEP] = 25;
            p.modes = [90, 0, 0, 0, 10];
        }
        C16 => {
            p.armed_pct = 100;
            p.ops[W_FMT] = 12;
            p.ops[W_HASH] = 8;
            p.ops[W_CONV] = 5;
            p.ops[W_COLLECT] = 4;
            p.regions = 3;
        }
        C17 => {
            p.img.focus = &[3, 9, 11, 12, 13, 14, 15];
            p.img.focus_pct = 85;
            p.img.odd_len_pct = 25;
            p.img.many_strings_pct = 3;
            p.ops[W_LIST] = 20;
            p.ops[W_CURSOR] = 60;
            p.max_ops = 40;
            p.rates = [50, 30, 15, 5];
        }
        C18 => {
            p.img.focus = &[0, 9, 13, 15];
            p.img.focus_pct = 70;
            p.ops[W_BITS] = 25;
            p.ops[W_CURSOR] = 70;
            p.ops[W_LIST] = 1;
            p.ops[W_COLLECT] = 10;
            p.max_ops = 40;
        }
        C19 => {
            p.modes = [15, 0, 0, 0, 85];
            p.ops[W_SEARCH] = 8;
            p.ops[W_HASH] = 40;
            p.kill_pct = 6;
            p.rates = [80, 15, 5, 0];
            p.img.broken_pct = 3;
            p.img.max_pieces = 10;
        }
        C20 => {
            p.img.odd_len_pct = 50;
            p.img.dangling_pct = 14;
            p.img.broken_pct = 35;
            p.img.bad_text_pct = 6;
            p.img.max_pieces = 10;
            p.modes = [75, 15, 10, 0, 0];
        }
        C21 => {
            p.img.focus = &[126, 5, 6, 10, 23, 32, 41, 43, 125, 128, 200, 255, 127];
            p.img.focus_pct = 85;
            p.img.dangling_pct = 5;
            p.ops[W_RAW] = 50;
        }
        _ => (),
    }
    p
}
