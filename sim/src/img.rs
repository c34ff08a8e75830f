//! The firmware of a run: what it publishes, generation by generation.
use crate::chooser::{Noise, Stream};
use crate::golden;
use crate::model::{Ver, DECODED};

#[derive(Clone, Debug)]
pub struct Piece {
    /// formatted area with its header
    pub f: Vec<u8>,
    pub strs: Vec<Vec<u8>>,
}
impl Piece {
    pub fn bytes(&self) -> Vec<u8> {
        let mut b = self.f.clone();
        for s in &self.strs {
            b.extend_from_slice(s);
            b.push(0);
        }
        if self.strs.is_empty() {
            b.push(0);
        }
        b.push(0);
        b
    }
    pub fn ty(&self) -> u8 {
        self.f[0]
    }
}

#[derive(Clone)]
pub struct Image {
    pub ver: Ver,
    pub v3: bool,
    pub pieces: Vec<Piece>,
    pub table: Vec<u8>,
    /// start of each piece in the table
    pub starts: Vec<usize>,
    pub declared: u32,
    pub region: Vec<u8>,
    /// every structure has a proper extent and the declared length covers them all
    pub well_formed: bool,
}

/// What a profile asks of the images.
#[derive(Clone)]
pub struct ImgProfile {
    /// types to favour
    pub focus: &'static [u8],
    /// percent of structures taken from `focus`
    pub focus_pct: u32,
    /// percent of tables whose firmware stores broken extents
    pub broken_pct: u32,
    /// percent of structures with a length that does not fit version and type
    pub odd_len_pct: u32,
    /// percent of text references that dangle
    pub dangling_pct: u32,
    /// percent of texts that are not UTF-8
    pub bad_text_pct: u32,
    /// percent of structures with an extreme number or size of texts
    pub many_strings_pct: u32,
    /// percent of tables that are large
    pub large_pct: u32,
    /// percent of regions with decoys or damage around the entry point
    pub decoy_pct: u32,
    /// permille of regions whose entry point lies far behind their start
    pub far_permille: u32,
    pub max_pieces: u32,
}

pub const VERSIONS: [Ver; 22] = [
    (3, 2),
    (2, 0),
    (2, 1),
    (2, 2),
    (2, 3),
    (2, 4),
    (2, 5),
    (2, 6),
    (2, 7),
    (2, 8),
    (3, 0),
    (3, 1),
    (3, 3),
    (3, 4),
    (3, 5),
    (3, 6),
    (3, 7),
    (2, 9),
    (2, 255),
    (4, 0),
    (255, 0),
    (2, 34),
];

struct Spec {
    ty: u8,
    lens: &'static [u8],
    strs: &'static [u8],
    codes: &'static [(u8, &'static str)],
    /// offset, width of numbers with markers or granularity bits
    nums: &'static [(u8, u8)],
}
const SPECS: &[Spec] = &[
    Spec {
        ty: 0,
        lens: &[0x12, 0x13, 0x14, 0x16, 0x18, 0x19, 0x1A, 0x1B],
        strs: &[4, 5, 8],
        codes: &[],
        nums: &[(6, 2), (9, 1), (0x0A, 8), (0x12, 1), (0x13, 1), (0x14, 1), (0x15, 1), (0x16, 1), (0x17, 1), (0x18, 2)],
    },
    Spec {
        ty: 1,
        lens: &[8, 0x18, 0x19, 0x1A, 0x1B],
        strs: &[4, 5, 6, 7, 0x19, 0x1A],
        codes: &[(0x18, "WakeupType")],
        nums: &[(8, 8), (0x10, 8)],
    },
    Spec {
        ty: 2,
        lens: &[8, 9, 0xA, 0xB, 0xC, 0xD, 0xE, 0xF, 0x11],
        strs: &[4, 5, 6, 7, 8, 0xA],
        codes: &[(0xD, "BoardType")],
        nums: &[(9, 1), (0xB, 2)],
    },
    Spec {
        ty: 3,
        lens: &[9, 0xA, 0xB, 0xC, 0xD, 0xE, 0x10, 0x11, 0x12, 0x13, 0x14, 0x15, 0x16, 0x18, 0x1B],
        strs: &[4, 6, 7, 8],
        codes: &[(5, "EnclosureType"), (9, "State"), (0xA, "State"), (0xB, "State"), (0xC, "SecurityStatus")],
        nums: &[(0xD, 4), (0x11, 1), (0x12, 1)],
    },
    Spec {
        ty: 4,
        lens: &[0x1A, 0x20, 0x23, 0x28, 0x29, 0x2A, 0x2B, 0x2F, 0x30, 0x31, 0x32],
        strs: &[4, 7, 0x10, 0x20, 0x21, 0x22],
        codes: &[(5, "ProcessorType"), (0x19, "ProcessorUpgrade")],
        nums: &[(8, 8), (0x11, 1), (0x12, 2), (0x14, 2), (0x16, 2), (0x18, 1), (0x1A, 2), (0x1C, 2), (0x1E, 2), (0x26, 2)],
    },
    Spec {
        ty: 7,
        lens: &[0xF, 0x10, 0x12, 0x13, 0x14, 0x17, 0x1A, 0x1B, 0x1C],
        strs: &[4],
        codes: &[(0x10, "CacheErrorCorrectionType"), (0x11, "SystemCacheType"), (0x12, "CacheAssociativity")],
        nums: &[(5, 2), (7, 2), (9, 2), (0xB, 2), (0xD, 2), (0xF, 1), (0x13, 4), (0x17, 4)],
    },
    Spec {
        ty: 8,
        lens: &[9, 8, 0xA],
        strs: &[4, 6],
        codes: &[(5, "ConnectorType"), (7, "ConnectorType"), (8, "PortType")],
        nums: &[],
    },
    Spec {
        ty: 9,
        lens: &[0xC, 0xD, 0x10, 0x11, 0x12, 0x13, 0x14, 0x15, 0x16, 0x17, 0x18, 0x1D, 0x22],
        strs: &[4],
        codes: &[(5, "SlotType"), (6, "SlotWidth"), (7, "CurrentUsage"), (8, "SlotLength")],
        nums: &[(9, 2), (0xB, 1), (0xC, 1), (0xD, 2), (0xF, 1), (0x10, 1), (0x11, 1)],
    },
    Spec { ty: 11, lens: &[5, 4, 6], strs: &[], codes: &[], nums: &[] },
    Spec { ty: 12, lens: &[5, 4, 6], strs: &[], codes: &[], nums: &[] },
    Spec { ty: 13, lens: &[0x16, 0x15, 0x14, 0x17], strs: &[0x15], codes: &[], nums: &[(5, 1)] },
    Spec { ty: 14, lens: &[5, 6, 7, 8, 9, 11, 14, 17], strs: &[4], codes: &[], nums: &[(5, 1), (6, 2), (8, 1), (9, 2)] },
    Spec {
        ty: 15,
        lens: &[0x14, 0x17, 0x16, 0x19, 0x1B],
        strs: &[],
        codes: &[(0x14, "LogHeaderFormat")],
        nums: &[(4, 2), (6, 2), (8, 2), (0xB, 1), (0xC, 4), (0x10, 4)],
    },
    Spec {
        ty: 16,
        lens: &[0xF, 0x17, 0xE, 0x10, 0x16, 0x18, 4],
        strs: &[],
        codes: &[(4, "MemoryArrayLocation"), (5, "MemoryArrayUse"), (6, "MemoryArrayErrorCorrectionTypes")],
        nums: &[(7, 4), (0xB, 2), (0xD, 2), (0xF, 8)],
    },
    Spec {
        ty: 17,
        lens: &[0x15, 0x1B, 0x1C, 0x20, 0x22, 0x28, 0x2B, 0x2C, 0x34, 0x54, 0x58, 0x5C, 0x64],
        strs: &[0x10, 0x11, 0x17, 0x18, 0x19, 0x1A, 0x2B],
        codes: &[(0xE, "FormFactor"), (0x12, "MemoryType"), (0x28, "MemoryTechnology")],
        nums: &[
            (4, 2),
            (6, 2),
            (8, 2),
            (0xA, 2),
            (0xC, 2),
            (0xF, 1),
            (0x13, 2),
            (0x15, 2),
            (0x1C, 4),
            (0x20, 2),
            (0x22, 2),
            (0x24, 2),
            (0x26, 2),
            (0x29, 2),
            (0x1B, 1),
            (0x2C, 2),
            (0x2E, 2),
            (0x30, 2),
            (0x32, 2),
            (0x34, 8),
            (0x3C, 8),
            (0x44, 8),
            (0x4C, 8),
            (0x54, 4),
            (0x58, 4),
        ],
    },
    Spec {
        ty: 18,
        lens: &[0x17, 0x16, 0x18],
        strs: &[],
        codes: &[(4, "ErrorType"), (5, "ErrorGranularity"), (6, "ErrorOperation")],
        nums: &[(7, 4), (0xB, 4), (0xF, 4), (0x13, 4)],
    },
    Spec {
        ty: 19,
        lens: &[0x0F, 0x1F, 0xE, 0x10, 0x1E],
        strs: &[],
        codes: &[],
        nums: &[(4, 4), (8, 4), (0xC, 2), (0xE, 1), (0xF, 8), (0x17, 8)],
    },
    Spec {
        ty: 20,
        lens: &[0x13, 0x23, 0x12, 0x14, 0x22],
        strs: &[],
        codes: &[],
        nums: &[(4, 4), (8, 4), (0xC, 2), (0xE, 2), (0x10, 1), (0x11, 1), (0x12, 1), (0x13, 8), (0x1B, 8)],
    },
    Spec {
        ty: 21,
        lens: &[7, 6, 8],
        strs: &[],
        codes: &[(4, "PointingType"), (5, "PointingInterface")],
        nums: &[(6, 1)],
    },
    Spec { ty: 22, lens: &[0x10, 0x1A, 0x11, 0x19], strs: &[4, 5, 6, 7, 8, 0xE, 0x14], codes: &[], nums: &[(0xA, 2), (0xC, 2), (0xF, 1), (0x10, 2), (0x12, 2), (0x15, 1), (0x16, 4)] },
];

/// The length the specification gives a structure of this type at this version.
fn right_len(ty: u8, v: Ver) -> usize {
    let by = |t: &[(Ver, usize)]| t.iter().rev().find(|(w, _)| v >= *w).map_or(t[0].1, |x| x.1);
    match ty {
        0 => by(&[((2, 0), 0x12), ((2, 1), 0x13), ((2, 3), 0x14), ((2, 4), 0x18), ((3, 1), 0x1A)]),
        1 => by(&[((2, 0), 8), ((2, 1), 0x19), ((2, 4), 0x1B)]),
        2 => by(&[((2, 0), 8), ((2, 1), 0xF)]),
        3 => by(&[((2, 0), 9), ((2, 1), 0xD), ((2, 3), 0x15), ((2, 7), 0x16)]),
        4 => by(&[
            ((2, 0), 0x1A),
            ((2, 1), 0x20),
            ((2, 3), 0x23),
            ((2, 5), 0x28),
            ((2, 6), 0x2A),
            ((3, 0), 0x30),
            ((3, 6), 0x32),
        ]),
        7 => by(&[((2, 0), 0xF), ((2, 1), 0x13), ((3, 1), 0x1B)]),
        8 => 9,
        9 => by(&[((2, 0), 0xC), ((2, 1), 0xD), ((2, 6), 0x11), ((3, 2), 0x13), ((3, 4), 0x18)]),
        11 | 12 => 5,
        13 => by(&[((2, 0), 0x15), ((2, 1), 0x16)]),
        14 => 11,
        15 => by(&[((2, 0), 0x14), ((2, 1), 0x17)]),
        16 => by(&[((2, 1), 0xF), ((2, 7), 0x17)]),
        17 => by(&[((2, 1), 0x20), ((2, 6), 0x20), ((2, 7), 0x22), ((2, 8), 0x28), ((3, 2), 0x54), ((3, 3), 0x5C)]),
        18 => 0x17,
        19 => by(&[((2, 1), 0xF), ((2, 7), 0x1F)]),
        20 => by(&[((2, 1), 0x13), ((2, 7), 0x23)]),
        21 => 7,
        22 => by(&[((2, 1), 0x10), ((2, 2), 0x1A)]),
        _ => 4,
    }
}

const OTHER_TYPES: [u8; 20] = [126, 5, 6, 10, 23, 24, 25, 28, 31, 32, 36, 38, 41, 43, 44, 125, 128, 200, 221, 255];

fn word_text(n: &mut Noise, len: usize) -> Vec<u8> {
    const A: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789 .-_/()";
    (0..len).map(|_| A[n.below(A.len() as u32) as usize]).collect()
}

fn text(s: &mut Stream, p: &ImgProfile) -> Vec<u8> {
    let mut n = s.noise();
    if s.chance(p.bad_text_pct) {
        let mut t = word_text(&mut n, 1 + (n_len(s) % 12));
        let bad: &[&[u8]] = &[&[0xFF], &[0xC0, 0x80], &[0xED, 0xA0, 0x80], &[0x80], &[0xE2, 0x82], &[0xF5, 0x80, 0x80, 0x80]];
        let b = *s.of(bad);
        let at = s.pick(t.len() as u32 + 1) as usize;
        t.splice(at..at, b.iter().copied());
        return t;
    }
    match s.weighted(&[70, 6, 6, 4, 3, 2, 4]) {
        0 => word_text(&mut n, 1 + n_len(s)),
        1 => {
            let t: &[&str] = &["{}", "\"q\\\"", "a\nb\tc", "To Be Filled By O.E.M.", " ", "  x ", "\u{1}\u{7f}", "%s%n", "\u{7f}\u{4}", "_SM_", "_SM3_"];
            s.of(t).as_bytes().to_vec()
        }
        2 => {
            let t: &[&str] = &["é", "日本語テキスト", "ﬁ🙂", "\u{feff}x", "Ünïcödé", "\u{10ffff}", "\u{7ff}\u{800}"];
            s.of(t).as_bytes().to_vec()
        }
        3 => word_text(&mut n, 250 + s.pick(12) as usize),
        4 => word_text(&mut n, 1000 + s.pick(60) as usize),
        5 => word_text(&mut n, 1),
        // any bytes of ASCII, control characters among them
        _ => (0..1 + n_len(s)).map(|_| 1 + n.below(127) as u8).collect(),
    }
}
fn n_len(s: &mut Stream) -> usize {
    s.pick(24) as usize
}

fn put(f: &mut [u8], off: usize, w: usize, v: u64) {
    for i in 0..w {
        if let Some(x) = f.get_mut(off + i) {
            *x = (v >> (8 * i)) as u8;
        }
    }
}

fn marker(s: &mut Stream, n: &mut Noise, w: usize) -> Option<u64> {
    let mask = if w == 8 { u64::MAX } else { (1 << (8 * w)) - 1 };
    let top = 1u64 << (8 * w - 1);
    Some(match s.weighted(&[50, 6, 7, 6, 5, 5, 5, 5, 4, 4, 4, 4]) {
        0 => return None,
        1 => 0,
        2 => mask,
        3 => mask - 1,
        4 => top,
        5 => top - 1,
        6 => 1,
        7 => 1 << n.below(8 * w as u32),
        8 => mask & !(1 << n.below(8 * w as u32)),
        9 => top | (n.next() & 0xFF),
        // around the powers of two
        10 => (1u64 << n.below(8 * w as u32)) - 1,
        // whole bytes of ones
        _ => match (0xFFu64 << (8 * n.below(w as u32)), n.below(3)) {
            (b, 0) => b,
            (b, 1) => mask & !b,
            (_, _) => mask << (8 * n.below(w as u32)) & mask,
        },
    })
}

pub fn piece(s: &mut Stream, p: &ImgProfile, ver: Ver, handle: u16) -> Piece {
    let ty = if s.chance(p.focus_pct) && !p.focus.is_empty() {
        *s.of(p.focus)
    } else {
        match s.weighted(&[25, 65, 10]) {
            0 => *s.of(&OTHER_TYPES),
            1 => *s.of(&DECODED),
            _ => {
                let t = s.pick(256) as u8;
                if t == 127 {
                    126
                } else {
                    t
                }
            }
        }
    };
    piece_of(s, p, ver, handle, ty)
}

pub fn piece_of(s: &mut Stream, p: &ImgProfile, ver: Ver, handle: u16, ty: u8) -> Piece {
    let spec = SPECS.iter().find(|x| x.ty == ty);
    // texts
    let nstr = if s.chance(p.many_strings_pct) {
        *s.of(&[255u32, 254, 256, 257, 300, 64, 128, 9])
    } else {
        match ty {
            11 | 12 | 13 => s.pick(7),
            _ => *s.of(&[0u32, 4, 6, 1, 2, 3, 8]),
        }
    } as usize;
    let many = nstr > 20;
    let mut strs: Vec<Vec<u8>> = Vec::with_capacity(nstr);
    if many {
        let mut n = s.noise();
        for i in 0..nstr {
            let mut t = word_text(&mut n, 1 + (i % 3));
            t.extend(format!("{i}").bytes());
            strs.push(t);
        }
        if s.chance(p.bad_text_pct) {
            let i = s.pick(nstr as u32) as usize;
            strs[i] = text(s, p);
        }
    } else {
        for _ in 0..nstr {
            strs.push(text(s, p));
        }
    }
    // length
    let mut n = s.noise();
    let right = right_len(ty, ver);
    let odd = s.chance(p.odd_len_pct);
    let mut len = match (spec, odd) {
        (Some(_), false) => right,
        (Some(sp), true) => match s.weighted(&[50, 20, 20, 10]) {
            0 => *s.of(sp.lens) as usize,
            1 => right + 1 + s.pick(6) as usize,
            2 => right - (1 + s.pick(6) as usize).min(right - 4),
            _ => s.range(4, 255) as usize,
        },
        (None, _) => match s.weighted(&[60, 20, 10, 10]) {
            0 => 4 + s.pick(24) as usize,
            1 => s.range(4, 255) as usize,
            2 => 255,
            _ => 4,
        },
    };
    // lists: lengths follow their counts
    let mut list: Option<(usize, usize)> = None;
    match ty {
        3 if ver >= (2, 3) || odd => {
            let r = match s.pick(10) {
                9 => s.range(3, 233) as usize,
                i => [3usize, 3, 4, 3, 2, 5, 1, 0, 8][i as usize],
            };
            let k = *s.of(&[1usize, 0, 2, 3, 5, 17, 20]);
            let k = if r > 0 { k.min((255 - 0x16) / r) } else { k };
            list = Some((k, r));
            if len >= 0x15 {
                let tail = if ver >= (2, 7) || odd { s.pick(3) as usize } else { 0 };
                len = (0x15 + k * r + tail).min(255);
                if odd && s.chance(30) {
                    len = len.saturating_sub(1 + s.pick(4) as usize).max(4);
                }
            }
        }
        9 if len > 0x12 || (ver >= (3, 2) && s.chance(50)) => {
            let k = *s.of(&[1usize, 0, 2, 3, 7, 46]);
            list = Some((k, 5));
            len = 0x13 + 5 * k + *s.of(&[5usize, 0, 1, 2, 3, 4]);
            len = len.min(255);
            if odd && s.chance(40) {
                len = len.saturating_sub(1 + s.pick(4) as usize);
            }
        }
        14 if !odd => len = 5 + 3 * *s.of(&[2usize, 0, 1, 3, 5, 20, 83]),
        15 if len >= 0x17 => {
            let y = match s.pick(9) {
                8 => s.range(1, 232) as usize,
                i => [2usize, 2, 2, 3, 1, 0, 4, 2][i as usize],
            };
            let k = *s.of(&[3usize, 0, 1, 2, 8, 50, 116, 255]);
            let k = if y == 0 { k } else { k.min((255 - 0x17) / y) };
            list = Some((k, y));
            if !odd {
                len = 0x17 + k * y;
            }
        }
        _ => (),
    }
    let len = len.clamp(4, 255);
    let mut f = vec![0u8; len];
    for b in f.iter_mut().skip(4) {
        *b = n.next() as u8;
    }
    f[0] = ty;
    f[1] = len as u8;
    f[2..4].copy_from_slice(&handle.to_le_bytes());
    if let Some(sp) = spec {
        for (o, w) in sp.nums {
            if let Some(v) = marker(s, &mut n, *w as usize) {
                put(&mut f, *o as usize, *w as usize, v);
            }
        }
        for (o, t) in sp.codes {
            let e = golden::edges(t);
            let c = match s.weighted(&[60, 30, 10]) {
                0 => *s.of(&e),
                1 => e[n.below(e.len() as u32) as usize] + n.below(2),
                _ => n.below(256),
            };
            put(&mut f, *o as usize, 1, c.min(255) as u64);
        }
        for o in sp.strs {
            let r = text_ref(s, p, nstr, &mut n);
            put(&mut f, *o as usize, 1, r);
        }
        match ty {
            2 if len > 9 => {
                if s.chance(50) {
                    f[9] &= 0x1F;
                }
            }
            3 => {
                if s.chance(50) {
                    let v = f.get(5).copied().unwrap_or(0) as u64 ^ 0x80;
                    put(&mut f, 5, 1, v);
                }
                if let Some((k, r)) = list {
                    put(&mut f, 0x13, 1, k as u64);
                    put(&mut f, 0x14, 1, r as u64);
                    let o = 0x15 + k * r;
                    let rf = text_ref(s, p, nstr, &mut n);
                    put(&mut f, o, 1, rf);
                }
                if s.chance(4) {
                    // counts that promise far more than there is
                    put(&mut f, 0x13, 2, *s.of(&[0xFFFF, 0x0240, 0x8020, 0x11FF, 0x03FF]));
                }
            }
            4 => {
                let e = golden::edges("ProcessorFamily");
                match s.weighted(&[40, 40, 20]) {
                    0 => put(&mut f, 6, 1, ((*s.of(&e) + n.below(2)) & 0xFF) as u64),
                    1 => {
                        put(&mut f, 6, 1, 0xFE);
                        let c = *s.of(&e) + s.pick(2);
                        put(&mut f, 0x28, 2, c as u64);
                    }
                    _ => put(&mut f, 6, 1, 0xFE),
                }
                if len >= 0x2A && s.chance(3) {
                    put(&mut f, 0x28, 2, *s.of(&[0xFFu64, 0xFE, 0x0, 0xFFFF, 0xFFFE]));
                }
                for o in [0x23usize, 0x24, 0x25] {
                    match s.weighted(&[40, 45, 5, 10]) {
                        0 => put(&mut f, o, 1, 1 + (n.below(254) >> (2 * (n.next() & 1))) as u64),
                        1 => put(&mut f, o, 1, 0xFF),
                        2 => put(&mut f, o, 1, 0),
                        _ => put(&mut f, o, 1, 0xFE),
                    }
                    if s.chance(30) {
                        let v = *s.of(&[0u64, 0xFF, 0x100, 0xFFFF, 1, 0xFFFE]);
                        put(&mut f, 0x2A + 2 * (o - 0x23), 2, v);
                    }
                }
            }
            9 => {
                if let Some((k, _)) = list {
                    put(&mut f, 0x12, 1, k as u64);
                    if let Some(v) = marker(s, &mut n, 2) {
                        put(&mut f, 0x16 + 5 * k, 2, v);
                    }
                }
                if s.chance(4) {
                    put(&mut f, 0x12, 1, *s.of(&[0xFFu64, 0x33, 0x34, 0x2F, 0xCD]));
                }
            }
            11 | 12 => {
                if len > 4 {
                    f[4] = nstr as u8;
                    if s.chance(p.dangling_pct) {
                        f[4] = f[4].wrapping_add(1 + s.pick(3) as u8);
                    }
                }
            }
            13 => {
                f.get_mut(4).into_iter().for_each(|x| *x = nstr as u8);
                if s.chance(p.dangling_pct + 5) {
                    let v = *s.of(&[1u64, 0, 255, 2, nstr as u64 + 1]);
                    put(&mut f, 4, 1, v);
                }
            }
            15 => {
                if let Some((k, y)) = list {
                    put(&mut f, 0x15, 1, k as u64);
                    put(&mut f, 0x16, 1, y as u64);
                }
                let m = *s.of(&[0u64, 1, 2, 3, 4, 5, 0x7F, 0x80, 0xFF, 6, 0x50, 0x90, n.next() & 0xFF, n.next() & 0xFF]);
                put(&mut f, 0xA, 1, m);
                // descriptors: favour known codes
                let (a, b) = (golden::edges("EventLogType"), golden::edges("VariableDataFormatType"));
                let mut i = 0x17;
                while i + 1 < f.len() {
                    f[i] = a[n.below(a.len() as u32) as usize] as u8;
                    f[i + 1] = b[n.below(b.len() as u32) as usize] as u8;
                    i += list.map_or(2, |l| l.1).max(2);
                }
            }
            16 => {
                if s.chance(55) {
                    put(&mut f, 7, 4, 0x8000_0000);
                    if s.chance(20) {
                        put(&mut f, 0xF, 8, *s.of(&[0u64, 1, u64::MAX, 1 << 63, 0x8000_0000]));
                    }
                } else if s.chance(30) {
                    put(&mut f, 7, 4, *s.of(&[0u64, 0x7FFF_FFFF, 0x8000_0001, 0xFFFF_FFFF]));
                }
            }
            22 => {
                for o in [6usize, 7] {
                    if s.chance(40) {
                        put(&mut f, o, 1, 0);
                    }
                }
                let c = *s.of(&[2u64, 1, 2, 3, 4, 5, 6, 7, 8, 0, 9, 255, n.next() & 0xFF]);
                put(&mut f, 9, 1, c);
            }
            _ => (),
        }
    }
    f[0] = ty;
    f[1] = len as u8;
    f[2..4].copy_from_slice(&handle.to_le_bytes());
    Piece { f, strs }
}

fn text_ref(s: &mut Stream, p: &ImgProfile, nstr: usize, n: &mut Noise) -> u64 {
    if s.chance(p.dangling_pct) {
        return match s.pick(4) {
            0 => nstr as u64 + 1,
            1 => 255,
            2 => nstr as u64 + 2,
            _ => n.below(256) as u64,
        }
        .min(255);
    }
    match nstr {
        0 => 0,
        _ => (n.below(nstr as u32 + 1) as u64).min(255),
    }
}

impl Image {
    /// Puts the pieces together; `starts` and `table` follow from them.
    pub fn assemble(&mut self) {
        self.table.clear();
        self.starts.clear();
        for p in &self.pieces {
            self.starts.push(self.table.len());
            self.table.extend(p.bytes());
        }
    }
}

/// `count`: structures in the table. What the specification leaves to the firmware is noise, zero or all ones.
pub fn entry_point(v3: bool, ver: Ver, len: u8, declared: u32, address: u64, count: u16, n: &mut Noise) -> Vec<u8> {
    let mut e = vec![0u8; len as usize];
    let fill = n.below(8);
    for b in e.iter_mut() {
        *b = match fill {
            0 => 0,
            1 => 0xFF,
            2 => [0, 0xFF, n.next() as u8][n.below(3) as usize],
            _ => n.next() as u8,
        };
    }
    if v3 {
        e[..5].copy_from_slice(b"_SM3_");
        e[6] = len;
        e[7] = ver.0;
        e[8] = ver.1;
        put(&mut e, 12, 4, declared as u64);
        put(&mut e, 16, 8, address);
        e[5] = 0;
        e[5] = e.iter().fold(0u8, |a, x| a.wrapping_sub(*x));
    } else {
        e[..4].copy_from_slice(b"_SM_");
        e[5] = len;
        e[6] = ver.0;
        e[7] = ver.1;
        e[0x10..0x15].copy_from_slice(b"_DMI_");
        put(&mut e, 0x16, 2, declared as u64);
        put(&mut e, 0x18, 4, address);
        // largest structure, number of structures, compact revision
        match n.below(8) {
            0..=2 => put(&mut e, 0x1C, 2, count as u64),
            3 => put(&mut e, 0x1C, 2, n.below(3) as u64),
            4 => put(&mut e, 0x1C, 2, count.wrapping_sub(1) as u64),
            _ => (),
        }
        if n.below(3) == 0 {
            let v = n.below(80) as u64;
            put(&mut e, 8, 2, v);
        }
        if n.below(3) == 0 {
            e[0x1E] = ver.0 << 4 | ver.1 & 15;
        }
        if n.below(3) == 0 {
            e[0xA] = 0;
            e[0xB..0x10].fill(0);
        }
        e[4] = 0;
        e[4] = e.iter().fold(0u8, |a, x| a.wrapping_sub(*x));
    }
    e
}

pub fn region(s: &mut Stream, p: &ImgProfile, v3: bool, ver: Ver, declared: u32, count: u16) -> Vec<u8> {
    let mut n = s.noise();
    let min = if v3 { 24u8 } else { 31 };
    let len = match s.weighted(&[75, 10, 10, 5]) {
        0 => min,
        1 => min + 1 + s.pick(8) as u8,
        2 => *s.of(&[64u8, 128, 129, 200, 254, 255]),
        _ => s.range(min as u32, 255) as u8,
    };
    let address = n.next() >> (n.below(64));
    let ep = entry_point(v3, ver, len, declared, address, count, &mut n);
    let lead = match s.weighted(&[800, 500, 400, 300, p.far_permille * 2]) {
        0 => 0,
        1 => 16,
        2 => 16 * s.pick(20),
        3 => 16 * s.pick(120),
        // far behind the start, on both sides of what 12, 16 and 20 bits count
        _ => match s.pick(4) {
            0 => 0x1000 + 16 * s.pick(3) - 16,
            1 => 0x10000 + 16 * s.pick(4) - 32,
            2 => 16 * s.range(0x1000, 0x2800),
            _ => 0x100000 + 16 * s.pick(4) - 32,
        },
    } as usize;
    let mut r: Vec<u8> = if lead > 8192 || s.chance(50) {
        vec![0; lead]
    } else {
        (0..lead).map(|_| n.next() as u8).collect()
    };
    let decoy = s.chance(p.decoy_pct);
    if decoy && lead >= 16 {
        for _ in 0..1 + s.pick(3) {
            // anchors that are not paragraph aligned, incomplete anchors, look-alikes
            let what: &[&[u8]] = &[b"_SM_", b"_SM3_", b"_SM", b"_SM3", b"_DMI_", b"_SM2_", b"_sm_", b"SM_", b"_SM3"];
            let w = *s.of(what);
            let whole = w == b"_SM_" || w == b"_SM3_";
            let mut at = s.pick(lead as u32) as usize;
            if whole && at % 16 == 0 {
                at += 1 + s.pick(11) as usize;
            }
            // an incomplete one may well be aligned
            if !whole && s.chance(70) {
                at -= at % 16;
            }
            if at + w.len() <= lead {
                r[at..at + w.len()].copy_from_slice(w);
            }
        }
    }
    r.extend_from_slice(&ep);
    // what follows the entry point
    let tail = match s.weighted(&[40, 20, 20, 10, 10]) {
        0 => 0,
        1 => s.pick(40) as usize,
        2 => (16 - r.len() % 16) % 16 + 16 * s.pick(20) as usize,
        // the rest of the region, from the anchor, close to a multiple of 256
        3 => (256 * (1 + s.pick(3) as usize) + s.pick(len as u32 + 2) as usize).saturating_sub(len as usize),
        _ => (4096 - r.len() % 4096) % 4096,
    };
    let at = r.len();
    r.extend((0..tail).map(|_| n.next() as u8));
    if decoy && s.chance(60) {
        // a second, different anchor behind
        let at = (at + 15) / 16 * 16;
        let e2 = entry_point(!v3, (2, 1), if v3 { 31 } else { 24 }, declared ^ 0x55, 1, count, &mut n);
        if at + e2.len() <= r.len() {
            r[at..at + e2.len()].copy_from_slice(&e2);
        } else if s.chance(50) {
            r.resize(at, 0);
            r.extend(e2);
        }
    }
    if decoy && s.chance(35) {
        // the firmware itself stores a damaged entry point
        let o = r.len().min(lead) + if v3 { *s.of(&[6usize, 7, 5, 12, 0]) } else { *s.of(&[5usize, 6, 4, 0x16, 0]) };
        if let Some(b) = r.get_mut(o) {
            *b = match s.pick(4) {
                0 => b.wrapping_add(1),
                1 => 0,
                2 => 1,
                _ => *b ^ (1 << s.pick(8)),
            };
        }
        if s.chance(60) {
            // ... with a correct checksum
            let c = lead + if v3 { 5 } else { 4 };
            let l = r.get(lead + if v3 { 6 } else { 5 }).copied().unwrap_or(0) as usize;
            if c < r.len() && lead + l <= r.len() && l > 6 {
                r[c] = 0;
                let sum = r[lead..lead + l].iter().fold(0u8, |a, x| a.wrapping_add(*x));
                r[c] = 0u8.wrapping_sub(sum);
            }
        }
    }
    r
}

pub fn image(s: &mut Stream, p: &ImgProfile) -> Image {
    let ver = if s.chance(92) { *s.of(&VERSIONS) } else { (2 + s.pick(3) as u8, s.pick(256) as u8) };
    let v3 = if ver.0 >= 3 { !s.chance(15) } else { s.chance(15) };
    let n = 1 + s.pick(p.max_pieces);
    let large = s.chance(p.large_pct);
    let h0 = match s.weighted(&[85, 5, 5, 5]) {
        0 => s.pick(0xFFFF) as u16,
        1 => 0,
        2 => 0xFFF0,
        _ => 0x7FF8,
    };
    let mut pieces: Vec<Piece> = Vec::new();
    for i in 0..n {
        let h = match s.weighted(&[90, 4, 2, 2, 1, 1]) {
            0 => h0.wrapping_add((i * 7) as u16),
            1 => h0,
            2 => 0xFFFF,
            3 => 0,
            4 => 0xFFFE,
            _ => 0x0100,
        };
        pieces.push(piece(s, p, ver, h));
    }
    if s.chance(8) {
        // the same structure once more, to the byte or all but the text, next to it or further on
        let i = s.pick(pieces.len() as u32) as usize;
        let mut again = pieces[i].clone();
        if s.chance(30) {
            if let Some(t) = again.strs.last_mut() {
                t.push(b'+');
            }
        }
        let at = if s.chance(70) { i + 1 } else { s.pick(pieces.len() as u32 + 1) as usize };
        pieces.insert(at, again);
    }
    if large {
        let mut no = s.noise();
        let at = s.pick(pieces.len() as u32 + 1) as usize;
        let f = vec![200u8, 5, no.next() as u8, 0x77, 1];
        match s.weighted(&[40, 15, 15, 30]) {
            // beyond 64 KiB in total
            0 => {
                let big = s.range(60, 110) as usize;
                pieces.insert(at, Piece { f, strs: (0..big).map(|_| word_text(&mut no, 1020)).collect() });
            }
            // one text beyond what 12 or 16 bits count
            1 => {
                let len = *s.of(&[4100usize, 4096, 65540, 32770, 70000]);
                let strs = vec![word_text(&mut no, 3), word_text(&mut no, len), word_text(&mut no, 5)];
                pieces.insert(at, Piece { f, strs });
            }
            // more short texts than 12 bits count
            2 => {
                let k = *s.of(&[600usize, 1030, 4100]);
                pieces.insert(at, Piece { f, strs: (0..k).map(|i| format!("{i}").into_bytes()).collect() });
            }
            // more structures than a byte counts
            _ => {
                let k = *s.of(&[253usize, 256, 258, 300, 520]);
                for i in 0..k {
                    let h = (i as u16).wrapping_mul(3).wrapping_add(0x7000).to_le_bytes();
                    pieces.insert(at, Piece { f: vec![201u8, 4, h[0], h[1]], strs: vec![] });
                }
            }
        }
    }
    let mut ends = 0;
    match s.weighted(&[70, 12, 10, 8]) {
        0 => {
            pieces.push(end_piece(s));
            ends = 1;
        }
        1 => {
            // more behind the end marker
            pieces.push(end_piece(s));
            ends = 1;
            for i in 0..1 + s.pick(3) {
                pieces.push(piece(s, p, ver, 0x5000 + i as u16));
            }
        }
        2 => (),
        _ => {
            let at = s.pick(pieces.len() as u32) as usize;
            pieces.insert(at, end_piece(s));
            ends = 1;
        }
    }
    let mut im = Image {
        ver,
        v3,
        pieces,
        table: vec![],
        starts: vec![],
        declared: 0,
        region: vec![],
        well_formed: true,
    };
    im.assemble();
    let max = if v3 { u32::MAX } else { 65535 };
    let total = im.table.len() as u32;
    im.declared = match s.weighted(&[80, 8, 6, 6]) {
        0 => total,
        1 => {
            // room to spare
            im.well_formed = ver.0 >= 3 && ends > 0;
            total + *s.of(&[1u32, 2, 3, 4, 5, 16, 1000, 0x8000_0000, u32::MAX - 0x40000])
        }
        2 => {
            // ends inside a structure
            im.well_formed = false;
            s.pick(total + 1)
        }
        _ => {
            // ends with a structure
            let i = s.pick(im.starts.len() as u32) as usize;
            im.starts[i] as u32 + *s.of(&[0u32, 1, 3, 4, 5])
        }
    };
    if im.declared != total {
        im.well_formed &= im.declared >= total;
    }
    if im.declared > max {
        im.declared = max;
        im.well_formed &= im.declared >= total;
    }
    if s.chance(p.broken_pct) {
        im.well_formed = false;
        let i = s.pick(im.starts.len() as u32) as usize;
        let at = im.starts[i];
        match s.pick(5) {
            0 => im.table[at + 1] = s.pick(4) as u8,
            1 => im.table[at + 1] = im.table[at + 1].wrapping_add(1 + s.pick(5) as u8),
            2 => im.table[at + 1] = 255,
            3 => {
                // the last terminator is incomplete
                im.table.pop();
            }
            _ => {
                // texts run on
                im.table.truncate(at + im.pieces[i].f.len());
                im.table.extend_from_slice(b"no end");
            }
        }
    }
    im.region = region(s, p, v3, ver, im.declared, im.pieces.len() as u16);
    im
}

fn end_piece(s: &mut Stream) -> Piece {
    let mut f = vec![127u8, 4, 0xFE, 0xFE];
    if s.chance(10) {
        let k = 1 + s.pick(6) as usize;
        f.resize(4 + k, 0x33);
        f[1] = f.len() as u8;
    }
    Piece { f, strs: if s.chance(5) { vec![b"end".to_vec()] } else { vec![] } }
}
