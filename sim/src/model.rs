//! Executable reference model, written from the SMBIOS specification and the documented behaviour of the
//! library, over plain bytes: entry-point search, table walk, string sets and every decoded structure.
//! It shares no code with the library.
use crate::golden::{code, name};
use crate::val::*;

pub type Ver = (u8, u8);

// ---------------------------------------------------------------- entry point

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Ep {
    pub v3: bool,
    pub len: u8,
    pub ver: Ver,
    pub revision: u8,
    pub address: u64,
    pub table_len: u32,
    pub at: usize,
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum EpErr {
    NotFound,
    TooOld(u8),
    BadSize(u8),
    BadChecksum(u8),
}

fn le(b: &[u8]) -> u64 {
    b.iter().rev().fold(0, |a, x| (a << 8) | *x as u64)
}

/// Ok, or every reason that applies to the first anchor (which one is reported first is not promised).
pub fn search(region: &[u8]) -> Result<Ep, Vec<EpErr>> {
    let mut at = 0;
    let found = loop {
        if at >= region.len() {
            break None;
        }
        let r = &region[at..];
        if r.starts_with(b"_SM_") {
            break Some(false);
        }
        if r.starts_with(b"_SM3_") {
            break Some(true);
        }
        at += 16;
    };
    let Some(v3) = found else { return Err(vec![EpErr::NotFound]) };
    let r = &region[at..];
    let size = if v3 { 24 } else { 31 };
    let lenpos = if v3 { 6 } else { 5 };
    let mut errs = Vec::new();
    if r.len() < size {
        errs.push(EpErr::BadSize(r.len() as u8));
    }
    if let Some(l) = r.get(lenpos) {
        if (*l as usize) < size {
            errs.push(EpErr::BadSize(*l));
        }
        if r.len() < *l as usize {
            errs.push(EpErr::BadSize(r.len() as u8));
        } else {
            let sum = r[..*l as usize].iter().fold(0u8, |a, x| a.wrapping_add(*x));
            if sum != 0 {
                errs.push(EpErr::BadChecksum(sum));
            }
        }
        if let Some(m) = r.get(lenpos + 1) {
            if *m < 2 {
                errs.push(EpErr::TooOld(*m));
            }
        }
    }
    if !errs.is_empty() {
        return Err(errs);
    }
    Ok(if v3 {
        Ep {
            v3,
            len: r[6],
            ver: (r[7], r[8]),
            revision: r[10],
            table_len: le(&r[12..16]) as u32,
            address: le(&r[16..24]),
            at,
        }
    } else {
        Ep {
            v3,
            len: r[5],
            ver: (r[6], r[7]),
            revision: r[10],
            table_len: le(&r[0x16..0x18]) as u32,
            address: le(&r[0x18..0x1C]),
            at,
        }
    })
}

// ---------------------------------------------------------------- walk

#[derive(Clone, Debug)]
pub enum Frame {
    /// the structure at this offset has a header, formatted area and string set inside the buffer
    Whole { ty: u8, len: u8, handle: u16, strings_at: usize, end: usize },
    BadSize(u8),
    Unterminated,
}
#[derive(Clone, Debug)]
pub struct Item {
    pub off: usize,
    pub frame: Frame,
    pub outcome: Outcome,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Outcome {
    Fields(Fields),
    /// any one of these
    Errs(Vec<E>),
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum E {
    BadSize(u32, u8),
    Unterminated(u32),
    Str(u8, u16, u8),
    Len(u8, u16, &'static str, u8),
    Slice,
}

pub fn frames(buf: &[u8], declared: u32, ver: Ver) -> Vec<Item> {
    let declared = declared as usize;
    let mut out = Vec::new();
    let mut i = 0usize;
    while i + 4 <= declared {
        let rest = &buf[i..];
        let bad = |n: u8| Item {
            off: i,
            frame: Frame::BadSize(n),
            outcome: Outcome::Errs(vec![E::BadSize(i as u32, n)]),
        };
        if rest.len() < 4 {
            out.push(bad(rest.len() as u8));
            break;
        }
        let len = rest[1] as usize;
        if len < 4 || len > rest.len() || i + len >= declared {
            out.push(bad(rest[1]));
            break;
        }
        let term = rest[len..].windows(2).position(|w| w == [0, 0]);
        let Some(t) = term else {
            out.push(Item {
                off: i,
                frame: Frame::Unterminated,
                outcome: Outcome::Errs(vec![E::Unterminated(i as u32)]),
            });
            break;
        };
        let end = i + len + t + 2;
        let (ty, handle) = (rest[0], u16::from_le_bytes([rest[2], rest[3]]));
        let outcome = decode(ty, handle, ver, &rest[..len], &buf[i + len..end]);
        out.push(Item {
            off: i,
            frame: Frame::Whole { ty, len: rest[1], handle, strings_at: i + len, end },
            outcome,
        });
        i = end;
        if ver.0 >= 3 && ty == 127 {
            break;
        }
    }
    out
}

/// All strings of a string set; None for text that is not UTF-8.
pub fn strings(set: &[u8]) -> Vec<Option<String>> {
    let mut v = Vec::new();
    let mut rest = set;
    loop {
        let n = rest.iter().position(|b| *b == 0).unwrap_or(rest.len());
        if n == 0 {
            return v;
        }
        v.push(String::from_utf8(rest[..n].to_vec()).ok());
        rest = rest.get(n + 1..).unwrap_or(&[]);
    }
}

// ---------------------------------------------------------------- decode

struct D<'a> {
    ty: u8,
    handle: u16,
    /// formatted area including its header, so that indices are specification offsets
    f: &'a [u8],
    strs: Vec<Option<String>>,
    errs: Vec<E>,
    out: Fields,
}

impl D<'_> {
    fn has(&self, off: usize, n: usize) -> bool {
        off + n <= self.f.len()
    }
    fn num(&self, off: usize, n: usize) -> Option<u64> {
        self.f.get(off..off + n).map(le)
    }
    fn b(&self, off: usize) -> Option<u8> {
        self.f.get(off).copied()
    }
    /// must be present
    fn req(&mut self, off: usize, n: usize) -> u64 {
        match self.num(off, n) {
            Some(v) => v,
            None => {
                self.errs.push(E::Slice);
                0
            }
        }
    }
    fn resolve(&self, idx: u8) -> Option<String> {
        if idx == 0 {
            return Some(String::new());
        }
        self.strs.get(idx as usize - 1).cloned().flatten()
    }
    fn text(&mut self, off: usize) -> V {
        match self.b(off) {
            None => {
                self.errs.push(E::Slice);
                V::N
            }
            Some(i) => match self.resolve(i) {
                Some(s) => V::T(s),
                None => {
                    self.errs.push(E::Str(self.ty, self.handle, i));
                    V::N
                }
            },
        }
    }
    fn text_if(&mut self, present: bool, off: usize) -> V {
        if present {
            self.text(off)
        } else {
            V::N
        }
    }
    fn p(&mut self, n: &'static str, v: V) {
        self.out.push((n, v));
    }
    fn ptext(&mut self, n: &'static str, off: usize) {
        let v = self.text(off);
        self.p(n, v);
    }
    fn pnum(&mut self, n: &'static str, off: usize, w: usize) {
        let v = self.req(off, w);
        self.p(n, V::U(v));
    }
    fn pcode(&mut self, n: &'static str, table: &str, off: usize) {
        let v = self.req(off, 1);
        self.p(n, code(table, v as u32));
    }
    fn opt(&mut self, n: &'static str, off: usize, w: usize) {
        let v = ou(self.num(off, w));
        self.p(n, v);
    }
    /// absent if not stored or equal to the marker
    fn opt_not(&mut self, n: &'static str, off: usize, w: usize, marker: u64) {
        let v = ou(self.num(off, w).filter(|v| *v != marker));
        self.p(n, v);
    }
    fn num_if(&mut self, n: &'static str, present: bool, off: usize, w: usize) {
        let v = if present { ou(self.num(off, w)) } else { V::N };
        self.p(n, v);
    }
    fn code_if(&mut self, n: &'static str, table: &str, present: bool, off: usize) {
        let v = match self.b(off) {
            Some(c) if present => code(table, c as u32),
            _ => V::N,
        };
        self.p(n, v);
    }
    fn len_err(&mut self, spec: &'static str, n: u8) {
        self.errs.push(E::Len(self.ty, self.handle, spec, n));
    }
}

pub const DECODED: [u8; 20] = [0, 1, 2, 3, 4, 7, 8, 9, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22];
pub fn is_decoded(ty: u8) -> bool {
    DECODED.contains(&ty)
}

pub fn variable_format(c: u8) -> String {
    let n = name("VariableDataFormatType", c as u32);
    match n.find(['(', ' ']) {
        Some(i) if !n.ends_with(&format!("({c})")) || c < 7 => n[..i].to_string(),
        _ => n,
    }
}

/// A word or dword size with its granularity in the top bit.
fn size(v: u64, bits: u32) -> V {
    let top = 1u64 << (bits - 1);
    V::R(vec![V::C(if v & top != 0 { "64K".into() } else { "1K".into() }), V::U(v & (top - 1))])
}

pub fn decode(ty: u8, handle: u16, ver: Ver, f: &[u8], set: &[u8]) -> Outcome {
    let l = f.len();
    let mut d = D { ty, handle, f, strs: strings(set), errs: Vec::new(), out: Vec::new() };
    d.p("handle", u(handle));
    match ty {
        0 => {
            if l < 0x12 {
                d.len_err("minimum of ", 0x12);
            } else {
                let v24 = ver >= (2, 4) && l >= 0x18;
                let v31 = ver >= (3, 1) && l >= 0x1A;
                d.ptext("vendor", 4);
                d.ptext("bios_version", 5);
                d.pnum("segment", 6, 2);
                d.ptext("release_date", 8);
                d.pnum("rom_size", 9, 1);
                d.num_if("rom_size_extended", v31, 0x18, 2);
                d.pnum("characteristics", 0x0A, 8);
                d.num_if("extension_1", v24, 0x12, 1);
                d.num_if("extension_2", v24, 0x13, 1);
                for (n, o) in [("bios_revision", 0x14), ("firmware_revision", 0x16)] {
                    let v = if v24 { V::R(vec![u(f[o]), u(f[o + 1])]) } else { V::N };
                    d.p(n, v);
                }
                let ext = if v31 { le(&f[0x18..0x1A]) } else { 0xFFFF };
                let v = match (f[9], ext >> 14) {
                    (0xFF, 0) => V::U((ext & 0x3FFF) << 20),
                    (0xFF, 1) => V::U((ext & 0x3FFF) << 30),
                    (0xFF, _) => V::N,
                    (n, _) => V::U((n as u64 + 1) * 65536),
                };
                d.p("rom_bytes", v);
            }
        }
        1 => {
            if l < 8 {
                d.len_err("minimum of ", 8);
            } else {
                let v21 = ver >= (2, 1) && l >= 0x19;
                let v24 = ver >= (2, 4) && l >= 0x1B;
                d.ptext("manufacturer", 4);
                d.ptext("product", 5);
                d.ptext("version", 6);
                d.ptext("serial", 7);
                let v = if v21 {
                    let mut b = f[8..24].to_vec();
                    if ver >= (2, 6) {
                        b[0..4].reverse();
                        b[4..6].reverse();
                        b[6..8].reverse();
                    }
                    V::Bytes(b)
                } else {
                    V::N
                };
                d.p("uuid", v);
                d.code_if("wakeup", "WakeupType", v21, 0x18);
                let v = d.text_if(v24, 0x19);
                d.p("sku", v);
                let v = d.text_if(v24, 0x1A);
                d.p("family", v);
            }
        }
        2 => {
            if l < 8 {
                d.len_err("minimum of ", 8);
            } else {
                d.ptext("manufacturer", 4);
                d.ptext("product", 5);
                d.ptext("version", 6);
                d.ptext("serial", 7);
                let v = d.text_if(l > 8, 8);
                d.p("asset", v);
                let v = ou(d.b(9).map(|x| x & 0x1F));
                d.p("feature_flags", v);
                let v = d.text_if(l > 0xA, 0xA);
                d.p("location", v);
                d.opt("chassis_handle", 0xB, 2);
                d.code_if("board_type", "BoardType", true, 0xD);
            }
        }
        3 => {
            if l < 9 {
                d.len_err("minimum of ", 5);
            } else {
                d.ptext("manufacturer", 4);
                d.p("lock", b(f[5] & 0x80 != 0));
                d.p("type", code("EnclosureType", (f[5] & 0x7F) as u32));
                d.ptext("version", 6);
                d.ptext("serial", 7);
                d.ptext("asset", 8);
                d.code_if("boot_up_state", "State", true, 9);
                d.code_if("power_supply_state", "State", true, 0xA);
                d.code_if("thermal_state", "State", true, 0xB);
                d.code_if("security", "SecurityStatus", true, 0xC);
                d.opt("oem", 0xD, 4);
                // fields follow each other: one that is cut off leaves nothing for the next ones
                d.num_if("height", d.has(0xD, 4), 0x11, 1);
                d.num_if("cords", d.has(0xD, 4), 0x12, 1);
                let mut elements = V::N;
                let mut sku_at = None;
                if d.has(0x13, 2) {
                    let (n, r) = (f[0x13] as usize, f[0x14] as usize);
                    if d.has(0x15, n * r) {
                        let list = if r >= 3 { f[0x15..0x15 + n * r].chunks(r).map(element).collect() } else { vec![] };
                        elements = V::R(vec![u(n as u64), V::L(list)]);
                        sku_at = Some(0x15 + n * r);
                    }
                }
                d.p("elements", elements);
                let v = match sku_at {
                    Some(o) => d.text_if(d.has(o, 1), o),
                    None => V::N,
                };
                d.p("sku", v);
            }
        }
        4 => {
            if l < 0x1A {
                d.len_err("minimum of ", 0x1A);
            } else {
                let at = |v: Ver, n: usize| ver >= v && l >= n;
                let (v21, v23, v25, v26, v30) =
                    (at((2, 1), 0x20), at((2, 3), 0x23), at((2, 5), 0x28), at((2, 6), 0x2A), at((3, 0), 0x30));
                d.ptext("socket", 4);
                d.pcode("type", "ProcessorType", 5);
                let fam = f[6] as u32;
                let fam = if fam == 0xFE && v26 { le(&f[0x28..0x2A]) as u32 } else { fam };
                d.p("family", code("ProcessorFamily", fam));
                d.ptext("manufacturer", 7);
                d.pnum("id", 8, 8);
                d.ptext("version", 0x10);
                let x = f[0x11];
                let v = if x & 0x80 != 0 {
                    V::R(vec![V::C("Current".into()), u(x & 0x7F)])
                } else if x & 0x78 != 0 {
                    V::R(vec![V::C("Undefined".into()), u(x)])
                } else {
                    V::R(vec![V::C("Legacy".into()), u(x & 7)])
                };
                d.p("voltage", v);
                d.pnum("external_clock", 0x12, 2);
                d.pnum("max_speed", 0x14, 2);
                d.pnum("current_speed", 0x16, 2);
                d.p("status", u(f[0x18] & 0x47));
                d.pcode("upgrade", "ProcessorUpgrade", 0x19);
                d.num_if("l1", v21, 0x1A, 2);
                d.num_if("l2", v21, 0x1C, 2);
                d.num_if("l3", v21, 0x1E, 2);
                for (n, o) in [("serial", 0x20), ("asset", 0x21), ("part", 0x22)] {
                    let v = d.text_if(v23, o);
                    d.p(n, v);
                }
                for (n, o, w) in [("cores", 0x23, 0x2A), ("enabled", 0x24, 0x2C), ("threads", 0x25, 0x2E)] {
                    let v = if v30 && f[o] == 0xFF {
                        ou(d.num(w, 2))
                    } else if v25 {
                        ou(d.num(o, 1))
                    } else {
                        V::N
                    };
                    d.p(n, v);
                }
                let v = if v25 { ou(d.num(0x26, 2).map(|x| x & 0x2FF)) } else { V::N };
                d.p("characteristics", v);
            }
        }
        7 => {
            if l < 0xF {
                d.len_err("minimum of ", 0x0F);
            } else {
                let v21 = ver >= (2, 1) && l >= 0x13;
                let v31 = ver >= (3, 1) && l >= 0x1B;
                d.ptext("socket", 4);
                let c = le(&f[5..7]);
                let v = V::R(vec![
                    V::C(format!("L{}", (c & 7) + 1)),
                    b(c & 8 != 0),
                    V::C(["Internal", "External", "Reserved", "Unknown"][(c >> 5 & 3) as usize].into()),
                    b(c & 0x80 != 0),
                    V::C(
                        ["WriteThrough", "WriteBack", "ValuesWithMemoryAddress", "Unknown"][(c >> 8 & 3) as usize]
                            .into(),
                    ),
                ]);
                d.p("configuration", v);
                d.p("maximum", size(le(&f[7..9]), 16));
                d.p("installed", size(le(&f[9..11]), 16));
                d.p("supported_sram", V::U(le(&f[0xB..0xD]) & 0x7F));
                d.p("current_sram", V::U(le(&f[0xD..0xF]) & 0x7F));
                d.num_if("speed", v21, 0xF, 1);
                d.code_if("error_correction", "CacheErrorCorrectionType", v21, 0x10);
                d.code_if("system_type", "SystemCacheType", v21, 0x11);
                d.code_if("associativity", "CacheAssociativity", v21, 0x12);
                let v = if v31 { size(le(&f[0x13..0x17]), 32) } else { V::N };
                d.p("maximum_2", v);
                let v = if v31 { size(le(&f[0x17..0x1B]), 32) } else { V::N };
                d.p("installed_2", v);
                let bytes = |o: usize, n: usize| {
                    let (v, top) = (le(&f[o..o + n]), 1u64 << (8 * n - 1));
                    V::U((v & (top - 1)) * if v & top != 0 { 65536 } else { 1024 })
                };
                let v = if v31 { vec![bytes(7, 2), bytes(9, 2), bytes(0x13, 4), bytes(0x17, 4)] } else { vec![bytes(7, 2), bytes(9, 2)] };
                d.p("bytes", V::R(v));
            }
        }
        8 => {
            if l < 9 {
                d.len_err("minimum of ", 9);
            } else {
                d.ptext("internal", 4);
                d.pcode("internal_type", "ConnectorType", 5);
                d.ptext("external", 6);
                d.pcode("external_type", "ConnectorType", 7);
                d.pcode("port_type", "PortType", 8);
            }
        }
        9 => {
            let exact = if ver < (2, 1) {
                Some(0x0C)
            } else if ver < (2, 6) {
                Some(0x0D)
            } else if ver < (3, 2) {
                Some(0x11)
            } else {
                None
            };
            match exact {
                Some(n) if l != n => d.len_err("", n as u8),
                None if l < 0x11 => d.len_err("minimum of ", 0x11),
                _ => {
                    d.ptext("designation", 4);
                    d.pcode("type", "SlotType", 5);
                    d.pcode("width", "SlotWidth", 6);
                    d.pcode("usage", "CurrentUsage", 7);
                    d.pcode("length", "SlotLength", 8);
                    d.pnum("id", 9, 2);
                    d.pnum("characteristics_1", 0xB, 1);
                    d.opt("characteristics_2", 0xC, 1);
                    d.opt_not("segment", 0xD, 2, 0xFFFF);
                    d.opt_not("bus", 0xF, 1, 0xFF);
                    d.opt_not("device_function", 0x10, 1, 0xFF);
                    d.opt("data_bus_width", 0x11, 1);
                    let n = d.b(0x12).unwrap_or(0) as usize;
                    let v = if d.has(0x13, 5 * n) {
                        V::L(f[0x13..0x13 + 5 * n].chunks(5).map(peer).collect())
                    } else {
                        V::N
                    };
                    d.p("peers", v);
                    d.opt("information", 0x14 + 5 * n, 1);
                    d.code_if("physical_width", "SlotWidth", true, 0x15 + 5 * n);
                    d.opt("pitch", 0x16 + 5 * n, 2);
                    let v = if d.has(0x13, 5 * n) { f[0x13..0x13 + 5 * n].to_vec() } else { vec![] };
                    d.p("peer_bytes", V::Bytes(v));
                }
            }
        }
        11 => {
            let v = listed(&d.strs);
            d.p("strings", v);
        }
        12 => match d.b(4) {
            None => d.errs.push(E::Slice),
            Some(n) => {
                let v = listed(&d.strs);
                if matches!(&v, V::L(x) if x.len() != n as usize) {
                    d.errs.push(E::Str(12, handle, n));
                }
                d.p("strings", v);
            }
        },
        13 => {
            let v21 = ver >= (2, 1);
            let min = if v21 { 0x16 } else { 0x15 };
            if l < min {
                d.len_err("minimum of ", min as u8);
            } else {
                let mut v = listed(&d.strs);
                if let V::L(x) = &mut v {
                    x.truncate(255);
                }
                d.p("languages", v);
                d.num_if("flags", v21, 5, 1);
                d.pnum("current", min - 1, 1);
            }
        }
        14 => {
            if l < 5 {
                d.len_err("", l as u8);
            } else {
                d.ptext("name", 4);
                let v = V::L(f[5..].chunks_exact(3).map(group_item).collect());
                d.p("items", v);
            }
        }
        15 => {
            let xy = d.num(0x15, 1).zip(d.num(0x16, 1)).map(|(x, y)| (x as usize, y as usize));
            if ver == (2, 0) {
                if l != 0x14 {
                    d.len_err("", 0x14);
                }
            } else {
                match xy {
                    None => d.len_err("minimum of ", 0),
                    Some((x, y)) if l != 0x17 + x * y => d.len_err("17h+(x*y) = ", (0x17 + x * y) as u8),
                    _ => (),
                }
            }
            if d.errs.is_empty() {
                d.pnum("area_length", 4, 2);
                d.pnum("header_start", 6, 2);
                d.pnum("data_start", 8, 2);
                let (m, a) = (f[0xA], &f[0x10..0x14]);
                let r = |n: &str, x: Vec<u64>| {
                    let mut v = vec![V::C(n.into())];
                    v.extend(x.into_iter().map(V::U));
                    V::R(v)
                };
                let v = match m {
                    0 => r("IndexedIoOne8bitIndexOne8bitData", vec![a[0] as u64, a[2] as u64]),
                    1 => r("IndexedIoTwo8bitIndexOne8bitData", vec![a[0] as u64, a[1] as u64, a[2] as u64]),
                    2 => r("IndexedIoOne16bitIndexOne8bitData", vec![le(&a[..2]), a[2] as u64]),
                    3 => r("MemoryMappedPhysicaAddress", vec![le(a)]),
                    4 => r("GeneralPurposeNonVolatileData", vec![le(&a[..2])]),
                    5..=0x7F => r("Available", vec![m as u64, le(a)]),
                    _ => r("OemSpecific", vec![m as u64, le(a)]),
                };
                d.p("access", v);
                d.pnum("status", 0xB, 1);
                d.pnum("change_token", 0xC, 4);
                d.code_if("header_format", "LogHeaderFormat", true, 0x14);
                let v = match xy {
                    Some((x, y)) if d.has(0x17, x * y) => {
                        // records may be longer than the two bytes that are defined
                        V::L(if y >= 2 { f[0x17..0x17 + y * x].chunks(y).map(|r| descriptor(&r[..2])).collect() } else { vec![] })
                    }
                    _ => V::N,
                };
                d.p("descriptors", v);
                let v = match xy {
                    Some((x, y)) if y >= 2 && d.has(0x17, x * y) => f[0x17..0x17 + y * x].chunks(y).flat_map(|r| r[..2].to_vec()).collect(),
                    _ => vec![],
                };
                d.p("descriptor_bytes", V::Bytes(v));
                let keep = match m {
                    0 => 0x00FF_00FF,
                    1 | 2 => 0x00FF_FFFF,
                    4 => 0xFFFF,
                    _ => 0xFFFF_FFFF,
                };
                d.p("address", V::U(le(a) & keep));
            }
        }
        16 => {
            if ver >= (2, 1) {
                d.pcode("location", "MemoryArrayLocation", 4);
                d.pcode("use", "MemoryArrayUse", 5);
                d.pcode("error_correction", "MemoryArrayErrorCorrectionTypes", 6);
                let cap = d.req(7, 4);
                d.p("capacity", if cap == 0x8000_0000 { V::N } else { V::U(cap) });
                let h = d.req(0xB, 2);
                d.p("error_handle", if h == 0xFFFE { V::N } else { V::U(h) });
                d.pnum("devices", 0xD, 2);
                let ext = d.num(0xF, 8).filter(|x| *x != 0 && cap == 0x8000_0000 && ver >= (2, 7));
                d.p("extended_capacity", ou(ext));
            } else {
                d.p("location", V::C("Unknown".into()));
                d.p("use", V::C("Unknown".into()));
                d.p("error_correction", V::C("Unknown".into()));
                d.p("capacity", V::N);
                d.p("error_handle", V::N);
                d.p("devices", V::U(0));
                d.p("extended_capacity", V::N);
            }
        }
        17 => {
            if l < 0x15 {
                d.len_err("at least", 0x15);
            } else {
                d.pnum("array_handle", 4, 2);
                d.opt_not("error_handle", 6, 2, 0xFFFE);
                d.opt_not("total_width", 8, 2, 0xFFFF);
                d.opt_not("data_width", 0xA, 2, 0xFFFF);
                d.opt_not("size", 0xC, 2, 0xFFFF);
                d.pcode("form_factor", "FormFactor", 0xE);
                d.pnum("device_set", 0xF, 1);
                d.ptext("device_locator", 0x10);
                d.ptext("bank_locator", 0x11);
                d.pcode("type", "MemoryType", 0x12);
                let v = d.req(0x13, 2) & 0xFFFE;
                d.p("detail", V::U(v));
                d.opt_not("speed", 0x15, 2, 0);
                d.ptext("manufacturer", 0x17);
                d.ptext("serial", 0x18);
                d.ptext("asset", 0x19);
                d.ptext("part", 0x1A);
                d.pnum("attributes", 0x1B, 1);
                d.pnum("extended_size", 0x1C, 4);
                d.opt_not("configured_speed", 0x20, 2, 0);
                d.opt_not("minimum_voltage", 0x22, 2, 0);
                d.opt_not("maximum_voltage", 0x24, 2, 0);
                d.opt_not("configured_voltage", 0x26, 2, 0);
                d.code_if("technology", "MemoryTechnology", true, 0x28);
                let v = ou(d.num(0x29, 2).map(|x| x & 0x3E));
                d.p("operating_modes", v);
                let v = d.b(0x2B).and_then(|i| d.resolve(i)).map_or(V::N, V::T);
                d.p("firmware", v);
                d.opt("module_manufacturer", 0x2C, 2);
                d.opt("module_product", 0x2E, 2);
                d.opt("controller_manufacturer", 0x30, 2);
                d.opt("controller_product", 0x32, 2);
                d.opt("non_volatile", 0x34, 8);
                d.opt("volatile", 0x3C, 8);
                d.opt("cache", 0x44, 8);
                d.opt("logical", 0x4C, 8);
                d.opt("extended_speed", 0x54, 4);
                d.opt("extended_configured_speed", 0x58, 4);
            }
        }
        18 => {
            if ver >= (2, 1) && l != 0x17 {
                d.len_err("", 0x17);
            } else {
                d.pcode("type", "ErrorType", 4);
                d.pcode("granularity", "ErrorGranularity", 5);
                d.pcode("operation", "ErrorOperation", 6);
                d.pnum("syndrome", 7, 4);
                d.pnum("array_address", 0xB, 4);
                d.pnum("device_address", 0xF, 4);
                d.pnum("resolution", 0x13, 4);
            }
        }
        19 | 20 => {
            let (a, z) = if ty == 19 { (0x0F, 0x1F) } else { (0x13, 0x23) };
            let want = if ver < (2, 1) {
                None
            } else if ver < (2, 7) {
                Some(a)
            } else {
                Some(z)
            };
            if want.is_some_and(|n| n != l) {
                d.len_err("", want.unwrap() as u8);
            } else {
                d.pnum("start", 4, 4);
                d.pnum("end", 8, 4);
                d.pnum("owner", 0xC, 2);
                if ty == 19 {
                    d.pnum("partition_width", 0xE, 1);
                } else {
                    d.pnum("mapped_handle", 0xE, 2);
                    d.pnum("row", 0x10, 1);
                    d.pnum("interleave", 0x11, 1);
                    d.pnum("depth", 0x12, 1);
                }
                d.opt("extended_start", a, 8);
                d.opt("extended_end", a + 8, 8);
            }
        }
        21 => {
            if ver >= (2, 1) && l != 7 {
                d.len_err("", 7);
            } else {
                d.pcode("type", "PointingType", 4);
                d.pcode("interface", "PointingInterface", 5);
                d.pnum("buttons", 6, 1);
            }
        }
        22 => {
            let want = if ver == (2, 1) {
                Some(0x10)
            } else if ver >= (2, 2) {
                Some(0x1A)
            } else {
                None
            };
            if want.is_some_and(|n| n != l) {
                d.len_err("", want.unwrap() as u8);
            } else {
                d.ptext("location", 4);
                d.ptext("manufacturer", 5);
                let basic = |d: &D, o: usize| d.b(o).filter(|i| *i != 0).and_then(|i| d.resolve(i));
                let v = match (basic(&d, 6), d.num(0x12, 2)) {
                    (Some(s), _) => V::T(s),
                    (None, Some(x)) => V::R(vec![V::U((x >> 9) + 1980), V::U(x >> 5 & 0xF), V::U(x & 0x1F)]),
                    _ => V::N,
                };
                d.p("date", v);
                let v = match (basic(&d, 7), d.num(0x10, 2)) {
                    (Some(s), _) => V::T(s),
                    (None, Some(x)) => V::R(vec![V::U(x)]),
                    _ => V::N,
                };
                d.p("serial", v);
                d.ptext("name", 8);
                let c = d.req(9, 1);
                let smart = d.b(0x14).and_then(|i| d.resolve(i));
                const CHEM: [&str; 9] = [
                    "",
                    "Other",
                    "Unknown",
                    "LeadAcid",
                    "NickelCadmium",
                    "NickelMetalHydride",
                    "LithiumIon",
                    "ZincAir",
                    "LithiumPolymer",
                ];
                let v = match (c, smart) {
                    (2, Some(s)) => V::R(vec![V::T(s)]),
                    (1..=8, _) => V::C(CHEM[c as usize].into()),
                    _ => V::C(format!("Undefined({c})")),
                };
                d.p("chemistry", v);
                let cap = d.req(0xA, 2);
                let mul = d.num(0x15, 1).unwrap_or(1);
                d.p("capacity", if cap == 0 { V::N } else { V::R(vec![V::U(cap), V::U(mul)]) });
                d.p("milliwatt_hours", V::U(cap * mul));
                d.pnum("voltage", 0xC, 2);
                d.ptext("sbds_version", 0xE);
                d.pnum("maximum_error", 0xF, 1);
                d.opt("oem", 0x16, 4);
            }
        }
        _ => {
            d.out.clear();
            d.p("type", code("InfoType", ty as u32));
            d.p("handle", u(handle));
            d.p("length", u(l as u64));
            d.p("version", V::R(vec![u(ver.0), u(ver.1)]));
            d.p("data", V::Bytes(f[4..].to_vec()));
        }
    }
    if d.errs.is_empty() {
        Outcome::Fields(d.out)
    } else {
        Outcome::Errs(d.errs)
    }
}

/// A listing ends before the first text that cannot be read.
pub fn listed(strs: &[Option<String>]) -> V {
    V::L(strs.iter().map_while(|s| s.clone()).map(V::T).collect())
}
fn element(c: &[u8]) -> V {
    let t = if c[0] & 0x80 != 0 {
        format!("InfoType({})", name("InfoType", (c[0] & 0x7F) as u32))
    } else {
        format!("BoardType({})", name("BoardType", c[0] as u32))
    };
    V::R(vec![V::C(t), u(c[1]), u(c[2])])
}
fn peer(c: &[u8]) -> V {
    V::R(vec![V::U(le(&c[..2])), u(c[2]), u(c[3]), u(c[4])])
}
fn group_item(c: &[u8]) -> V {
    V::R(vec![u(c[0]), V::U(le(&c[1..3]))])
}
fn descriptor(c: &[u8]) -> V {
    V::R(vec![code("EventLogType", c[0] as u32), V::C(variable_format(c[1]))])
}
