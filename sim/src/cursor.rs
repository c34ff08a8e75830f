//! Iterators of the library behind one interface, each paired with the list it has to yield.
use crate::project::{self, Bounds};
use crate::sys::arm;
use crate::val::*;
use dmidecode::bitfield::{self, BitField, Flag, FlagType, Layout, ReservedRange};
use dmidecode::structures::system_event_log::log_record_format::{PostResults, SystemManagementType};
use dmidecode::structures::system_event_log::{AccessMethod, EventLogType, LogHeaderFormat, VariableDataFormatType};
use dmidecode::structures::{
    baseboard, built_in_pointing_device, cache, enclosure, memory_error_32, physical_memory_array, port_connector, processor,
    system_slots,
};
use dmidecode::{InfoType, Structure};
use std::any::Any;
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::rc::Rc;

pub trait DynIt {
    fn next(&mut self, armed: bool) -> Option<V>;
    fn nth(&mut self, armed: bool, k: usize) -> Option<V>;
    fn dup(&self, armed: bool) -> Box<dyn DynIt>;
    fn count(&self, armed: bool, limit: usize) -> Option<usize>;
    fn last(&self, armed: bool, limit: usize) -> Option<Option<V>>;
    fn hint(&self, armed: bool) -> (usize, Option<usize>);
    /// the rest, through internal iteration of a clone, at most `limit` items
    fn fold(&self, armed: bool, limit: usize) -> Vec<V>;
    /// up to k items through `by_ref().take(k)`
    fn take(&mut self, armed: bool, k: usize) -> Vec<V>;
    fn debug(&self) -> &dyn Debug;
    fn any(&self) -> &dyn Any;
    /// `==` both ways round and `!=`, None if the other one is of another type
    fn same(&self, armed: bool, other: &dyn DynIt) -> Option<(bool, bool, bool)>;
    fn hash(&self, armed: bool, h: &mut dyn Hasher);
    /// the next items of both lists pairwise: contents, `==` both ways round and `!=`, what they feed to a hasher
    fn pairs(&self, armed: bool, other: &dyn DynIt, limit: usize) -> Vec<Pair>;
}
pub struct Pair {
    pub v: [V; 2],
    pub eq: (bool, bool, bool),
    pub hash: [Vec<u8>; 2],
}
struct Bytes(Vec<u8>);
impl Hasher for Bytes {
    fn write(&mut self, b: &[u8]) {
        let p = arm(false);
        self.0.extend_from_slice(b);
        arm(p);
    }
    fn finish(&self) -> u64 {
        0
    }
}

pub struct It<I: Iterator> {
    pub it: I,
    pub f: Rc<dyn Fn(&I::Item) -> V>,
}
impl<I: Iterator + Clone + Debug + PartialEq + Hash + 'static> DynIt for It<I>
where
    I::Item: PartialEq + Hash + 'static,
{
    fn next(&mut self, armed: bool) -> Option<V> {
        let p = arm(armed);
        let x = self.it.next();
        arm(p);
        x.map(|x| (self.f)(&x))
    }
    fn nth(&mut self, armed: bool, k: usize) -> Option<V> {
        let p = arm(armed);
        let x = self.it.nth(k);
        arm(p);
        x.map(|x| (self.f)(&x))
    }
    fn dup(&self, armed: bool) -> Box<dyn DynIt> {
        let p = arm(armed);
        let it = self.it.clone();
        arm(p);
        Box::new(It { it, f: self.f.clone() })
    }
    fn count(&self, armed: bool, limit: usize) -> Option<usize> {
        let p = arm(armed);
        // make sure that it ends before asking it to count itself
        let bounded = Iterator::count(self.it.clone().take(limit + 1));
        let r = if bounded > limit { None } else { Some(Iterator::count(self.it.clone())) };
        arm(p);
        r
    }
    fn last(&self, armed: bool, limit: usize) -> Option<Option<V>> {
        let p = arm(armed);
        let bounded = Iterator::count(self.it.clone().take(limit + 1));
        let r = if bounded > limit { None } else { Some(self.it.clone().last()) };
        arm(p);
        r.map(|x| x.map(|x| (self.f)(&x)))
    }
    fn hint(&self, armed: bool) -> (usize, Option<usize>) {
        let p = arm(armed);
        let r = self.it.size_hint();
        arm(p);
        r
    }
    fn fold(&self, armed: bool, limit: usize) -> Vec<V> {
        let mut v = Vec::new();
        let p = arm(armed);
        let mut see = |x: I::Item| {
            let q = arm(false);
            v.push((self.f)(&x));
            arm(q);
        };
        if Iterator::count(self.it.clone().take(limit + 1)) > limit {
            self.it.clone().take(limit + 1).for_each(see);
        } else {
            self.it.clone().fold((), |_, x| see(x));
        }
        arm(p);
        v
    }
    fn take(&mut self, armed: bool, k: usize) -> Vec<V> {
        let mut v = Vec::with_capacity(k.min(512));
        let p = arm(armed);
        for x in self.it.by_ref().take(k) {
            let q = arm(false);
            v.push((self.f)(&x));
            arm(q);
        }
        arm(p);
        v
    }
    fn debug(&self) -> &dyn Debug {
        &self.it
    }
    fn any(&self) -> &dyn Any {
        self
    }
    fn same(&self, armed: bool, other: &dyn DynIt) -> Option<(bool, bool, bool)> {
        let o = other.any().downcast_ref::<Self>()?;
        let p = arm(armed);
        let r = (self.it == o.it, o.it == self.it, self.it != o.it);
        arm(p);
        Some(r)
    }
    fn hash(&self, armed: bool, mut h: &mut dyn Hasher) {
        let p = arm(armed);
        self.it.hash(&mut h);
        arm(p);
    }
    fn pairs(&self, armed: bool, other: &dyn DynIt, limit: usize) -> Vec<Pair> {
        let mut v = Vec::new();
        let Some(o) = other.any().downcast_ref::<Self>() else { return v };
        let p = arm(armed);
        for (x, y) in self.it.clone().zip(o.it.clone()).take(limit) {
            let eq = (x == y, y == x, x != y);
            let (mut g, mut h) = (Bytes(Vec::new()), Bytes(Vec::new()));
            x.hash(&mut g);
            y.hash(&mut h);
            let q = arm(false);
            v.push(Pair { v: [(self.f)(&x), (o.f)(&y)], eq, hash: [g.0, h.0] });
            arm(q);
        }
        arm(p);
        v
    }
}

/// A library iterator and how far it has been stepped.
pub struct Cursor {
    pub it: Box<dyn DynIt>,
    pub list: Rc<Vec<V>>,
    pub pos: usize,
    /// no honest list can be longer
    pub limit: usize,
    pub bits: bool,
    pub ended: bool,
    pub what: &'static str,
}

fn mk<I: Iterator + Clone + Debug + PartialEq + Hash + 'static>(it: I, f: impl Fn(&I::Item) -> V + 'static) -> Box<dyn DynIt>
where
    I::Item: PartialEq + Hash + 'static,
{
    Box::new(It { it, f: Rc::new(f) })
}

/// The lists inside a structure, with their expected contents.
pub fn lists(s: &Structure<'static>, buf: &'static [u8], exp: &Fields, limit: usize) -> Vec<Cursor> {
    let get = |n: &str| exp.iter().find(|f| f.0 == n).map(|f| &f.1);
    let list = |n: &str| match get(n) {
        Some(V::L(l)) => Some(Rc::new(l.clone())),
        Some(V::R(r)) => match r.get(1) {
            Some(V::L(l)) => Some(Rc::new(l.clone())),
            _ => None,
        },
        _ => None,
    };
    let text = move |s: &&'static str| {
        let mut b = Bounds::of(buf);
        b.t(s)
    };
    let cur = |it: Option<Box<dyn DynIt>>, n: &'static str| match (it, list(n)) {
        (Some(it), Some(list)) => {
            vec![Cursor { it, list, pos: 0, limit, bits: false, ended: false, what: n }]
        }
        _ => vec![],
    };
    match s {
        Structure::Enclosure(x) => {
            cur(x.contained_elements.clone().map(|i| mk(i, project::element)), "elements")
        }
        Structure::SystemSlots(x) => cur(x.peer_devices.clone().map(|i| mk(i, project::peer)), "peers"),
        Structure::GroupAssociations(x) => cur(Some(mk(x.items, project::group_item)), "items"),
        Structure::SystemEventLog(x) => {
            cur(x.supported_event_log_type_descriptors.clone().map(|i| mk(i, project::descriptor)), "descriptors")
        }
        Structure::BiosLanguage(x) => cur(Some(mk(x.installable_languages.clone(), text)), "languages"),
        Structure::OemStrings(x) => cur(Some(mk(x.strings, text)), "strings"),
        Structure::SystemConfigurationOptions(x) => cur(Some(mk(x.strings, text)), "strings"),
        _ => vec![],
    }
}

/// Steps through every list inside a value.
pub fn step_through(s: &Structure) -> usize {
    let cap = 100_000;
    match s {
        Structure::Enclosure(x) => x.contained_elements.clone().map_or(0, |i| i.take(cap).count()),
        Structure::SystemSlots(x) => x.peer_devices.clone().map_or(0, |i| i.take(cap).count()),
        Structure::GroupAssociations(x) => x.items.clone().take(cap).count(),
        Structure::SystemEventLog(x) => x.supported_event_log_type_descriptors.clone().map_or(0, |i| i.take(cap).count()),
        Structure::BiosLanguage(x) => x.installable_languages.clone().take(cap).count(),
        Structure::OemStrings(x) => x.strings.take(cap).count(),
        Structure::SystemConfigurationOptions(x) => x.strings.take(cap).count(),
        Structure::Bios(x) => x.bios_characteristics.significants().take(cap).count() + x.bios_characteristics.reserved().take(cap).count(),
        _ => 0,
    }
}

// ---------------------------------------------------------------- bit fields

fn flag_kind(t: &FlagType) -> String {
    match t {
        FlagType::Significant(a, b) => format!("S:{a}:{}", b.len()),
        FlagType::Reserved(a) => format!("R:{a}"),
        FlagType::Unknown => "U".into(),
    }
}
fn flag(f: &Flag) -> V {
    V::R(vec![V::U(f.position.0 as u64), V::U(f.is_set as u64), V::C(flag_kind(&f.type_))])
}
fn range(r: &ReservedRange) -> V {
    V::R(vec![V::C(r.description.into()), V::U(*r.range.start() as u64), V::U(*r.range.end() as u64)])
}
fn is_reserved(t: &FlagType) -> bool {
    matches!(t, FlagType::Reserved(_))
}

pub fn expect_all(val: u128, layout: Layout) -> Vec<V> {
    layout
        .iter()
        .enumerate()
        .map(|(i, t)| V::R(vec![V::U(i as u64), V::U((val >> i & 1) as u64), V::C(flag_kind(t))]))
        .collect()
}
fn expect_sig(val: u128, layout: Layout) -> Vec<V> {
    let all = expect_all(val, layout);
    let keep = |i: &usize| val >> i & 1 == 1 && !is_reserved(&layout[*i]);
    (0..layout.len()).filter(keep).map(|i| all[i].clone()).collect()
}
fn expect_res(layout: Layout) -> Vec<V> {
    let mut runs: Vec<(&str, usize, usize)> = Vec::new();
    for (i, t) in layout.iter().enumerate() {
        if let FlagType::Reserved(d) = t {
            match runs.last_mut() {
                Some(r) if r.0 == *d && r.2 + 1 == i => r.2 = i,
                _ => runs.push((d, i, i)),
            }
        }
    }
    runs.into_iter().map(|(d, a, z)| V::R(vec![V::C(d.into()), V::U(a as u64), V::U(z as u64)])).collect()
}

/// A view of a bit field: 0 all bits, 1 significant set bits, 2 reserved runs.
pub fn bit_cursor<B>(b: &B, val: u128, view: u32, what: &'static str) -> Cursor
where
    B: BitField<'static>,
    B::Size: Into<u128> + Copy + Debug + PartialEq + Hash + 'static,
{
    let layout: Layout<'static> = B::LAYOUT;
    let bits = std::mem::size_of::<B::Size>() * 8;
    let layout = &layout[..layout.len().min(bits)];
    let (it, list): (Box<dyn DynIt>, Vec<V>) = match view {
        0 => (mk::<bitfield::Iter<'static, B::Size>>(b.iter(), flag), expect_all(val, layout)),
        1 => (mk::<bitfield::Significants<'static, B::Size>>(b.significants(), flag), expect_sig(val, layout)),
        _ => (mk::<bitfield::Reserved<'static, B::Size>>(b.reserved(), range), expect_res(layout)),
    };
    Cursor { it, list: Rc::new(list), pos: 0, limit: bits, bits: true, ended: false, what }
}

const R: FlagType<'static> = FlagType::Reserved("Reserved");
const Q: FlagType<'static> = FlagType::Reserved("For OEM");
const S: FlagType<'static> = FlagType::Significant("s", "long s");
const Z: FlagType<'static> = FlagType::Significant("z", "z");
const N: FlagType<'static> = FlagType::Unknown;

macro_rules! own {
    ($n:ident, $t:ty, $l:expr) => {
        pub struct $n(pub $t);
        impl BitField<'static> for $n {
            type Size = $t;
            const LAYOUT: Layout<'static> = $l;
            fn value(&self) -> $t {
                self.0
            }
        }
    };
}
/// 16 entries, repeated or cut to the wanted width
const fn rep<const K: usize>(p: &[FlagType<'static>; 16]) -> [FlagType<'static>; K] {
    let mut a = [FlagType::Unknown; K];
    let mut i = 0;
    while i < K {
        a[i] = p[i % 16];
        i += 1;
    }
    a
}
own!(B8a, u8, &[R, S, R, R, S, Z, Q, R]);
own!(B8b, u8, &[S, S, S, S, S, S, S, S]);
own!(B8c, u8, &[R, R, R, R, R, R, R, R]);
own!(B8d, u8, &[R, Q, R, Q, R, Q, R, Q]);
own!(B8e, u8, &[N, R, N, S, R, N, Q, N]);
own!(B8f, u8, &[S, R, R, Q, Q, S, S, R]);
own!(B16a, u16, &rep::<16>(&[S, R, R, Q, S, N, R, S, S, Q, Q, Q, R, S, R, S]));
own!(B16b, u16, &rep::<16>(&[R, R, R, R, R, R, R, R, S, S, S, S, S, S, S, R]));
own!(B32a, u32, &rep::<32>(&[R, S, Z, Q, R, S, N, R, S, S, Q, Q, Q, R, S, R]));
own!(B64a, u64, &rep::<64>(&[S, R, R, R, Q, S, N, R, S, R, Q, R, Q, R, S, S]));
own!(B64b, u64, &rep::<64>(&[R, R, R, R, R, R, R, R, R, R, R, R, R, R, R, R]));
own!(B128a, u128, &rep::<128>(&[S, S, R, R, S, Q, R, S, R, S, Q, Q, Q, R, S, R]));
own!(B128b, u128, &rep::<128>(&[R, S, S, S, S, S, S, S, S, S, S, S, S, S, S, R]));

pub const N_OWN: u32 = 14;
/// POST results are a bit field that no structure contains, so the simulator makes them itself.
pub const POST: u32 = 13;
pub fn own_cursor(which: u32, val: u128, view: u32) -> (Cursor, u128, u32) {
    macro_rules! go {
        ($n:ident, $t:ty) => {{
            let v = val as $t;
            (bit_cursor(&$n(v), v as u128, view, stringify!($n)), v as u128, <$t>::BITS)
        }};
    }
    match which {
        0 => go!(B8a, u8),
        1 => go!(B16a, u16),
        2 => go!(B32a, u32),
        3 => go!(B64a, u64),
        4 => go!(B128a, u128),
        5 => go!(B8b, u8),
        6 => go!(B8c, u8),
        7 => go!(B8d, u8),
        8 => go!(B8e, u8),
        9 => go!(B16b, u16),
        10 => go!(B64b, u64),
        11 => go!(B8f, u8),
        POST => {
            let v = val as u64;
            (bit_cursor(&PostResults::from(v), v as u128, view, "PostResults"), v as u128, 64)
        }
        _ => go!(B128b, u128),
    }
}

/// Bit fields of a decoded structure: name, stored value as the model has it, one letter per bit as reviewed
/// against the specification (s significant, r reserved), and a constructor of its views.
pub struct BitTarget {
    pub what: &'static str,
    pub kinds: String,
    pub golden: &'static str,
    pub layout: Layout<'static>,
    pub flag: Box<dyn Fn(usize) -> Option<Flag<'static>>>,
    pub make: Box<dyn Fn(u32) -> Cursor>,
}
fn kinds(l: Layout) -> String {
    l.iter()
        .map(|t| match t {
            FlagType::Reserved(_) => 'r',
            FlagType::Significant(..) => 's',
            FlagType::Unknown => 'u',
        })
        .collect()
}
fn target<B>(b: B, exp: &Fields, name: &'static str, golden: &'static str) -> Option<BitTarget>
where
    B: BitField<'static> + 'static,
    B::Size: Into<u128> + Copy + Debug + PartialEq + Hash + 'static,
{
    let Some((_, V::U(v))) = exp.iter().find(|f| f.0 == name) else { return None };
    let val = *v as u128;
    let b = Rc::new(b);
    let c = b.clone();
    Some(BitTarget {
        what: name,
        kinds: kinds(B::LAYOUT),
        golden,
        layout: B::LAYOUT,
        flag: Box::new(move |i| c.iter().nth(i)),
        make: Box::new(move |view| bit_cursor(&*b, val, view, name)),
    })
}
pub fn post_target(v: u64) -> BitTarget {
    let exp = vec![("PostResults", V::U(v))];
    target(PostResults::from(v), &exp, "PostResults", G_POST).unwrap()
}
/// Texts of the bits as reviewed against the specification: for each field, bit, short and long text.
fn meanings(field: &str) -> Vec<[&'static str; 2]> {
    include_str!("meanings.tsv")
        .lines()
        .map(|l| l.split('\t').collect::<Vec<_>>())
        .filter(|p| p[0] == field)
        .map(|p| [p[2], p[3]])
        .collect()
}
/// How many words two texts share, in thousandths of all their words. Wording may change; which bit a text
/// belongs to may not, so texts are only compared for which of the reviewed ones they resemble most.
fn alike(a: &str, b: &str) -> usize {
    let words = |t: &str| -> std::collections::BTreeSet<String> {
        t.split(|c: char| !c.is_alphanumeric()).filter(|w| !w.is_empty()).map(|w| w.to_lowercase()).collect()
    };
    let (a, b) = (words(a), words(b));
    a.intersection(&b).count() * 1000 / a.union(&b).count().max(1)
}
/// A bit whose text is that of another bit.
pub fn misplaced(field: &str, layout: Layout<'static>) -> Option<String> {
    let m = meanings(field);
    for (i, t) in layout.iter().enumerate().take(m.len()) {
        let texts = match t {
            FlagType::Significant(a, b) => [*a, *b],
            FlagType::Reserved(a) => [*a, *a],
            FlagType::Unknown => continue,
        };
        for k in 0..2 {
            let own = alike(texts[k], m[i][k]);
            let other = (0..m.len()).filter(|j| m[*j][k] != m[i][k]).max_by_key(|j| alike(texts[k], m[*j][k]));
            if let Some(j) = other.filter(|j| alike(texts[k], m[*j][k]) > own) {
                return Some(format!("bit {i} of {field} is shown as {:?}, which is bit {j}", texts[k]));
            }
        }
    }
    None
}
pub const G_POST: &str = "ssssssssssssssssssssrrrrsrrrrrrrrrrrrrrsssssssssssssssssssssssss";
pub const G_BIOS: &str = "??ssssssssssssssssssssssssssssssrrrrrrrrrrrrrrrrrrrrrrrrrrrrrrrr";
pub fn bit_targets(s: &Structure<'static>, exp: &Fields) -> Vec<BitTarget> {
    let mut v = Vec::new();
    match s {
        Structure::Bios(x) => {
            v.push(target(x.bios_characteristics, exp, "characteristics", G_BIOS));
            if let Some(e) = x.bios_characteristics_exttension_1 {
                v.push(target(e, exp, "extension_1", "ssssssss"));
            }
            if let Some(e) = x.bios_characteristics_exttension_2 {
                v.push(target(e, exp, "extension_2", "sssssrrr"));
            }
        }
        Structure::SystemSlots(x) => {
            v.push(target(x.slot_characteristics_1, exp, "characteristics_1", "ssssssss"));
            if let Some(e) = x.slot_characteristics_2 {
                v.push(target(e, exp, "characteristics_2", "sssssssr"));
            }
        }
        Structure::BiosLanguage(x) => {
            if let Some(e) = x.flags {
                v.push(target(e, exp, "flags", "srrrrrrr"));
            }
        }
        Structure::SystemEventLog(x) => v.push(target(x.log_status, exp, "status", "ssrrrrrr")),
        _ => (),
    }
    v.into_iter().flatten().collect()
}

// ---------------------------------------------------------------- things that can be displayed

pub const N_FREE: usize = 52;
/// Values a caller makes from a code of its own, without a structure around it.
pub fn free(kind: usize, v: u64) -> (Box<dyn std::fmt::Display>, Box<dyn Debug>) {
    macro_rules! b {
        ($e:expr) => {
            (Box::new($e), Box::new($e))
        };
    }
    let (byte, word, dword) = (v as u8, v as u16, v as u32);
    // few management events have a meaning: choose among the ranges
    let sm = match v >> 40 & 3 {
        0 => dword & 0x3F,
        1 => 0x10000 | dword & 0xFFFF,
        _ => dword,
    };
    match kind {
        0 => b!(InfoType::from(byte)),
        1 => b!(cache::CacheLevel::from(word & 7)),
        2 => b!(cache::CacheLocation::from(word & 3)),
        3 => b!(cache::CacheOperationalMode::from(word & 3)),
        4 => b!(SystemManagementType::from(sm)),
        5 => b!(VariableDataFormatType::from(if v >> 40 & 1 == 0 { byte } else { byte & 7 })),
        6 => b!(VariableDataFormatType::Handle { handle: word }),
        7 => b!(VariableDataFormatType::MultipleEvent { counter: dword }),
        8 => b!(VariableDataFormatType::MultipleEventHandle { handle: word, counter: dword }),
        9 => b!(VariableDataFormatType::PostResults(PostResults::from(v))),
        10 => b!(VariableDataFormatType::SystemManagementType(sm.into())),
        11 => b!(VariableDataFormatType::MultipleEventSystemManagementType {
            system_management_type: sm.into(),
            counter: dword
        }),
        12 => b!(EventLogType::from(if v >> 40 & 3 == 0 { byte } else { byte & 0x1F })),
        13 => b!(LogHeaderFormat::from(byte)),
        14 => b!(enclosure::ContainedElementType::from(byte)),
        // about a hundred codes each, so that all get their turn
        15 | 22 | 23 | 24 => {
            let w = match v >> 40 & 7 {
                0 => word & 0x3FF,
                _ => word % 0x120,
            };
            b!(processor::ProcessorFamily::from(w))
        }
        25 | 26 => b!(processor::ProcessorUpgrade::from(byte % 0x60)),
        27 => b!(processor::ProcessorUpgrade::from(byte)),
        28 => b!(processor::Voltage::from(byte)),
        29 => b!(cache::CacheErrorCorrectionType::from(byte & 15)),
        30 => b!(cache::SystemCacheType::from(byte & 15)),
        31 => b!(cache::CacheAssociativity::from(byte & 31)),
        32 => b!(system_slots::SlotWidth::from(byte & 31)),
        33 => b!(system_slots::CurrentUsage::from(byte & 15)),
        34 => b!(system_slots::SlotLength::from(byte & 15)),
        35 => b!(port_connector::ConnectorType::from(byte)),
        36 => b!(port_connector::ConnectorType::from(byte % 0x28)),
        37 => b!(port_connector::PortType::from(byte % 0x28)),
        38 => b!(physical_memory_array::MemoryArrayLocation::from(if v >> 40 & 1 == 0 { byte & 15 } else { 0xA0 | byte & 7 })),
        39 => b!(physical_memory_array::MemoryArrayUse::from(byte & 15)),
        40 => b!(physical_memory_array::MemoryArrayErrorCorrectionTypes::from(byte & 15)),
        41 => b!(memory_error_32::ErrorGranularity::from(byte & 7)),
        42 => b!(memory_error_32::ErrorOperation::from(byte & 7)),
        43 => b!(enclosure::EnclosureType::from(byte & 0x3F)),
        44 => b!(enclosure::State::from(byte & 7)),
        45 => b!(enclosure::SecurityStatus::from(byte & 7)),
        46 => b!(built_in_pointing_device::Type::from(byte & 15)),
        47 => b!(built_in_pointing_device::Interface::from(if v >> 40 & 1 == 0 { byte & 15 } else { 0xA0 | byte & 7 })),
        48 => b!(AccessMethod::new(if v >> 40 & 1 == 0 { byte & 7 } else { byte }, (v >> 8) as u32)),
        49 => b!(system_slots::SlotPitch::from(if v >> 40 & 1 == 0 { 0 } else { word })),
        50 => b!(system_slots::SlotType::from(byte % 0x30)),
        51 => b!(SystemManagementType::from(dword & 0x3F)),
        16 => b!(port_connector::PortType::from(byte)),
        17 => b!(system_slots::SlotType::from(byte)),
        18 => b!(baseboard::BoardType::from(byte)),
        19 => b!(memory_error_32::ErrorType::from(byte)),
        20 => {
            let f = |v: u64| BitField::iter(&PostResults::from(v)).nth((v % 64) as usize);
            match (f(v), f(v)) {
                (Some(x), Some(y)) => (Box::new(x), Box::new(y)),
                _ => b!(InfoType::from(0)),
            }
        }
        _ => {
            let f = |v: u64| BitField::iter(&B8e(v as u8)).nth((v >> 8 & 7) as usize);
            match (f(v), f(v)) {
                (Some(x), Some(y)) => (Box::new(x), Box::new(y)),
                _ => b!(InfoType::from(0)),
            }
        }
    }
}

pub fn displays<'a>(s: &'a Structure<'static>) -> Vec<Box<dyn std::fmt::Display + 'a>> {
    let mut v: Vec<Box<dyn std::fmt::Display + 'a>> = Vec::new();
    macro_rules! d {
        ($($e:expr),* $(,)?) => {{ $( v.push(Box::new($e)); )* }};
    }
    macro_rules! o {
        ($($e:expr),* $(,)?) => {{ $( if let Some(x) = &$e { v.push(Box::new(x)); } )* }};
    }
    match s {
        Structure::Bios(x) => {
            o!(x.bios_revision, x.firmware_revision);
            for f in x.bios_characteristics.iter().take(64).skip(x.handle as usize % 5).step_by(5) {
                d!(f);
            }
            for f in x.bios_characteristics_exttension_1.iter().flat_map(|f| f.iter().take(8)) {
                d!(f);
            }
            for f in x.bios_characteristics_exttension_2.iter().flat_map(|f| f.iter().take(8)) {
                d!(f);
            }
        }
        Structure::BaseBoard(x) => o!(x.board_type),
        Structure::Enclosure(x) => {
            d!(&x.enclosure_type);
            o!(x.boot_up_state, x.power_supply_state, x.thermal_state, x.security_status);
            for e in x.contained_elements.clone().into_iter().flatten().take(4) {
                d!(e);
            }
        }
        Structure::Processor(x) => d!(&x.processor_family, &x.voltage, &x.processor_upgrade),
        Structure::Cache(x) => o!(x.error_correction_type, x.system_cache_type, x.associativity),
        Structure::PortConnector(x) => {
            d!(&x.internal_connector_type, &x.external_connector_type, &x.port_type)
        }
        Structure::SystemSlots(x) => {
            d!(&x.slot_type, &x.slot_data_bus_width, &x.current_usage, &x.slot_length);
            o!(x.slot_physical_width, x.slot_pitch);
            for e in x.peer_devices.clone().into_iter().flatten().take(4) {
                d!(e);
            }
            for f in x.slot_characteristics_1.significants().take(8) {
                d!(f);
            }
            for f in x.slot_characteristics_2.iter().flat_map(|f| f.iter().take(8)) {
                d!(f);
            }
        }
        Structure::BiosLanguage(x) => {
            for f in x.flags.iter().flat_map(|f| f.iter().take(8)) {
                d!(f);
            }
        }
        Structure::SystemEventLog(x) => {
            d!(&x.access_method);
            o!(x.log_header_format);
            for e in x.supported_event_log_type_descriptors.clone().into_iter().flatten().take(6) {
                d!(e.log_type, e.variable_data_format_type);
            }
            for f in x.log_status.iter().take(8) {
                d!(f);
            }
        }
        Structure::PhysicalMemoryArray(x) => d!(&x.location, &x.r#use, &x.memory_error_correction),
        Structure::MemoryError32(x) => d!(&x.error_type, &x.error_granularity, &x.error_operation),
        Structure::BuiltInPointingDevice(x) => d!(&x.type_, &x.interface),
        Structure::PortableBattery(x) => d!(&x.manufacture_date, &x.serial_number, &x.device_chemistry),
        Structure::Other(x) => d!(x.info),
        _ => (),
    }
    v
}

/// Numbers the caller derives from a decoded structure.
pub fn conversions(s: &Structure<'static>) -> u64 {
    let mut n = 0u64;
    let mut a = |x: u64| n = n.wrapping_mul(31).wrapping_add(x);
    match s {
        Structure::Bios(x) => a(u64::from(x.rom_size)),
        Structure::Cache(x) => {
            a(x.maximum_cache_size.bytes());
            a(x.installed_size.bytes());
            if let Some(y) = &x.maximum_cache_size_2 {
                a(y.bytes());
            }
            if let Some(y) = &x.installed_size_2 {
                a(y.bytes());
            }
        }
        Structure::PortableBattery(x) => a(u64::from(x.design_capacity)),
        Structure::SystemSlots(x) => {
            for d in x.peer_devices.clone().into_iter().flatten().take(64) {
                a(<[u8; 5]>::from(&d).iter().fold(0, |z, b| z * 256 + *b as u64));
            }
            if let Some(d) = x.device_and_function_number {
                a(u8::from(d) as u64);
            }
        }
        Structure::SystemEventLog(x) => {
            a(x.access_method.address() as u64);
            for d in x.supported_event_log_type_descriptors.clone().into_iter().flatten().take(300) {
                a(<[u8; 2]>::from(d).iter().fold(0, |z, b| z * 256 + *b as u64));
                a(u8::from(d.log_type) as u64);
                a(u8::from(d.variable_data_format_type) as u64);
            }
        }
        _ => (),
    }
    n
}
