//! What the clients of a run share: captures with what the reference model expects of them, decoded values handed
//! around by reference, and the record of the run.
use crate::medium::Counts;
use crate::model::{self, Ep, EpErr, Frame, Item, Outcome, Ver, E};
use crate::project::{self, Bounds, GotErr};
use crate::props::*;
use crate::sys::Place;
use crate::val::*;
use dmidecode::{EntryPoint, InvalidEntryPointError, MalformedStructureError, Structure, Structures};
use std::cell::{Cell, RefCell};
use std::rc::Rc;

#[derive(Clone, Debug)]
pub struct Finding {
    pub tags: Tags,
    /// stable class of the failure, used while minimising
    pub sig: String,
    pub detail: String,
}

/// A captured region searched for an entry point.
pub struct Region {
    pub bytes: &'static [u8],
    pub exp: Result<Ep, Vec<EpErr>>,
}

pub struct Cap {
    pub buf: &'static [u8],
    /// the region that leads to this table, always with a usable entry point
    pub region: &'static [u8],
    pub ver: Ver,
    pub declared: u32,
    pub items: Vec<Item>,
    pub note: String,
}

/// Plain bytes of a capture, before they are put into guarded memory.
#[derive(Clone)]
pub struct Plan {
    pub caps: Vec<CapPlan>,
    pub regions: Vec<(Vec<u8>, Place)>,
    pub armed: bool,
}
#[derive(Clone)]
pub struct CapPlan {
    pub table: Vec<u8>,
    pub region: Vec<u8>,
    pub place: Place,
    pub note: String,
}

pub struct Shared {
    pub cap: usize,
    pub idx: usize,
    pub s: Structure<'static>,
}

pub struct World {
    pub caps: Vec<Cap>,
    pub regions: Vec<Region>,
    pub armed: bool,
    /// values decoded once and used by all clients through a shared reference
    pub pool: RefCell<Vec<Rc<Shared>>>,
    pub errors: RefCell<Vec<Rc<(usize, usize, MalformedStructureError)>>>,
    /// walks started by one and continued by others through clones
    pub walks: RefCell<Vec<(usize, usize, Structures<'static>)>>,
    pub findings: RefCell<Vec<Finding>>,
    pub probes: RefCell<Counts>,
    /// how often each property was put to the test
    pub tests: RefCell<[u64; N_PROPS]>,
    pub stop: Cell<bool>,
    pub trace: RefCell<Option<Vec<String>>>,
    pub ticks: Cell<u64>,
    pub calls: Cell<u64>,
}

impl World {
    pub fn find(&self, tags: Tags, sig: impl Into<String>, detail: impl Into<String>) {
        let mut f = self.findings.borrow_mut();
        let (sig, detail) = (sig.into(), detail.into());
        if let Some(t) = self.trace.borrow_mut().as_mut() {
            t.push(format!("!! {} [{}] {}", names(tags), sig, detail));
        }
        if f.len() < 64 {
            f.push(Finding { tags, sig, detail });
        }
    }
    pub fn tested(&self, tags: Tags) {
        let mut t = self.tests.borrow_mut();
        for i in 0..N_PROPS {
            t[i] += (tags >> i & 1) as u64;
        }
    }
    pub fn probe(&self, k: &'static str) {
        self.probes.borrow_mut().add(k, 1);
    }
    pub fn say(&self, f: impl FnOnce() -> String) {
        if let Some(t) = self.trace.borrow_mut().as_mut() {
            if t.len() < 4000 {
                t.push(f());
            }
        }
    }
    pub fn limit(&self, cap: usize, idx: usize) -> usize {
        match self.caps[cap].items.get(idx).map(|i| (&i.frame, i.off)) {
            Some((Frame::Whole { end, .. }, off)) => end - off,
            _ => 0,
        }
    }
    pub fn ty(&self, cap: usize, idx: usize) -> usize {
        match self.caps[cap].items.get(idx).map(|i| &i.frame) {
            Some(Frame::Whole { ty, .. }) => *ty as usize + 1,
            _ => 0,
        }
    }
    pub fn expected(&self, cap: usize, idx: usize) -> Option<&Fields> {
        match self.caps[cap].items.get(idx).map(|i| &i.outcome) {
            Some(Outcome::Fields(f)) => Some(f),
            _ => None,
        }
    }

    /// Compares a decoded value with what the firmware stored. Returns a digest of what was seen.
    pub fn check_value(&self, cap: usize, idx: usize, s: &Structure<'static>) -> u64 {
        let c = &self.caps[cap];
        let Some(item) = c.items.get(idx) else { return 0 };
        let Frame::Whole { ty, handle, .. } = item.frame else { return 0 };
        let g = group(ty);
        let mut bd = Bounds::of(c.buf);
        let got = project::fields(s, &mut bd, self.limit(cap, idx));
        let digest = got.iter().fold(FNV0, |h, f| f.1.digest(fnv(h, f.0.as_bytes())));
        if bd.escaped {
            self.find(C01, "escape", format!("structure {idx} at {} hands back bytes outside the buffer", item.off));
            return digest;
        }
        self.tested(C01 | C04 | g | C13);
        let what = format!("structure {idx} (type {ty}, handle {handle:#x}, offset {}, version {}.{})", item.off, c.ver.0, c.ver.1);
        let is = project::variant(s);
        let want = model::is_decoded(ty).then_some(ty);
        if is != want {
            self.find(
                C04 | g | C21 | is.map_or(0, group),
                format!("variant:{ty}"),
                format!("{what} is reported as type {is:?}"),
            );
            return digest;
        }
        let exp = match &item.outcome {
            Outcome::Fields(f) => f,
            Outcome::Errs(e) => {
                let mut tags = g;
                for x in e {
                    tags |= match x {
                        E::Str(..) => C08 | C20,
                        E::Len(..) | E::Slice => C13 | C20,
                        _ => C04 | C20,
                    };
                }
                self.find(tags, format!("accepted:{ty}"), format!("{what} is accepted, must be rejected: {e:?}"));
                return digest;
            }
        };
        let mut texts = false;
        for ((n, e), (m, v)) in exp.iter().zip(&got) {
            assert_eq!(n, m, "harness: field order of type {ty}");
            match e {
                V::T(_) => texts = true,
                V::L(_) => self.tested(C17),
                _ => (),
            }
            if e == v {
                continue;
            }
            let mut tags = g;
            match diff_kind(e, v) {
                Diff::Invented => tags |= C13 | if matches!(v, V::T(_)) { C08 } else { 0 },
                Diff::Text => tags |= C08,
                Diff::List => tags |= C17 | if *n == "elements" || *n == "peers" || *n == "items" || *n == "descriptors" { 0 } else { C08 },
                Diff::Value => (),
            }
            if let (V::L(_), V::L(l)) = (list_of(e), list_of(v)) {
                tags |= C17;
                if l.len() > self.limit(cap, idx) {
                    tags |= C03;
                }
            }
            if *n == "handle" || (*n == "type" && g == C21) {
                tags |= C04;
            }
            self.find(tags, format!("field:{ty}:{n}"), format!("{what}: {n} is {v:?}, stored {e:?}"));
        }
        assert_eq!(exp.len(), got.len(), "harness: field count of type {ty}");
        if texts {
            self.tested(C08);
        }
        digest
    }

    pub fn check_error(&self, cap: usize, idx: usize, e: &MalformedStructureError) -> u64 {
        let c = &self.caps[cap];
        let got = project::error(e);
        let Some(item) = c.items.get(idx) else { return 0 };
        let digest = fnv(FNV0, format!("{got:?}").as_bytes());
        self.tested(C20 | C04);
        let got_extent = matches!(got, GotErr::BadSize(..) | GotErr::Unterminated(..));
        match (&item.frame, &item.outcome) {
            (Frame::Whole { ty, handle, .. }, Outcome::Fields(_)) => {
                let mut tags = group(*ty);
                tags |= match got {
                    GotErr::Str(..) => C08,
                    _ if got_extent => C04 | C20,
                    _ => 0,
                };
                self.find(
                    tags,
                    format!("rejected:{ty}"),
                    format!("structure {idx} (type {ty}, handle {handle:#x}) is sound but rejected: {got:?}"),
                );
            }
            (Frame::Whole { ty, .. }, Outcome::Errs(x)) => {
                if got_extent {
                    self.find(C04 | C20 | C07, "extent", format!("structure {idx} has an extent but is reported as {got:?}"));
                } else if !project::error_matches(&got, x) {
                    let mut tags = C20;
                    // a different kind of reason
                    if !x.iter().any(|e| {
                        matches!(
                            (e, &got),
                            (E::Str(..), GotErr::Str(..)) | (E::Len(..), GotErr::Len(..)) | (E::Slice, GotErr::Slice)
                        )
                    }) {
                        // a wrong reason is still a rejection; which one is promised by C20 alone
                        tags |= if x.iter().all(|e| matches!(e, E::Str(..))) { C08 } else { 0 };
                    }
                    self.find(tags, format!("error:{ty}"), format!("structure {idx} (type {ty}) is rejected with {got:?}, not one of {x:?}"));
                }
            }
            (_, Outcome::Errs(x)) => {
                if !project::error_matches(&got, x) {
                    self.find(
                        C20 | if got_extent { 0 } else { C04 },
                        "error:extent",
                        format!("offset {}: reported {got:?}, expected {x:?}", item.off),
                    );
                }
            }
            _ => (),
        }
        digest
    }

    /// One step of a walk against the expected sequence. `ended`: the walk has already reported its end.
    pub fn check_step(
        &self,
        cap: usize,
        idx: usize,
        ended: bool,
        got: &Option<Result<Structure<'static>, MalformedStructureError>>,
    ) -> u64 {
        let c = &self.caps[cap];
        self.tested(C03 | C04);
        match (c.items.get(idx), got) {
            (None, None) => 1,
            (None, Some(x)) => {
                let after_fatal = c.items.last().is_some_and(|i| !matches!(i.frame, Frame::Whole { .. }));
                let more = idx + 1 > c.buf.len() / 6 + 1;
                let mut tags = C04;
                if ended || after_fatal || more {
                    tags |= C03;
                }
                let what = match x {
                    Ok(s) => format!("a structure with handle {:#x}", project::handle(s)),
                    Err(e) => format!("{:?}", project::error(e)),
                };
                self.find(
                    tags,
                    "walk:beyond",
                    format!("the walk yields {what} as item {idx}; it has to have ended after {} items", c.items.len()),
                );
                2
            }
            (Some(i), None) => {
                let mut tags = C04;
                if !matches!(i.frame, Frame::Whole { .. }) {
                    // ends as if the table were complete
                    tags |= C06 | C20;
                }
                self.find(tags, "walk:early", format!("the walk ends before item {idx} at offset {}: {:?}", i.off, i.frame));
                3
            }
            (Some(i), Some(Ok(s))) => {
                if let Frame::Whole { .. } = i.frame {
                    self.check_value(cap, idx, s)
                } else {
                    self.find(
                        C04 | C20,
                        "walk:made_up",
                        format!("item {idx} at offset {} has no extent ({:?}) but is decoded, handle {:#x}", i.off, i.frame, project::handle(s)),
                    );
                    4
                }
            }
            (Some(_), Some(Err(e))) => self.check_error(cap, idx, e),
        }
    }

    pub fn check_search(&self, r: &Region, got: &Result<EntryPoint, InvalidEntryPointError>) -> u64 {
        self.tested(C05);
        match (&r.exp, got) {
            (Ok(e), Ok(g)) => {
                let v3 = matches!(g, EntryPoint::V3(_));
                let have =
                    (v3, g.len(), (g.major(), g.minor()), g.revision(), g.smbios_address(), g.smbios_len());
                let want = (e.v3, e.len, e.ver, e.revision, e.address, e.table_len);
                let v = g.to_version();
                if have != want || (v.major, v.minor) != e.ver {
                    self.find(C05, "search:value", format!("entry point at {} reported as {have:?}, stored {want:?}", e.at));
                }
                // every public field, against the stored bytes
                let f = &r.bytes[e.at..];
                let le = |o: usize, n: usize| f[o..o + n].iter().rev().fold(0u64, |a, b| a << 8 | *b as u64);
                let (got, stored): (Vec<u64>, Vec<u64>) = match g {
                    _ if v3 != e.v3 => (vec![], vec![]),
                    EntryPoint::V2(p) => {
                        let mut v: Vec<u64> = vec![
                            { p.signature } as u64,
                            p.checksum as u64,
                            p.len as u64,
                            p.major as u64,
                            p.minor as u64,
                            { p.struct_max } as u64,
                            p.revision as u64,
                        ];
                        v.extend(p.formatted.iter().chain(&p.dmi_signature).map(|b| *b as u64));
                        v.extend([p.dmi_checksum as u64, { p.smbios_len } as u64, { p.smbios_address } as u64]);
                        v.extend([{ p.smbios_count } as u64, p.bcd_revision as u64]);
                        let mut s = vec![le(0, 4), le(4, 1), le(5, 1), le(6, 1), le(7, 1), le(8, 2), le(10, 1)];
                        s.extend((11..22).map(|o| le(o, 1)));
                        s.extend([le(22, 2), le(24, 4), le(28, 2), le(30, 1)]);
                        (v, s)
                    }
                    EntryPoint::V3(p) => {
                        let mut v: Vec<u64> = p.signature.iter().map(|b| *b as u64).collect();
                        v.extend([p.checksum, p.len, p.major, p.minor, p.docrev, p.revision].iter().map(|b| *b as u64));
                        v.extend([{ p.smbios_len_max } as u64, { p.smbios_address }]);
                        let mut s: Vec<u64> = (0..11).map(|o| le(o, 1)).collect();
                        s.extend([le(12, 4), le(16, 8)]);
                        (v, s)
                    }
                };
                if got != stored {
                    self.find(C05, "search:fields", format!("entry point at {} has fields {got:x?}, stored {stored:x?}", e.at));
                }
                fnv(FNV0, format!("{have:?}").as_bytes())
            }
            (Ok(e), Err(g)) => {
                self.find(C05, "search:rejected", format!("sound entry point at {} rejected: {g:?}", e.at));
                1
            }
            (Err(x), Ok(g)) => {
                self.find(C05, "search:accepted", format!("{x:?} expected, found version {}.{}", g.major(), g.minor()));
                2
            }
            (Err(x), Err(g)) => {
                let g = match g {
                    InvalidEntryPointError::NotFound => EpErr::NotFound,
                    InvalidEntryPointError::TooOldVersion(v) => EpErr::TooOld(*v),
                    InvalidEntryPointError::BadSize(v) => EpErr::BadSize(*v),
                    InvalidEntryPointError::BadChecksum(v) => EpErr::BadChecksum(*v),
                };
                if !x.contains(&g) {
                    self.find(C05, "search:reason", format!("fails with {g:?}, expected one of {x:?}"));
                }
                fnv(FNV0, format!("{g:?}").as_bytes())
            }
        }
    }
}

fn list_of(v: &V) -> &V {
    match v {
        V::R(r) => r.iter().find(|x| matches!(x, V::L(_))).unwrap_or(v),
        _ => v,
    }
}
