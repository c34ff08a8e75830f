//! A client: a reader of captures that makes calls chosen by its own stream and checks every answer.
use crate::chooser::{mix, Stream};
use crate::cursor::{self, Cursor};
use crate::host::{being_killed, yield_now};
use crate::model;
use crate::project::{self, Bounds};
use crate::props::*;
use crate::sys::{self, arm};
use crate::val::*;
use crate::world::*;
use dmidecode::bitfield::{BitField, Position};
use dmidecode::{EntryPoint, MalformedStructureError, RawStructure, Structure, Structures};
use std::fmt;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::rc::Rc;
use std::sync::atomic::Ordering;
use std::sync::Mutex;

/// Set by the panic hook.
pub static PANIC: Mutex<String> = Mutex::new(String::new());

pub struct Stop;
type Res<T> = Result<T, Stop>;

/// What survives the death of an incarnation.
pub struct ClientState {
    pub id: usize,
    pub st: Stream,
    /// operation and digest of its answer
    pub log: Vec<(u8, u64)>,
    pub yields: u64,
    pub incarnation: u32,
}

struct Walker {
    it: Structures<'static>,
    cap: usize,
    pos: usize,
    ended: bool,
}
enum Held {
    Own(Rc<Shared>),
    Err(Rc<(usize, usize, MalformedStructureError)>),
}

pub struct Client<'w> {
    pub w: &'w World,
    pub cs: &'w mut ClientState,
    pub max_ops: u32,
    pub weights: [u32; N_W],
    /// what all clients of the run mostly format
    pub kind: Option<u32>,
    walkers: Vec<Walker>,
    held: Vec<Held>,
    cursors: Vec<Cursor>,
}

/// One library call: a scheduling point, then the call under the run's allocation regime.
pub fn api<R>(w: &World, op: usize, ty: usize, f: impl FnOnce() -> R) -> Res<R> {
    if w.stop.get() {
        return Err(Stop);
    }
    yield_now();
    if w.stop.get() {
        return Err(Stop);
    }
    w.calls.set(w.calls.get() + 1);
    w.ticks.set(w.ticks.get() + 1);
    sys::CUR_OP.store(op | ty << 8, Ordering::Relaxed);
    let r = catch_unwind(AssertUnwindSafe(f));
    arm(false);
    sys::CUR_OP.store(0, Ordering::Relaxed);
    w.tested(C02 | if w.armed { C16 } else { 0 });
    match r {
        Ok(v) => Ok(v),
        Err(p) => {
            if being_killed() {
                resume_unwind(p);
            }
            let msg = std::mem::take(&mut *PANIC.lock().unwrap());
            if msg.contains("harness:") || msg.contains("src/harness") {
                eprintln!("HARNESS {msg}");
                std::process::exit(3);
            }
            let (place, text) = msg.split_once('|').unwrap_or(("?", &msg));
            w.find(op_tags(op, ty), format!("panic:{}:{place}", OP_NAMES[op]), format!("panic in {}: {text} at {place}", OP_NAMES[op]));
            w.stop.set(true);
            Err(Stop)
        }
    }
}

// ---------------------------------------------------------------- sinks

pub struct Sink {
    pub buf: Vec<u8>,
    pub calls: usize,
    /// fail at this call
    pub fail_call: Option<usize>,
    /// fail when this many bytes would be exceeded
    pub fail_byte: Option<usize>,
    /// take what fits before failing
    pub partial: bool,
    /// accept later writes again
    pub transient: bool,
    pub failed: bool,
    /// bytes or calls offered after the failure
    pub after: usize,
    pub yield_every: usize,
    pub yielded: u64,
}
impl Sink {
    pub fn new(yield_every: usize) -> Self {
        Sink {
            buf: Vec::new(),
            calls: 0,
            fail_call: None,
            fail_byte: None,
            partial: false,
            transient: false,
            failed: false,
            after: 0,
            yield_every,
            yielded: 0,
        }
    }
}
impl fmt::Write for Sink {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        let armed = arm(false);
        self.calls += 1;
        if self.yield_every > 0 && self.calls % self.yield_every == 0 && self.yielded < 12 {
            self.yielded += 1;
            yield_now();
        }
        let r = if self.failed {
            self.after += 1;
            if self.transient {
                self.buf.extend_from_slice(s.as_bytes());
                Ok(())
            } else {
                Err(fmt::Error)
            }
        } else if self.fail_call == Some(self.calls - 1) || self.fail_byte.is_some_and(|b| self.buf.len() + s.len() > b) {
            self.failed = true;
            if self.partial {
                let room = match self.fail_byte {
                    Some(b) => b.saturating_sub(self.buf.len()).min(s.len()),
                    None => s.len() / 2,
                };
                self.buf.extend_from_slice(&s.as_bytes()[..room]);
            }
            Err(fmt::Error)
        } else {
            self.buf.extend_from_slice(s.as_bytes());
            Ok(())
        };
        arm(armed);
        r
    }
}

pub struct ByteHasher {
    pub bytes: Vec<u8>,
    pub calls: usize,
    pub yield_every: usize,
    pub yielded: u64,
}
impl Hasher for ByteHasher {
    fn finish(&self) -> u64 {
        fnv(FNV0, &self.bytes)
    }
    fn write(&mut self, b: &[u8]) {
        let armed = arm(false);
        self.calls += 1;
        if self.yield_every > 0 && self.calls % self.yield_every == 0 && self.yielded < 8 {
            self.yielded += 1;
            yield_now();
        }
        self.bytes.extend_from_slice(b);
        arm(armed);
    }
}

pub enum Show<'a> {
    Dbg(&'a dyn fmt::Debug),
    Dsp(&'a dyn fmt::Display),
}
pub const N_SHOW: u32 = 4;
pub fn show(s: &Show, mode: u32, k: &mut Sink) -> fmt::Result {
    use fmt::Write;
    match (s, mode) {
        (Show::Dbg(d), 0) => write!(k, "{d:?}"),
        (Show::Dbg(d), 1) => write!(k, "{d:#?}"),
        (Show::Dbg(d), 2) => write!(k, "{d:02x?}"),
        (Show::Dbg(d), _) => write!(k, "{d:5?}"),
        (Show::Dsp(d), 0) => write!(k, "{d}"),
        (Show::Dsp(d), 1) => write!(k, "{d:#}"),
        (Show::Dsp(d), 2) => write!(k, "{d:>24}"),
        (Show::Dsp(d), _) => write!(k, "{d:<3.2}"),
    }
}

pub fn hash_bytes(w: &World, s: &impl Hash, ty: usize, yield_every: usize) -> Res<Vec<u8>> {
    let mut h = ByteHasher { bytes: Vec::new(), calls: 0, yield_every, yielded: 0 };
    api(w, OP_HASHEQ, ty, || {
        arm(w.armed);
        s.hash(&mut h);
        arm(false);
    })?;
    Ok(h.bytes)
}

pub fn text_of(w: &World, s: &Show, mode: u32, ty: usize) -> Res<Option<String>> {
    let mut k = Sink::new(0);
    let r = api(w, OP_FORMAT, ty, || {
        arm(w.armed);
        let r = show(s, mode, &mut k);
        arm(false);
        r
    })?;
    if r.is_err() {
        w.find(C15, "format:err", format!("formatting into a working sink fails after {:?}", String::from_utf8_lossy(&k.buf)));
        return Ok(None);
    }
    Ok(Some(String::from_utf8_lossy(&k.buf).into_owned()))
}

/// Whether a text mentions a number, in decimal or hexadecimal.
fn says(t: &str, n: u32) -> bool {
    t.split(|c: char| !c.is_ascii_alphanumeric()).any(|k| {
        let h = k.strip_prefix("0x").unwrap_or(k);
        u32::from_str_radix(h, 16) == Ok(n)
    }) || t.split(|c: char| !c.is_ascii_digit()).any(|k| k.parse() == Ok(n))
}

impl<'w> Client<'w> {
    pub fn new(w: &'w World, cs: &'w mut ClientState, max_ops: u32, weights: [u32; N_W], kind: Option<u32>) -> Self {
        Client { w, cs, max_ops, weights, kind, walkers: vec![], held: vec![], cursors: vec![] }
    }
    fn note(&mut self, op: usize, d: u64) {
        self.cs.log.push((op as u8, d));
    }
    fn pick(&mut self, n: usize) -> usize {
        self.cs.st.pick(n.max(1) as u32) as usize
    }

    pub fn run(&mut self) -> Res<()> {
        let w = self.w;
        let cap = self.pick(w.caps.len());
        w.say(|| format!("client {}.{} starts on capture {cap}", self.cs.id, self.cs.incarnation));
        self.new_walker(cap)?;
        let n = 1 + self.cs.st.pick(self.max_ops);
        for _ in 0..n {
            if w.stop.get() {
                return Err(Stop);
            }
            let op = self.cs.st.weighted(&self.weights.clone());
            self.op(op)?;
        }
        // every client finally reads everything there is
        self.drain(cap)
    }

    fn op(&mut self, op: usize) -> Res<()> {
        match op {
            W_STEP => {
                let i = self.pick(self.walkers.len());
                self.step(i, None)
            }
            W_NTH => {
                let i = self.pick(self.walkers.len());
                let left = self.walkers.get(i).map_or(0, |k| self.w.caps[k.cap].items.len() - k.pos);
                let k = self.far(left);
                self.step(i, Some(k))
            }
            W_CLONE => self.clone_walker(),
            W_MISC => self.walker_misc(),
            W_NEW => {
                let c = self.pick(self.w.caps.len());
                self.new_walker(c)
            }
            W_SEARCH => self.search(),
            W_INSPECT => self.inspect(),
            W_LIST => self.open_list(),
            W_CURSOR => self.cursor_op(),
            W_BITS => self.open_bits(),
            W_FMT => self.format(),
            W_HASH => self.hash_eq(),
            W_RAW => self.raw(),
            W_CONV => self.convert(),
            _ => self.collect(),
        }
    }

    fn search_cap(&mut self, cap: usize) -> Res<Option<EntryPoint>> {
        let w = self.w;
        let region = w.caps[cap].region;
        let r = api(w, OP_SEARCH, 0, || {
            arm(w.armed);
            let r = EntryPoint::search(region);
            arm(false);
            r
        })?;
        let reg = Region { bytes: region, exp: model::search(region) };
        let d = w.check_search(&reg, &r);
        self.note(OP_SEARCH, d);
        Ok(r.ok())
    }

    fn new_walker(&mut self, cap: usize) -> Res<()> {
        let w = self.w;
        let shared = w.walks.borrow().len();
        if shared > 0 && self.cs.st.chance(25) {
            // go on where somebody else stands
            let i = self.pick(shared);
            let (c, p, it) = api(w, OP_WALK, 0, || w.walks.borrow()[i].clone())?;
            let ended = p > w.caps[c].items.len();
            self.walkers.push(Walker { it, cap: c, pos: p.min(w.caps[c].items.len()), ended });
        } else {
            let Some(ep) = self.search_cap(cap)? else { return Ok(()) };
            let buf = w.caps[cap].buf;
            let it = api(w, OP_WALK, 0, || {
                arm(w.armed);
                let it = ep.structures(buf);
                arm(false);
                it
            })?;
            self.walkers.push(Walker { it, cap, pos: 0, ended: false });
        }
        if self.walkers.len() > 4 {
            let i = self.pick(4);
            self.walkers.remove(i);
        }
        Ok(())
    }

    fn keep(&mut self, cap: usize, idx: usize, got: Option<Result<Structure<'static>, MalformedStructureError>>) {
        match got {
            Some(Ok(s)) => self.held.push(Held::Own(Rc::new(Shared { cap, idx, s }))),
            Some(Err(e)) => self.held.push(Held::Err(Rc::new((cap, idx, e)))),
            None => (),
        }
        if self.held.len() > 24 {
            self.held.remove(0);
        }
    }

    /// The displayed text of an error names what the error carries.
    fn error_text(&mut self, e: &MalformedStructureError) -> Res<()> {
        let w = self.w;
        let Some(t) = text_of(w, &Show::Dsp(e), 0, 0)? else { return Ok(()) };
        use MalformedStructureError::*;
        let nums: Vec<u32> = match e {
            BadSize(o, n) => vec![*o, *n as u32],
            UnterminatedStrings(o) => vec![*o],
            InvalidStringIndex(_, h, i) => vec![*h as u32, *i as u32],
            InvalidFormattedSectionLength(_, h, _, n) => vec![*h as u32, *n as u32],
            InvalidSlice(_) => vec![],
        };
        let ty = match e {
            InvalidStringIndex(t, ..) | InvalidFormattedSectionLength(t, ..) => Some(t),
            _ => None,
        };
        w.tested(C20);
        if let Some(n) = nums.iter().find(|n| !says(&t, **n)) {
            w.find(C20, "text:number", format!("{e:?} is shown as {t:?}, which does not say {n}"));
        }
        if let Some(ty) = ty {
            let d = text_of(w, &Show::Dbg(ty), 0, 0)?.unwrap_or_default();
            let s = text_of(w, &Show::Dsp(ty), 0, 0)?.unwrap_or_default();
            if !t.contains(&d) && !t.contains(&s) {
                w.find(C20, "text:type", format!("{e:?} is shown as {t:?}, which does not say {d} or {s:?}"));
            }
        }
        #[cfg(feature = "std")]
        {
            let a = w.armed;
            let cause = api(w, OP_FORMAT, 0, || {
                arm(a);
                let s = std::error::Error::source(e).is_some();
                arm(false);
                s
            })?;
            if cause != matches!(e, InvalidSlice(_)) {
                w.find(C20, "text:source", format!("{e:?} has an underlying cause: {cause}"));
            }
        }
        Ok(())
    }

    fn step(&mut self, i: usize, nth: Option<usize>) -> Res<()> {
        let w = self.w;
        let Some(k) = self.walkers.get_mut(i) else { return Ok(()) };
        let cap = k.cap;
        let skip = nth.unwrap_or(0);
        let at = k.pos.saturating_add(skip);
        let ty = w.ty(cap, at);
        let it = &mut k.it;
        let got = api(w, OP_WALK, ty, || {
            arm(w.armed);
            let r = match nth {
                None => it.next(),
                Some(n) => it.nth(n),
            };
            arm(false);
            r
        })?;
        let total = w.caps[cap].items.len();
        let ended = k.ended;
        let d = api(w, OP_INSPECT, ty, || w.check_step(cap, at.min(total), ended, &got))?;
        let k = &mut self.walkers[i];
        k.pos = at.saturating_add(1).min(total);
        k.ended |= got.is_none();
        let id = self.cs.id;
        w.say(|| format!("client {id} capture {cap} item {at}: {}", brief(&got)));
        if let Some(Err(e)) = &got {
            if self.cs.st.chance(40) {
                self.error_text(e)?;
            }
        }
        self.keep(cap, at, got);
        self.note(OP_WALK, d);
        Ok(())
    }

    fn clone_walker(&mut self) -> Res<()> {
        let w = self.w;
        let i = self.pick(self.walkers.len());
        let Some(k) = self.walkers.get(i) else { return Ok(()) };
        let it = api(w, OP_WALK, 0, || {
            arm(w.armed);
            let it = k.it.clone();
            arm(false);
            it
        })?;
        let same = api(w, OP_HASHEQ, 0, || it == k.it)?;
        if !same {
            w.find(C19 | C14, "walk:clone", "a cloned walk compares unequal to its origin");
        }
        let n = Walker { it, cap: k.cap, pos: k.pos, ended: k.ended };
        // sometimes the clone goes on, sometimes the origin
        if self.cs.st.chance(50) {
            self.walkers[i] = n;
        } else if self.walkers.len() < 5 {
            self.walkers.push(n);
        }
        self.note(OP_WALK, 7);
        Ok(())
    }

    fn walker_misc(&mut self) -> Res<()> {
        let w = self.w;
        let i = self.pick(self.walkers.len());
        let what = self.pick(5);
        let Some(k) = self.walkers.get(i) else { return Ok(()) };
        let total = w.caps[k.cap].items.len();
        let rest = total - k.pos;
        // make sure that it ends before asking it to run to its end
        let n = match what {
            1 => rest,
            _ => api(w, OP_WALK, 0, || {
                arm(w.armed);
                let n = k.it.clone().take(rest + 2).count();
                arm(false);
                n
            })?,
        };
        if n != rest {
            let over = n > rest;
            w.find(
                C04 | if over && k.ended { C03 } else { 0 },
                "walk:count",
                format!("{n} items left after item {}, expected {rest}", k.pos),
            );
            self.note(OP_WALK, n as u64);
            return Ok(());
        }
        let d = match what {
            0 => {
                let n = api(w, OP_WALK, 0, || {
                    arm(w.armed);
                    let n = k.it.clone().count();
                    arm(false);
                    n
                })?;
                if n != rest {
                    w.find(C04, "walk:count", format!("counts {n} items after item {}, yields {rest}", k.pos));
                }
                n as u64
            }
            1 => {
                let (lo, hi) = api(w, OP_WALK, 0, || k.it.size_hint())?;
                if lo > rest || hi.is_some_and(|h| h < rest) {
                    w.find(C04, "walk:hint", format!("promises {lo}..{hi:?} items, {rest} are left"));
                }
                lo as u64
            }
            2 => {
                let got = api(w, OP_WALK, 0, || {
                    arm(w.armed);
                    let r = k.it.clone().last();
                    arm(false);
                    r
                })?;
                let at = if rest > 0 { total - 1 } else { total };
                api(w, OP_INSPECT, w.ty(k.cap, at), || w.check_step(k.cap, at, k.ended, &got))?
            }
            _ => {
                // internal iteration
                let mut at = k.pos;
                let mut got = Vec::new();
                let mut see = |x| {
                    let a = arm(false);
                    got.push(Some(x));
                    arm(a);
                };
                api(w, OP_WALK, 0, || {
                    arm(w.armed);
                    match what {
                        3 => k.it.clone().for_each(&mut see),
                        _ => k.it.clone().fold((), |_, x| see(x)),
                    }
                    arm(false);
                })?;
                if got.len() != rest {
                    w.find(C04, "walk:fold", format!("{} items left after item {}, expected {rest}", got.len(), k.pos));
                }
                let mut d = FNV0;
                for x in got.iter().take(rest) {
                    let c = api(w, OP_INSPECT, w.ty(k.cap, at), || w.check_step(k.cap, at, false, x))?;
                    d = fnv(d, &c.to_le_bytes());
                    at += 1;
                }
                d
            }
        };
        self.note(OP_WALK, d);
        Ok(())
    }

    fn search(&mut self) -> Res<()> {
        let w = self.w;
        if w.regions.is_empty() {
            return Ok(());
        }
        let i = self.pick(w.regions.len());
        let reg = &w.regions[i];
        let r = api(w, OP_SEARCH, 0, || {
            arm(w.armed);
            let r = EntryPoint::search(reg.bytes);
            arm(false);
            r
        })?;
        let id = self.cs.id;
        w.say(|| format!("client {id} searches region {i} ({} bytes): {}", reg.bytes.len(), match &r {
            Ok(e) => format!("version {}.{}", e.major(), e.minor()),
            Err(e) => format!("{e:?}"),
        }));
        let d = w.check_search(reg, &r);
        match &r {
            Err(e) => {
                if self.cs.st.chance(20) {
                    self.format_one(Show::Dsp(e), 0)?;
                    self.format_one(Show::Dbg(e), 0)?;
                    use dmidecode::InvalidEntryPointError::*;
                    let n = match e {
                        NotFound => None,
                        TooOldVersion(n) | BadSize(n) | BadChecksum(n) => Some(*n as u32),
                    };
                    if let (Some(t), Some(n)) = (text_of(w, &Show::Dsp(e), 0, 0)?, n) {
                        w.tested(C05);
                        if !says(&t, n) {
                            w.find(C05, "text", format!("{e:?} is shown as {t:?}, which does not say {n}"));
                        }
                    }
                }
                #[cfg(feature = "std")]
                {
                    let _ = api(w, OP_FORMAT, 0, || std::error::Error::source(e).is_some())?;
                }
            }
            Ok(e) => {
                if self.cs.st.chance(10) {
                    let h = hash_bytes(w, e, 0, 0)?;
                    let again = api(w, OP_SEARCH, 0, || EntryPoint::search(reg.bytes))?;
                    match again {
                        Ok(e2) => {
                            w.tested(C19);
                            if e2 != *e || hash_bytes(w, &e2, 0, 0)? != h {
                                w.find(C19, "search:again", "the same region gives a different entry point");
                            }
                        }
                        Err(_) => w.find(C19 | C05, "search:again", "the same region gives an error the second time"),
                    }
                    self.format_one(Show::Dbg(e), 0)?;
                }
                if self.cs.st.chance(10) {
                    self.other_entry(e, reg)?;
                }
            }
        }
        self.note(OP_SEARCH, d);
        Ok(())
    }

    /// An entry point against the one of another region: same bytes, other place, or other contents.
    fn other_entry(&mut self, e: &EntryPoint, reg: &Region) -> Res<()> {
        let w = self.w;
        let other = self.pick(w.regions.len() + w.caps.len());
        let bytes = match w.regions.get(other) {
            Some(r) => r.bytes,
            None => w.caps[other - w.regions.len()].region,
        };
        let Ok(f) = api(w, OP_SEARCH, 0, || EntryPoint::search(bytes))? else { return Ok(()) };
        let (Ok(x), Ok(y)) = (&reg.exp, &model::search(bytes)) else { return Ok(()) };
        let (eq, ne) = api(w, OP_HASHEQ, 0, || {
            arm(w.armed);
            let r = (*e == f, f != *e);
            arm(false);
            r
        })?;
        w.tested(C19);
        if eq == ne {
            w.find(C19, "search:sides", format!("two entry points: a == b is {eq}, b != a is {ne}"));
        }
        if eq && hash_bytes(w, e, 0, 0)? != hash_bytes(w, &f, 0, 0)? {
            w.find(C19, "search:hash", "two entry points compare equal but hash differently");
        }
        let n = if x.v3 { 24 } else { 31 };
        let (p, q) = (&reg.bytes[x.at..x.at + n], bytes.get(y.at..y.at + n).unwrap_or(&[]));
        if p == q && x.v3 == y.v3 && !eq {
            w.find(C19, "search:same", "two entry points come from the same bytes but compare unequal");
        }
        let shown = |e: &model::Ep| (e.v3, e.len, e.ver, e.revision, e.address, e.table_len);
        if shown(x) != shown(y) && eq {
            w.find(C19, "search:diff", format!("{:?} and {:?} compare equal", shown(x), shown(y)));
        }
        w.probe("entries_compared");
        Ok(())
    }

    /// Two walks over captures that were read separately, after some steps each.
    pub fn walks_eq(&mut self) -> Res<()> {
        let w = self.w;
        let (a, b) = (self.pick(w.caps.len()), self.pick(w.caps.len()));
        let i = self.pick(w.caps[a].items.len() + 2);
        let j = if self.cs.st.chance(70) { i } else { self.pick(w.caps[b].items.len() + 2) };
        let go = |c: usize, n: usize| -> Res<Option<Structures<'static>>> {
            let cap = &w.caps[c];
            let Ok(e) = api(w, OP_SEARCH, 0, || EntryPoint::search(cap.region))? else { return Ok(None) };
            let mut it = api(w, OP_WALK, 0, || e.structures(cap.buf))?;
            for k in 0..n {
                api(w, OP_WALK, w.ty(c, k), || it.next().is_some())?;
            }
            Ok(Some(it))
        };
        let (Some(x), Some(y)) = (go(a, i)?, go(b, j)?) else { return Ok(()) };
        let (eq, ne) = api(w, OP_HASHEQ, 0, || {
            arm(w.armed);
            let r = (x == y, y != x);
            arm(false);
            r
        })?;
        w.tested(C19);
        let what = || format!("the walks over capture {a} after {i} and over capture {b} after {j} steps");
        if eq == ne {
            w.find(C19, "walk:sides", format!("{}: a == b is {eq}, b != a is {ne}", what()));
        }
        if eq && hash_bytes(w, &x, 0, 0)? != hash_bytes(w, &y, 0, 0)? {
            w.find(C19, "walk:hash", format!("{} compare equal but hash differently", what()));
        }
        let (p, q) = (&w.caps[a], &w.caps[b]);
        if p.buf == q.buf && p.region == q.region && i == j && !eq {
            w.find(C19, "walk:same", format!("{} go over the same bytes but compare unequal", what()));
        }
        let rest = |c: &Cap, n: usize| c.items.get(n..).unwrap_or(&[]).iter().map(|i| (i.outcome.clone(), item_type(i))).collect::<Vec<_>>();
        if eq && (rest(p, i) != rest(q, j) || (i < p.items.len() && p.ver != q.ver)) {
            w.find(C19, "walk:diff", format!("{} still have different structures to report but compare equal", what()));
        }
        w.probe("walks_compared");
        Ok(())
    }

    /// A decoded value: own or shared with the other clients.
    fn target(&mut self) -> Option<Rc<Shared>> {
        let w = self.w;
        let pool = w.pool.borrow().len();
        if pool > 0 && self.cs.st.chance(40) {
            let i = self.pick(pool);
            return Some(w.pool.borrow()[i].clone());
        }
        let own: Vec<usize> = (0..self.held.len()).filter(|i| matches!(self.held[*i], Held::Own(_))).collect();
        if own.is_empty() {
            return None;
        }
        let i = own[self.pick(own.len())];
        match &self.held[i] {
            Held::Own(s) => Some(s.clone()),
            _ => None,
        }
    }

    fn inspect(&mut self) -> Res<()> {
        let w = self.w;
        let Some(t) = self.target() else { return Ok(()) };
        let ty = w.ty(t.cap, t.idx);
        let d = api(w, OP_INSPECT, ty, || w.check_value(t.cap, t.idx, &t.s))?;
        self.note(OP_INSPECT, d);
        Ok(())
    }

    fn open_list(&mut self) -> Res<()> {
        let w = self.w;
        let Some(t) = self.target() else { return Ok(()) };
        let Some(exp) = w.expected(t.cap, t.idx) else { return Ok(()) };
        let (buf, lim) = (w.caps[t.cap].buf, w.limit(t.cap, t.idx));
        let l = api(w, OP_NEST, 0, || cursor::lists(&t.s, buf, exp, lim))?;
        self.add_cursors(l);
        self.note(OP_NEST, self.cursors.len() as u64);
        Ok(())
    }
    fn add_cursors(&mut self, l: Vec<Cursor>) {
        self.cursors.extend(l);
        while self.cursors.len() > 6 {
            self.cursors.remove(0);
        }
    }

    fn open_bits(&mut self) -> Res<()> {
        let w = self.w;
        let own = self.cs.st.chance(40);
        let view = self.pick(3) as u32;
        if own {
            let which = self.pick(cursor::N_OWN as usize) as u32;
            let val = self.bit_value();
            if which == cursor::POST {
                let t = cursor::post_target(val as u64);
                self.meaning(&t)?;
            }
            let (c, _, _) = api(w, OP_BITS, 0, || cursor::own_cursor(which, val, view))?;
            self.add_cursors(vec![c]);
        } else {
            let Some(t) = self.target() else { return Ok(()) };
            let Some(exp) = w.expected(t.cap, t.idx) else { return Ok(()) };
            let l = api(w, OP_BITS, 0, || cursor::bit_targets(&t.s, exp))?;
            if l.is_empty() {
                return Ok(());
            }
            let i = self.pick(l.len());
            self.meaning(&l[i])?;
            let c = api(w, OP_BITS, 0, || (l[i].make)(view))?;
            self.add_cursors(vec![c]);
        }
        self.note(OP_BITS, view as u64);
        Ok(())
    }
    fn bit_value(&mut self) -> u128 {
        let mut n = self.cs.st.noise();
        match self.pick(5) {
            0 => (n.next() as u128) << 64 | n.next() as u128,
            1 => 0,
            2 => u128::MAX,
            3 => 1u128 << n.below(128),
            _ => !(1u128 << n.below(128)),
        }
    }

    /// How many items to skip: a few, about as many as there are, or far more.
    fn far(&mut self, left: usize) -> usize {
        match self.cs.st.weighted(&[60, 25, 15]) {
            0 => self.pick(6),
            1 => (left + self.pick(4)).saturating_sub(2),
            _ => *self.cs.st.of(&[8usize, 15, 16, 17, 31, 32, 63, 64, 127, 128, 255, 256, 65535, 65536, 1 << 32, usize::MAX / 8, usize::MAX - 1, usize::MAX]),
        }
    }

    fn cursor_op(&mut self) -> Res<()> {
        if self.cursors.is_empty() {
            return if self.cs.st.chance(50) { self.open_bits() } else { self.open_list() };
        }
        let i = self.pick(self.cursors.len());
        let what = self.cs.st.weighted(&[40, 14, 10, 6, 6, 6, 6, 8, 4]);
        let left = self.cursors[i].list.len() - self.cursors[i].pos;
        let k = if what == 1 { self.far(left) } else { self.pick(6) };
        self.cursor_do(i, what, k)
    }

    fn cursor_do(&mut self, i: usize, what: usize, k: usize) -> Res<()> {
        let w = self.w;
        let a = w.armed;
        let c = &mut self.cursors[i];
        let (op, tag) = if c.bits { (OP_BITS, C18) } else { (OP_NEST, C17) };
        w.tested(tag | C03);
        let (n, pos, name, limit) = (c.list.len(), c.pos, c.what, c.limit);
        let rest = n - pos;
        let list = c.list.clone();
        let ended = c.ended;
        let beyond = move |seen: usize| if ended || pos.saturating_add(seen) > limit { C03 } else { 0 };
        let bad = |got: &Option<V>, want: Option<&V>, how: &str, at: usize| {
            if got.as_ref() != want {
                let mut tags = tag;
                if want.is_none() {
                    tags |= beyond((at - pos.min(at)).saturating_add(1));
                }
                if matches!(got, Some(V::T(t)) if t.starts_with("<outside")) {
                    tags |= C01;
                }
                if matches!((got, want), (Some(V::T(_)), _) | (_, Some(V::T(_)))) {
                    tags |= C08;
                }
                w.find(tags, format!("{}:{name}:{how}", OP_NAMES[op]), format!("{name}[{at}] by {how}: {got:?}, expected {want:?} of {n}"));
            }
        };
        let d;
        match what {
            0 => {
                let got = api(w, op, 0, || c.it.next(a))?;
                bad(&got, list.get(pos), "next", pos);
                c.pos = (pos + 1).min(n);
                c.ended |= got.is_none();
                d = digest(&got);
            }
            1 => {
                let got = api(w, op, 0, || c.it.nth(a, k))?;
                let at = pos.saturating_add(k);
                bad(&got, list.get(at), "nth", at);
                c.pos = at.saturating_add(1).min(n);
                c.ended |= got.is_none();
                d = digest(&got);
            }
            2 => {
                let it = api(w, op, 0, || c.it.dup(a))?;
                let n = Cursor { it, list, pos, limit, bits: c.bits, ended, what: name };
                let swap = self.cs.st.chance(50);
                if swap {
                    let old = std::mem::replace(&mut self.cursors[i], n);
                    self.add_cursors(vec![old]);
                } else {
                    self.add_cursors(vec![n]);
                }
                d = 2;
            }
            3 => {
                let got = api(w, op, 0, || c.it.count(a, limit + 2))?;
                if got != Some(rest) {
                    w.find(tag | if got.is_none() { C03 } else { beyond(got.unwrap_or(0)) }, format!("{}:{name}:count", OP_NAMES[op]), format!("{name} counts {got:?} items after {pos}, expected {rest}"));
                }
                d = got.unwrap_or(99) as u64;
            }
            4 => {
                let got = api(w, op, 0, || c.it.last(a, limit + 2))?;
                match got {
                    Some(got) => {
                        bad(&got, if rest > 0 { list.last() } else { None }, "last", n);
                        d = digest(&got);
                    }
                    None => {
                        w.find(tag | C03, format!("{}:{name}:last", OP_NAMES[op]), format!("{name} does not end after {} items", limit + 2));
                        d = 98;
                    }
                }
            }
            5 => {
                let (lo, hi) = api(w, op, 0, || c.it.hint(a))?;
                if lo > rest || hi.is_some_and(|h| h < rest) {
                    w.find(tag, format!("{}:{name}:hint", OP_NAMES[op]), format!("{name} promises {lo}..{hi:?}, {rest} are left"));
                }
                d = lo as u64;
            }
            6 => {
                let got = api(w, op, 0, || c.it.fold(a, limit + 2))?;
                let left = list.get(pos..).unwrap_or(&[]);
                if got[..] != *left {
                    let more = got.len() > rest;
                    w.find(tag | if more { beyond(got.len()) } else { 0 }, format!("{}:{name}:fold", OP_NAMES[op]), format!("{name} after {pos}: {got:?}, expected {left:?}"));
                }
                d = got.iter().fold(FNV0, |h, v| v.digest(h));
            }
            7 => {
                let got = api(w, op, 0, || c.it.take(a, k))?;
                let want = list.get(pos..(pos + k).min(n)).unwrap_or(&[]);
                if got != want {
                    w.find(tag | if got.len() > want.len() { beyond(got.len()) } else { 0 }, format!("{}:{name}:take", OP_NAMES[op]), format!("{name} after {pos}, taking {k}: {got:?}, expected {want:?}"));
                }
                c.pos = (pos + k).min(n);
                c.ended |= got.len() < k;
                d = got.iter().fold(FNV0, |h, v| v.digest(h));
            }
            _ => {
                // describing an iterator does not move it
                let before = api(w, op, 0, || c.it.dup(a))?;
                let t = text_of(w, &Show::Dbg(c.it.debug()), 0, 0)?;
                let t2 = text_of(w, &Show::Dbg(before.debug()), 0, 0)?;
                w.tested(C19);
                if t != t2 {
                    w.find(C19, format!("{}:{name}:debug", OP_NAMES[op]), format!("{name}: a clone prints differently"));
                }
                d = 5;
            }
        }
        let id = self.cs.id;
        w.say(|| format!("client {id} {name} after {pos}: step kind {what} by {k}"));
        self.note(op, d);
        Ok(())
    }

    /// The layout of a bit field is the specified one, and a bit shows the meaning its layout gives it.
    fn meaning(&mut self, t: &cursor::BitTarget) -> Res<()> {
        let w = self.w;
        let ok = t.kinds.len() == t.golden.len() && t.kinds.chars().zip(t.golden.chars()).all(|(a, b)| a == b || b == '?');
        if !ok {
            w.find(C18, format!("bits:layout:{}", t.what), format!("{}: bits are {}, specified {}", t.what, t.kinds, t.golden));
        }
        if self.cs.st.chance(5) {
            if let Some(m) = cursor::misplaced(t.what, t.layout) {
                w.find(C18, format!("bits:meaning:{}", t.what), m);
            }
        }
        if self.cs.st.chance(30) && !t.layout.is_empty() {
            let i = self.pick(t.layout.len());
            let long = self.cs.st.chance(50);
            let Some(f) = api(w, OP_BITS, 0, || (t.flag)(i))? else { return Ok(()) };
            let Some(got) = text_of(w, &Show::Dsp(&f), long as u32, 0)? else { return Ok(()) };
            let want = match t.layout[i] {
                dmidecode::bitfield::FlagType::Significant(a, b) => if long { b } else { a },
                dmidecode::bitfield::FlagType::Reserved(a) => a,
                dmidecode::bitfield::FlagType::Unknown => "",
            };
            if !got.contains(want) {
                w.find(C18, format!("bits:text:{}", t.what), format!("bit {i} of {} is shown as {got:?}, its layout says {want:?}", t.what));
            }
        }
        Ok(())
    }

    fn format(&mut self) -> Res<()> {
        let w = self.w;
        let errs: Vec<usize> = (0..self.held.len()).filter(|i| matches!(self.held[*i], Held::Err(_))).collect();
        if !errs.is_empty() && self.cs.st.chance(25) {
            let i = errs[self.pick(errs.len())];
            let Held::Err(e) = &self.held[i] else { return Ok(()) };
            let e = e.clone();
            let mode = self.pick(N_SHOW as usize) as u32;
            #[cfg(feature = "std")]
            {
                let _ = api(w, OP_FORMAT, 0, || {
                    arm(w.armed);
                    let s = std::error::Error::source(&e.2).is_some();
                    arm(false);
                    s
                })?;
            }
            return if self.cs.st.chance(50) {
                self.format_one(Show::Dbg(&e.2), mode)
            } else {
                self.format_one(Show::Dsp(&e.2), mode)
            };
        }
        if !self.walkers.is_empty() && self.cs.st.chance(8) {
            let i = self.pick(self.walkers.len());
            if w.caps[self.walkers[i].cap].buf.len() < 1500 {
                let it = self.walkers[i].it.clone();
                return self.format_one(Show::Dbg(&it), 0);
            }
        }
        if !self.cursors.is_empty() && self.cs.st.chance(12) {
            let i = self.pick(self.cursors.len());
            if self.cursors[i].limit < 1500 {
                let it = api(w, OP_FORMAT, 0, || self.cursors[i].it.dup(false))?;
                let m = self.pick(2) as u32;
                return self.format_one(Show::Dbg(it.debug()), m);
            }
        }
        let mode = self.pick(N_SHOW as usize) as u32;
        if self.cs.st.chance(25) {
            for _ in 0..1 + self.pick(8) {
                let mode = if self.cs.st.chance(80) { self.pick(2) as u32 } else { mode };
                let kind = self.pick(cursor::N_FREE);
                let kind = self.kind.filter(|_| self.cs.st.chance(75)).map_or(kind, |k| k as usize % cursor::N_FREE);
                let v = self.cs.st.noise().next();
                let (d, g) = api(w, OP_FORMAT, 0, || cursor::free(kind, v))?;
                if self.cs.st.chance(15) {
                    self.format_one(Show::Dbg(&*g), mode)?;
                } else {
                    self.format_one(Show::Dsp(&*d), mode)?;
                }
            }
            return Ok(());
        }
        let Some(t) = self.target() else { return Ok(()) };
        if self.cs.st.chance(55) {
            let l = api(w, OP_FORMAT, 0, || cursor::displays(&t.s))?;
            if !l.is_empty() {
                let i = self.pick(l.len());
                let i = self.kind.filter(|_| self.cs.st.chance(75)).map_or(i, |k| k as usize % l.len());
                return self.format_one(Show::Dsp(&*l[i]), mode);
            }
        }
        if w.limit(t.cap, t.idx) > 3000 {
            return Ok(());
        }
        self.format_one(Show::Dbg(&t.s), mode)
    }

    /// Full text, then a sink that fails somewhere, then the full text again.
    fn format_one(&mut self, s: Show, mode: u32) -> Res<()> {
        let w = self.w;
        let every = *self.cs.st.of(&[0usize, 1, 3, 10]);
        let a = w.armed;
        let put = |k: &mut Sink| {
            api(w, OP_FORMAT, 0, || {
                arm(a);
                let r = show(&s, mode, k);
                arm(false);
                r
            })
        };
        let mut full = Sink::new(every);
        if put(&mut full)?.is_err() {
            w.find(C15, "format:err", format!("formatting into a working sink fails after {:?}", String::from_utf8_lossy(&full.buf)));
            return Ok(());
        }
        w.tested(C15);
        let mut d = fnv(FNV0, &full.buf);
        if full.calls > 0 {
            let mut k = Sink::new(every);
            let by_byte = self.cs.st.chance(50) && !full.buf.is_empty();
            if by_byte {
                k.fail_byte = Some(self.cs.st.pick(full.buf.len() as u32) as usize);
            } else {
                k.fail_call = Some(self.cs.st.pick(full.calls as u32) as usize);
            }
            k.partial = self.cs.st.chance(50);
            k.transient = self.cs.st.chance(50);
            let r = put(&mut k)?;
            w.probe("sink_failures");
            let head = || format!("{:?}", String::from_utf8_lossy(&full.buf[..full.buf.len().min(80)]));
            if k.failed && r.is_ok() {
                w.find(C15, "format:swallowed", format!("the sink fails at call {} but formatting {} reports success", k.calls, head()));
            }
            if k.after > 0 {
                w.find(C15, "format:after", format!("{} more writes after the sink failed while formatting {}", k.after, head()));
            }
            if !full.buf.starts_with(&k.buf) {
                w.find(C15, "format:prefix", format!("the failed sink holds {:?}, not a prefix of {}", String::from_utf8_lossy(&k.buf), head()));
            }
            let mut again = Sink::new(0);
            if put(&mut again)?.is_err() || again.buf != full.buf {
                w.find(C15, "format:again", format!("after a failed attempt the text is {:?}, not {}", String::from_utf8_lossy(&again.buf), head()));
            }
            d = fnv(fnv(d, &k.buf), &again.buf);
        }
        let id = self.cs.id;
        w.say(|| format!("client {id} formats {:?}", String::from_utf8_lossy(&full.buf[..full.buf.len().min(100)])));
        self.note(OP_FORMAT, d);
        Ok(())
    }

    fn hash_eq(&mut self) -> Res<()> {
        let w = self.w;
        if self.cs.st.chance(10) {
            return self.walks_eq();
        }
        let (Some(a), Some(b)) = (self.target(), self.target()) else { return Ok(()) };
        let every = *self.cs.st.of(&[0usize, 1, 4]);
        // prefer the same stored structure seen through another capture
        let b = if self.cs.st.chance(50) {
            let p = w.pool.borrow();
            p.iter().filter(|x| x.cap != a.cap && x.idx == a.idx).last().cloned().unwrap_or(b)
        } else {
            b
        };
        let d = compare(w, &a, &b, every)?;
        self.note(OP_HASHEQ, d);
        Ok(())
    }

    fn raw(&mut self) -> Res<()> {
        let w = self.w;
        let Some(mut t) = self.target() else { return Ok(()) };
        if !matches!(t.s, Structure::Other(_)) {
            // look for a raw one
            let p = w.pool.borrow();
            let l: Vec<&Rc<Shared>> = p.iter().filter(|x| matches!(x.s, Structure::Other(_))).collect();
            if l.is_empty() {
                return Ok(());
            }
            let i = self.cs.st.pick(l.len() as u32) as usize;
            t = l[i].clone();
        }
        let Structure::Other(r) = &t.s else { return Ok(()) };
        for _ in 0..1 + self.pick(4) {
            self.raw_one(r, t.cap, t.idx)?;
        }
        Ok(())
    }

    fn raw_one(&mut self, r: &RawStructure<'static>, cap: usize, idx: usize) -> Res<()> {
        let w = self.w;
        let c = &w.caps[cap];
        let Some(item) = c.items.get(idx) else { return Ok(()) };
        let model::Frame::Whole { len, strings_at, end, .. } = item.frame else { return Ok(()) };
        let f = &c.buf[item.off..item.off + len as usize];
        let set = &c.buf[strings_at..end];
        let near = self.cs.st.chance(70);
        let off = if near { (len as usize + 3).saturating_sub(self.pick(12)).max(4) } else { 4 + self.pick(300) };
        let off = if self.cs.st.chance(40) { 4 + self.pick((len as usize).max(1)) } else { off };
        // now and then an offset in the header or so far out that arithmetic on it would overflow
        let off = if self.cs.st.chance(8) { *self.cs.st.of(&[0usize, 1, 2, 3, usize::MAX, usize::MAX - 1, usize::MAX - 3, usize::MAX - 5, 1 << 32]) } else { off };
        let stored = |size: usize| if off < 4 { None } else { f.get(off..off.checked_add(size)?) };
        let what = self.pick(8);
        w.tested(C21);
        let a = w.armed;
        macro_rules! num {
            ($t:ty) => {{
                let n = std::mem::size_of::<$t>();
                let got = api(w, OP_RAW, 0, || {
                    arm(a);
                    let r = r.get::<$t>(off);
                    arm(false);
                    r
                })?;
                let want = stored(n).map(|b| b.iter().rev().fold(0u128, |z, x| z << 8 | *x as u128));
                match (&got, want) {
                    (Ok(g), Some(x)) if *g as u128 == x => (),
                    (Err(MalformedStructureError::InvalidSlice(_)), None) => (),
                    _ => w.find(C21, format!("raw:get{n}"), format!("number of {n} bytes at {off} of {len}: {got:?}, stored {want:?}")),
                }
                fnv(FNV0, format!("{got:?}").as_bytes())
            }};
        }
        let d = match what {
            0 => num!(u8),
            1 => num!(u16),
            2 => num!(u32),
            3 => num!(u64),
            4 => num!(u128),
            5 => {
                let size = *self.cs.st.of(&[1usize, 2, 3, 5, 16, 100, 255, 256, 1000, 0, usize::MAX, usize::MAX - 8]);
                let got = api(w, OP_RAW, 0, || {
                    arm(a);
                    let r = r.get_slice(off, size);
                    arm(false);
                    r
                })?;
                let want = stored(size);
                if let Some(g) = got {
                    let mut b = Bounds::of(c.buf);
                    b.bytes(g);
                    if b.escaped {
                        w.find(C01 | C21, "raw:escape", format!("slice of {size} at {off} of {len} lies outside the buffer"));
                        return Ok(());
                    }
                }
                if got != want {
                    w.find(C21, "raw:slice", format!("slice of {size} at {off} of {len}: {got:?}, stored {want:?}"));
                }
                got.map_or(1, |g| fnv(FNV0, g))
            }
            _ => {
                let (idx, got) = if what == 6 {
                    let got = api(w, OP_RAW, 0, || {
                        arm(a);
                        let r = r.get_string(off);
                        arm(false);
                        r
                    })?;
                    (stored(1).map(|b| b[0]), got)
                } else {
                    let i = *self.cs.st.of(&[1u8, 2, 3, 0, 4, 5, 254, 255, 7, 9, 128]);
                    let got = api(w, OP_RAW, 0, || {
                        arm(a);
                        let r = r.find_string(i);
                        arm(false);
                        r
                    })?;
                    (Some(i), got)
                };
                w.tested(C08);
                let strs = model::strings(set);
                let want = idx.map(|i| if i == 0 { Some(String::new()) } else { strs.get(i as usize - 1).cloned().flatten() });
                let mut b = Bounds::of(c.buf);
                if let Ok(t) = got {
                    b.bytes(t.as_bytes());
                    if b.escaped {
                        w.find(C01 | C08 | C21, "raw:escape", "text lies outside the buffer");
                        return Ok(());
                    }
                }
                let raw = item_type(item);
                let ok = match (&got, &want) {
                    (Ok(g), Some(Some(x))) => g == x,
                    (Err(e), Some(None)) => {
                        let e = project::error(e);
                        let exp = [model::E::Str(raw.0, raw.1, idx.unwrap_or(0))];
                        w.tested(C20);
                        if !project::error_matches(&e, &exp) {
                            w.find(C20, "raw:error", format!("text {idx:?}: {e:?}, expected {exp:?}"));
                        }
                        true
                    }
                    (Err(MalformedStructureError::InvalidSlice(_)), None) => true,
                    _ => false,
                };
                if !ok {
                    let tags = if what == 6 { C21 | C08 } else { C08 | C21 };
                    w.find(tags, "raw:text", format!("text {idx:?} (offset {off} of {len}): {got:?}, stored {want:?}"));
                }
                got.map_or(1, |g| fnv(FNV0, g.as_bytes()))
            }
        };
        let id = self.cs.id;
        w.say(|| format!("client {id} raw access kind {what} at {off} of {len}"));
        self.note(OP_RAW, d);
        Ok(())
    }

    fn convert(&mut self) -> Res<()> {
        let w = self.w;
        let Some(t) = self.target() else { return Ok(()) };
        let d = api(w, OP_CONVERT, 0, || {
            arm(w.armed);
            let n = cursor::conversions(&t.s);
            arm(false);
            n
        })?;
        self.note(OP_CONVERT, d);
        Ok(())
    }

    /// Collects the positions of a bit field back into a number; the library pulls them from an iterator of ours.
    fn collect(&mut self) -> Res<()> {
        let w = self.w;
        let which = self.pick(cursor::N_OWN as usize) as u32;
        let val = self.bit_value();
        let by_ref = self.cs.st.chance(50);
        let every = *self.cs.st.of(&[0usize, 1, 5]);
        let order = if self.cs.st.chance(50) { self.cs.st.pick(u32::MAX) } else { 0 };
        let (c, val, bits) = api(w, OP_BITS, 0, || cursor::own_cursor(which, val, 0))?;
        drop(c);
        w.tested(C18);
        macro_rules! go {
            ($t:ty, $b:ident) => {{
                let f = cursor::$b(val as _);
                let mut n = 0;
                let all: Vec<Position> = api(w, OP_BITS, 0, || f.iter().take(200).filter(|x| x.is_set).map(|x| x.position).collect())?;
                let all = mixed(all, order);
                let step = |p: Position| {
                    n += 1;
                    if every > 0 && n % every == 0 {
                        let q = arm(false);
                        yield_now();
                        arm(q);
                    }
                    p
                };
                let got: $t = api(w, OP_COLLECT, 0, || {
                    arm(w.armed);
                    let g = if by_ref { all.iter().collect() } else { all.iter().copied().map(step).collect() };
                    arm(false);
                    g
                })?;
                got as u128
            }};
        }
        let wide = self.cs.st.chance(20);
        let got = match (bits, wide) {
            (8, false) => go!(u8, B8a),
            (16, false) => go!(u16, B16a),
            (32, false) => go!(u32, B32a),
            (64, false) => go!(u64, B64a),
            (64, true) => go!(usize, B64a),
            (8, true) => go!(u16, B8a),
            (16, true) => go!(u64, B16a),
            (32, true) => go!(usize, B32a),
            _ => go!(u128, B128a),
        };
        if got != val {
            w.find(C18, format!("collect:{bits}"), format!("collecting the set positions of {val:#x} ({bits} bits, order {order}) gives {got:#x}"));
        }
        self.note(OP_COLLECT, got as u64);
        Ok(())
    }

    /// Reads a whole capture: every structure, every list, every end.
    fn drain(&mut self, cap: usize) -> Res<()> {
        let w = self.w;
        self.walkers.clear();
        self.cursors.clear();
        self.held.clear();
        self.walkers.clear();
        let Some(ep) = self.search_cap(cap)? else { return Ok(()) };
        let buf = w.caps[cap].buf;
        let it = api(w, OP_WALK, 0, || ep.structures(buf))?;
        self.walkers.push(Walker { it, cap, pos: 0, ended: false });
        let total = w.caps[cap].items.len();
        for _ in 0..total + 3 {
            self.step(0, None)?;
            if let Some(Held::Own(t)) = self.held.last() {
                let t = t.clone();
                if let Some(exp) = w.expected(t.cap, t.idx) {
                    let lim = w.limit(t.cap, t.idx);
                    let l = api(w, OP_NEST, 0, || cursor::lists(&t.s, buf, exp, lim))?;
                    for c in l {
                        self.cursors.clear();
                        self.cursors.push(c);
                        let n = self.cursors[0].list.len();
                        if n > 40 {
                            self.cursor_do(0, 1, n - 8)?;
                        }
                        for _ in self.cursors[0].pos..n + 3 {
                            self.cursor_do(0, 0, 0)?;
                        }
                    }
                }
            }
        }
        Ok(())
    }
}

/// In another order, some of them twice; 0: as they are.
fn mixed(mut v: Vec<Position>, order: u32) -> Vec<Position> {
    if order == 0 || v.is_empty() {
        return v;
    }
    let mut z = mix(order as u64);
    let mut next = |n: usize| {
        z = mix(z);
        (z >> 33) as usize % n
    };
    for _ in 0..next(4) {
        let again = v[next(v.len())];
        v.push(again);
    }
    for i in (1..v.len()).rev() {
        v.swap(i, next(i + 1));
    }
    v
}

fn item_type(i: &model::Item) -> (u8, u16) {
    match i.frame {
        model::Frame::Whole { ty, handle, .. } => (ty, handle),
        _ => (0, 0),
    }
}
fn digest(v: &Option<V>) -> u64 {
    v.as_ref().map_or(1, |v| v.digest(FNV0))
}
pub fn brief(g: &Option<Result<Structure<'static>, MalformedStructureError>>) -> String {
    match g {
        None => "end".into(),
        Some(Ok(s)) => format!("{:?} handle {:#x}", project::variant(s), project::handle(s)),
        Some(Err(e)) => format!("{:?}", project::error(e)),
    }
}

/// Equality and hash of two decoded values against what was stored.
pub fn compare(w: &World, a: &Shared, b: &Shared, every: usize) -> Res<u64> {
    let (ea, eb) = (w.expected(a.cap, a.idx), w.expected(b.cap, b.idx));
    let ty = w.ty(a.cap, a.idx);
    let eq = api(w, OP_HASHEQ, ty, || {
        arm(w.armed);
        let r = a.s == b.s;
        arm(false);
        r
    })?;
    let ne = api(w, OP_HASHEQ, ty, || b.s != a.s)?;
    w.tested(C19);
    let what = || format!("structure {} of capture {} and {} of {} (type {})", a.idx, a.cap, b.idx, b.cap, ty as i32 - 1);
    if eq == ne {
        w.find(C19, "eq:sides", format!("{}: a == b is {eq}, b != a is {ne}", what()));
    }
    if eq {
        let (ha, hb) = (hash_bytes(w, &a.s, ty, every)?, hash_bytes(w, &b.s, ty, 0)?);
        if ha != hb {
            w.find(C19, "hash", format!("{} compare equal but hash differently", what()));
        }
    }
    let bytes = |x: &Shared| {
        let Some(i) = w.caps[x.cap].items.get(x.idx) else { return &[] as &[u8] };
        match i.frame {
            model::Frame::Whole { end, .. } => &w.caps[x.cap].buf[i.off..end],
            _ => &[],
        }
    };
    let same_bytes = !bytes(a).is_empty() && bytes(a) == bytes(b) && w.caps[a.cap].ver == w.caps[b.cap].ver;
    if same_bytes {
        w.probe("same_bytes_compared");
        if !eq {
            w.find(C19, format!("eq:same:{}", ty as i32 - 1), format!("{} come from the same bytes but compare unequal", what()));
        }
        let (ta, tb) = (text_of(w, &Show::Dbg(&a.s), 0, ty)?, text_of(w, &Show::Dbg(&b.s), 0, ty)?);
        if ta != tb {
            w.find(C19, format!("text:same:{}", ty as i32 - 1), format!("{} come from the same bytes but print differently", what()));
        }
    } else if let (Some(x), Some(y)) = (ea, eb) {
        if (x != y || w.ty(b.cap, b.idx) != ty) && eq {
            w.find(C19, format!("eq:diff:{}", ty as i32 - 1), format!("{} differ in what was stored but compare equal", what()));
        }
        w.probe("different_compared");
    }
    if let (Some(x), Some(y)) = (ea, eb) {
        if w.ty(b.cap, b.idx) == ty {
            compare_lists(w, (a, x), (b, y), same_bytes)?;
        }
    }
    Ok(eq as u64)
}

/// The lists inside two structures, stepped to equal and to different positions.
fn compare_lists(w: &World, (a, x): (&Shared, &Fields), (b, y): (&Shared, &Fields), same_bytes: bool) -> Res<()> {
    let ty = w.ty(a.cap, a.idx);
    let open = |s: &Shared, f: &Fields| {
        let (buf, lim) = (w.caps[s.cap].buf, w.limit(s.cap, s.idx));
        api(w, OP_NEST, ty, || cursor::lists(&s.s, buf, f, lim))
    };
    let n = open(a, x)?.first().map_or(0, |c| c.list.len());
    let k = a.idx % (n + 2);
    for (i, j) in [(0, 0), (k, k), (k, 0), (0, k), (k, k + 1)] {
        for (mut c, mut d) in open(a, x)?.into_iter().zip(open(b, y)?) {
            for _ in 0..i {
                api(w, OP_NEST, ty, || c.it.next(w.armed))?;
            }
            for _ in 0..j {
                api(w, OP_NEST, ty, || d.it.next(w.armed))?;
            }
            if c.what != d.what {
                continue;
            }
            let Some((eq, eq2, ne)) = api(w, OP_HASHEQ, ty, || c.it.same(w.armed, &*d.it))? else { continue };
            let what = || format!("the {} of structure {} of capture {} after {i} and of {} of {} after {j} steps", c.what, a.idx, a.cap, b.idx, b.cap);
            w.tested(C19);
            if eq != eq2 || eq == ne {
                w.find(C19, format!("list:sides:{}", c.what), format!("{}: == gives {eq} and {eq2}, != gives {ne}", what()));
            }
            if eq {
                let hash = |c: &cursor::Cursor| {
                    let mut h = ByteHasher { bytes: Vec::new(), calls: 0, yield_every: 0, yielded: 0 };
                    api(w, OP_HASHEQ, ty, || c.it.hash(w.armed, &mut h))?;
                    Ok(h.bytes)
                };
                if hash(&c)? != hash(&d)? {
                    w.find(C19, format!("list:hash:{}", c.what), format!("{} compare equal but hash differently", what()));
                }
            }
            if same_bytes && i == j && !eq {
                w.find(C19, format!("list:same:{}", c.what), format!("{} come from the same bytes but compare unequal", what()));
            }
            if eq && c.list.get(i..).unwrap_or(&[]) != d.list.get(j..).unwrap_or(&[]) {
                w.find(C19, format!("list:diff:{}", c.what), format!("{} still have different items to yield but compare equal", what()));
            }
            w.probe("lists_compared");
            for q in api(w, OP_HASHEQ, ty, || c.it.pairs(w.armed, &*d.it, 64))? {
                let (eq, eq2, ne) = q.eq;
                if eq != eq2 || eq == ne {
                    w.find(C19, format!("item:sides:{}", c.what), format!("{}: items {:?} and {:?}: == gives {eq} and {eq2}, != gives {ne}", what(), q.v[0], q.v[1]));
                }
                if eq != (q.v[0] == q.v[1]) {
                    w.find(C19, format!("item:eq:{}", c.what), format!("{}: items {:?} and {:?}: == gives {eq}", what(), q.v[0], q.v[1]));
                }
                if eq && q.hash[0] != q.hash[1] {
                    w.find(C19, format!("item:hash:{}", c.what), format!("{}: items {:?} compare equal but hash differently", what(), q.v[0]));
                }
                w.probe("items_compared");
            }
        }
    }
    Ok(())
}
