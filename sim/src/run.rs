//! One simulated run: configuration, firmware, captures, clients under the scheduler, and the checks over the
//! recorded histories afterwards. Everything that happens follows from the streams.
use crate::chooser::*;
use crate::client::*;
use crate::host::Host;
use crate::img::{self, Image, Piece};
use crate::medium::{self, Counts};
use crate::model::{self, Frame, Outcome};
use crate::block;
use crate::preempt;
use crate::project::{self, Bounds};
use crate::props::*;
use crate::sys::{self, Arenas, Place};
use crate::val::*;
use crate::world::*;
use crate::zygote::{self, Answer, Ask};
use dmidecode::{EntryPoint, MalformedStructureError, Structure};
use std::cell::{Cell, RefCell};
use std::rc::Rc;

pub struct RunResult {
    pub findings: Vec<Finding>,
    /// everything that was observed, in order
    pub digest: u64,
    pub sched: u64,
    pub input: u64,
    pub faults: Counts,
    pub probes: Counts,
    pub tests: [u64; N_PROPS],
    pub micros: u64,
    pub calls: u64,
    pub steps: u64,
    pub mode: usize,
    pub recs: Vec<Vec<u32>>,
    pub trace: Vec<String>,
}

struct Conf {
    mode: usize,
    clients: usize,
    policy: u32,
    kills: bool,
    armed: bool,
    threads: bool,
    rate: u32,
    epochs: usize,
    /// suspend clients inside library calls as well, where the library is built for it
    slices: bool,
    /// values and walks made up front and used by all clients
    pool: bool,
    /// what a client would observe alone is found out in a fresh process, not in this one
    fresh: bool,
    /// other contents were read at the same addresses before
    reused: bool,
}

fn conf(s: &mut Stream, p: &Profile) -> Conf {
    Conf {
        mode: s.weighted(&p.modes),
        clients: 1 + s.pick(p.clients) as usize,
        policy: s.pick(5),
        kills: s.chance(50),
        armed: p.armed_pct >= 100 || s.chance(p.armed_pct),
        threads: s.chance(p.thread_pct),
        rate: [0, 2, 8, 25][s.weighted(&p.rates)],
        epochs: if s.chance(15) && p.prop != P14 && p.prop != P16 { 2 } else { 1 },
        pool: p.prop != P14 || s.chance(50),
        slices: s.pick(10) != 0,
        fresh: s.pick(4) == 0,
        reused: s.chance(25),
    }
}

/// Some runs are about one kind of structure and mostly about one kind of call, so that the same code meets itself.
fn alike(s: &mut Stream, p: &Profile) -> Profile {
    let mut p = p.clone();
    if p.prop == P14 && s.pick(2) == 1 {
        let i = s.pick(model::DECODED.len() as u32) as usize;
        p.img.focus = &model::DECODED[i..=i];
        p.img.focus_pct = 90;
        let op = *s.of(&[W_FMT, W_FMT, W_HASH, W_INSPECT, W_STEP, W_CONV, W_CURSOR]);
        p.ops[op] += 400;
        p.max_ops += 12;
        p.kind = Some(s.pick(60));
    }
    p
}

fn a_place(s: &mut Stream) -> Place {
    match s.pick(4) {
        0 => Place::EndFlush,
        1 => Place::StartFlush(0),
        2 => Place::StartFlush(0xFF),
        _ => Place::StartFlush(b'x'),
    }
}

/// A table that is complete and correctly declared.
fn tidy(im: &mut Image) {
    if im.well_formed {
        return;
    }
    im.assemble();
    while !im.v3 && im.table.len() > 0xFFFF {
        let big = (0..im.pieces.len()).max_by_key(|i| im.pieces[*i].bytes().len()).unwrap();
        im.pieces.remove(big);
        im.assemble();
    }
    im.declared = im.table.len() as u32;
    im.region = plain_region(im);
    im.well_formed = true;
}
fn plain_region(im: &Image) -> Vec<u8> {
    let mut n = Stream::plain().noise();
    img::entry_point(im.v3, im.ver, if im.v3 { 24 } else { 31 }, im.declared, 0xE0000, im.pieces.len() as u16, &mut n)
}

fn damaged(s: &mut Stream, table: &[u8], items: &[model::Item], c: &mut Counts) -> Option<Vec<u8>> {
    let whole: Vec<&model::Item> = items.iter().filter(|i| matches!(i.frame, Frame::Whole { .. })).collect();
    if whole.is_empty() {
        return None;
    }
    let it = whole[s.pick(whole.len() as u32) as usize];
    let Frame::Whole { strings_at, end, .. } = it.frame else { return None };
    let mut t = table.to_vec();
    let mut n = s.noise();
    let texts: Vec<usize> = (strings_at..end).filter(|i| t[*i] != 0).collect();
    for _ in 0..1 + s.pick(3) {
        if s.chance(40) && !texts.is_empty() {
            c.add("text_damage", 1);
            let i = texts[s.pick(texts.len() as u32) as usize];
            let new = [b'Z', 0xFF, 0x80, 0xC3, 1, (n.next() as u8) | 1][s.pick(6) as usize];
            t[i] = if new == t[i] { b'y' } else { new };
        } else {
            c.add("field_damage", 1);
            let i = it.off + 2 + s.pick((strings_at - it.off - 2) as u32) as usize;
            t[i] = match s.pick(4) {
                0 => t[i] ^ (1 << n.below(8)),
                1 => 0,
                2 => 0xFF,
                _ => n.next() as u8,
            };
        }
    }
    (t != table).then_some(t)
}

/// The same formatted areas with other surroundings.
fn twin(s: &mut Stream, im: &Image) -> Image {
    let mut t = im.clone();
    let mut n = s.noise();
    let more = s.chance(40);
    for p in &mut t.pieces {
        if more && p.strs.is_empty() && n.below(3) == 0 {
            // a string set where there was none
            p.strs.push(vec![b'A' + n.below(26) as u8; 1 + n.below(40) as usize]);
            continue;
        }
        for x in &mut p.strs {
            if std::str::from_utf8(x).is_ok() {
                let l = 1 + n.below(30) as usize;
                *x = (0..l).map(|_| 1 + n.below(126) as u8).collect();
            }
        }
    }
    t.assemble();
    t.declared = t.table.len() as u32;
    t
}

fn mutate_image(s: &mut Stream, im: &Image, p: &Profile) -> Image {
    let mut g = im.clone();
    let i = s.pick(g.pieces.len() as u32) as usize;
    let ty = g.pieces[i].ty();
    let handle = u16::from_le_bytes([g.pieces[i].f[2], g.pieces[i].f[3]]);
    if ty != 127 {
        g.pieces[i] = img::piece_of(s, &p.img, g.ver, handle, ty);
    }
    g.assemble();
    g.declared = (g.table.len() as u32).min(if g.v3 { u32::MAX } else { 0xFFFF });
    g.region = plain_region(&g);
    g
}

/// What the clients of this run will find, as plain bytes.
struct Setting {
    plan: Plan,
    /// for CUT and DAMAGE and TWIN and REREAD: capture 0 is the complete, undamaged one
    related: bool,
    /// pieces whose formatted areas agree between capture 0 and the others
    note: &'static str,
}

fn setting(st: &mut [Stream], p: &Profile, c: &Conf, faults: &mut Counts, micros: &mut u64) -> Setting {
    let (a, b) = st.split_at_mut(S_FAULT);
    let s = &mut a[S_IMG];
    let f = &mut b[0];
    let mut plan = Plan { caps: vec![], regions: vec![], armed: c.armed };
    let mut ip = p.img.clone();
    if c.mode == M_CUT || c.mode == M_TWIN {
        ip.broken_pct = 0;
    }
    let mut im = img::image(s, &ip);
    let cap = |table: Vec<u8>, region: Vec<u8>, place: Place, note: &str| CapPlan {
        table,
        region,
        place,
        note: note.to_string(),
    };
    match c.mode {
        M_CUT => {
            tidy(&mut im);
            let region = if model::search(&im.region).is_ok() { im.region.clone() } else { plain_region(&im) };
            plan.caps.push(cap(im.table.clone(), region.clone(), a_place(f), "full read"));
            let n = im.table.len();
            for _ in 0..2 + f.pick(5) {
                let at = match f.weighted(&[30, 30, 40]) {
                    0 => f.pick(n as u32) as usize,
                    1 => im.starts[f.pick(im.starts.len() as u32) as usize],
                    _ => {
                        let b = im.starts[f.pick(im.starts.len() as u32) as usize];
                        (b + f.pick(12) as usize).saturating_sub(6)
                    }
                }
                .min(n.saturating_sub(1));
                faults.add("end_of_file", 1);
                *micros += 40 * (1 + at as u64 / 64);
                plan.caps.push(cap(im.table[..at].to_vec(), region.clone(), a_place(f), "short read"));
            }
        }
        M_DAMAGE | M_REREAD => {
            let region = match model::search(&im.region) {
                Ok(e) if e.ver == im.ver => im.region.clone(),
                _ => plain_region(&im),
            };
            let items = model::frames(&im.table, im.declared, im.ver);
            plan.caps.push(cap(im.table.clone(), region.clone(), a_place(f), "clean read"));
            if c.mode == M_REREAD {
                plan.caps.push(cap(im.table.clone(), region.clone(), Place::EndFlush, "second read"));
                plan.caps.push(cap(im.table.clone(), region.clone(), Place::StartFlush(0x41), "third read"));
            }
            for _ in 0..1 + f.pick(3) {
                if let Some(t) = damaged(f, &im.table, &items, faults) {
                    plan.caps.push(cap(t, region.clone(), a_place(f), "damaged read"));
                }
            }
        }
        M_TWIN => {
            tidy(&mut im);
            im.declared = im.table.len() as u32;
            im.region = plain_region(&im);
            plan.caps.push(cap(im.table.clone(), im.region.clone(), a_place(f), "first"));
            for _ in 0..1 + f.pick(2) {
                let mut t = twin(f, &im);
                if !t.v3 && t.table.len() > 0xFFFF {
                    continue;
                }
                t.region = plain_region(&t);
                faults.add("surroundings_changed", 1);
                plan.caps.push(cap(t.table, t.region, a_place(f), "twin"));
            }
        }
        _ => {
            let gens: Vec<Image> = match s.weighted(&[60, 25, 15]) {
                0 => vec![im],
                1 => {
                    let g = mutate_image(s, &im, p);
                    vec![im, g]
                }
                _ => {
                    let g = img::image(s, &ip);
                    vec![im, g]
                }
            };
            let readers = 1 + f.pick(3) as usize;
            let tables: Vec<&[u8]> = gens.iter().map(|g| &g.table[..]).collect();
            let regs: Vec<&[u8]> = gens.iter().map(|g| &g.region[..]).collect();
            let tabs = medium::capture(f, &tables, readers, c.rate, faults, micros);
            let caught = medium::capture(f, &regs, readers, c.rate, faults, micros);
            for (t, r) in tabs.into_iter().zip(caught) {
                let good = model::search(&r).is_ok();
                let clean = if model::search(&gens[0].region).is_ok() { gens[0].region.clone() } else { plain_region(&gens[0]) };
                if !good {
                    plan.regions.push((r.clone(), a_place(f)));
                }
                plan.caps.push(cap(t, if good { r } else { clean }, a_place(f), "capture"));
            }
            for _ in 0..p.regions {
                if plan.regions.len() > 18 {
                    break;
                }
                // more regions: captured again, or another machine's
                if f.chance(60) {
                    let other = img::region(s, &p.img, s_bool(f), *f.of(&img::VERSIONS), f.pick(70000), 9);
                    let r = medium::capture(f, &[&other], 1, c.rate, faults, micros).pop().unwrap();
                    plan.regions.push((r, a_place(f)));
                } else {
                    let r = medium::capture(f, &regs, 1, c.rate.max(8), faults, micros).pop().unwrap();
                    plan.regions.push((r, a_place(f)));
                }
            }
        }
    }
    if plan.regions.is_empty() {
        plan.regions.push((im_region(&plan), a_place(f)));
    }
    Setting { plan, related: c.mode != M_MIXED, note: MODE_NAMES[c.mode] }
}
fn s_bool(s: &mut Stream) -> bool {
    s.chance(50)
}
fn im_region(p: &Plan) -> Vec<u8> {
    p.caps[0].region.clone()
}

pub type Got = Result<Rc<Shared>, Rc<(usize, usize, MalformedStructureError)>>;

fn build(plan: &Plan, arenas: &mut Arenas, trace: bool) -> World {
    arenas.reset();
    let caps = plan
        .caps
        .iter()
        .map(|c| {
            let buf = arenas.place(&c.table, c.place);
            let region = arenas.place(&c.region, c.place);
            let ep = model::search(region).expect("harness: a capture needs an entry point");
            Cap {
                buf,
                region,
                ver: ep.ver,
                declared: ep.table_len,
                items: model::frames(buf, ep.table_len, ep.ver),
                note: c.note.clone(),
            }
        })
        .collect();
    let regions = plan
        .regions
        .iter()
        .map(|(r, pl)| {
            let bytes = arenas.place(r, *pl);
            Region { bytes, exp: model::search(bytes) }
        })
        .collect();
    World {
        caps,
        regions,
        armed: plan.armed,
        pool: RefCell::new(vec![]),
        errors: RefCell::new(vec![]),
        walks: RefCell::new(vec![]),
        findings: RefCell::new(vec![]),
        probes: RefCell::new(Counts::default()),
        tests: RefCell::new([0; N_PROPS]),
        stop: Cell::new(false),
        trace: RefCell::new(trace.then(Vec::new)),
        ticks: Cell::new(0),
        calls: Cell::new(0),
    }
}

/// An earlier reader of this process: other contents of the same length were delivered into the same memory, and
/// somebody read a part of them. Whatever the library remembers of that must not show up later.
fn earlier(w: &World, s: &mut Stream) -> Result<(), Stop> {
    fn with<T>(mem: &'static [u8], other: &[u8], f: impl FnOnce() -> T) -> T {
        let own = mem.to_vec();
        let p = mem.as_ptr() as *mut u8;
        // the memory belongs to an arena and is writable; nobody holds anything decoded from it yet
        unsafe { std::ptr::copy_nonoverlapping(other.as_ptr(), std::hint::black_box(p), other.len()) };
        let r = f();
        unsafe { std::ptr::copy_nonoverlapping(own.as_ptr(), std::hint::black_box(p), own.len()) };
        r
    }
    for c in &w.caps {
        if c.buf.is_empty() {
            continue;
        }
        let Ok(ep) = api(w, OP_SEARCH, 0, || EntryPoint::search(c.region))? else { continue };
        let mut b = c.buf.to_vec();
        for _ in 0..1 + s.pick(6) {
            let n = if s.chance(50) { b.len().min(120) } else { b.len() };
            let i = s.pick(n as u32) as usize;
            let beside = i > 0 && b[i - 1] == 0 || b.get(i + 1) == Some(&0);
            b[i] = match b[i] {
                0 => b'A',
                _ if beside => 0,
                _ => *s.of(&[0, b'B', 1, 2, 0xFF]),
            };
        }
        let steps = if s.chance(40) { 1 } else { 1 + s.pick(c.items.len() as u32 + 2) as usize };
        let deep = *s.of(&[0usize, 1, 2, 1000]);
        with(c.buf, &b, || {
            let mut it = api(w, OP_WALK, 0, || ep.structures(c.buf))?;
            for i in 0..steps {
                let Some(x) = api(w, OP_WALK, 0, || it.next())? else { break };
                let Ok(x) = x else { continue };
                if i < deep {
                    api(w, OP_NEST, 0, || crate::cursor::step_through(&x))?;
                    if c.buf.len() < 3000 {
                        text_of(w, &Show::Dbg(&x), 0, 0)?;
                        hash_bytes(w, &x, 0, 0)?;
                    }
                }
            }
            Ok(())
        })?;
    }
    for r in &w.regions {
        if r.bytes.len() < 2 {
            continue;
        }
        let mut b = r.bytes.to_vec();
        for _ in 0..1 + s.pick(3) {
            // two bytes at a time: the sum of all bytes stays what it is
            let n = if s.chance(60) { b.len().min(48) } else { b.len() };
            let (i, j, d) = (s.pick(n as u32) as usize, s.pick(n as u32) as usize, 1 + s.pick(255) as u8);
            b[i] = b[i].wrapping_add(d);
            b[j] = b[j].wrapping_sub(d);
        }
        if s.chance(20) {
            b.rotate_left(16.min(r.bytes.len()));
        }
        with(r.bytes, &b, || api(w, OP_SEARCH, 0, || EntryPoint::search(r.bytes).is_ok()))?;
    }
    Ok(())
}

/// Reads every capture once before the clients start: values and walks to be shared, and histories to compare.
fn read_all(w: &World) -> Result<Vec<Vec<Got>>, Stop> {
    let mut all = Vec::new();
    for (ci, c) in w.caps.iter().enumerate() {
        let mut h: Vec<Got> = Vec::new();
        let r = api(w, OP_SEARCH, 0, || EntryPoint::search(c.region))?;
        let Ok(ep) = r else {
            all.push(h);
            continue;
        };
        let mut it = api(w, OP_WALK, 0, || ep.structures(c.buf))?;
        for i in 0..c.items.len() + 2 {
            if i % 3 == 1 && w.walks.borrow().len() < 6 {
                let k = api(w, OP_WALK, 0, || it.clone())?;
                w.walks.borrow_mut().push((ci, i, k));
            }
            match api(w, OP_WALK, w.ty(ci, i), || it.next())? {
                None => break,
                Some(Ok(s)) => {
                    let s = Rc::new(Shared { cap: ci, idx: i, s });
                    if i < c.items.len() {
                        w.pool.borrow_mut().push(s.clone());
                    }
                    h.push(Ok(s));
                }
                Some(Err(e)) => {
                    let e = Rc::new((ci, i, e));
                    if i < c.items.len() {
                        w.errors.borrow_mut().push(e.clone());
                    }
                    h.push(Err(e));
                }
            }
        }
        all.push(h);
    }
    Ok(all)
}

/// Everything reported for one structure, in one comparable form.
fn report(w: &World, g: &Got, with_text: bool) -> Result<(Option<u8>, Fields, String), Stop> {
    Ok(match g {
        Ok(s) => {
            let c = &w.caps[s.cap];
            let ty = w.ty(s.cap, s.idx);
            let f = api(w, OP_INSPECT, ty, || project::fields(&s.s, &mut Bounds::of(c.buf), w.limit(s.cap, s.idx)))?;
            let t = if with_text { text_of(w, &Show::Dbg(&s.s), 0, ty)?.unwrap_or_default() } else { String::new() };
            (project::variant(&s.s), f, t)
        }
        Err(e) => (None, vec![], text_of(w, &Show::Dbg(&e.2), 0, 0)?.unwrap_or_default()),
    })
}

fn extent_error(g: &Got) -> bool {
    match g {
        Err(e) => matches!(project::error(&e.2), project::GotErr::BadSize(..) | project::GotErr::Unterminated(..)),
        Ok(_) => false,
    }
}

fn textual(v: &V) -> bool {
    match v {
        V::T(_) => true,
        V::L(l) => l.iter().all(|x| matches!(x, V::T(_) | V::N)),
        _ => false,
    }
}
/// Equal except for texts: which text a reference leads to, if any, does depend on the string set.
fn same_but_texts(a: &V, b: &V) -> bool {
    match (a, b) {
        _ if a == b => true,
        (V::N, t) | (t, V::N) => matches!(t, V::T(_)),
        _ if textual(a) && textual(b) => true,
        (V::L(x), V::L(y)) | (V::R(x), V::R(y)) => x.len() == y.len() && x.iter().zip(y).all(|(p, q)| same_but_texts(p, q)),
        _ => false,
    }
}

fn relations(w: &World, mode: usize, all: &[Vec<Got>]) -> Result<(), Stop> {
    let full = &w.caps[0];
    let fh = &all[0];
    for k in 1..w.caps.len() {
        let (c, h) = (&w.caps[k], &all[k]);
        match mode {
            M_CUT => {
                w.tested(C06);
                let n = full.items.len();
                let complete =
                    full.items.iter().take_while(|i| matches!(i.frame, Frame::Whole { end, .. } if end <= c.buf.len())).count();
                if complete < n {
                    w.probe("cuts_with_loss");
                }
                for i in 0..complete.min(fh.len()) {
                    let Some(g) = h.get(i) else {
                        w.find(C06, "cut:missing", format!("{} of {} bytes hold {complete} structures, only {i} are reported", c.buf.len(), full.buf.len()));
                        break;
                    };
                    let (x, y) = (report(w, &fh[i], true)?, report(w, g, true)?);
                    if x != y {
                        w.find(C06, "cut:differs", format!("structure {i} is complete in the first {} bytes but reported differently: {}", c.buf.len(), differ(&x, &y)));
                    }
                }
                if complete < n {
                    let cut = format!("cut at {} of {}: structure {complete} of {n} is incomplete", c.buf.len(), full.buf.len());
                    match h.get(complete) {
                        None => w.find(C06, "cut:silent", format!("{cut}, but the walk ends without an error")),
                        Some(g) if !extent_error(g) => w.find(C06, "cut:made_up", format!("{cut}, but the walk reports {}", brief_got(g))),
                        _ => {
                            if h.len() > complete + 1 {
                                w.find(C06 | C03, "cut:goes_on", format!("{cut}, the error is reported but the walk goes on"));
                            }
                        }
                    }
                } else if h.len() != n {
                    w.find(C06, "cut:more", format!("cut at {} behind the last structure, but {} instead of {n} items", c.buf.len(), h.len()));
                }
            }
            M_DAMAGE => {
                let same = full.items.len() == c.items.len()
                    && full.items.iter().zip(&c.items).all(|(x, y)| {
                        x.off == y.off
                            && match (&x.frame, &y.frame) {
                                (Frame::Whole { end: a, ty: t, .. }, Frame::Whole { end: b, ty: u, .. }) => a == b && t == u,
                                (Frame::Whole { .. }, _) | (_, Frame::Whole { .. }) => false,
                                _ => true,
                            }
                    });
                if !same {
                    continue;
                }
                w.tested(C07);
                if h.len() != fh.len() {
                    w.find(C07, "damage:count", format!("damage inside one structure changes the number of reported items from {} to {}", fh.len(), h.len()));
                    continue;
                }
                for i in 0..fh.len() {
                    let end = |x: &Cap| match x.items.get(i).map(|t| (&t.frame, t.off)) {
                        Some((Frame::Whole { end, .. }, off)) => off..*end,
                        Some((_, off)) => off..x.buf.len(),
                        None => 0..0,
                    };
                    if full.buf[end(full)] != c.buf[end(c)] {
                        w.probe("damaged_structures");
                        continue;
                    }
                    let (x, y) = (report(w, &fh[i], true)?, report(w, &h[i], true)?);
                    if x != y {
                        w.find(C07, "damage:spreads", format!("structure {i} is untouched but reported differently: {}", differ(&x, &y)));
                    }
                }
            }
            M_TWIN => {
                for i in 0..fh.len().min(h.len()) {
                    let (Some(a), Some(b)) = (full.items.get(i), c.items.get(i)) else { continue };
                    let (Frame::Whole { strings_at: p, .. }, Frame::Whole { strings_at: q, .. }) = (&a.frame, &b.frame) else {
                        continue;
                    };
                    if full.buf[a.off..*p] != c.buf[b.off..*q] {
                        continue;
                    }
                    // a reference that leads nowhere in one of them may select another source for the same value
                    let (Outcome::Fields(m), Outcome::Fields(n)) = (&a.outcome, &b.outcome) else { continue };
                    if !m.iter().zip(n).all(|(p, q)| same_but_texts(&p.1, &q.1)) {
                        continue;
                    }
                    w.tested(C13);
                    let (x, y) = (report(w, &fh[i], false)?, report(w, &h[i], false)?);
                    let same = x.1.len() == y.1.len() && x.1.iter().zip(&y.1).all(|(p, q)| p.0 == q.0 && same_but_texts(&p.1, &q.1));
                    if x.0 != y.0 || !same {
                        w.find(C13, "twin", format!("structure {i}: same formatted area, other surroundings, other values: {}", differ(&x, &y)));
                    }
                }
            }
            M_REREAD => {
                for i in 0..fh.len().min(h.len()) {
                    match (&fh[i], &h[i]) {
                        (Ok(a), Ok(b)) => {
                            compare(w, a, b, 0)?;
                        }
                        (x, y) => {
                            if full.buf == c.buf {
                                w.tested(C19);
                                let (x, y) = (report(w, x, true)?, report(w, y, true)?);
                                if x != y {
                                    w.find(C19, "reread", format!("structure {i} read again is reported differently: {}", differ(&x, &y)));
                                }
                            }
                        }
                    }
                }
                if full.buf == c.buf && fh.len() != h.len() {
                    w.find(C19, "reread:count", format!("{} items, read again {}", fh.len(), h.len()));
                }
            }
            _ => (),
        }
    }
    Ok(())
}
fn brief_got(g: &Got) -> String {
    match g {
        Ok(s) => format!("{:?} handle {:#x}", project::variant(&s.s), project::handle(&s.s)),
        Err(e) => format!("{:?}", project::error(&e.2)),
    }
}
fn differ(x: &(Option<u8>, Fields, String), y: &(Option<u8>, Fields, String)) -> String {
    if x.0 != y.0 {
        return format!("type {:?} and {:?} {}", x.0, y.0, y.2.chars().take(160).collect::<String>());
    }
    for (a, b) in x.1.iter().zip(&y.1) {
        if a != b {
            return format!("{} is {:?} and {:?}", a.0, a.1, b.1);
        }
    }
    format!("{:.160} and {:.160}", x.2, y.2)
}

const P14: usize = 13;
const P16: usize = 15;

// ---------------------------------------------------------------- scheduling

struct Slot {
    cs: Box<ClientState>,
    host: Option<Host>,
    kills: Vec<u64>,
    done: bool,
    /// suspended in the middle of a library call
    inside: bool,
}

fn start(w: &World, slot: &mut Slot, p: &Profile, threads: bool) {
    slot.cs.incarnation += 1;
    let inc = slot.cs.incarnation;
    slot.cs.log.push((255, inc as u64));
    let (wp, cp) = (w as *const World as usize, &mut *slot.cs as *mut ClientState as usize);
    let (ops, weights, kind) = (p.max_ops, p.ops, p.kind);
    let body = Box::new(move || {
        // both outlive the host: the scheduler finishes or kills every client before it returns
        let (w, cs) = unsafe { (&*(wp as *const World), &mut *(cp as *mut ClientState)) };
        let _ = Client::new(w, cs, ops, weights, kind).run();
    });
    slot.host = Some(unsafe { if threads { Host::thread(body) } else { Host::coroutine(body) } });
}

fn slots(streams: &[Stream], n: usize) -> Vec<Slot> {
    (0..n)
        .map(|i| Slot {
            cs: Box::new(ClientState { id: i, st: streams[S_CLIENT + i].clone(), log: vec![], yields: 0, incarnation: 0 }),
            host: None,
            kills: vec![],
            done: false,
            inside: false,
        })
        .collect()
}

/// How many points inside the library the next client gets; 0: all it wants.
fn a_slice(s: &mut Stream, focus: bool) -> (u32, u32) {
    match s.weighted(if focus { &[25, 5, 5, 5, 60] } else { &[40, 20, 20, 20, 0] }) {
        0 => (0, 0),
        1 => (1 + s.pick(12), 0),
        2 => (1 + s.pick(100), 0),
        3 => (1 + s.pick(1200), 0),
        _ => (0, 1 + s.pick(5)),
    }
}

fn interleave(w: &World, sl: &mut [Slot], s: &mut Stream, c: &Conf, p: &Profile, faults: &mut Counts, sched: &mut u64) -> u64 {
    for x in sl.iter_mut() {
        start(w, x, p, c.threads);
    }
    let mut last = 0usize;
    let mut steps = 0u64;
    // a client that makes no progress until the others are through
    let mut stalled = if c.policy == 3 && sl.len() > 1 { Some(s.pick(sl.len() as u32) as usize) } else { None };
    if stalled.is_some() {
        faults.add("stalled_client", 1);
    }
    let mut burst = 0;
    let mut waits = 0;
    let fine = preempt::present() && p.prop == P14 && c.slices;
    // slices counted in accesses to memory that calls could share
    let focus = fine && s.pick(3) == 1;
    loop {
        let mut live: Vec<usize> = (0..sl.len()).filter(|i| !sl[*i].done).collect();
        if live.is_empty() {
            break;
        }
        if live.len() > 1 {
            live.retain(|i| Some(*i) != stalled);
        }
        let who = if live.len() == 1 {
            live[0]
        } else {
            match c.policy {
                1 => *live.iter().find(|i| **i > last).unwrap_or(&live[0]),
                2 | 4 => {
                    if burst > 0 && live.contains(&last) {
                        burst -= 1;
                        last
                    } else {
                        burst = s.pick(if c.policy == 2 { 4 } else { 25 });
                        live[s.pick(live.len() as u32) as usize]
                    }
                }
                _ => live[s.pick(live.len() as u32) as usize],
            }
        };
        last = who;
        *sched = fnv(*sched, &[who as u8]);
        steps += 1;
        let x = &mut sl[who];
        // never in the middle of a call: what is killed there must not leave the library half way through
        let dies = c.kills && !x.inside && x.cs.yields > 2 && x.kills.len() < 2 && s.chance(p.kill_pct);
        if dies && !w.stop.get() {
            x.host.as_mut().unwrap().kill();
            x.kills.push(x.cs.yields);
            faults.add("client_killed", 1);
            *sched = fnv(*sched, &[0xEE]);
            w.say(|| format!("client {who} is killed after {} steps and starts again", x.cs.yields));
            start(w, x, p, c.threads);
            faults.add("client_restarted", 1);
            continue;
        }
        // scheduling points inside calls do not count: alone the client has none
        if !x.inside {
            x.cs.yields += 1;
        }
        if fine {
            let (n, shared) = a_slice(s, focus);
            preempt::slice(n, shared);
        }
        if x.host.as_mut().unwrap().resume() {
            x.done = true;
            x.host = None;
        }
        preempt::off();
        if preempt::shared_stops() > 0 {
            faults.add("suspended_before_a_shared_access", 1);
        }
        let waits_now = block::waited();
        x.inside = preempt::inside() || waits_now;
        if waits_now {
            // it waits for a client that is suspended: nobody may be held back now
            faults.add("client_waits_inside_a_call", 1);
            stalled = None;
            burst = 0;
            waits += 1;
            if waits > 20_000 {
                w.find(C03 | C14, "deadlock", "clients wait inside library calls and none of them ever goes on");
                w.stop.set(true);
                for x in sl.iter_mut() {
                    std::mem::forget(x.host.take());
                }
                break;
            }
        } else {
            waits = 0;
        }
        if x.inside && !waits_now {
            faults.add("suspended_inside_a_call", 1);
            *sched = fnv(*sched, &[0xDD]);
        }
        if steps > 2_000_000 {
            w.find(C03, "no_progress", "the clients do not finish within two million steps");
            w.stop.set(true);
        }
    }
    steps
}

/// The same client with the same decisions and the same deaths, without the others.
fn alone(w: &World, streams: &[Stream], i: usize, kills: &[u64], p: &Profile) -> Vec<(u8, u64)> {
    let mut x = slots(streams, i + 1).pop().unwrap();
    start(w, &mut x, p, false);
    let mut k = 0;
    let mut waits = 0;
    loop {
        if !x.inside && kills.get(k) == Some(&x.cs.yields) {
            k += 1;
            x.host.as_mut().unwrap().kill();
            start(w, &mut x, p, false);
            continue;
        }
        if !x.inside {
            x.cs.yields += 1;
        }
        if x.host.as_mut().unwrap().resume() {
            break;
        }
        x.inside = block::waited();
        waits = if x.inside { waits + 1 } else { 0 };
        if waits > 20_000 {
            // waits for itself
            std::mem::forget(x.host.take());
            break;
        }
    }
    std::mem::take(&mut x.cs.log)
}

/// One client of a run in a process that has done nothing else.
pub fn serve(a: Ask) -> Answer {
    let p = profile(a.prop);
    let mut st = a.streams;
    let mut arenas = Arenas::new();
    sys::watchdog(true);
    let c = conf(&mut st[S_CONF], &p);
    let p = alike(&mut st[S_CONF], &p);
    let mut set = setting(&mut st, &p, &c, &mut Counts::default(), &mut 0);
    set.plan.armed = a.armed;
    let w = build(&set.plan, &mut arenas, false);
    let mut log = vec![];
    if !c.pool || read_all(&w).is_ok() {
        log = alone(&w, &st, a.client, &a.kills, &p);
    }
    Answer { log, stopped: w.stop.get() }
}

fn judge_alone(w: &World, p: &Profile, orig: &[Stream], x: &Slot, log: &[(u8, u64)], all: &[Slot], armed: bool) {
    let i = x.cs.id;
    let ask = |client: usize, kills: &[u64], armed: bool| {
        zygote::ask(&Ask { prop: p.prop, client, armed, kills: kills.to_vec(), streams: orig.to_vec() })
    };
    let tag = if p.prop == P14 { C14 } else { C16 };
    w.tested(tag);
    // C14: alone, everything else as it was. C16: alone and with memory, then alone and without.
    let Some(a) = ask(i, &x.kills, armed && tag == C14) else { return };
    w.probe("compared_with_a_fresh_process");
    let how = if tag == C14 { "when it runs alone in a fresh process" } else { "with memory to allocate" };
    if w.stop.get() {
        // a panic: does it need the others (or the lack of memory)?
        if all.iter().all(|y| ask(y.cs.id, &y.kills, armed && tag == C14).is_some_and(|r| !r.stopped))
            && (tag == C14 || all.iter().any(|y| ask(y.cs.id, &y.kills, true).is_none_or(|r| r.stopped)))
        {
            w.find(tag, "alone:panic", format!("no client panics {how}, but one does here"));
        }
        return;
    }
    if a.log == log {
        return;
    }
    if tag == C16 && ask(i, &x.kills, true).is_none_or(|r| r.log == a.log) {
        return;
    }
    differs(w, tag, i, &a.log, log, how);
}
fn differs(w: &World, tag: Tags, i: usize, a: &[(u8, u64)], b: &[(u8, u64)], how: &str) {
    let at = a.iter().zip(b).take_while(|(a, b)| a == b).count();
    let op = a.get(at).or(b.get(at)).map_or("end", |x| OP_NAMES.get(x.0 as usize).copied().unwrap_or("start"));
    w.find(tag, format!("alone:{op}"), format!("client {i} observes something else {how}, first at its call {at} ({op})"));
}

/// Cheaper: what the client observes alone, right afterwards, over copies of the captures at other addresses and for
/// C16 with memory to allocate.
fn rerun(p: &Profile, c: &Conf, plan: &mut Plan, streams: &[Stream], x: &Slot) -> Vec<(u8, u64)> {
    thread_local! {
        static SECOND: std::cell::RefCell<Option<Arenas>> = const { std::cell::RefCell::new(None) };
    }
    SECOND.with(|a| {
        let mut a = a.borrow_mut();
        let armed = std::mem::replace(&mut plan.armed, c.armed && p.prop != P16);
        let w = build(plan, a.get_or_insert_with(Arenas::new), false);
        plan.armed = armed;
        if c.pool && read_all(&w).is_err() {
            return vec![];
        }
        alone(&w, streams, x.cs.id, &x.kills, p)
    })
}

pub fn execute(mut st: Vec<Stream>, p: &Profile, arenas: &mut Arenas, trace: bool) -> RunResult {
    let orig = st.clone();
    let c = conf(&mut st[S_CONF], p);
    let p = &alike(&mut st[S_CONF], p);
    let mut faults = Counts::default();
    let mut micros = 0u64;
    let mut set = setting(&mut st, p, &c, &mut faults, &mut micros);
    let mut res = RunResult {
        findings: vec![],
        digest: FNV0,
        sched: FNV0,
        input: FNV0,
        faults: Counts::default(),
        probes: Counts::default(),
        tests: [0; N_PROPS],
        micros: 0,
        calls: 0,
        steps: 0,
        mode: c.mode,
        recs: vec![],
        trace: vec![],
    };
    for x in &set.plan.caps {
        res.input = fnv(fnv(res.input, &x.table), &x.region);
    }
    for r in &set.plan.regions {
        res.input = fnv(res.input, &r.0);
    }
    let before = crate::sys::REFUSED.load(std::sync::atomic::Ordering::Relaxed);
    if c.armed {
        faults.add("allocation_refused_throughout", 1);
    }
    if c.threads {
        faults.add("clients_on_threads", 1);
    }
    for epoch in 0..c.epochs {
        if epoch > 0 {
            // the machine restarts: other contents appear at the addresses used before
            faults.add("machine_restart", 1);
            let n = set.plan.caps.len();
            set.plan.caps.rotate_left(1);
            for i in 0..n {
                set.plan.caps[i].place = Place::StartFlush(0x20);
            }
        }
        let w = build(&set.plan, arenas, trace);
        if trace && epoch == 0 {
            describe(&w, &c, &set);
        }
        let mut logs: Vec<Vec<(u8, u64)>> = Vec::new();
        let solo = p.prop == P14 || p.prop == P16;
        if epoch == 0 && p.prop == P14 {
            threads_ok(&w);
        }
        let mut before_us = Ok(());
        if c.reused {
            faults.add("memory_reused", 1);
            before_us = earlier(&w, &mut st[S_CONF]);
        }
        let hist = match before_us {
            Ok(()) if c.pool => read_all(&w),
            Ok(()) => Ok(vec![]),
            Err(e) => Err(e),
        };
        if let Ok(h) = &hist {
            if set.related && epoch == 0 && c.pool {
                let _ = relations(&w, c.mode, h);
            }
            let mut sl = slots(&st, c.clients);
            let before: Vec<Stream> = if c.fresh || !solo { vec![] } else { st.clone() };
            res.steps += interleave(&w, &mut sl, &mut st[S_SCHED], &c, p, &mut faults, &mut res.sched);
            for x in &mut sl {
                // what the client decided becomes part of the record
                st[S_CLIENT + x.cs.id] = x.cs.st.clone();
                logs.push(std::mem::take(&mut x.cs.log));
            }
            if solo {
                for x in &sl {
                    let n = w.findings.borrow().len();
                    let log = &logs[x.cs.id];
                    if !before.is_empty() && !w.stop.get() {
                        w.tested(if p.prop == P14 { C14 } else { C16 });
                        w.probe("compared_in_the_same_process");
                        let got = rerun(p, &c, &mut set.plan, &before, x);
                        if got == *log {
                            continue;
                        }
                        if p.prop == P14 {
                            differs(&w, C14, x.cs.id, &got, log, "when it runs alone");
                            break;
                        }
                    }
                    judge_alone(&w, p, &orig, x, log, &sl, c.armed);
                    if w.stop.get() || w.findings.borrow().len() > n {
                        break;
                    }
                }
            }
        }
        for l in &logs {
            for (op, d) in l {
                res.digest = fnv(fnv(res.digest, &[*op]), &d.to_le_bytes());
            }
        }
        let f = std::mem::take(&mut *w.findings.borrow_mut());
        for x in &f {
            res.digest = fnv(fnv(res.digest, x.sig.as_bytes()), x.detail.as_bytes());
        }
        res.findings.extend(f);
        for (k, n) in &w.probes.borrow().0 {
            res.probes.add(k, *n);
        }
        for (i, n) in w.tests.borrow().iter().enumerate() {
            res.tests[i] += n;
        }
        micros += w.ticks.get();
        res.calls += w.calls.get();
        if let Some(t) = w.trace.borrow_mut().take() {
            res.trace.extend(t);
        }
        if !res.findings.is_empty() {
            break;
        }
    }
    let refused = crate::sys::REFUSED.load(std::sync::atomic::Ordering::Relaxed) - before;
    if refused > 0 {
        faults.add("allocations_refused", refused);
    }
    for (k, n) in std::mem::take(&mut res.probes).0 {
        match k {
            "sink_failures" => faults.add("sink_failure", n),
            _ => res.probes.add(k, n),
        }
    }
    res.micros = micros;
    res.faults = faults;
    res.recs = st.into_iter().map(|s| s.rec).collect();
    res
}

fn describe(w: &World, c: &Conf, set: &Setting) {
    w.say(|| {
        format!(
            "mode {}, {} clients, schedule policy {}, kills {}, allocation refused {}, threads {}, fault rate {}%, {} boots",
            set.note, c.clients, c.policy, c.kills, c.armed, c.threads, c.rate, c.epochs
        )
    });
    for (i, x) in w.caps.iter().enumerate() {
        w.say(|| {
            let hex: String = x.buf.iter().take(600).map(|b| format!("{b:02x}")).collect();
            format!("capture {i}: {}, {} bytes, version {}.{}, declared {}, {:?}: {hex}", x.note, x.buf.len(), x.ver.0, x.ver.1, x.declared, set.plan.caps[i].place)
        });
    }
    for (i, x) in w.regions.iter().enumerate() {
        w.say(|| {
            let at = x.bytes.chunks(16).position(|c| c.starts_with(b"_SM_") || c.starts_with(b"_SM3_"));
            let from = at.unwrap_or(0) * 16;
            let hex: String = x.bytes[from.min(x.bytes.len())..].iter().take(80).map(|b| format!("{b:02x}")).collect();
            format!("region {i}: {} bytes, {:?}, from {from}: {hex}", x.bytes.len(), set.plan.regions[i].1)
        });
    }
}

// ---------------------------------------------------------------- what may cross threads

struct Is<T>(std::marker::PhantomData<T>);
trait No {
    fn ok(&self) -> bool {
        false
    }
}
impl<T> No for &Is<T> {}
impl<T: Send + Sync> Is<T> {
    fn ok(&self) -> bool {
        true
    }
}
fn threads_ok(w: &World) {
    use dmidecode::bitfield as bf;
    use dmidecode::structures as st;
    w.tested(C14);
    macro_rules! all {
        ($($t:ty),* $(,)?) => {
            $(if !(&Is::<$t>(std::marker::PhantomData)).ok() {
                w.find(C14, concat!("send:", stringify!($t)), concat!(stringify!($t), " cannot be shared between threads"));
            })*
        };
    }
    all!(
        dmidecode::EntryPoint,
        dmidecode::EntryPointV2,
        dmidecode::EntryPointV3,
        dmidecode::SmbiosVersion,
        dmidecode::Structures<'static>,
        dmidecode::Structure<'static>,
        dmidecode::RawStructure<'static>,
        dmidecode::StructureStrings<'static>,
        dmidecode::MalformedStructureError,
        dmidecode::InvalidEntryPointError,
        dmidecode::InfoType,
        st::Bios<'static>,
        st::System<'static>,
        st::BaseBoard<'static>,
        st::Enclosure<'static>,
        st::enclosure::ContainedElements<'static>,
        st::Processor<'static>,
        st::Cache<'static>,
        st::PortConnector<'static>,
        st::SystemSlots<'static>,
        st::system_slots::PeerDevices<'static>,
        st::OemStrings<'static>,
        st::SystemConfigurationOptions<'static>,
        st::BiosLanguage<'static>,
        st::bios_language::InstallableLanguages<'static>,
        st::GroupAssociations<'static>,
        st::group_associations::GroupItems<'static>,
        st::SystemEventLog<'static>,
        st::system_event_log::SupportedEventLogTypeDescriptors<'static>,
        st::PhysicalMemoryArray,
        st::MemoryDevice<'static>,
        st::MemoryError32,
        st::MemoryArrayMappedAddress,
        st::MemoryDeviceMappedAddress,
        st::BuiltInPointingDevice,
        st::PortableBattery<'static>,
        bf::Flag<'static>,
        bf::FlagType<'static>,
        bf::Position,
        bf::Iter<'static, u64>,
        bf::Significants<'static, u64>,
        bf::Reserved<'static, u64>,
        bf::ReservedRange<'static>,
    );
}
#[allow(unused)]
fn keep(_: &Structure, _: &Piece) {}
