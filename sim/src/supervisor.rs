//! Runs the search in worker processes, confirms what they find in a fresh process, minimises it and reports.
use crate::props::*;
use crate::sys;
use std::collections::{BTreeMap, HashSet};
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, Command, Stdio};
use std::sync::mpsc;
use std::time::Instant;

const WORKERS: u64 = 8;

#[derive(Clone, Debug)]
struct Hit {
    run: u64,
    tags: Tags,
    sig: String,
    detail: String,
    variant: usize,
}

#[derive(Clone)]
struct Variant {
    name: &'static str,
    bin: String,
    runs: u64,
}

fn crash_tags(code: i32, op: usize, inside: bool, armed: bool) -> Tags {
    let (o, ty) = (op & 0xFF, op >> 8);
    let o = o.min(OP_NAMES.len() - 1);
    let mut t = op_tags(o, ty);
    match code {
        sys::EXIT_HANG => t |= C03,
        sys::EXIT_ABRT if armed => t = C16 | C02,
        sys::EXIT_SEGV if inside => t |= C01,
        sys::EXIT_SEGV if armed => t |= C16,
        _ => (),
    }
    t
}
fn crash_text(code: i32, op: usize, inside: bool, armed: bool) -> (String, String) {
    let o = OP_NAMES[(op & 0xFF).min(OP_NAMES.len() - 1)];
    let (s, what) = match code {
        sys::EXIT_HANG => ("hang", "does not return"),
        sys::EXIT_ABRT if armed => ("abort_armed", "aborts when memory is refused"),
        sys::EXIT_ABRT => ("abort", "aborts"),
        _ if inside => ("segv", "touches memory outside the buffer"),
        _ => ("segv_other", "touches unmapped memory or overflows the stack"),
    };
    (format!("{s}:{o}"), format!("the library {what} during {o}"))
}

#[derive(Default)]
struct Totals {
    runs: u64,
    faults: BTreeMap<String, u64>,
    probes: BTreeMap<String, u64>,
    tests: [u64; N_PROPS],
    micros: u64,
    calls: u64,
    steps: u64,
    scheds: HashSet<u64>,
    inputs: HashSet<u64>,
    digests: HashSet<u64>,
    skipped: Vec<String>,
    crashes: u64,
    /// per edge of the instrumented library: reached, suspended behind
    cover: Vec<u8>,
}

enum Msg {
    Line(usize, u64, String),
    Gone(usize, u64, i32),
}

fn spawn(v: &Variant, prop: &str, seed: u64, first: u64, stride: u64, end: u64, vi: usize, w: u64, tx: &mpsc::Sender<Msg>) -> Child {
    let mut c = Command::new(&v.bin)
        .args(["worker", prop, &seed.to_string(), &first.to_string(), &stride.to_string(), &end.to_string()])
        .stdin(Stdio::null())
        .stdout(Stdio::piped())
        .stderr(Stdio::inherit())
        .spawn()
        .expect("harness: worker");
    let out = c.stdout.take().unwrap();
    let tx = tx.clone();
    std::thread::spawn(move || {
        for l in BufReader::new(out).lines().map_while(Result::ok) {
            if tx.send(Msg::Line(vi, w, l)).is_err() {
                return;
            }
        }
        let _ = tx.send(Msg::Gone(vi, w, 0));
    });
    c
}

/// All runs of one variant, shared out to worker processes.
fn sweep(vi: usize, v: &Variant, prop: usize, seed: u64, tot: &mut Totals, hits: &mut Vec<Hit>) -> Result<(), String> {
    let (tx, rx) = mpsc::channel();
    let pid = id(prop);
    let mut kids: BTreeMap<u64, Child> = BTreeMap::new();
    let mut next: Vec<u64> = (0..WORKERS).collect();
    let mut crash: Vec<Option<(i32, usize, bool, bool, u64)>> = vec![None; WORKERS as usize];
    let mut hung = 0;
    for w in 0..WORKERS {
        kids.insert(w, spawn(v, &pid, seed, w, WORKERS, v.runs, vi, w, &tx));
    }
    while !kids.is_empty() {
        let Ok(m) = rx.recv() else { break };
        match m {
            Msg::Line(_, w, l) => {
                let f: Vec<&str> = l.splitn(5, ' ').collect();
                let hex = |i: usize| u64::from_str_radix(f[i], 16).unwrap_or(0);
                let num = |i: usize| f[i].parse::<u64>().unwrap_or(0);
                match f[0] {
                    "RUN" if f.len() == 5 => {
                        tot.runs += 1;
                        next[w as usize] = num(1) + WORKERS;
                        tot.digests.insert(hex(2));
                        tot.scheds.insert(hex(3));
                        tot.inputs.insert(hex(4));
                    }
                    "FOUND" => {
                        let tags = num(2) as Tags;
                        let h = Hit { run: num(1), tags, sig: f[3].into(), detail: f.get(4).unwrap_or(&"").to_string(), variant: vi };
                        if tags >> prop & 1 == 1 {
                            hits.push(h);
                        } else if tot.skipped.len() < 20 {
                            tot.skipped.push(format!("run {}: {} {} (another property's business)", h.run, names(tags), h.sig));
                        }
                    }
                    "FAULT" => *tot.faults.entry(f[1].into()).or_insert(0) += num(2),
                    "PROBE" => *tot.probes.entry(f[1].into()).or_insert(0) += num(2),
                    "TEST" => tot.tests[num(1) as usize] += num(2),
                    "SUM" => {
                        tot.micros += num(1);
                        tot.calls += num(2);
                        tot.steps += num(3);
                    }
                    "COVER" if f.len() == 2 => {
                        tot.cover.resize(tot.cover.len().max(f[1].len()), 0);
                        for (a, b) in tot.cover.iter_mut().zip(f[1].bytes()) {
                            *a |= b - b'0';
                        }
                    }
                    "CRASH" => {
                        let p: Vec<u64> = l.split(' ').skip(1).map(|x| x.parse().unwrap_or(0)).collect();
                        if p.len() == 5 {
                            crash[w as usize] = Some((p[1] as i32, p[2] as usize, p[3] == 1, p[4] == 1, p[0]));
                        }
                    }
                    _ => (),
                }
            }
            Msg::Gone(_, w, _) => {
                let st = kids.remove(&w).unwrap().wait().map_err(|e| e.to_string())?;
                let code = st.code().unwrap_or(-1);
                if let Some((c, op, inside, armed, run)) = crash[w as usize].take() {
                    if c == sys::EXIT_BLOCKED {
                        // the library blocks while another client is suspended inside it; says nothing about its answers
                        tot.skipped.push(format!("run {run}: blocked on a client suspended inside a call; this worker stops"));
                        continue;
                    }
                    if op & 0xFF == 0 {
                        return Err(format!("the simulator itself crashed in run {run} (code {c})"));
                    }
                    let tags = crash_tags(c, op, inside, armed);
                    let (sig, detail) = crash_text(c, op, inside, armed);
                    tot.crashes += 1;
                    hung += (c == sys::EXIT_HANG) as u32;
                    tot.runs += 1;
                    if tags >> prop & 1 == 1 {
                        hits.push(Hit { run, tags, sig, detail, variant: vi });
                        continue;
                    }
                    tot.skipped.push(format!("run {run}: {} {sig} (another property's business)", names(tags)));
                    next[w as usize] = run + WORKERS;
                    if tot.crashes < 400 && hung < 24 && next[w as usize] < v.runs {
                        kids.insert(w, spawn(v, &pid, seed, next[w as usize], WORKERS, v.runs, vi, w, &tx));
                    }
                } else if code != 0 {
                    return Err(format!("worker {w} ended with {code} ({st})"));
                }
            }
        }
    }
    Ok(())
}

struct Outcome {
    hits: Vec<(Tags, String, String)>,
    recs: Vec<Vec<u32>>,
    digest: String,
    trace: Vec<String>,
}

fn one(v: &Variant, prop: usize, pre: &[(u64, u64)], body: &str, trace: bool) -> Result<Outcome, String> {
    let mut c = Command::new(&v.bin)
        .args(["one", &id(prop)])
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .map_err(|e| e.to_string())?;
    {
        let mut i = c.stdin.take().unwrap();
        let mut text = String::new();
        if trace {
            text.push_str("trace\n");
        }
        for (s, r) in pre {
            text.push_str(&format!("pre {s} {r}\n"));
        }
        text.push_str(body);
        let _ = i.write_all(text.as_bytes());
    }
    let o = c.wait_with_output().map_err(|e| e.to_string())?;
    let code = o.status.code().unwrap_or(-1);
    let mut r = Outcome { hits: vec![], recs: vec![], digest: String::new(), trace: vec![] };
    for l in String::from_utf8_lossy(&o.stdout).lines() {
        let f: Vec<&str> = l.splitn(5, ' ').collect();
        match f[0] {
            "s" => r.recs.push(l[1..].split_ascii_whitespace().filter_map(|x| x.parse().ok()).collect()),
            "FOUND" => r.hits.push((f[2].parse().unwrap_or(0), f[3].into(), f.get(4).unwrap_or(&"").to_string())),
            "TRACE" => r.trace.push(l[6..].into()),
            "DIGEST" => r.digest = f[1].into(),
            "CRASH" => {
                let p: Vec<u64> = l.split(' ').skip(1).map(|x| x.parse().unwrap_or(0)).collect();
                if p.len() == 5 && p[2] & 0xFF != 0 {
                    let (op, ins, arm) = (p[2] as usize, p[3] == 1, p[4] == 1);
                    let (s, d) = crash_text(p[1] as i32, op, ins, arm);
                    r.digest = format!("crash-{}", s.replace(':', "-"));
                    r.hits.push((crash_tags(p[1] as i32, op, ins, arm), s, d));
                }
            }
            _ => (),
        }
    }
    if code != 0 && r.hits.is_empty() {
        return Err(format!("run ended with {code}"));
    }
    Ok(r)
}

fn body_of(recs: &[Vec<u32>]) -> String {
    let mut s = String::new();
    for r in recs {
        s.push('s');
        for v in r {
            s.push_str(&format!(" {v}"));
        }
        s.push('\n');
    }
    s
}

fn shrink(v: &Variant, prop: usize, pre: &[(u64, u64)], mut recs: Vec<Vec<u32>>, sig: &str, quick: bool) -> (Vec<Vec<u32>>, u32) {
    let mut budget = if quick { 500u32 } else { 3000 };
    let t0 = Instant::now();
    let limit = if quick { 25 } else { 180 };
    let mut tried = 0;
    let mut fails = |r: &[Vec<u32>], budget: &mut u32| {
        if *budget == 0 || t0.elapsed().as_secs() > limit {
            *budget = 0;
            return false;
        }
        *budget -= 1;
        tried += 1;
        matches!(one(v, prop, pre, &body_of(r), false), Ok(o) if o.hits.iter().any(|h| h.0 >> prop & 1 == 1 && h.1 == sig))
    };
    let size = |r: &[Vec<u32>]| r.iter().map(|x| x.len() + x.iter().filter(|v| **v != 0).count()).sum::<usize>();
    loop {
        let before = size(&recs);
        for s in 0..recs.len() {
            // empty, then shorter
            let mut keep = 0usize;
            while recs[s].len() > keep {
                let cut = (recs[s].len() - keep).div_ceil(2);
                let mut t = recs.clone();
                let n = t[s].len() - cut;
                t[s].truncate(if keep == 0 && cut == recs[s].len().div_ceil(2) { n } else { n });
                if fails(&t, &mut budget) {
                    recs = t;
                } else if cut <= 1 {
                    break;
                } else {
                    keep = recs[s].len() - cut;
                }
            }
            // drop or zero chunks
            let mut chunk = (recs[s].len() / 2).max(1);
            while !recs[s].is_empty() && budget > 0 {
                let mut i = 0;
                while i < recs[s].len() && budget > 0 {
                    let e = (i + chunk).min(recs[s].len());
                    let mut t = recs.clone();
                    t[s].drain(i..e);
                    if fails(&t, &mut budget) {
                        recs = t;
                        continue;
                    }
                    if recs[s][i..e].iter().any(|v| *v != 0) {
                        let mut t = recs.clone();
                        t[s][i..e].fill(0);
                        if fails(&t, &mut budget) {
                            recs = t;
                        }
                    }
                    i = e;
                }
                if chunk == 1 {
                    break;
                }
                chunk /= 2;
            }
        }
        for r in recs.iter_mut() {
            while r.last() == Some(&0) {
                r.pop();
            }
        }
        if budget == 0 || size(&recs) >= before {
            break;
        }
    }
    (recs, tried)
}

fn known(prop: &str) -> Vec<String> {
    let text = std::fs::read_to_string("KNOWN_FINDINGS.txt").unwrap_or_default();
    text.lines()
        .filter_map(|l| l.strip_prefix(&format!("known: property={prop} sig=")))
        .map(|l| l.split_whitespace().next().unwrap_or("").to_string())
        .collect()
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn obj(m: &BTreeMap<String, u64>) -> String {
    let v: Vec<String> = m.iter().map(|(k, v)| format!("{}: {v}", esc(k))).collect();
    format!("{{{}}}", v.join(", "))
}

pub fn runs_for(prop: usize, tier: &str) -> (u64, u64, u64) {
    let t = 1 << prop;
    // checked, plain, fine
    let (c, p, f) = match t {
        C01 | C02 => (200_000, 200_000, 0),
        C16 => (80_000, 80_000, 0),
        C05 => (400_000, 0, 0),
        C14 => (40_000, 0, 130_000),
        C19 => (120_000, 0, 0),
        _ => (240_000, 0, 0),
    };
    let scale: f64 = std::env::var("DMISIM_SCALE").ok().and_then(|x| x.parse().ok()).unwrap_or(1.0);
    let k = if tier == "thorough" { 20.0 } else { 1.0 } * scale;
    ((c as f64 * k) as u64, (p as f64 * k) as u64, (f as f64 * k) as u64)
}

pub fn check(pid: &str, tier: &str) -> i32 {
    let Some(prop) = parse(pid) else {
        eprintln!("unknown property {pid}");
        return 2;
    };
    let t0 = Instant::now();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let (rc, rp, rf) = runs_for(prop, tier);
    let mut vs = Vec::new();
    for (name, runs) in [("checked", rc), ("plain", rp), ("fine", rf)] {
        if runs > 0 {
            match std::env::var(bin_var(name)) {
                Ok(bin) => vs.push(Variant { name, bin, runs }),
                Err(_) => {
                    eprintln!("HARNESS ERROR: {} is not set", bin_var(name));
                    return 3;
                }
            }
        }
    }
    println!("{pid} {tier}: seed {seed}, {}", vs.iter().map(|v| format!("{} runs {}", v.runs, v.name)).collect::<Vec<_>>().join(", "));
    let mut tot = Totals::default();
    let mut hits: Vec<Hit> = Vec::new();
    for (vi, v) in vs.iter().enumerate() {
        if let Err(e) = sweep(vi, v, prop, seed, &mut tot, &mut hits) {
            eprintln!("HARNESS ERROR: {e}");
            return 3;
        }
        if !hits.is_empty() {
            break;
        }
    }
    let search_s = t0.elapsed().as_secs_f64();
    let known = known(pid);
    let mut fresh: Vec<&Hit> = Vec::new();
    for h in &hits {
        if known.contains(&h.sig) {
            println!("KNOWN-FINDING: property={pid} {} {}", h.sig, h.detail);
        } else {
            fresh.push(h);
        }
    }
    fresh.sort_by_key(|h| (h.variant, h.run));
    let mut code = 0;
    if let Some(h) = fresh.first() {
        code = 1;
        let path = report(h, &vs, prop, seed, tier);
        println!("VIOLATION property={pid} replay={path}");
    } else if let (true, Some(e)) = (1 << prop == C16, no_std_broken()) {
        code = 1;
        println!("{pid}: the library builds with its standard-library option on, but not off: {e}");
        let _ = std::fs::create_dir_all("replays");
        let dir = std::env::current_dir().map(|d| d.to_string_lossy().into_owned()).unwrap_or("/verif".into());
        let path = format!("{dir}/replays/{pid}-{NO_STD}.replay");
        let _ = std::fs::write(&path, format!("property {pid}\nvariant {NO_STD}\nsig {NO_STD}\nwhat the build with the standard-library option off fails: {e}\n"));
        println!("VIOLATION property={pid} replay={path}");
    }
    evidence(pid, prop, tier, seed, &vs, &tot, fresh.len().max(code as usize), search_s, t0.elapsed().as_secs_f64());
    if code == 0 {
        println!("{pid}: held in {} runs, {} library calls, {} distinct schedules, {:.1} s", tot.runs, tot.calls, tot.scheds.len(), search_s);
    }
    for s in tot.skipped.iter().take(5) {
        println!("note: {s}");
    }
    code
}

fn report(h: &Hit, vs: &[Variant], prop: usize, seed: u64, tier: &str) -> String {
    let v = &vs[h.variant];
    let pid = id(prop);
    let body = format!("seed {seed} {}\n", h.run);
    // alone, or only after earlier runs of the same process
    let mut pre: Vec<(u64, u64)> = Vec::new();
    let mut got = None;
    for back in [0u64, 1, 8, 64, u64::MAX] {
        pre.clear();
        let mut i = h.run;
        let mut k = 0;
        while i >= WORKERS && k < back {
            i -= WORKERS;
            k += 1;
            pre.push((seed, i));
        }
        pre.reverse();
        if let Ok(o) = one(v, prop, &pre, &body, false) {
            if let Some(x) = o.hits.iter().find(|x| x.0 >> prop & 1 == 1 && x.1 == h.sig) {
                got = Some((x.clone(), o.recs.clone()));
                break;
            }
        }
        if i < WORKERS {
            break;
        }
    }
    let mut lines = vec![
        format!("property {pid}"),
        format!("variant {}", v.name),
        format!("seed {seed} {}", h.run),
        format!("sig {}", h.sig),
        format!("found {}", h.detail),
    ];
    let mut detail = h.detail.clone();
    match got {
        None => lines.push("note not reproduced in a fresh process".into()),
        Some((x, recs)) => {
            detail = x.2.clone();
            let (recs, tried) = if recs.is_empty() {
                // the process died before it could tell its decisions: replay by seed
                (vec![], 0)
            } else {
                shrink(v, prop, &pre, recs, &h.sig, tier != "thorough")
            };
            let b = if recs.is_empty() { body.clone() } else { body_of(&recs) };
            for (s, r) in &pre {
                lines.push(format!("pre {s} {r}"));
            }
            if let Ok(o) = one(v, prop, &pre, &b, true) {
                if let Some(y) = o.hits.iter().find(|x| x.0 >> prop & 1 == 1 && x.1 == h.sig) {
                    detail = y.2.clone();
                }
                lines.push(format!("what {detail}"));
                lines.push(format!("digest {}", o.digest));
                lines.push(format!("minimised {} decisions after {tried} attempts", recs.iter().map(|r| r.len()).sum::<usize>()));
                lines.extend(if recs.is_empty() { vec!["by_seed".to_string()] } else { b.lines().map(|l| l.to_string()).collect() });
                lines.extend(o.trace.iter().map(|t| format!("trace {t}")));
            }
        }
    }
    println!("{pid}: {detail}");
    let _ = std::fs::create_dir_all("replays");
    let path = format!("/verif/replays/{pid}-{seed}-{}-{}.replay", v.name, h.run);
    let path = match std::env::current_dir() {
        Ok(d) => path.replace("/verif", &d.to_string_lossy()),
        Err(_) => path,
    };
    let _ = std::fs::write(&path, lines.join("\n") + "\n");
    path
}

const NO_STD: &str = "no-std-build";

/// Set by check.sh when only the build with the standard-library option on works.
fn no_std_broken() -> Option<String> {
    std::env::var("DMISIM_NO_STD_BROKEN").ok()
}

fn bin_var(name: &str) -> &'static str {
    match name {
        "plain" => "DMISIM_PLAIN",
        "fine" => "DMISIM_FINE",
        _ => "DMISIM_CHECKED",
    }
}

pub fn replay(file: &str) -> i32 {
    let Ok(text) = std::fs::read_to_string(file) else {
        eprintln!("cannot read {file}");
        return 2;
    };
    let get = |k: &str| text.lines().find_map(|l| l.strip_prefix(k).and_then(|r| r.strip_prefix(' '))).unwrap_or("").to_string();
    let Some(prop) = parse(&get("property")) else { return 2 };
    if get("variant") == NO_STD {
        return match no_std_broken() {
            Some(e) => {
                println!("the build with the standard-library option off fails: {e}");
                println!("VIOLATION property={} replay={file}", id(prop));
                1
            }
            None => {
                println!("not reproduced: the library builds with its standard-library option off");
                0
            }
        };
    }
    let bin = std::env::var(bin_var(&get("variant"))).unwrap_or_default();
    let v = Variant { name: "replay", bin, runs: 0 };
    let mut pre = vec![];
    let mut body = String::new();
    for l in text.lines() {
        if let Some(r) = l.strip_prefix("pre ") {
            let n: Vec<u64> = r.split(' ').filter_map(|x| x.parse().ok()).collect();
            pre.push((n[0], n[1]));
        } else if l == "s" || l.starts_with("s ") {
            body.push_str(l);
            body.push('\n');
        }
    }
    if body.is_empty() {
        body = format!("seed {}\n", get("seed"));
    }
    match one(&v, prop, &pre, &body, true) {
        Ok(o) => {
            for t in &o.trace {
                println!("{t}");
            }
            let sig = get("sig");
            match o.hits.iter().find(|h| h.0 >> prop & 1 == 1 && h.1 == sig) {
                Some(h) => {
                    println!("{}", h.2);
                    println!("digest {} (recorded {})", o.digest, get("digest"));
                    println!("VIOLATION property={} replay={file}", id(prop));
                    1
                }
                None => {
                    println!("not reproduced: {} is not among {:?}", sig, o.hits.iter().map(|h| &h.1).collect::<Vec<_>>());
                    0
                }
            }
        }
        Err(e) => {
            eprintln!("HARNESS ERROR: {e}");
            3
        }
    }
}

#[allow(clippy::too_many_arguments)]
fn evidence(pid: &str, prop: usize, tier: &str, seed: u64, vs: &[Variant], t: &Totals, hits: usize, search_s: f64, wall: f64) {
    let mut samples = Vec::new();
    for i in 0..2u64 {
        if let Ok(o) = one(&vs[0], prop, &[], &format!("seed {seed} {i}\n"), true) {
            let mut tr: Vec<String> = o.trace.iter().take(14).map(|l| l.chars().take(220).collect()).collect();
            tr.push(format!("... {} trace lines in all, event log digest {}", o.trace.len(), o.digest));
            samples.push(format!("{{\"run\": {i}, \"trace\": [{}]}}", tr.iter().map(|l| esc(l)).collect::<Vec<_>>().join(", ")));
        }
    }
    let hour = if search_s > 0.0 { (t.runs as f64 / search_s * 3600.0) as u64 } else { 0 };
    let variants: Vec<String> = vs.iter().map(|v| format!("{{\"name\": {}, \"runs\": {}}}", esc(v.name), v.runs)).collect();
    let rule = "one evaluation is one simulated run: seeded firmware publishes generations of a table and an entry-point region, a faulty medium delivers captures of them into guarded memory, and one to four clients use the library under a seeded scheduler; distinct_nontrivial counts runs with pairwise different event logs (digest over every call and its answer)";
    let s = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {seed},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"samples\": [{}],\n  \"times_this_property_was_tested\": {},\n  \"distinct_schedules\": {},\n  \"distinct_schedules_measure\": \"different sequences of (client resumed | client killed)\",\n  \"distinct_captured_inputs\": {},\n  \"library_calls\": {},\n  \"scheduling_steps\": {},\n  \"simulated_seconds\": {:.3},\n  \"simulated_time_measure\": \"40 us per chunk read from the medium, 1 ms per retried error, 1 us per library call\",\n  \"runs_per_hour\": {hour},\n  \"seeds_per_hour\": {hour},\n  \"faults_injected\": {},\n  \"probes\": {},\n  \"variants\": [{}],\n{}  \"crashes_of_workers\": {},\n  \"other_properties_seen\": [{}],\n  \"real\": [\"all of the dmidecode crate from /repo's working tree, through its public interface\", \"its dependencies bitflags and uuid\"],\n  \"stub\": [\"firmware (generated tables and entry points)\", \"the medium (memory, sysfs or file reads with faults)\", \"the callers (clients on coroutines or parked threads)\", \"output sinks and hashers\", \"the heap (allocator that refuses)\"]\n }},\n \"assumptions\": [\"the reference model in sim/src/model.rs and the code names in sim/golden.txt state the specification correctly\", \"seeded search samples schedules and faults, it does not enumerate them\"],\n \"violations\": {},\n \"wall_s\": {:.3}\n}}\n",
        esc(pid),
        esc(tier),
        t.runs,
        t.digests.len(),
        esc(rule),
        samples.join(", "),
        t.tests[prop],
        t.scheds.len(),
        t.inputs.len(),
        t.calls,
        t.steps,
        t.micros as f64 / 1e6,
        obj(&t.faults),
        obj(&t.probes),
        variants.join(", "),
        if t.cover.is_empty() {
            String::new()
        } else {
            let n = |bit: u8| t.cover.iter().filter(|x| **x & bit != 0).count();
            format!(
                "  \"edges_of_the_library\": {},\n  \"edges_reached\": {},\n  \"edges_behind_which_a_client_was_suspended\": {},\n",
                t.cover.len() - 1,
                n(1),
                n(2)
            )
        },
        t.crashes,
        t.skipped.iter().map(|s| esc(s)).collect::<Vec<_>>().join(", "),
        hits,
        wall
    );
    let _ = std::fs::create_dir_all("evidence");
    if std::fs::write(format!("evidence/{pid}.json"), s).is_err() {
        eprintln!("HARNESS ERROR: cannot write the evidence file");
        std::process::exit(3);
    }
}
