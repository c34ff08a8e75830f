//! Deterministic simulation of firmware, the medium it is read through, and the readers that use the library.
//!
//!   dmisim check PROPERTY TIER     run the check: search, confirm, minimise, report (needs DMISIM_CHECKED/PLAIN)
//!   dmisim replay FILE             reproduce a recorded violation
//!   dmisim worker PROP SEED FIRST STRIDE END     internal: a share of the runs
//!   dmisim one PROP                internal: one run from the decisions on standard input
//!   dmisim log PROP SEED N [K]     digests of the event logs of N runs, K of them traced, for comparing executions
mod chooser;
mod client;
mod cursor;
mod golden;
mod host;
mod img;
mod medium;
mod model;
mod block;
mod preempt;
mod project;
mod props;
mod run;
mod supervisor;
mod sys;
mod val;
mod world;
mod zygote;

use chooser::*;
use std::io::{BufWriter, Read, Write};
use std::sync::atomic::Ordering;

pub fn run_seed(seed: u64, prop: usize, i: u64) -> u64 {
    mix(mix(seed) ^ mix(0xABCD_0000 + prop as u64)).wrapping_add(mix(i))
}

fn hook() {
    std::panic::set_hook(Box::new(|info| {
        let armed = sys::arm(false);
        let place = info.location().map_or("?".into(), |l| {
            let f = l.file();
            // independent of where the library was built
            let f = f.find("/src/").map_or(f, |i| &f[i + 1..]);
            format!("{f}:{}", l.line())
        });
        let text = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        if text.contains("harness:") || sys::CUR_OP.load(Ordering::Relaxed) == 0 {
            eprintln!("HARNESS ERROR at {place}: {text}");
            std::process::exit(3);
        }
        *client::PANIC.lock().unwrap() = format!("{place}|{text}");
        sys::arm(armed);
    }));
}

fn worker(a: &[String]) {
    let prop = props::parse(&a[0]).expect("harness: property");
    let n: Vec<u64> = a[1..5].iter().map(|x| x.parse().expect("harness: number")).collect();
    let (seed, first, stride, end) = (n[0], n[1], n[2], n[3]);
    let pr = props::profile(prop);
    let out = std::io::stdout();
    let mut out = BufWriter::new(out.lock());
    let mut arenas = sys::Arenas::new();
    let mut faults = medium::Counts::default();
    let mut probes = medium::Counts::default();
    let mut tests = [0u64; props::N_PROPS];
    let (mut micros, mut calls, mut steps) = (0, 0, 0);
    let mut i = first;
    let mut since = 0;
    let flush = |out: &mut BufWriter<std::io::StdoutLock>,
                     faults: &mut medium::Counts,
                     probes: &mut medium::Counts,
                     tests: &mut [u64; props::N_PROPS],
                     nums: &mut [&mut u64; 3]| {
        for (k, v) in std::mem::take(faults).0 {
            let _ = writeln!(out, "FAULT {k} {v}");
        }
        for (k, v) in std::mem::take(probes).0 {
            let _ = writeln!(out, "PROBE {k} {v}");
        }
        for (k, v) in tests.iter_mut().enumerate() {
            let _ = writeln!(out, "TEST {k} {v}");
            *v = 0;
        }
        let _ = writeln!(out, "SUM {} {} {}", nums[0], nums[1], nums[2]);
        if preempt::present() {
            let _ = writeln!(out, "COVER {}", preempt::map());
        }
        for n in nums {
            **n = 0;
        }
        let _ = out.flush();
    };
    while i < end {
        sys::CUR_RUN.store(i, Ordering::Relaxed);
        sys::watchdog(true);
        let r = run::execute(streams_from_seed(run_seed(seed, prop, i)), &pr, &mut arenas, false);
        sys::watchdog(false);
        let _ = writeln!(out, "RUN {i} {:x} {:x} {:x}", r.digest, r.sched, r.input);
        let mut hit = false;
        for f in &r.findings {
            let _ = writeln!(out, "FOUND {i} {} {} {}", f.tags, f.sig.replace(' ', "_"), f.detail.replace('\n', " "));
            hit |= f.tags >> prop & 1 == 1;
        }
        for (k, v) in &r.faults.0 {
            faults.add(k, *v);
        }
        for (k, v) in &r.probes.0 {
            probes.add(k, *v);
        }
        probes.add(["mode_mixed", "mode_cut", "mode_damage", "mode_twin", "mode_reread"][r.mode], 1);
        for (a, b) in tests.iter_mut().zip(r.tests) {
            *a += b;
        }
        micros += r.micros;
        calls += r.calls;
        steps += r.steps;
        since += 1;
        i += stride;
        if since >= 200 || hit {
            since = 0;
            flush(&mut out, &mut faults, &mut probes, &mut tests, &mut [&mut micros, &mut calls, &mut steps]);
        }
        if hit {
            return;
        }
    }
    flush(&mut out, &mut faults, &mut probes, &mut tests, &mut [&mut micros, &mut calls, &mut steps]);
}

/// Standard input: lines `pre SEED I` (whole runs executed first), then `s N N N ...` per stream, or `seed SEED I`.
fn one(a: &[String]) {
    let prop = props::parse(&a[0]).expect("harness: property");
    let mut text = String::new();
    std::io::stdin().read_to_string(&mut text).expect("harness: stdin");
    let pr = props::profile(prop);
    let mut arenas = sys::Arenas::new();
    let mut recs: Vec<Vec<u32>> = Vec::new();
    let mut st = None;
    let mut trace = false;
    for l in text.lines() {
        let w: Vec<&str> = l.split_ascii_whitespace().collect();
        let num = |i: usize| w[i].parse::<u64>().expect("harness: number");
        match w.first() {
            Some(&"pre") => {
                sys::watchdog(true);
                run::execute(streams_from_seed(run_seed(num(1), prop, num(2))), &pr, &mut arenas, false);
                sys::watchdog(false);
            }
            Some(&"s") => recs.push(w[1..].iter().map(|x| x.parse().expect("harness: number")).collect()),
            Some(&"seed") => st = Some(streams_from_seed(run_seed(num(1), prop, num(2)))),
            Some(&"trace") => trace = true,
            _ => (),
        }
    }
    let st = st.unwrap_or_else(|| streams_from_records(recs));
    sys::CUR_RUN.store(u64::MAX, Ordering::Relaxed);
    sys::watchdog(true);
    let r = run::execute(st, &pr, &mut arenas, trace);
    sys::watchdog(false);
    let mut out = BufWriter::new(std::io::stdout().lock());
    for s in &r.recs {
        let _ = write!(out, "s");
        for v in s {
            let _ = write!(out, " {v}");
        }
        let _ = writeln!(out);
    }
    for f in &r.findings {
        let _ = writeln!(out, "FOUND 0 {} {} {}", f.tags, f.sig.replace(' ', "_"), f.detail.replace('\n', " "));
    }
    for t in &r.trace {
        let _ = writeln!(out, "TRACE {}", t.replace('\n', " "));
    }
    let _ = writeln!(out, "DIGEST {:x}", r.digest);
}

fn log(a: &[String]) {
    let prop = props::parse(&a[0]).expect("harness: property");
    let seed: u64 = a[1].parse().expect("harness: number");
    let n: u64 = a[2].parse().expect("harness: number");
    let k: u64 = a.get(3).map_or(0, |x| x.parse().expect("harness: number"));
    let pr = props::profile(prop);
    let mut arenas = sys::Arenas::new();
    for i in 0..n {
        sys::CUR_RUN.store(i, Ordering::Relaxed);
        sys::watchdog(true);
        let r = run::execute(streams_from_seed(run_seed(seed, prop, i)), &pr, &mut arenas, i < k);
        sys::watchdog(false);
        println!("{i} {:x} {:x} {:x} {} {}", r.digest, r.sched, r.input, r.calls, r.findings.len());
        for t in r.trace {
            println!("  {t}");
        }
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(|s| s.as_str()) {
        Some("worker") | Some("one") | Some("log") => {
            hook();
            sys::install_handlers();
            if matches!(a.get(2).map(|s| s.as_str()), Some("C14") | Some("C16")) {
                zygote::start(run::serve);
            }
            match a[1].as_str() {
                "worker" => worker(&a[2..]),
                "one" => one(&a[2..]),
                _ => log(&a[2..]),
            }
        }
        Some("check") => std::process::exit(supervisor::check(&a[2], &a[3])),
        Some("replay") => std::process::exit(supervisor::replay(&a[2])),
        _ => {
            eprintln!("usage: dmisim check PROPERTY TIER | replay FILE | log PROPERTY SEED N [TRACED]");
            std::process::exit(2);
        }
    }
}
