//! The way from firmware to the caller: several readers copy the published bytes chunk by chunk while the
//! firmware may publish a new generation, and every chunk can meet a fault.
use crate::chooser::Stream;
use std::collections::BTreeMap;

#[derive(Default, Clone)]
pub struct Counts(pub BTreeMap<&'static str, u64>);
impl Counts {
    pub fn add(&mut self, k: &'static str, n: u64) {
        *self.0.entry(k).or_insert(0) += n;
    }
    pub fn total(&self) -> u64 {
        self.0.values().sum()
    }
}

struct Reader {
    out: Vec<u8>,
    pos: usize,
    chunk: usize,
    done: bool,
    retries: u32,
}

pub const FAULTS: [&str; 14] = [
    "short_read",
    "interrupted",
    "io_error_retried",
    "end_of_file",
    "io_error_gives_up",
    "bit_flip",
    "byte_zero",
    "byte_ff",
    "bytes_swapped",
    "garbage",
    "zero_fill",
    "stale_chunk",
    "duplicated_chunk",
    "dropped_chunk",
];

/// One buffer per reader. `rate`: percent of chunks that meet a fault. `gens`: what the firmware publishes one
/// after the other. `t` is the simulated time in microseconds.
pub fn capture(s: &mut Stream, gens: &[&[u8]], readers: usize, rate: u32, c: &mut Counts, t: &mut u64) -> Vec<Vec<u8>> {
    let mut now = 0usize;
    let mut rs: Vec<Reader> = (0..readers)
        .map(|_| {
            let n = gens[0].len();
            let chunk = *s.of(&[4096usize, 64, 256, 16, 1024, 7]);
            Reader { out: Vec::with_capacity(n), pos: 0, chunk: chunk.max(n / 48), done: false, retries: 0 }
        })
        .collect();
    loop {
        let live: Vec<usize> = (0..rs.len()).filter(|i| !rs[*i].done).collect();
        if live.is_empty() {
            break;
        }
        let who = if live.len() == 1 { live[0] } else { live[s.pick(live.len() as u32) as usize] };
        if now + 1 < gens.len() && s.chance(10) {
            now += 1;
            c.add("firmware_update", 1);
            if rs.iter().any(|r| !r.done && r.pos > 0) {
                c.add("torn_capture", 1);
            }
        }
        *t += 40;
        let src = gens[now];
        let r = &mut rs[who];
        if r.pos >= src.len() {
            r.done = true;
            continue;
        }
        let n = r.chunk.min(src.len() - r.pos);
        let data = &src[r.pos..r.pos + n];
        let fault = if rate > 0 && s.chance(rate) { Some(s.pick(14) as usize) } else { None };
        let Some(k) = fault else {
            r.out.extend_from_slice(data);
            r.pos += n;
            continue;
        };
        c.add(FAULTS[k], 1);
        let at = r.out.len();
        match k {
            0 => {
                let m = 1 + s.pick(n as u32) as usize;
                let m = m.min(n);
                r.out.extend_from_slice(&data[..m]);
                r.pos += m;
                continue;
            }
            1 => continue,
            2 => {
                r.retries += 1;
                *t += 1000;
                if r.retries > 3 {
                    r.done = true;
                }
                continue;
            }
            3 => {
                let m = s.pick(n as u32 + 1) as usize;
                r.out.extend_from_slice(&data[..m.min(n)]);
                r.done = true;
                continue;
            }
            4 => {
                r.done = true;
                continue;
            }
            11 => {
                // bytes of an earlier generation
                let old = gens[now.saturating_sub(1)];
                let z = gens[gens.len() - 1];
                let o = if now == 0 { z } else { old };
                for i in r.pos..r.pos + n {
                    r.out.push(o.get(i).copied().unwrap_or(0));
                }
            }
            12 => {
                r.out.extend_from_slice(data);
                let m = n.min(64);
                r.out.extend_from_slice(&data[..m]);
            }
            13 => {
                let m = (1 + s.pick(n as u32) as usize).min(n);
                r.out.extend_from_slice(&data[m..]);
            }
            _ => {
                r.out.extend_from_slice(data);
                let i = at + s.pick(n as u32) as usize;
                match k {
                    5 => r.out[i] ^= 1 << s.pick(8),
                    6 => r.out[i] = 0,
                    7 => r.out[i] = 0xFF,
                    8 => {
                        let j = (i + 1).min(r.out.len() - 1);
                        r.out.swap(i, j);
                    }
                    9 => {
                        let mut no = s.noise();
                        let e = (i + 8).min(r.out.len());
                        for b in &mut r.out[i..e] {
                            *b = no.next() as u8;
                        }
                    }
                    _ => {
                        let e = (i + 1 + s.pick(32) as usize).min(r.out.len());
                        r.out[i..e].fill(0);
                    }
                }
            }
        }
        r.pos += n;
    }
    rs.into_iter().map(|r| r.out).collect()
}
