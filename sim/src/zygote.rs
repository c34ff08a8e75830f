//! A process that has never called the library, forked off before anything else happens. It answers the question
//! "what does this client observe when it runs alone?" each time in a fresh copy of itself.
use crate::chooser::Stream;
use std::fs::File;
use std::io::{Read, Write};
use std::os::fd::FromRawFd;
use std::sync::Mutex;

pub struct Ask {
    pub prop: usize,
    pub client: usize,
    pub armed: bool,
    pub kills: Vec<u64>,
    pub streams: Vec<Stream>,
}
pub struct Answer {
    pub log: Vec<(u8, u64)>,
    /// stopped by a panic of the library
    pub stopped: bool,
}

static PIPES: Mutex<Option<(File, File)>> = Mutex::new(None);

fn put(v: &mut Vec<u8>, n: u64) {
    v.extend_from_slice(&n.to_le_bytes());
}
fn get(f: &mut impl Read) -> Option<u64> {
    let mut b = [0u8; 8];
    f.read_exact(&mut b).ok()?;
    Some(u64::from_le_bytes(b))
}

/// Must be the first thing the process does. `serve` runs in the copy.
pub fn start(serve: fn(Ask) -> Answer) {
    unsafe {
        let (mut a, mut b) = ([0i32; 2], [0i32; 2]);
        assert!(libc::pipe(a.as_mut_ptr()) == 0 && libc::pipe(b.as_mut_ptr()) == 0, "harness: pipe");
        let pid = libc::fork();
        assert!(pid >= 0, "harness: fork");
        if pid == 0 {
            libc::close(a[1]);
            libc::close(b[0]);
            // goes when its parent goes: the pipe ends
            let mut from = File::from_raw_fd(a[0]);
            let to = b[1];
            loop {
                let Some(ask) = read_ask(&mut from) else { libc::_exit(0) };
                let mut p = [0i32; 2];
                assert!(libc::pipe(p.as_mut_ptr()) == 0, "harness: pipe");
                let kid = libc::fork();
                assert!(kid >= 0, "harness: fork");
                if kid == 0 {
                    libc::close(p[0]);
                    // crash reports of this copy are not the worker's
                    let null = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
                    libc::dup2(null, 1);
                    libc::dup2(null, 2);
                    let r = serve(ask);
                    let mut v = Vec::new();
                    put(&mut v, r.stopped as u64);
                    for (o, d) in &r.log {
                        put(&mut v, *o as u64);
                        put(&mut v, *d);
                    }
                    let _ = File::from_raw_fd(p[1]).write_all(&v);
                    libc::_exit(0);
                }
                libc::close(p[1]);
                let mut v = Vec::new();
                let _ = File::from_raw_fd(p[0]).read_to_end(&mut v);
                let mut st = 0;
                libc::waitpid(kid, &mut st, 0);
                let mut out = Vec::new();
                put(&mut out, v.len() as u64);
                out.extend(v);
                let mut w = std::mem::ManuallyDrop::new(File::from_raw_fd(to));
                if w.write_all(&out).is_err() {
                    libc::_exit(0);
                }
            }
        }
        libc::close(a[0]);
        libc::close(b[1]);
        *PIPES.lock().unwrap() = Some((File::from_raw_fd(a[1]), File::from_raw_fd(b[0])));
    }
}

fn read_ask(f: &mut File) -> Option<Ask> {
    let prop = get(f)? as usize;
    let client = get(f)? as usize;
    let armed = get(f)? == 1;
    let n = get(f)?;
    let kills = (0..n).map(|_| get(f)).collect::<Option<Vec<_>>>()?;
    let n = get(f)?;
    let mut streams = Vec::new();
    for _ in 0..n {
        let len = get(f)? as usize;
        let mut b = vec![0u8; len];
        f.read_exact(&mut b).ok()?;
        streams.push(Stream::unpack(&b));
    }
    Some(Ask { prop, client, armed, kills, streams })
}

/// None: the client did not survive, or there is no zygote.
pub fn ask(a: &Ask) -> Option<Answer> {
    let mut g = PIPES.lock().unwrap();
    let (to, from) = g.as_mut()?;
    let mut v = Vec::new();
    put(&mut v, a.prop as u64);
    put(&mut v, a.client as u64);
    put(&mut v, a.armed as u64);
    put(&mut v, a.kills.len() as u64);
    for k in &a.kills {
        put(&mut v, *k);
    }
    put(&mut v, a.streams.len() as u64);
    for s in &a.streams {
        let b = s.pack();
        put(&mut v, b.len() as u64);
        v.extend(b);
    }
    to.write_all(&v).ok()?;
    let n = get(from)?;
    let mut b = vec![0u8; n as usize];
    from.read_exact(&mut b).ok()?;
    if n == 0 {
        return None;
    }
    let mut r = &b[..];
    let stopped = get(&mut r)? == 1;
    let mut log = Vec::new();
    while let Some(o) = get(&mut r) {
        log.push((o as u8, get(&mut r)?));
    }
    Some(Answer { log, stopped })
}
