//! Every random decision of a run comes from here: independent, recorded, replayable streams, all derived
//! from one integer. On replay a stream returns the recorded values; once exhausted it returns 0, which every
//! call site arranges to mean "the plain choice" (no fault, first client, shortest input).

pub const S_CONF: usize = 0; // run configuration
pub const S_IMG: usize = 1; // what the firmware publishes
pub const S_FAULT: usize = 2; // what the medium does to it
pub const S_SCHED: usize = 3; // which client runs next, crashes, restarts
pub const S_CLIENT: usize = 4; // one stream per client: which calls it makes
pub const MAX_CLIENTS: usize = 4;
pub const N_STREAMS: usize = S_CLIENT + MAX_CLIENTS;

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

#[derive(Clone)]
pub struct Stream {
    state: u64,
    pub rec: Vec<u32>,
    replay: Option<Vec<u32>>,
    pos: usize,
}

impl Stream {
    fn from_seed(seed: u64) -> Self {
        Stream { state: seed, rec: Vec::new(), replay: None, pos: 0 }
    }
    fn from_record(rec: Vec<u32>) -> Self {
        Stream { state: 0, rec: Vec::new(), replay: Some(rec), pos: 0 }
    }
    /// As handed to a run, before any decision was taken.
    pub fn pack(&self) -> Vec<u8> {
        let mut v = self.state.to_le_bytes().to_vec();
        v.push(self.replay.is_some() as u8);
        for x in self.replay.iter().flatten() {
            v.extend_from_slice(&x.to_le_bytes());
        }
        v
    }
    pub fn unpack(b: &[u8]) -> Self {
        let mut st = [0u8; 8];
        st.copy_from_slice(&b[..8]);
        if b[8] == 0 {
            return Stream::from_seed(u64::from_le_bytes(st));
        }
        Stream::from_record(b[9..].chunks_exact(4).map(|c| u32::from_le_bytes([c[0], c[1], c[2], c[3]])).collect())
    }
    /// A stream that always takes the plain choice.
    pub fn plain() -> Self {
        Stream::from_record(Vec::new())
    }
    fn raw(&mut self) -> u32 {
        let v = match &self.replay {
            Some(r) => r.get(self.pos).copied().unwrap_or(0),
            None => {
                self.state = self.state.wrapping_add(0x9E37_79B9_7F4A_7C15);
                (mix(self.state) >> 16) as u32
            }
        };
        self.pos += 1;
        v
    }
    /// A value in 0..n.
    pub fn pick(&mut self, n: u32) -> u32 {
        debug_assert!(n > 0);
        let v = self.raw();
        let v = if self.replay.is_some() { v % n } else { ((v as u64 * n as u64) >> 32) as u32 };
        self.rec.push(v);
        v
    }
    /// True with probability p percent; false once a replayed stream is exhausted.
    pub fn chance(&mut self, p: u32) -> bool {
        self.pick(100) >= 100 - p
    }
    pub fn range(&mut self, lo: u32, hi: u32) -> u32 {
        lo + self.pick(hi - lo + 1)
    }
    /// Index into a weight table; index 0 once exhausted.
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let total: u32 = w.iter().sum();
        let mut v = self.pick(total.max(1));
        for (i, x) in w.iter().enumerate() {
            if v < *x {
                return i;
            }
            v -= x;
        }
        0
    }
    pub fn of<'a, T>(&mut self, items: &'a [T]) -> &'a T {
        &items[self.pick(items.len() as u32) as usize]
    }
    /// One recorded choice expanded to many bytes, so that records stay short.
    pub fn noise(&mut self) -> Noise {
        Noise(mix(self.pick(u32::MAX) as u64))
    }
}

/// Bytes derived from a single recorded choice.
pub struct Noise(u64);
impl Noise {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        mix(self.0)
    }
    pub fn below(&mut self, n: u32) -> u32 {
        (((self.next() >> 32) * n as u64) >> 32) as u32
    }
}

pub fn streams_from_seed(seed: u64) -> Vec<Stream> {
    (0..N_STREAMS).map(|i| Stream::from_seed(mix(seed ^ mix(0x5151 + i as u64)))).collect()
}
pub fn streams_from_records(recs: Vec<Vec<u32>>) -> Vec<Stream> {
    let mut v: Vec<Stream> = recs.into_iter().map(Stream::from_record).collect();
    while v.len() < N_STREAMS {
        v.push(Stream::from_record(Vec::new()));
    }
    v
}
