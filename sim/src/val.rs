//! Canonical form of what the library reports, used by the reference model and by the projection of the
//! library's values alike, and the comparison of the two.
use std::fmt;

#[derive(Clone, PartialEq, Eq)]
pub enum V {
    /// absent
    N,
    U(u64),
    /// text taken from the captured buffer
    T(String),
    /// name of a code
    C(String),
    /// list of records
    L(Vec<V>),
    /// record
    R(Vec<V>),
    Bytes(Vec<u8>),
}

impl fmt::Debug for V {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            V::N => write!(f, "absent"),
            V::U(u) => write!(f, "{u}"),
            V::T(t) if t.len() > 60 => write!(f, "{:?}..[{} bytes]", t.chars().take(30).collect::<String>(), t.len()),
            V::T(t) => write!(f, "{t:?}"),
            V::C(c) => write!(f, "{c}"),
            V::L(l) if l.len() > 8 => write!(f, "[{} items, first {:?}]", l.len(), l[0]),
            V::L(l) => f.debug_list().entries(l).finish(),
            V::R(r) => {
                write!(f, "(")?;
                for x in r {
                    write!(f, "{x:?} ")?;
                }
                write!(f, ")")
            }
            V::Bytes(b) => write!(f, "bytes[{}]{:02x?}", b.len(), &b[..b.len().min(16)]),
        }
    }
}

pub type Field = (&'static str, V);
pub type Fields = Vec<Field>;

pub fn u(v: impl Into<u64>) -> V {
    V::U(v.into())
}
pub fn ou<T: Into<u64>>(v: Option<T>) -> V {
    v.map_or(V::N, |x| V::U(x.into()))
}
pub fn b(v: bool) -> V {
    V::U(v as u64)
}

/// What differs between an expected and a reported value.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Diff {
    /// reported although the structure does not provide it
    Invented,
    /// a text differs
    Text,
    /// a list inside the structure differs
    List,
    Value,
}

fn has_text(v: &V) -> bool {
    match v {
        V::T(_) => true,
        V::L(l) | V::R(l) => l.iter().any(has_text),
        _ => false,
    }
}

pub fn diff_kind(exp: &V, got: &V) -> Diff {
    match (exp, got) {
        (V::N, _) => Diff::Invented,
        (V::L(_), _) | (_, V::L(_)) => Diff::List,
        (e, g) if has_text(e) || has_text(g) => Diff::Text,
        _ => Diff::Value,
    }
}

pub fn fnv(h: u64, bytes: &[u8]) -> u64 {
    let mut h = h;
    for b in bytes {
        h = (h ^ *b as u64).wrapping_mul(0x100_0000_01b3);
    }
    h
}
pub const FNV0: u64 = 0xcbf2_9ce4_8422_2325;

impl V {
    pub fn digest(&self, h: u64) -> u64 {
        match self {
            V::N => fnv(h, &[1]),
            V::U(x) => fnv(fnv(h, &[2]), &x.to_le_bytes()),
            V::T(t) => fnv(fnv(fnv(h, &[3]), t.as_bytes()), &[0]),
            V::C(t) => fnv(fnv(fnv(h, &[4]), t.as_bytes()), &[0]),
            V::L(l) => l.iter().fold(fnv(fnv(h, &[5]), &(l.len() as u32).to_le_bytes()), |h, x| x.digest(h)),
            V::R(l) => l.iter().fold(fnv(fnv(h, &[6]), &(l.len() as u32).to_le_bytes()), |h, x| x.digest(h)),
            V::Bytes(b) => fnv(fnv(fnv(h, &[7]), &(b.len() as u32).to_le_bytes()), b),
        }
    }
}
