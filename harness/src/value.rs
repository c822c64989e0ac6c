//! The neutral value tree in which results and expectations are compared.

#[derive(Clone, Debug, PartialEq)]
pub enum V {
    /// Absent.
    N,
    /// An integer of any width, or the raw bits of a flag set, name or fixed-point number.
    I(i64),
    /// A tag.
    T([u8; 4]),
    /// Raw bytes.
    B(Vec<u8>),
    /// A list.
    L(Vec<V>),
    /// A structure.
    S(Vec<(&'static str, V)>),
    /// A variant of an enumeration.
    E(&'static str, Box<V>),
    /// An offset yet to be laid out (generation only): from the start of a node to another.
    Off(usize, usize),
}

#[macro_export]
macro_rules! st {
    ($($name:literal: $value:expr),* $(,)?) => ($crate::value::V::S(vec![$(($name, $value)),*]));
}

impl V {
    pub fn e(name: &'static str, value: V) -> V {
        V::E(name, Box::new(value))
    }

    /// Digest of the content.
    pub fn digest(&self) -> u64 {
        use crate::rng::mix;
        match self {
            V::N => 1,
            V::I(i) => mix(2 ^ mix(*i as u64)),
            V::T(t) => mix(3 ^ mix(u32::from_be_bytes(*t) as u64)),
            V::B(b) => mix(4 ^ crate::rng::hash(b)),
            V::L(l) => l.iter().fold(mix(5 ^ l.len() as u64), |h, v| mix(h ^ v.digest())),
            V::S(s) => s.iter().fold(6, |h, (n, v)| {
                mix(mix(h ^ crate::rng::hash(n.as_bytes())) ^ v.digest())
            }),
            V::E(n, v) => mix(mix(7 ^ crate::rng::hash(n.as_bytes())) ^ v.digest()),
            V::Off(..) => unreachable!(),
        }
    }

    /// Number of leaves.
    pub fn leaves(&self) -> u64 {
        match self {
            V::L(l) => l.iter().map(V::leaves).sum(),
            V::S(s) => s.iter().map(|(_, v)| v.leaves()).sum(),
            V::E(_, v) => v.leaves(),
            V::B(b) => b.len() as u64,
            _ => 1,
        }
    }

    /// Which lists in it are longer than a number, by where they are.
    pub fn long_lists(&self, least: usize) -> std::collections::BTreeSet<String> {
        fn go(v: &V, of: &'static str, path: &str, least: usize, out: &mut std::collections::BTreeSet<String>) {
            match v {
                V::L(l) => {
                    if l.len() > least {
                        out.insert(format!("{of}{path}"));
                    }
                    l.iter().for_each(|v| go(v, of, path, least, out));
                }
                V::S(s) => {
                    for (name, v) in s.iter().filter(|(_, v)| !matches!(v, V::I(_) | V::N)) {
                        go(v, of, &format!("{path}.{name}"), least, out);
                    }
                }
                V::E(name, v) => go(v, name, "", least, out),
                _ => {}
            }
        }
        let mut out = Default::default();
        go(self, "", "", least, &mut out);
        out
    }

    /// Whether a list of structures in it is longer than a number.
    pub fn has_long_list(&self, least: usize) -> bool {
        match self {
            V::L(l) => {
                l.len() > least && l.iter().any(|v| !matches!(v, V::I(_) | V::N))
                    || l.iter().any(|v| v.has_long_list(least))
            }
            V::S(s) => s.iter().any(|(_, v)| v.has_long_list(least)),
            V::E(_, v) => v.has_long_list(least),
            _ => false,
        }
    }

    /// Whether there is nothing in it.
    pub fn is_blank(&self) -> bool {
        match self {
            V::N => true,
            V::I(i) => *i == 0,
            V::T(t) => *t == [0; 4],
            V::B(b) => b.is_empty(),
            V::L(l) => l.is_empty(),
            V::S(s) => s.iter().all(|(_, v)| v.is_blank()),
            V::E(_, v) => v.is_blank(),
            V::Off(..) => unreachable!(),
        }
    }

    /// The same content with everything that reports a physical offset blanked.
    pub fn without_offsets(&self) -> V {
        match self {
            V::L(l) => V::L(l.iter().map(V::without_offsets).collect()),
            V::S(s) => V::S(
                s.iter()
                    .map(|(n, v)| {
                        if is_offset(n) {
                            (*n, blank(v))
                        } else {
                            (*n, v.without_offsets())
                        }
                    })
                    .collect(),
            ),
            V::E(n, v) => V::e(n, v.without_offsets()),
            v => v.clone(),
        }
    }
}

fn is_offset(name: &str) -> bool {
    // The target of an extension is content (it is not followed), named `offset!`.
    name == "offset" || name == "offsets" || name.ends_with("_offset") || name.ends_with("_offsets")
}

fn blank(v: &V) -> V {
    match v {
        V::I(0) | V::N => v.clone(),
        V::I(_) => V::I(1),
        V::L(l) => V::L(l.iter().map(blank).collect()),
        v => v.clone(),
    }
}

/// The first difference, as a path.
pub fn diff(expected: &V, actual: &V) -> Option<String> {
    fn short(v: &V) -> String {
        let mut s = format!("{v:?}");
        if s.len() > 120 {
            let mut n = 120;
            while !s.is_char_boundary(n) {
                n -= 1;
            }
            s.truncate(n);
            s.push_str("...");
        }
        s
    }
    fn go(path: &mut String, a: &V, b: &V) -> Option<String> {
        match (a, b) {
            (V::L(x), V::L(y)) => {
                let n = path.len();
                for (i, (p, q)) in x.iter().zip(y).enumerate() {
                    path.push_str(&format!("[{i}]"));
                    if let Some(d) = go(path, p, q) {
                        return Some(d);
                    }
                    path.truncate(n);
                }
                if x.len() != y.len() {
                    return Some(format!("{path}: expected {} items, got {}", x.len(), y.len()));
                }
                None
            }
            (V::S(x), V::S(y)) if x.len() == y.len() => {
                let n = path.len();
                for ((name, p), (other, q)) in x.iter().zip(y) {
                    path.push('.');
                    path.push_str(name);
                    if name != other {
                        return Some(format!("{path}: field {other}"));
                    }
                    if let Some(d) = go(path, p, q) {
                        return Some(d);
                    }
                    path.truncate(n);
                }
                None
            }
            (V::E(x, p), V::E(y, q)) if x == y => {
                let n = path.len();
                path.push(':');
                path.push_str(x);
                let d = go(path, p, q);
                path.truncate(n);
                d
            }
            (a, b) if a == b => None,
            (a, b) => Some(format!("{path}: expected {}, got {}", short(a), short(b))),
        }
    }
    if expected == actual {
        return None;
    }
    go(&mut String::new(), expected, actual)
}

impl V {
    /// Only what is present and what is absent.
    pub fn presence(&self) -> V {
        match self {
            V::N => V::N,
            V::L(l) => V::L(l.iter().map(V::presence).collect()),
            V::S(s) => V::S(
                s.iter()
                    .filter(|(n, _)| !is_offset(n))
                    .map(|(n, v)| (*n, v.presence()))
                    .collect(),
            ),
            V::E(n, v) => V::e(n, v.presence()),
            _ => V::I(1),
        }
    }
}
