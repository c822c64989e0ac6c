//! The OpenType structures, each written once, from the specification.
//!
//! Every function below serves two purposes. In generation it writes a random well-formed
//! structure into a graph of nodes and returns the value that a reader must report. In decoding it
//! is a plain reference decoder over a slice. The two are checked against each other in every case.

use std::collections::HashMap;

use crate::rng::Rng;
use crate::st;
use crate::value::V;

/// Why a decoding ended without a value.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Rej {
    /// Bytes are missing.
    Eof,
    /// Malformed.
    Bad,
    /// Too expensive to decide.
    Fuel,
}

pub type R<T> = Result<T, Rej>;

/// The configuration under which a table is judged.
#[derive(Clone, Copy, Debug, Default)]
pub struct Lens {
    /// Missing lists of a layout directory are empty.
    pub dirs: bool,
    /// Missing anchors of marks are empty.
    pub marks: bool,
}

impl Lens {
    /// The configuration the harness was built with.
    pub fn built() -> Lens {
        Lens {
            dirs: cfg!(feature = "ignore-incomplete-directories"),
            marks: cfg!(feature = "ignore-incomplete-marks"),
        }
    }
}

#[derive(Clone, Default)]
pub struct Node {
    pub buf: Vec<u8>,
    /// Position, width and target.
    pub links: Vec<(usize, usize, usize)>,
    /// Fields whose values decide well-formedness.
    pub sites: Vec<(usize, usize)>,
    /// Positions of optional links.
    pub nulls: Vec<(usize, usize)>,
    /// Content that is never read.
    pub opaque: bool,
}

/// The size of a value up to which structures are shared freely.
const LEAVES: u64 = 200_000;

/// How a case is generated.
#[derive(Clone, Copy, Debug)]
pub struct Style {
    /// Approximate number of bytes to produce.
    pub budget: i64,
    /// Chance of leaving an optional part out, in percent.
    pub null: u64,
    /// Chance of reusing a structure of the same sort, in percent.
    pub share: u64,
    /// Chance of a large count, in permille.
    pub large: u64,
    /// Which count is made large in any case.
    pub force: u64,
    /// Which sort of count is given what value the first time it is needed.
    pub given: Option<(u32, u16)>,
}

/// No count.
pub const UNFORCED: u64 = u64::MAX;

impl Style {
    pub fn random(rng: &mut Rng) -> Style {
        if crate::run::small() {
            // The interpreter is slow.
            return Style {
                budget: rng.range(10, 160) as i64,
                null: *rng.pick(&[0, 20, 50]),
                share: *rng.pick(&[0, 10, 30]),
                large: 0,
                force: UNFORCED,
                given: None,
            };
        }
        Style {
            budget: match rng.below(20) {
                0..=5 => rng.range(20, 200) as i64,
                6..=14 => rng.range(200, 1500) as i64,
                15..=18 => rng.range(1500, 6000) as i64,
                _ => rng.range(6000, 40000) as i64,
            },
            null: *rng.pick(&[0, 20, 50, 50, 80, 100]),
            share: *rng.pick(&[0, 0, 10, 30, 60]),
            large: *rng.pick(&[0, 0, 2, 10, 50]),
            force: if rng.chance(6) { rng.below(12) } else { UNFORCED },
            given: None,
        }
    }
}

pub struct Gen {
    pub rng: Rng,
    pub style: Style,
    pub nodes: Vec<Node>,
    stack: Vec<usize>,
    done: HashMap<String, Vec<(usize, V, u64)>>,
    /// Size of the value so far.
    leaves: u64,
    /// Number of large counts so far.
    larges: u64,
    /// Number of counts so far.
    counts: u64,
    /// The sorts of counts so far.
    pub sorts: Vec<u32>,
}

pub struct Dec<'a> {
    data: &'a [u8],
    base: u64,
    pos: u64,
    pub fuel: u64,
    /// How many more elements without bytes of their own are put up with.
    empties: u64,
    /// Whether to go on with the rest when what an offset leads to is wrong.
    tolerant: bool,
}

enum Mode<'a> {
    Gen(Gen),
    Dec(Dec<'a>),
}

pub struct C<'a> {
    mode: Mode<'a>,
    lens: Lens,
    /// Something was met on which the specification is silent.
    pub taint: bool,
}

#[derive(Clone)]
enum Null {
    /// Must not be null.
    Never,
    /// May be null.
    Maybe,
    /// Must not be null unless the configuration says otherwise.
    List(V),
    Mark(V),
}

fn i(x: impl Into<i64>) -> V {
    V::I(x.into())
}

impl<'a> C<'a> {
    fn raw(&mut self, width: usize, critical: bool, make: impl FnOnce(&mut Gen) -> u64) -> R<u64> {
        match &mut self.mode {
            Mode::Gen(g) => {
                let x = make(g);
                let node = *g.stack.last().unwrap();
                let node = &mut g.nodes[node];
                if critical {
                    node.sites.push((node.buf.len(), width));
                }
                node.buf.extend_from_slice(&x.to_be_bytes()[8 - width..]);
                g.style.budget -= width as i64;
                Ok(x)
            }
            Mode::Dec(d) => {
                d.burn(1)?;
                let end = d.pos.checked_add(width as u64).ok_or(Rej::Eof)?;
                if end > d.data.len() as u64 {
                    return Err(Rej::Eof);
                }
                let mut x = 0;
                for b in &d.data[d.pos as usize..end as usize] {
                    x = x << 8 | *b as u64;
                }
                d.pos = end;
                Ok(x)
            }
        }
    }

    fn generating(&mut self) -> Option<&mut Gen> {
        match &mut self.mode {
            Mode::Gen(g) => Some(g),
            _ => None,
        }
    }

    fn burn(&mut self, n: u64) -> R<()> {
        match &mut self.mode {
            Mode::Dec(d) => d.burn(n),
            _ => Ok(()),
        }
    }

    fn u8(&mut self) -> R<u8> {
        Ok(self.raw(1, false, |g| g.rng.next() & 0xFF)? as u8)
    }

    fn u16(&mut self) -> R<u16> {
        Ok(self.raw(2, false, |g| g.rng.u16() as u64)? as u16)
    }

    fn i16(&mut self) -> R<i16> {
        Ok(self.u16()? as i16)
    }

    fn u32(&mut self) -> R<u32> {
        Ok(self.raw(4, false, |g| g.rng.u32() as u64)? as u32)
    }

    /// A value given in generation.
    fn put16(&mut self, x: u16, critical: bool) -> R<u16> {
        Ok(self.raw(2, critical, |_| x as u64)? as u16)
    }

    /// One of a set.
    fn pick16(&mut self, allowed: &[u16]) -> R<u16> {
        let x = self.raw(2, true, |g| *g.rng.pick(allowed) as u64)? as u16;
        if allowed.contains(&x) {
            Ok(x)
        } else {
            Err(Rej::Bad)
        }
    }

    /// A set of flags.
    fn flags16(&mut self, reserved: u16) -> R<u16> {
        let x = self.raw(2, true, |g| (g.rng.next() as u16 & !reserved) as u64)? as u16;
        if x & reserved == 0 {
            Ok(x)
        } else {
            Err(Rej::Bad)
        }
    }

    fn tag(&mut self) -> R<V> {
        let x = self.raw(4, false, |g| crate::tags::random(&mut g.rng) as u64)? as u32;
        Ok(V::T(x.to_be_bytes()))
    }

    /// A number of items, each taking the given number of bytes.
    #[track_caller]
    fn count(&mut self, size: usize) -> R<u16> {
        let sort = std::panic::Location::caller().line();
        Ok(self.raw(2, false, |g| g.count_of(sort, size, 0) as u64)? as u16)
    }

    /// A number that implies at least one item.
    #[track_caller]
    fn count1(&mut self, size: usize) -> R<u16> {
        let sort = std::panic::Location::caller().line();
        let x = self.raw(2, true, |g| g.count_of(sort, size, 1) as u64)? as u16;
        if x == 0 {
            return Err(Rej::Bad);
        }
        Ok(x)
    }

    fn list(&mut self, n: usize, mut f: impl FnMut(&mut Self) -> R<V>) -> R<V> {
        let mut l = Vec::with_capacity(n.min(1 << 16));
        for _ in 0..n {
            self.burn(1)?;
            let before = self.whereabouts();
            l.push(f(self)?);
            if before.is_some() && before == self.whereabouts() {
                let Mode::Dec(d) = &mut self.mode else { unreachable!() };
                d.empties = d.empties.checked_sub(1).ok_or(Rej::Fuel)?;
            }
        }
        Ok(V::L(l))
    }

    /// A word at a distance from here when decoding under a limit.
    fn ahead(&self, distance: u64) -> Option<u64> {
        match &self.mode {
            Mode::Dec(d) if d.fuel <= u64::MAX / 2 => {
                let k = d.pos.checked_add(distance)? as usize;
                let b = d.data.get(k..k.checked_add(2)?)?;
                Some((b[0] as u64) << 8 | b[1] as u64)
            }
            _ => None,
        }
    }

    fn whereabouts(&self) -> Option<u64> {
        match &self.mode {
            Mode::Dec(d) => Some(d.pos),
            _ => None,
        }
    }

    fn u16s(&mut self, n: usize) -> R<V> {
        self.list(n, |c| Ok(i(c.u16()?)))
    }

    /// Continue at a distance from the start of the structure.
    fn seek(&mut self, to: u64) {
        match &mut self.mode {
            Mode::Gen(g) => {
                let node = *g.stack.last().unwrap();
                assert!(g.nodes[node].buf.len() as u64 <= to);
                while (g.nodes[node].buf.len() as u64) < to {
                    let b = g.rng.next() as u8;
                    g.nodes[node].buf.push(b);
                }
            }
            Mode::Dec(d) => d.pos = d.base + to,
        }
    }

    /// An offset to a structure, which is reported along with the structure.
    fn link(
        &mut self,
        width: usize,
        null: Null,
        key: &str,
        mut f: impl FnMut(&mut Self) -> R<V>,
    ) -> R<(V, V)> {
        let lens = self.lens;
        let never = matches!(null, Null::Never);
        let (allowed, default) = match null {
            Null::Never => (false, V::N),
            Null::Maybe => (true, V::N),
            Null::List(v) => (lens.dirs, v),
            Null::Mark(v) => (lens.marks, v),
        };
        if let Mode::Gen(g) = &mut self.mode {
            let parent = *g.stack.last().unwrap();
            let at = g.nodes[parent].buf.len();
            if allowed {
                g.nodes[parent].nulls.push((at, width));
            }
            g.style.budget -= width as i64;
            g.nodes[parent].buf.extend(std::iter::repeat(0).take(width));
            if allowed && (g.style.budget <= 0 || g.rng.chance(g.style.null)) {
                return Ok((V::I(0), default));
            }
            let reuse = if g.style.budget <= 0 { 95 } else { g.style.share };
            if g.rng.chance(reuse) {
                if let Some(done) = g.done.get(key).filter(|done| !done.is_empty()) {
                    let k = if g.leaves > LEAVES / 4 {
                        (0..done.len()).min_by_key(|&k| done[k].2).unwrap()
                    } else {
                        g.rng.below(done.len() as u64) as usize
                    };
                    // The value is to stay small even if the bytes are shared.
                    if g.leaves + done[k].2 <= LEAVES {
                        let (child, v, leaves) = done[k].clone();
                        g.leaves += leaves;
                        g.nodes[parent].links.push((at, width, child));
                        return Ok((V::Off(parent, child), v));
                    }
                }
            }
            let child = g.nodes.len();
            g.nodes.push(Node::default());
            g.nodes[parent].links.push((at, width, child));
            g.stack.push(child);
            let v = f(self)?;
            let Mode::Gen(g) = &mut self.mode else { unreachable!() };
            g.stack.pop();
            // Large structures are not worth being copied around.
            if g.style.share > 0 || g.style.budget <= 0 {
                let leaves = v.leaves();
                g.done.entry(key.into()).or_default().push((child, v.clone(), leaves));
            }
            return Ok((V::Off(parent, child), v));
        }
        let offset = self.raw(width, false, |_| unreachable!())?;
        if offset == 0 {
            if allowed {
                return Ok((V::I(0), default));
            }
            if !never {
                let Mode::Dec(d) = &self.mode else { unreachable!() };
                return if d.tolerant { Ok((V::N, V::N)) } else { Err(Rej::Bad) };
            }
            self.taint = true;
        }
        let Mode::Dec(d) = &mut self.mode else { unreachable!() };
        let (base, pos) = (d.base, d.pos);
        d.base = base + offset;
        d.pos = d.base;
        let v = f(self);
        let Mode::Dec(d) = &mut self.mode else { unreachable!() };
        (d.base, d.pos) = (base, pos);
        let v = match v {
            Err(Rej::Bad | Rej::Eof) if d.tolerant => V::N,
            v => v?,
        };
        Ok((V::I(offset as i64), v))
    }

    /// A number of offsets to structures.
    fn links(
        &mut self,
        n: usize,
        width: usize,
        null: bool,
        key: &str,
        mut f: impl FnMut(&mut Self) -> R<V>,
    ) -> R<(V, V)> {
        let (mut offsets, mut values) = (vec![], vec![]);
        for _ in 0..n {
            self.burn(1)?;
            let null = if null { Null::Maybe } else { Null::Never };
            let (o, v) = self.link(width, null, key, &mut f)?;
            offsets.push(o);
            values.push(v);
        }
        Ok((V::L(offsets), V::L(values)))
    }

    /// An offset that is reported but not followed.
    fn soft(&mut self, width: usize) -> R<V> {
        if self.generating().is_none() {
            return Ok(V::I(self.raw(width, false, |_| unreachable!())? as i64));
        }
        Ok(self
            .link(width, Null::Maybe, "soft", |c| {
                let g = c.generating().unwrap();
                let n = g.rng.below(9);
                let node = *g.stack.last().unwrap();
                g.nodes[node].opaque = true;
                for _ in 0..n {
                    c.u8()?;
                }
                Ok(V::N)
            })?
            .0)
    }
}

impl Gen {
    #[track_caller]
    fn count(&mut self, size: usize, least: u64) -> u16 {
        self.count_of(std::panic::Location::caller().line(), size, least)
    }

    /// A count of a sort, which is where in the specification it appears.
    fn count_of(&mut self, sort: u32, size: usize, least: u64) -> u16 {
        if !self.sorts.contains(&sort) {
            self.sorts.push(sort);
        }
        if let Some((given, n)) = self.style.given {
            if given == sort {
                self.style.given = None;
                self.larges += 2;
                return (n as u64).min(if size == 0 { 20 } else { 200_000 / size as u64 }).max(least) as u16;
            }
        }
        let room = (self.style.budget.max(0) as u64) / size.max(1) as u64;
        let forced = self.counts == self.style.force;
        self.counts += 1;
        let n = if forced || self.larges < 2 && self.rng.below(1000) < self.style.large {
            // The budget is exceeded on purpose.
            self.larges += 1;
            let n = *self.rng.pick(&[
                255, 256, 257, 300, 511, 513, 1000, 4095, 4097, 10000, 32767, 32769, 65535,
            ]);
            n.min(match size {
                0 => 20,
                1..=8 => 140_000 / size as u64,
                _ => 35_000 / size as u64,
            })
        } else {
            let n = match self.rng.below(100) {
                0..=9 => 0,
                10..=34 => 1,
                35..=79 => self.rng.range(2, 4),
                80..=95 => self.rng.range(5, 20),
                _ => self.rng.range(20, 90),
            };
            n.min(room).min(if size == 0 { 20 } else { u64::MAX })
        };
        n.max(least) as u16
    }
}

impl Dec<'_> {
    fn burn(&mut self, n: u64) -> R<()> {
        if self.fuel < n {
            self.fuel = 0;
            return Err(Rej::Fuel);
        }
        self.fuel -= n;
        Ok(())
    }
}

/// A structure that can be read on its own.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Kind {
    Gsub,
    Gpos,
    Gdef,
    Cpal,
    Fvar,
    Scripts,
    Script,
    LangSys,
    Features,
    Feature,
    SubLookups,
    PosLookups,
    Context,
    Chained,
    Coverage,
    Class,
    Correction,
    Store,
    StoreRecord,
    Attachments,
    CaretLigatures,
    Caret,
    MarkSets,
    Anchor,
    Mark1s,
    Sub(u16),
    Pos(u16),
    Bases(u16),
    PosLigatures(u16),
    Mark2s(u16),
    Pair1s(u16, u16),
    Single(u16),
}

impl Kind {
    /// A number and parameters.
    pub fn code(self) -> (u16, u16, u16) {
        match self {
            Kind::Bases(n) => (100, n, 0),
            Kind::PosLigatures(n) => (101, n, 0),
            Kind::Mark2s(n) => (102, n, 0),
            Kind::Pair1s(a, b) => (103, a, b),
            Kind::Single(f) => (104, f, 0),
            _ => (KINDS.iter().position(|k| *k == self).expect("a kind") as u16, 0, 0),
        }
    }

    pub fn from_code(code: u16, a: u16, b: u16) -> Kind {
        match code {
            100 => Kind::Bases(a),
            101 => Kind::PosLigatures(a),
            102 => Kind::Mark2s(a),
            103 => Kind::Pair1s(a, b),
            104 => Kind::Single(a),
            _ => KINDS[code as usize],
        }
    }

    pub fn spec(self, c: &mut C) -> R<V> {
        match self {
            Kind::Gsub => directory(c, sub_lookups),
            Kind::Gpos => directory(c, pos_lookups),
            Kind::Gdef => gdef(c),
            Kind::Cpal => cpal(c),
            Kind::Fvar => fvar(c),
            Kind::Scripts => scripts(c),
            Kind::Script => script(c),
            Kind::LangSys => langsys(c),
            Kind::Features => features(c),
            Kind::Feature => feature(c),
            Kind::SubLookups => sub_lookups(c),
            Kind::PosLookups => pos_lookups(c),
            Kind::Context => context(c),
            Kind::Chained => chained(c),
            Kind::Coverage => coverage(c),
            Kind::Class => class(c),
            Kind::Correction => correction(c),
            Kind::Store => store(c),
            Kind::StoreRecord => store_record(c),
            Kind::Attachments => attachments(c),
            Kind::CaretLigatures => caret_ligatures(c),
            Kind::Caret => caret(c),
            Kind::MarkSets => mark_sets(c),
            Kind::Anchor => anchor(c),
            Kind::Mark1s => mark1s(c),
            Kind::Sub(t) => sub(c, t),
            Kind::Pos(t) => pos(c, t),
            Kind::Bases(n) => bases(c, n, "count", "records"),
            Kind::PosLigatures(n) => pos_ligatures(c, n),
            Kind::Mark2s(n) => bases(c, n, "count", "records"),
            Kind::Pair1s(a, b) => pair1s(c, a, b),
            Kind::Single(f) => single(c, f),
        }
    }
}

pub const KINDS: &[Kind] = &[
    Kind::Gsub,
    Kind::Gpos,
    Kind::Gdef,
    Kind::Cpal,
    Kind::Fvar,
    Kind::Scripts,
    Kind::Script,
    Kind::LangSys,
    Kind::Features,
    Kind::Feature,
    Kind::SubLookups,
    Kind::PosLookups,
    Kind::Context,
    Kind::Chained,
    Kind::Coverage,
    Kind::Class,
    Kind::Correction,
    Kind::Store,
    Kind::StoreRecord,
    Kind::Attachments,
    Kind::CaretLigatures,
    Kind::Caret,
    Kind::MarkSets,
    Kind::Anchor,
    Kind::Mark1s,
    Kind::Sub(1),
    Kind::Sub(2),
    Kind::Sub(3),
    Kind::Sub(4),
    Kind::Sub(5),
    Kind::Sub(6),
    Kind::Sub(7),
    Kind::Sub(8),
    Kind::Pos(1),
    Kind::Pos(2),
    Kind::Pos(3),
    Kind::Pos(4),
    Kind::Pos(5),
    Kind::Pos(6),
    Kind::Pos(7),
    Kind::Pos(8),
    Kind::Pos(9),
];

/// Any kind, with random parameters where it has them.
pub fn any_kind(rng: &mut Rng) -> Kind {
    match rng.below(50) {
        0 => Kind::Bases(rng.below(5) as u16),
        1 => Kind::PosLigatures(rng.below(5) as u16),
        2 => Kind::Mark2s(rng.below(5) as u16),
        3 => Kind::Pair1s(rng.below(256) as u16, rng.below(256) as u16),
        4 => Kind::Single(rng.below(256) as u16),
        5..=8 => Kind::Gsub,
        9..=13 => Kind::Gpos,
        14..=17 => Kind::Gdef,
        _ => *rng.pick(KINDS),
    }
}

/// A generated structure before it is laid out.
pub struct Graph {
    pub kind: Kind,
    /// Absent if the graph has been rearranged.
    pub value: Option<V>,
    pub nodes: Vec<Node>,
    /// The sorts of counts in it.
    pub sorts: Vec<u32>,
}

/// A structure laid out.
pub struct Image {
    pub kind: Kind,
    pub bytes: Vec<u8>,
    pub value: V,
    /// Offsets of four bytes, what they are counted from, and where they lead.
    pub long: Vec<(usize, usize, usize)>,
    /// Offsets of two bytes, likewise.
    pub short: Vec<(usize, usize, usize)>,
    /// Fields that decide well-formedness: position and width.
    pub sites: Vec<(usize, usize)>,
    /// Offsets: position and width.
    pub links: Vec<(usize, usize)>,
    /// Optional offsets: position and width.
    pub nulls: Vec<(usize, usize)>,
    /// Starts and ends of blocks.
    pub bounds: Vec<usize>,
}

pub fn generate(kind: Kind, rng: &mut Rng, style: Style, lens: Lens) -> Graph {
    let mut c = C {
        mode: Mode::Gen(Gen {
            rng: rng.clone(),
            style,
            nodes: vec![Node::default()],
            stack: vec![0],
            done: HashMap::new(),
            leaves: 0,
            larges: 0,
            counts: 0,
            sorts: vec![],
        }),
        lens,
        taint: false,
    };
    rng.next();
    let value = kind.spec(&mut c).expect("generation does not fail");
    let Mode::Gen(g) = c.mode else { unreachable!() };
    Graph { kind, value: Some(value), nodes: g.nodes, sorts: g.sorts }
}

/// The outcome of the reference decoder.
pub struct Decoded {
    pub value: R<V>,
    pub taint: bool,
    /// Elementary steps taken.
    pub cost: u64,
}

pub fn decode(kind: Kind, data: &[u8], at: u64, lens: Lens, fuel: u64) -> Decoded {
    follow(kind, data, at, lens, fuel, false)
}

/// How much there is to read, no matter in which order, and even if there is something wrong.
pub fn reach(kind: Kind, data: &[u8], at: u64, lens: Lens, fuel: u64) -> Option<u64> {
    let d = follow(kind, data, at, lens, fuel, true);
    (d.value != Err(Rej::Fuel)).then_some(d.cost)
}

fn follow(kind: Kind, data: &[u8], at: u64, lens: Lens, fuel: u64, tolerant: bool) -> Decoded {
    let empties = if fuel == u64::MAX { fuel } else { 20_000 };
    let mut c = C {
        mode: Mode::Dec(Dec { data, base: at, pos: at, fuel, empties, tolerant }),
        lens,
        taint: false,
    };
    let value = kind.spec(&mut c);
    let Mode::Dec(d) = &c.mode else { unreachable!() };
    Decoded { value, taint: c.taint, cost: fuel - d.fuel }
}

impl Graph {
    /// Give every owner its own copy, up to a number of bytes.
    pub fn unshare(&self, room: usize) -> Option<Graph> {
        fn copy(from: &[Node], k: usize, to: &mut Vec<Node>, room: &mut usize) -> Option<usize> {
            let weight = 16 + from[k].buf.len();
            if *room < weight {
                return None;
            }
            *room -= weight;
            let at = to.len();
            to.push(Node { links: vec![], ..from[k].clone() });
            for &(p, w, child) in &from[k].links {
                let child = copy(from, child, to, room)?;
                to[at].links.push((p, w, child));
            }
            Some(at)
        }
        let mut nodes = vec![];
        copy(&self.nodes, 0, &mut nodes, &mut { room })?;
        Some(Graph { kind: self.kind, value: None, nodes, sorts: vec![] })
    }

    /// Merge equal blocks.
    pub fn merge(&self) -> Graph {
        let n = self.nodes.len();
        // Children are numbered after their parents unless shared, hence the fixed point by depth.
        fn visit(nodes: &[Node], k: usize, class: &mut Vec<Option<usize>>,
                 seen: &mut HashMap<(Vec<u8>, Vec<(usize, usize, usize)>), usize>) -> usize {
            if let Some(c) = class[k] {
                return c;
            }
            let links: Vec<_> = nodes[k]
                .links
                .iter()
                .map(|&(p, w, child)| (p, w, visit(nodes, child, class, seen)))
                .collect();
            let c = *seen.entry((nodes[k].buf.clone(), links)).or_insert(k);
            class[k] = Some(c);
            c
        }
        let mut class = vec![None; n];
        let mut seen = HashMap::new();
        visit(&self.nodes, 0, &mut class, &mut seen);
        let mut nodes = self.nodes.clone();
        for node in &mut nodes {
            for link in &mut node.links {
                if let Some(c) = class[link.2] {
                    link.2 = c;
                }
            }
        }
        Graph { kind: self.kind, value: None, nodes, sorts: vec![] }
    }

    /// Place the blocks in a random order that keeps offsets positive, with random gaps.
    ///
    /// The result is absent if some offset does not fit.
    pub fn layout(&self, rng: &mut Rng, gaps: u64) -> Option<Image> {
        let gaps = if crate::run::small() { 0 } else { gaps };
        let n = self.nodes.len();
        let mut incoming = vec![0usize; n];
        let mut reachable = vec![false; n];
        let mut queue = vec![0];
        reachable[0] = true;
        while let Some(k) = queue.pop() {
            for &(_, _, child) in &self.nodes[k].links {
                incoming[child] += 1;
                if !reachable[child] {
                    reachable[child] = true;
                    queue.push(child);
                }
            }
        }
        let style = rng.below(4);
        let mut left = incoming.clone();
        let mut ready = vec![0];
        let mut big = vec![];
        let mut order = vec![];
        while !ready.is_empty() || !big.is_empty() {
            let k = if ready.is_empty() {
                // Smallest first, so that as many as possible are within reach.
                let k = (0..big.len()).min_by_key(|&j| self.nodes[big[j] as usize].buf.len());
                big.swap_remove(k.unwrap())
            } else {
                let k = match style {
                    0 => 0,
                    1 => ready.len() - 1,
                    _ => rng.below(ready.len() as u64) as usize,
                };
                ready.remove(k)
            };
            order.push(k);
            for &(_, _, child) in &self.nodes[k].links {
                left[child] -= 1;
                if left[child] == 0 {
                    if self.nodes[child].buf.len() > 2000 {
                        big.push(child);
                    } else {
                        ready.push(child);
                    }
                }
            }
        }
        let mut bytes = vec![];
        let mut address = vec![usize::MAX; n];
        let mut bounds = vec![];
        // At most one gap is large.
        let large = if gaps > 0 && rng.chance(4) { rng.below(order.len() as u64) as usize } else { usize::MAX };
        // Some offset takes a value at which something may change.
        let mut stretched = None;
        if gaps > 0 && large == usize::MAX && rng.chance(12) {
            let links: Vec<(usize, usize, usize)> = order
                .iter()
                .flat_map(|&k| self.nodes[k].links.iter().map(move |&(_, w, child)| (k, w, child)))
                .collect();
            if !links.is_empty() {
                let mut link = *rng.pick(&links);
                for _ in 0..4 {
                    if self.nodes[link.2].links.is_empty() {
                        break;
                    }
                    link = *rng.pick(&links);
                }
                let (parent, width, child) = link;
                let distance = match width {
                    2 => *rng.pick(&[0xFF, 0x100, 0x7FFE, 0x7FFF, 0x8000, 0x8001, 0xC000, 0xFFFE, 0xFFFF]),
                    _ => *rng.pick(&[0x100, 0x7FFF, 0x8000, 0xFFFF, 0x10000, 0x10001, 0x18000, 0x2FFFF]),
                };
                if self.nodes[child].links.is_empty() {
                    // Nothing else is pushed away.
                    order.retain(|&k| k != child);
                    order.push(child);
                }
                stretched = Some((parent, child, distance));
            }
        }
        for (j, &k) in order.iter().enumerate() {
            if j > 0 && gaps > 0 {
                let gap = if j == large {
                    *rng.pick(&[200, 256, 1000, 5000, 32000, 33000, 50000, 66000, 140000])
                } else if rng.chance(gaps) {
                    rng.range(1, 9)
                } else {
                    0
                };
                fill(&mut bytes, rng, gap as usize);
            }
            if let Some((parent, child, distance)) = stretched {
                if child == k && address[parent] + distance > bytes.len() {
                    let gap = address[parent] + distance - bytes.len();
                    fill(&mut bytes, rng, gap);
                }
            }
            address[k] = bytes.len();
            bounds.push(bytes.len());
            bytes.extend_from_slice(&self.nodes[k].buf);
            bounds.push(bytes.len());
        }
        let (mut sites, mut links, mut nulls) = (vec![], vec![], vec![]);
        let (mut long, mut short) = (vec![], vec![]);
        for &k in &order {
            let node = &self.nodes[k];
            sites.extend(node.sites.iter().map(|&(p, w)| (address[k] + p, w)));
            nulls.extend(node.nulls.iter().map(|&(p, w)| (address[k] + p, w)));
            for &(p, w, child) in &node.links {
                let delta = address[child] - address[k];
                if delta == 0 || w == 2 && delta > 0xFFFF {
                    return None;
                }
                let at = address[k] + p;
                bytes[at..at + w].copy_from_slice(&(delta as u64).to_be_bytes()[8 - w..]);
                links.push((at, w));
                match w {
                    4 => long.push((at, address[k], address[child])),
                    2 => short.push((at, address[k], address[child])),
                    _ => {}
                }
            }
        }
        bounds.sort();
        bounds.dedup();
        let value = self.value.as_ref().and_then(|value| resolve(value, &address));
        Some(Image {
            kind: self.kind,
            bytes,
            value: value.unwrap_or(V::N),
            sites,
            links,
            long,
            short,
            nulls,
            bounds,
        })
    }
}

fn fill(bytes: &mut Vec<u8>, rng: &mut Rng, n: usize) {
    let end = bytes.len() + n;
    while bytes.len() < end {
        let noise = rng.next().to_be_bytes();
        let n = 8.min(end - bytes.len());
        bytes.extend_from_slice(&noise[..n]);
    }
}

/// Replace the deferred offsets; none if some block is not placed (as in a rearranged graph).
fn resolve(v: &V, address: &[usize]) -> Option<V> {
    Some(match v {
        V::Off(a, b) => {
            let (a, b) = (address.get(*a)?, address.get(*b)?);
            if *a == usize::MAX || *b == usize::MAX {
                return None;
            }
            V::I(*b as i64 - *a as i64)
        }
        V::L(l) => V::L(l.iter().map(|v| resolve(v, address)).collect::<Option<_>>()?),
        V::S(s) => V::S(
            s.iter()
                .map(|(n, v)| Some((*n, resolve(v, address)?)))
                .collect::<Option<_>>()?,
        ),
        V::E(n, v) => V::e(n, resolve(v, address)?),
        v => v.clone(),
    })
}

/// Generate and lay out; the reference decoder confirms the value.
pub fn image(kind: Kind, rng: &mut Rng, lens: Lens) -> Image {
    let style = Style::random(rng);
    image_in_style(kind, rng, lens, style)
}

pub fn image_in_style(kind: Kind, rng: &mut Rng, lens: Lens, mut style: Style) -> Image {
    loop {
        let graph = generate(kind, rng, style, lens);
        for gaps in [20, 0] {
            let gaps = if rng.chance(50) { 0 } else { gaps };
            if let Some(image) = graph.layout(rng, gaps) {
                return image;
            }
        }
        style.budget = style.budget / 2 + 8;
        style.large /= 2;
        style.force = UNFORCED;
        style.given = None;
        if style.budget < 64 {
            style.null = style.null.max(50);
        }
    }
}

// The structures.

fn coverage(c: &mut C) -> R<V> {
    Ok(match c.pick16(&[1, 2])? {
        1 => {
            let n = c.count(2)?;
            let sorted = c.generating().map_or(false, |g| g.rng.chance(50));
            let ids = if sorted {
                let mut last: u16 = 0;
                c.list(n as usize, |c| {
                    last = last.saturating_add(c.generating().unwrap().rng.range(1, 9) as u16);
                    Ok(i(c.put16(last, false)?))
                })?
            } else {
                c.u16s(n as usize)?
            };
            V::e("Format1", st! { "format": i(1), "glyph_count": i(n), "glyph_ids": ids })
        }
        _ => {
            let n = c.count(6)?;
            let records = c.list(n as usize, range)?;
            V::e("Format2", st! { "format": i(2), "record_count": i(n), "records": records })
        }
    })
}

fn range(c: &mut C) -> R<V> {
    Ok(st! {
        "start_glyph_id": i(c.u16()?),
        "end_glyph_id": i(c.u16()?),
        "index": i(c.u16()?),
    })
}

fn class(c: &mut C) -> R<V> {
    Ok(match c.pick16(&[1, 2])? {
        1 => {
            let start = c.u16()?;
            let n = c.count(2)?;
            let indices = c.u16s(n as usize)?;
            V::e("Format1", st! {
                "format": i(1), "start_glyph_id": i(start), "glyph_count": i(n), "indices": indices,
            })
        }
        _ => {
            let n = c.count(6)?;
            let records = c.list(n as usize, range)?;
            V::e("Format2", st! { "format": i(2), "record_count": i(n), "records": records })
        }
    })
}

fn correction(c: &mut C) -> R<V> {
    let (start, end, format) = match c.generating() {
        Some(g) => {
            let format = *g.rng.pick(&[1, 2, 3, 1, 2, 3, 0x8000]);
            if format == 0x8000 {
                (g.rng.u16(), g.rng.u16(), format)
            } else {
                let large = g.style.budget > 0 && g.larges < 8;
                let count = if large && g.rng.below(1000) < g.style.large {
                    g.larges += 1;
                    *g.rng.pick(&[255u64, 256, 257, 512, 1024, 4096, 32768, 65535, 65536])
                } else {
                    match g.rng.below(3) {
                        0 => *g.rng.pick(&[1, 2, 3, 4, 7, 8, 9, 15, 16, 17, 31, 32, 33, 64]),
                        1 => g.rng.range(1, 8),
                        _ => g.rng.range(1, 40),
                    }
                };
                let most = 0x10000 - count;
                let start = match g.rng.below(4) {
                    0 => 0,
                    1 => most,
                    _ => g.rng.range(0, most.min(60)),
                };
                (start as u16, (start + count - 1) as u16, format)
            }
        }
        _ => (0, 0, 0),
    };
    let start = c.put16(start, true)?;
    let end = c.put16(end, true)?;
    let format = c.put16(format, true)?;
    match format {
        1..=3 => {
            if start > end {
                return Err(Rej::Bad);
            }
            let bits = ((end - start) as usize + 1) << format;
            let deltas = c.u16s((bits + 15) / 16)?;
            Ok(V::e("Device", st! {
                "start_size": i(start), "end_size": i(end), "format": i(format), "deltas": deltas,
            }))
        }
        0x8000 => Ok(V::e("Variation", st! {
            "outer_index": i(start), "inner_index": i(end), "format": i(format),
        })),
        _ => Err(Rej::Bad),
    }
}

fn cover(c: &mut C) -> R<(V, V)> {
    c.link(2, Null::Never, "coverage", coverage)
}

fn classify(c: &mut C) -> R<(V, V)> {
    c.link(2, Null::Never, "class", class)
}

fn covers(c: &mut C, n: usize) -> R<(V, V)> {
    c.links(n, 2, false, "coverage", coverage)
}

fn action(c: &mut C) -> R<V> {
    Ok(st! { "position_index": i(c.u16()?), "lookup_index": i(c.u16()?) })
}

fn rule(c: &mut C, name: &'static str) -> R<V> {
    let n = c.count1(2)?;
    let m = c.count(4)?;
    let ids = c.u16s(n as usize - 1)?;
    let actions = c.list(m as usize, action)?;
    Ok(V::S(vec![
        ("glyph_count", i(n)),
        ("action_count", i(m)),
        (name, ids),
        ("actions", actions),
    ]))
}

fn rules(c: &mut C, name: &'static str) -> R<V> {
    let n = c.count(12)?;
    let (offsets, records) = c.links(n as usize, 2, false, name, |c| rule(c, name))?;
    Ok(st! { "count": i(n), "offsets": offsets, "records": records })
}

fn context(c: &mut C) -> R<V> {
    Ok(match c.pick16(&[1, 2, 3])? {
        1 => {
            let (co, cv) = cover(c)?;
            let n = c.count(20)?;
            let (o, v) = c.links(n as usize, 2, true, "rules", |c| rules(c, "glyph_ids"))?;
            V::e("Format1", st! {
                "format": i(1), "coverage_offset": co, "record_count": i(n), "record_offsets": o,
                "coverage": cv, "records": v,
            })
        }
        2 => {
            let (co, cv) = cover(c)?;
            let (lo, lv) = classify(c)?;
            let n = c.count(20)?;
            let (o, v) = c.links(n as usize, 2, true, "class rules", |c| rules(c, "indices"))?;
            V::e("Format2", st! {
                "format": i(2), "coverage_offset": co, "class_offset": lo, "record_count": i(n),
                "record_offsets": o, "coverage": cv, "class": lv, "records": v,
            })
        }
        _ => {
            let n = c.count(10)?;
            let m = c.count(4)?;
            let (o, v) = covers(c, n as usize)?;
            let actions = c.list(m as usize, action)?;
            V::e("Format3", st! {
                "format": i(3), "glyph_count": i(n), "action_count": i(m), "coverage_offsets": o,
                "actions": actions, "coverages": v,
            })
        }
    })
}

fn chained_rule(c: &mut C, names: [&'static str; 3]) -> R<V> {
    let b = c.count(2)?;
    let backward = c.u16s(b as usize)?;
    let n = c.count1(2)?;
    let input = c.u16s(n as usize - 1)?;
    let f = c.count(2)?;
    let forward = c.u16s(f as usize)?;
    let m = c.count(4)?;
    let actions = c.list(m as usize, action)?;
    Ok(V::S(vec![
        ("backward_glyph_count", i(b)),
        (names[0], backward),
        ("glyph_count", i(n)),
        (names[1], input),
        ("forward_glyph_count", i(f)),
        (names[2], forward),
        ("action_count", i(m)),
        ("actions", actions),
    ]))
}

const BY_GLYPH: [&str; 3] = ["backward_glyph_ids", "glyph_ids", "forward_glyph_ids"];
const BY_CLASS: [&str; 3] = ["backward_indices", "indices", "forward_indices"];

fn chained_rules(c: &mut C, names: [&'static str; 3]) -> R<V> {
    let n = c.count(18)?;
    let (offsets, records) = c.links(n as usize, 2, false, names[0], |c| chained_rule(c, names))?;
    Ok(st! { "count": i(n), "offsets": offsets, "records": records })
}

fn chained(c: &mut C) -> R<V> {
    Ok(match c.pick16(&[1, 2, 3])? {
        1 => {
            let (co, cv) = cover(c)?;
            let n = c.count(30)?;
            let (o, v) = c.links(n as usize, 2, true, "chained rules", |c| {
                chained_rules(c, BY_GLYPH)
            })?;
            V::e("Format1", st! {
                "format": i(1), "coverage_offset": co, "record_count": i(n), "record_offsets": o,
                "coverage": cv, "records": v,
            })
        }
        2 => {
            let (co, cv) = cover(c)?;
            let (bo, bv) = classify(c)?;
            let (lo, lv) = classify(c)?;
            let (fo, fv) = classify(c)?;
            let n = c.count(30)?;
            let (o, v) = c.links(n as usize, 2, true, "chained class rules", |c| {
                chained_rules(c, BY_CLASS)
            })?;
            V::e("Format2", st! {
                "format": i(2), "coverage_offset": co, "backward_class_offset": bo,
                "class_offset": lo, "forward_class_offset": fo, "record_count": i(n),
                "record_offsets": o, "coverage": cv, "backward_class": bv, "class": lv,
                "forward_class": fv, "records": v,
            })
        }
        _ => {
            let b = c.count(10)?;
            let (bo, bv) = covers(c, b as usize)?;
            let n = c.count(10)?;
            let (o, v) = covers(c, n as usize)?;
            let f = c.count(10)?;
            let (fo, fv) = covers(c, f as usize)?;
            let m = c.count(4)?;
            let actions = c.list(m as usize, action)?;
            V::e("Format3", st! {
                "format": i(3), "backward_glyph_count": i(b), "backward_coverage_offsets": bo,
                "glyph_count": i(n), "coverage_offsets": o, "forward_glyph_count": i(f),
                "forward_coverage_offsets": fo, "action_count": i(m), "actions": actions,
                "backward_coverages": bv, "coverages": v, "forward_coverages": fv,
            })
        }
    })
}

// Directories.

fn directory(c: &mut C, lookups: fn(&mut C) -> R<V>) -> R<V> {
    let major = c.pick16(&[1])?;
    let minor = c.pick16(&[0, 1])?;
    let none = || st! { "count": i(0), "headers": V::L(vec![]), "records": V::L(vec![]) };
    let nothing = st! { "count": i(0), "offsets": V::L(vec![]), "records": V::L(vec![]) };
    let (so, sv) = c.link(2, Null::List(none()), "scripts", scripts)?;
    let (fo, fv) = c.link(2, Null::List(none()), "features", features)?;
    let (lo, lv) = c.link(2, Null::List(nothing), "lookups", lookups)?;
    let (vo, vv) = if minor == 1 {
        c.link(4, Null::Maybe, "variations", |c| {
            let major = c.pick16(&[1])?;
            let minor = c.pick16(&[0])?;
            let count = c.u32()?;
            Ok(st! { "major_version": i(major), "minor_version": i(minor), "count": i(count) })
        })?
    } else {
        (V::I(0), V::N)
    };
    Ok(st! {
        "major_version": i(major), "minor_version": i(minor), "script_offset": so,
        "feature_offset": fo, "lookup_offset": lo, "variation_offset": vo, "scripts": sv,
        "features": fv, "lookups": lv, "variations": vv,
    })
}

fn headed(
    c: &mut C,
    n: usize,
    key: &str,
    f: fn(&mut C) -> R<V>,
) -> R<(V, V)> {
    let (mut headers, mut records) = (vec![], vec![]);
    let tags = c.generating().map(|g| crate::tags::list(&mut g.rng, n));
    for k in 0..n {
        c.burn(1)?;
        let tag = match &tags {
            Some(tags) => V::T((c.raw(4, false, |_| tags[k] as u64)? as u32).to_be_bytes()),
            _ => c.tag()?,
        };
        let (o, v) = c.link(2, Null::Never, key, f)?;
        headers.push(st! { "tag": tag, "offset": o });
        records.push(v);
    }
    Ok((V::L(headers), V::L(records)))
}

fn scripts(c: &mut C) -> R<V> {
    let n = c.count(24)?;
    let (headers, records) = headed(c, n as usize, "script", script)?;
    Ok(st! { "count": i(n), "headers": headers, "records": records })
}

fn script(c: &mut C) -> R<V> {
    let (o, v) = c.link(2, Null::Maybe, "language", langsys)?;
    let n = c.count(16)?;
    let (headers, records) = headed(c, n as usize, "language", langsys)?;
    Ok(st! {
        "default_language_offset": o, "language_count": i(n), "language_headers": headers,
        "default_language": v, "language_records": records,
    })
}

fn langsys(c: &mut C) -> R<V> {
    let order = c.pick16(&[0])?;
    let required = c.u16()?;
    let n = c.count(2)?;
    let indices = c.u16s(n as usize)?;
    Ok(st! {
        "lookup_order_offset": i(order), "required_feature_index": i(required),
        "feature_index_count": i(n), "feature_indices": indices,
    })
}

fn features(c: &mut C) -> R<V> {
    let n = c.count(14)?;
    let (headers, records) = headed(c, n as usize, "feature", feature)?;
    Ok(st! { "count": i(n), "headers": headers, "records": records })
}

fn feature(c: &mut C) -> R<V> {
    let o = c.soft(2)?;
    let n = c.count(2)?;
    let indices = c.u16s(n as usize)?;
    let parameters = if o == V::I(0) { V::N } else { V::I(1) };
    Ok(st! {
        "parameter_offset": o, "lookup_index_count": i(n), "lookup_indices": indices,
        "parameters": parameters,
    })
}

fn sub_lookups(c: &mut C) -> R<V> {
    lookups(c, 8, 7, "sub", sub)
}

fn pos_lookups(c: &mut C) -> R<V> {
    lookups(c, 9, 9, "pos", pos)
}

fn lookups(
    c: &mut C,
    most: u16,
    extension: u16,
    key: &str,
    f: fn(&mut C, u16) -> R<V>,
) -> R<V> {
    let n = c.count(40)?;
    let (offsets, records) = c.links(n as usize, 2, false, key, |c| {
        let t = c.raw(2, true, |g| {
            // Most of the effort goes where the content is.
            let t = g.rng.range(1, most as u64);
            if t == extension as u64 && g.rng.chance(50) {
                g.rng.range(1, most as u64)
            } else {
                t
            }
        })? as u16;
        let flags = c.flags16(0x00E0)?;
        let n = c.count(30)?;
        if t == 0 || t > most {
            if n > 0 {
                return Err(Rej::Bad);
            }
            c.taint = true;
        }
        // The set comes after the offsets; nothing else depends on the order.
        let (offsets, tables) = c.links(n as usize, 2, false, &format!("{key}{t}"), |c| f(c, t))?;
        let set = if flags & 0x10 > 0 { i(c.u16()?) } else { V::N };
        Ok(st! {
            "r#type": i(t), "flags": i(flags), "table_count": i(n), "table_offsets": offsets,
            "mark_filtering_set": set, "tables": tables,
        })
    })?;
    Ok(st! { "count": i(n), "offsets": offsets, "records": records })
}

fn extension(c: &mut C) -> R<V> {
    let format = c.pick16(&[1])?;
    let t = c.u16()?;
    let offset = c.u32()?;
    Ok(st! { "format": i(format), "r#type": i(t), "target": i(offset) })
}

// Substitutions.

fn ids(c: &mut C) -> R<V> {
    let n = c.count(2)?;
    let ids = c.u16s(n as usize)?;
    Ok(st! { "glyph_count": i(n), "glyph_ids": ids })
}

fn sets(c: &mut C, key: &str, f: fn(&mut C) -> R<V>) -> R<V> {
    let format = c.pick16(&[1])?;
    let (co, cv) = cover(c)?;
    let n = c.count(14)?;
    let (o, v) = c.links(n as usize, 2, false, key, f)?;
    Ok(st! {
        "format": i(format), "coverage_offset": co, "record_count": i(n), "record_offsets": o,
        "coverage": cv, "records": v,
    })
}

fn sub(c: &mut C, t: u16) -> R<V> {
    Ok(match t {
        1 => V::e("SingleSubstitution", match c.pick16(&[1, 2])? {
            1 => {
                let (co, cv) = cover(c)?;
                let delta = c.i16()?;
                V::e("Format1", st! {
                    "format": i(1), "coverage_offset": co, "delta_glyph_id": i(delta),
                    "coverage": cv,
                })
            }
            _ => {
                let (co, cv) = cover(c)?;
                let n = c.count(2)?;
                let ids = c.u16s(n as usize)?;
                V::e("Format2", st! {
                    "format": i(2), "coverage_offset": co, "glyph_count": i(n), "glyph_ids": ids,
                    "coverage": cv,
                })
            }
        }),
        2 => V::e("MultipleSubstitution", sets(c, "sequence", ids)?),
        3 => V::e("AlternateSubstitution", sets(c, "alternates", ids)?),
        4 => V::e("LigatureSubstitution", sets(c, "ligature set", |c| {
            let n = c.count(10)?;
            let (o, v) = c.links(n as usize, 2, false, "ligature", |c| {
                let id = c.u16()?;
                let n = c.count1(2)?;
                let ids = c.u16s(n as usize - 1)?;
                Ok(st! { "glyph_id": i(id), "glyph_count": i(n), "glyph_ids": ids })
            })?;
            Ok(st! { "count": i(n), "offsets": o, "records": v })
        })?),
        5 => V::e("ContextualSubstitution", context(c)?),
        6 => V::e("ChainedContextualSubstitution", chained(c)?),
        7 => V::e("ExtensionSubstitution", extension(c)?),
        8 => {
            let format = c.pick16(&[1])?;
            let (co, cv) = cover(c)?;
            let b = c.count(10)?;
            let (bo, bv) = covers(c, b as usize)?;
            let f = c.count(10)?;
            let (fo, fv) = covers(c, f as usize)?;
            let n = c.count(2)?;
            let ids = c.u16s(n as usize)?;
            V::e("ReverseChainedContextualSubstibution", st! {
                "format": i(format), "coverage_offset": co, "backward_glyph_count": i(b),
                "backward_coverage_offsets": bo, "forward_glyph_count": i(f),
                "forward_coverage_offsets": fo, "glyph_count": i(n), "glyph_ids": ids,
                "coverage": cv, "backward_coverages": bv, "forward_coverages": fv,
            })
        }
        _ => return Err(Rej::Bad),
    })
}

// Positions.

fn value_flags(c: &mut C) -> R<u16> {
    let x = c.raw(2, true, |g| match g.rng.below(5) {
        0 => 0,
        1 => 4,
        2 => 1 << g.rng.below(8),
        _ => g.rng.below(256),
    })? as u16;
    if x & 0xFF00 == 0 {
        Ok(x)
    } else {
        Err(Rej::Bad)
    }
}

fn single(c: &mut C, flags: u16) -> R<V> {
    let mut fields = vec![];
    for (k, name) in ["x_placement", "y_placement", "x_advance", "y_advance"].iter().enumerate() {
        let v = if flags & 1 << k > 0 { i(c.i16()?) } else { V::N };
        fields.push((*name, v));
    }
    let names = [
        ("x_placement_correction_offset", "x_placement_correction"),
        ("y_placement_correction_offset", "y_placement_correction"),
        ("x_advance_correction_offset", "x_advance_correction"),
        ("y_advance_correction_offset", "y_advance_correction"),
    ];
    let mut corrections = vec![];
    for (k, (offset, name)) in names.iter().enumerate() {
        let (o, v) = if flags & 0x10 << k > 0 {
            c.link(2, Null::Maybe, "correction", correction)?
        } else {
            (V::N, V::N)
        };
        fields.push((*offset, o));
        corrections.push((*name, v));
    }
    fields.extend(corrections);
    Ok(V::S(fields))
}

fn single_maybe(c: &mut C, flags: u16) -> R<V> {
    if flags > 0 {
        single(c, flags)
    } else {
        Ok(V::N)
    }
}

fn width(flags: u16) -> usize {
    2 * flags.count_ones() as usize
}

fn pair1s(c: &mut C, f1: u16, f2: u16) -> R<V> {
    let n = c.count(2 + width(f1) + width(f2))?;
    let records = c.list(n as usize, |c| {
        Ok(st! {
            "glyph2_id": i(c.u16()?), "value1": single_maybe(c, f1)?,
            "value2": single_maybe(c, f2)?,
        })
    })?;
    Ok(st! { "count": i(n), "records": records })
}

fn anchor(c: &mut C) -> R<V> {
    let format = c.pick16(&[1, 2, 3])?;
    let (x, y) = (c.i16()?, c.i16()?);
    Ok(match format {
        1 => V::e("Format1", st! { "format": i(1), "x": i(x), "y": i(y) }),
        2 => V::e("Format2", st! { "format": i(2), "x": i(x), "y": i(y), "index": i(c.u16()?) }),
        _ => {
            let (xo, xv) = c.link(2, Null::Maybe, "correction", correction)?;
            let (yo, yv) = c.link(2, Null::Maybe, "correction", correction)?;
            V::e("Format3", st! {
                "format": i(3), "x": i(x), "y": i(y), "x_correction_offset": xo,
                "y_correction_offset": yo, "x_correction": xv, "y_correction": yv,
            })
        }
    })
}

fn anchors(c: &mut C, n: u16) -> R<V> {
    let (o, v) = c.links(n as usize, 2, true, "anchor", anchor)?;
    Ok(st! { "anchor_offsets": o, "anchors": v })
}

fn bases(c: &mut C, classes: u16, count: &'static str, records: &'static str) -> R<V> {
    let n = c.count(8 * classes as usize)?;
    let v = c.list(n as usize, |c| anchors(c, classes))?;
    Ok(V::S(vec![(count, i(n)), (records, v)]))
}

fn pos_ligatures(c: &mut C, classes: u16) -> R<V> {
    let n = c.count(14)?;
    let key = format!("ligature attachment {classes}");
    let (o, v) = c.links(n as usize, 2, false, &key, |c| bases(c, classes, "count", "components"))?;
    Ok(st! { "count": i(n), "offsets": o, "records": v })
}

fn mark1s(c: &mut C) -> R<V> {
    let n = c.count(10)?;
    let empty = V::e("Format1", st! { "format": i(0), "x": i(0), "y": i(0) });
    let records = c.list(n as usize, |c| {
        let id = c.u16()?;
        let (o, v) = c.link(2, Null::Mark(empty.clone()), "anchor", anchor)?;
        Ok(st! { "class_id": i(id), "anchor_offset": o, "anchor": v })
    })?;
    Ok(st! { "count": i(n), "records": records })
}

fn attachment(
    c: &mut C,
    names: [&'static str; 8],
    f: impl Fn(&mut C, u16) -> R<V>,
) -> R<V> {
    let format = c.pick16(&[1])?;
    if c.ahead(4) == Some(0) && names[7].contains("ligature") {
        if let Some(n) = c.ahead(8).and_then(|offset| c.ahead((offset).wrapping_sub(2))) {
            if n > 4 {
                return Err(Rej::Fuel);
            }
        }
    }
    let (ao, av) = cover(c)?;
    let (bo, bv) = cover(c)?;
    let classes = c.raw(2, false, |g| match g.rng.below(20) {
        0 => 0,
        2 if g.style.large > 0 => *g.rng.pick(&[31, 32, 33, 64, 127, 128, 255, 256, 257, 300, 600]),
        1 => g.rng.range(5, 20),
        _ => g.rng.range(1, 4),
    })? as u16;
    let (mo, mv) = c.link(2, Null::Never, "marks", mark1s)?;
    let (no, nv) = c.link(2, Null::Never, &format!("{} {classes}", names[7]), |c| f(c, classes))?;
    Ok(V::S(vec![
        ("format", i(format)),
        (names[0], ao),
        (names[1], bo),
        ("mark_class_count", i(classes)),
        (names[2], mo),
        (names[3], no),
        (names[4], av),
        (names[5], bv),
        (names[6], mv),
        (names[7], nv),
    ]))
}

fn pos(c: &mut C, t: u16) -> R<V> {
    Ok(match t {
        1 => V::e("SingleAdjustment", match c.pick16(&[1, 2])? {
            1 => {
                let (co, cv) = cover(c)?;
                let flags = value_flags(c)?;
                let value = single(c, flags)?;
                V::e("Format1", st! {
                    "format": i(1), "coverage_offset": co, "value_flags": i(flags),
                    "value": value, "coverage": cv,
                })
            }
            _ => {
                let (co, cv) = cover(c)?;
                let flags = value_flags(c)?;
                let n = c.count(width(flags))?;
                let values = c.list(n as usize, |c| single(c, flags))?;
                V::e("Format2", st! {
                    "format": i(2), "coverage_offset": co, "value_flags": i(flags),
                    "value_count": i(n), "values": values, "coverage": cv,
                })
            }
        }),
        2 => V::e("PairAdjustment", match c.pick16(&[1, 2])? {
            1 => {
                let (co, cv) = cover(c)?;
                let (f1, f2) = (value_flags(c)?, value_flags(c)?);
                let n = c.count(20)?;
                let key = format!("pairs {f1} {f2}");
                let (o, v) = c.links(n as usize, 2, false, &key, |c| pair1s(c, f1, f2))?;
                V::e("Format1", st! {
                    "format": i(1), "coverage_offset": co, "value1_flags": i(f1),
                    "value2_flags": i(f2), "record_count": i(n), "record_offsets": o,
                    "coverage": cv, "records": v,
                })
            }
            _ => {
                // Whatever is looked at first, many cells without content cost much.
                if let (Some(f1), Some(f2), Some(n), Some(m)) =
                    (c.ahead(2), c.ahead(4), c.ahead(10), c.ahead(12))
                {
                    if (f1 | f2) & 0xFF == 0 && n * m > 20_000 {
                        return Err(Rej::Fuel);
                    }
                }
                let (co, cv) = cover(c)?;
                let (f1, f2) = (value_flags(c)?, value_flags(c)?);
                let (ao, av) = classify(c)?;
                let (bo, bv) = classify(c)?;
                let cell = width(f1) + width(f2);
                let n = c.count(3 * cell)?;
                // The matrix stays within the budget.
                let m = c.raw(2, false, |g| {
                    let m = g.count(cell, 0) as u64;
                    let cells = if cell == 0 { 300 } else { 40_000 / cell as u64 };
                    m.min(cells / (n as u64).max(1))
                })? as u16;
                let records = c.list(n as usize, |c| {
                    let records = c.list(m as usize, |c| {
                        Ok(st! {
                            "value1": single_maybe(c, f1)?, "value2": single_maybe(c, f2)?,
                        })
                    })?;
                    Ok(st! { "records": records })
                })?;
                V::e("Format2", st! {
                    "format": i(2), "coverage_offset": co, "value1_flags": i(f1),
                    "value2_flags": i(f2), "class1_offset": ao, "class2_offset": bo,
                    "class1_count": i(n), "class2_count": i(m), "records": records,
                    "coverage": cv, "class1": av, "class2": bv,
                })
            }
        }),
        3 => {
            let format = c.pick16(&[1])?;
            let (co, cv) = cover(c)?;
            let n = c.count(12)?;
            let connections = c.list(n as usize, |c| {
                let (so, sv) = c.link(2, Null::Maybe, "anchor", anchor)?;
                let (eo, ev) = c.link(2, Null::Maybe, "anchor", anchor)?;
                Ok(st! {
                    "start_anchor_offset": so, "end_anchor_offset": eo, "start_anchor": sv,
                    "end_anchor": ev,
                })
            })?;
            V::e("CursiveAttachment", st! {
                "format": i(format), "coverage_offset": co, "connection_count": i(n),
                "connections": connections, "coverage": cv,
            })
        }
        4 => V::e("MarkToBaseAttachment", attachment(
            c,
            [
                "mark_coverage_offset", "base_coverage_offset", "marks_offset", "bases_offset",
                "mark_coverage", "base_coverage", "marks", "bases",
            ],
            |c, n| bases(c, n, "count", "records"),
        )?),
        5 => V::e("MarkToLigatureAttachment", attachment(
            c,
            [
                "mark_coverage_offset", "ligature_coverage_offset", "marks_offset",
                "ligatures_offset", "mark_coverage", "ligature_coverage", "marks", "ligatures",
            ],
            pos_ligatures,
        )?),
        6 => V::e("MarkToMarkAttachment", attachment(
            c,
            [
                "mark1_coverage_offset", "mark2_coverage_offset", "mark1s_offset",
                "mark2s_offset", "mark1_coverage", "mark2_coverage", "mark1s", "mark2s",
            ],
            |c, n| bases(c, n, "count", "records"),
        )?),
        7 => V::e("ContextualPositioning", context(c)?),
        8 => V::e("ChainedContextualPositioning", chained(c)?),
        9 => V::e("ExtensionPositioning", extension(c)?),
        _ => return Err(Rej::Bad),
    })
}

// Glyph definitions.

fn gdef(c: &mut C) -> R<V> {
    let major = c.pick16(&[1])?;
    let minor = c.pick16(&[0, 2, 3])?;
    let (go, gv) = c.link(2, Null::Maybe, "class", class)?;
    let (ao, av) = c.link(2, Null::Maybe, "attachments", attachments)?;
    let (lo, lv) = c.link(2, Null::Maybe, "caret ligatures", caret_ligatures)?;
    let (mo, mv) = c.link(2, Null::Maybe, "class", class)?;
    let mut header = vec![
        ("major_version", i(major)),
        ("minor_version", i(minor)),
        ("glyph_class_offset", go),
        ("attachment_offset", ao),
        ("ligature_offset", lo),
        ("mark_class_offset", mo),
    ];
    let (mut sets, mut variations) = (V::N, V::N);
    if minor >= 2 {
        let (o, v) = c.link(2, Null::Maybe, "mark sets", mark_sets)?;
        header.push(("mark_offset", o));
        sets = v;
    }
    if minor >= 3 {
        let (o, v) = c.link(4, Null::Maybe, "store", store)?;
        header.push(("variation_offset", o));
        variations = v;
    }
    let name = match minor {
        0 => "Version1",
        2 => "Version12",
        _ => "Version13",
    };
    Ok(st! {
        "header": V::e(name, V::S(header)), "glyph_class": gv, "attachments": av,
        "ligatures": lv, "mark_class": mv, "marks": sets, "variations": variations,
    })
}

fn attachments(c: &mut C) -> R<V> {
    let (co, cv) = cover(c)?;
    let n = c.count(10)?;
    let (o, v) = c.links(n as usize, 2, false, "attachment", |c| {
        let n = c.count(2)?;
        let indices = c.u16s(n as usize)?;
        Ok(st! { "index_count": i(n), "indices": indices })
    })?;
    Ok(st! {
        "coverage_offset": co, "count": i(n), "offsets": o, "coverage": cv, "records": v,
    })
}

fn caret_ligatures(c: &mut C) -> R<V> {
    let (co, cv) = cover(c)?;
    let n = c.count(16)?;
    let (o, v) = c.links(n as usize, 2, false, "caret ligature", |c| {
        let n = c.count(8)?;
        let (o, v) = c.links(n as usize, 2, false, "caret", caret)?;
        Ok(st! { "caret_count": i(n), "caret_offsets": o, "carets": v })
    })?;
    Ok(st! {
        "coverage_offset": co, "count": i(n), "offsets": o, "coverage": cv, "records": v,
    })
}

fn caret(c: &mut C) -> R<V> {
    Ok(match c.pick16(&[1, 2, 3])? {
        1 => V::e("Format1", st! { "format": i(1), "coordinate": i(c.i16()?) }),
        2 => V::e("Format2", st! { "format": i(2), "index": i(c.u16()?) }),
        _ => {
            let x = c.i16()?;
            let (o, v) = c.link(2, Null::Never, "correction", correction)?;
            V::e("Format3", st! {
                "format": i(3), "coordinate": i(x), "correction_offset": o, "correction": v,
            })
        }
    })
}

fn mark_sets(c: &mut C) -> R<V> {
    let format = c.pick16(&[1])?;
    let n = c.count(12)?;
    let (o, v) = c.links(n as usize, 4, false, "coverage", coverage)?;
    Ok(st! { "format": i(format), "count": i(n), "coverage_offsets": o, "coverages": v })
}

fn store(c: &mut C) -> R<V> {
    let format = c.pick16(&[1])?;
    let regions = c.soft(4)?;
    let n = c.count(20)?;
    let (o, v) = c.links(n as usize, 4, false, "variation data", store_record)?;
    Ok(st! {
        "format": i(format), "region_offset": regions, "count": i(n), "offsets": o, "records": v,
    })
}

fn store_record(c: &mut C) -> R<V> {
    let (items, words, regions) = match c.generating() {
        Some(g) => {
            let regions = g.count(2, 0);
            let words = match g.rng.below(4) {
                0 => 0,
                1 => regions as u64,
                _ => g.rng.range(0, regions as u64),
            } as u16;
            let long = if g.rng.chance(30) { 0x8000 } else { 0 };
            // The number of words has fifteen bits.
            let words = words & 0x7FFF;
            let row = (words as usize + regions as usize) * if long > 0 { 2 } else { 1 };
            let most = if row == 0 { 20 } else { 60_000 / row };
            let items = (g.count(row.max(1), 0) as usize).min(most) as u16;
            (items, words | long, regions)
        }
        _ => (0, 0, 0),
    };
    let items = c.put16(items, false)?;
    let words = c.put16(words, false)?;
    let regions = c.put16(regions, false)?;
    let indices = c.u16s(regions as usize)?;
    let n = (words & 0x7FFF) as u64;
    if n > regions as u64 {
        c.taint = true;
    }
    let row = (n + regions as u64) * if words & 0x8000 > 0 { 2 } else { 1 };
    let total = row * items as u64;
    c.burn(total)?;
    let deltas = match &mut c.mode {
        Mode::Gen(g) => {
            let deltas: Vec<u8> = (0..total).map(|_| g.rng.next() as u8).collect();
            let node = *g.stack.last().unwrap();
            g.nodes[node].buf.extend_from_slice(&deltas);
            g.style.budget -= total as i64;
            deltas
        }
        Mode::Dec(d) => {
            let end = d.pos + total;
            if total > 0 && end > d.data.len() as u64 {
                return Err(Rej::Eof);
            }
            let deltas = match total {
                0 => vec![],
                _ => d.data[d.pos as usize..end as usize].to_vec(),
            };
            d.pos = end;
            deltas
        }
    };
    Ok(st! {
        "item_count": i(items), "short_delta_count": i(words), "region_count": i(regions),
        "region_indices": indices, "deltas": V::B(deltas),
    })
}

// The rest.

fn cpal(c: &mut C) -> R<V> {
    let version = c.pick16(&[0, 1])?;
    let (entries, palettes, colors) = match c.generating() {
        Some(g) => {
            let colors = g.count(4, 0);
            let entries = match g.rng.below(3) {
                0 => colors as u64,
                1 => (colors as u64).min(1),
                _ => g.rng.range(0, colors as u64),
            };
            let palettes = (g.count(2, 0) as u64).min(200_000 / entries.max(1));
            (entries as u16, palettes as u16, colors)
        }
        _ => (0, 0, 0),
    };
    let entries = c.put16(entries, true)?;
    let palettes = c.put16(palettes, false)?;
    let colors = c.put16(colors, true)?;
    let (o, v) = c.link(4, Null::Never, "colors", |c| {
        c.list(colors as usize, |c| {
            Ok(st! {
                "blue": i(c.u8()?), "green": i(c.u8()?), "red": i(c.u8()?), "alpha": i(c.u8()?),
            })
        })
    })?;
    let V::L(list) = &v else { return Err(Rej::Eof) };
    let (mut indices, mut result) = (vec![], vec![]);
    for _ in 0..palettes {
        c.burn(1 + 8 * entries as u64)?;
        let most = (colors - entries.min(colors)) as u64;
        let first = c.raw(2, true, |g| match g.rng.below(3) {
            0 => 0,
            1 => most,
            _ => g.rng.range(0, most),
        })? as u16;
        indices.push(i(first));
        if first as usize + entries as usize > colors as usize {
            if entries > 0 {
                return Err(Rej::Bad);
            }
            c.taint = true;
            result.push(V::L(vec![]));
            continue;
        }
        result.push(V::L(list[first as usize..][..entries as usize].to_vec()));
    }
    if version == 1 && c.generating().is_some() {
        c.soft(4)?;
        c.soft(4)?;
        c.soft(4)?;
    }
    let name = if version == 0 { "Version0" } else { "Version1" };
    Ok(st! {
        "header": V::e(name, st! {
            "version": i(version), "entry_count": i(entries), "palette_count": i(palettes),
            "color_count": i(colors), "color_offset": o, "color_indices": V::L(indices),
        }),
        "colors": v,
        "palettes": V::L(result),
    })
}

fn fvar(c: &mut C) -> R<V> {
    let (gap, axes, axis_size, instances, instance_size) = match c.generating() {
        Some(g) => {
            let gap = if g.rng.chance(40) { g.rng.below(40) as u16 } else { 0 };
            let axes = match g.rng.below(50) {
                0 if g.style.large > 0 && g.rng.chance(4) => {
                    *g.rng.pick(&[3276, 3277, 4096, 8192, 16382])
                }
                0 if g.rng.chance(30) => g.rng.range(300, 1600),
                0 => g.rng.range(60, 300),
                1..=4 => 0,
                _ => g.rng.range(1, 6),
            } as u16;
            let axis_size = 20 + if g.rng.chance(30) { g.rng.below(20) as u16 } else { 0 };
            let instances = g.count(4 * axes as usize + 6, 0).min(3000);
            let extra = match g.rng.below(9) {
                // A byte more is not a name.
                0 => 5,
                1 | 2 => 4,
                3..=6 => 6,
                _ => 6 + g.rng.below(20) as u16,
            };
            let instances = if axes > 16_000 { 0 } else { instances };
            let extra = if axes > 16_000 { 4 } else { extra };
            let (mut gap, mut axis_size, mut instances, mut extra) = (gap, axis_size, instances, extra);
            if !crate::run::small() && axes < 7 && g.style.budget > 100 && g.rng.chance(6) {
                // Most of the table is air.
                match g.rng.below(3) {
                    0 => axis_size = g.rng.range(20, 0xFFFF) as u16,
                    1 => (instances, extra) = (instances.min(6), g.rng.range(4, 0xFF00) as u16),
                    _ => gap = g.rng.below(0xFFF0) as u16,
                }
            }
            (gap, axes, axis_size, instances, axes.saturating_mul(4).saturating_add(extra))
        }
        _ => (0, 0, 0, 0, 0),
    };
    let major = c.pick16(&[1])?;
    let minor = c.pick16(&[0])?;
    let start = c.put16(16 + gap, false)? as u64;
    let reserved = c.pick16(&[2])?;
    let axes = c.put16(axes, false)?;
    let axis_size = c.put16(axis_size, true)?;
    let instances = c.put16(instances, false)?;
    let instance_size = c.put16(instance_size, true)?;
    if start < 16 {
        c.taint = true;
    }
    let mut records = vec![];
    for k in 0..axes as u64 {
        if axis_size < 20 {
            return Err(Rej::Bad);
        }
        c.seek(start + k * axis_size as u64);
        let tag = c.tag()?;
        let (min, default, max) = (c.u32()? as i32, c.u32()? as i32, c.u32()? as i32);
        let flags = c.flags16(0xFFFE)?;
        records.push(st! {
            "tag": tag, "min_value": i(min), "default_value": i(default), "max_value": i(max),
            "flags": i(flags), "name_id": i(c.u16()?),
        });
    }
    let start = start + axes as u64 * axis_size as u64;
    let mut items = vec![];
    let least = 4 * axes as u64 + 4;
    for k in 0..instances as u64 {
        if (instance_size as u64) < least {
            return Err(Rej::Bad);
        }
        c.seek(start + k * instance_size as u64);
        let name = c.u16()?;
        let flags = c.flags16(0xFFFF)?;
        let coordinates = c.list(axes as usize, |c| Ok(i(c.u32()? as i32)))?;
        let script = if instance_size as u64 >= least + 2 { i(c.u16()?) } else { V::N };
        items.push(st! {
            "subfamily_name_id": i(name), "flags": i(flags), "coordinates": coordinates,
            "postscript_name_id": script,
        });
    }
    if axes == 0 && axis_size < 20 || instances == 0 && (instance_size as u64) < least {
        c.taint = true;
    }
    Ok(st! {
        "header": st! {
            "major_version": i(major), "minor_version": i(minor),
            "axis_offset": i((start - axes as u64 * axis_size as u64) as i64),
            "reserved": i(reserved), "axis_count": i(axes), "axis_size": i(axis_size),
            "instance_count": i(instances), "instance_size": i(instance_size),
        },
        "axis_records": V::L(records),
        "instance_records": V::L(items),
    })
}
