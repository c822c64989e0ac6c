//! The properties: what is run, and what is judged.

use std::io::{Seek, SeekFrom};
use std::sync::{Arc, OnceLock};

use opentype::layout::{feature, language, lookup, script, Features, Lookups, Scripts};
use opentype::tables::{color_palettes as cpal, glyph_positioning as gpos, glyph_substitution as gsub};
use opentype::truetype::Tag;
use opentype::{tables as ot, tape::Read as _, File, Font};

use crate::font;
use crate::registry;
use crate::rng::{hash, Rng};
use crate::run::{guard, Case, Got};
use crate::spec::{reach, self, any_kind, decode, image, image_in_style, Image, Kind, Lens, Rej, Style, UNFORCED};
use crate::tape::{Delivery, Fault, Form, Tape};
use crate::vals::{self, read_v, read_whole, Val};
use crate::value::{diff, V};

/// Elementary steps of the reference decoder up to which an input is considered.
const FUEL: u64 = 400_000;

pub fn find(property: &str) -> Option<fn(&mut Case)> {
    Some(match property {
        "P01" => p01,
        "P02" => p02,
        "P03" => p03,
        "P04" => p04,
        "P05" => p05,
        "P06" => p06,
        "P07" => p07,
        "P08" => p08,
        "P09" => p09,
        "P10" => p10,
        "P11" => p11,
        "P12" => p12,
        "P13" => p13,
        "P14" => p14,
        "P15" => p15,
        "P16" => p16,
        "P17" => p17,
        "P18" => p18,
        "P19" => p19,
        "P20" => p20,
        "P21" => p21,
        "P22" => p22,
        "P23" => p23,
        "P24" => p24,
        "P25" => p25,
        "P26" => p26,
        "P27" => p27,
        "STOCK" => stock,
        _ => return None,
    })
}

// Fixtures: the fonts that come with the repository.

pub struct Fixture {
    pub name: String,
    pub bytes: Arc<Vec<u8>>,
    pub records: Vec<font::Record>,
}

pub fn fixtures() -> &'static [Fixture] {
    static FIXTURES: OnceLock<Vec<Fixture>> = OnceLock::new();
    FIXTURES.get_or_init(|| {
        if crate::run::small() {
            return vec![];
        }
        let root = std::env::var("MON_FIXTURES").unwrap_or("/repo/tests/fixtures".into());
        let mut names: Vec<_> = std::fs::read_dir(root)
            .map(|dir| dir.filter_map(|e| e.ok()).map(|e| e.path()).collect())
            .unwrap_or_default();
        names.sort();
        names
            .into_iter()
            .filter_map(|path| {
                let bytes = std::fs::read(&path).ok()?;
                let records = font::directory(&bytes)?;
                Some(Fixture {
                    name: path.file_name()?.to_string_lossy().into(),
                    bytes: Arc::new(bytes),
                    records,
                })
            })
            .collect()
    })
}

fn table_kind(tag: &[u8; 4]) -> Option<Kind> {
    Some(match tag {
        b"GSUB" => Kind::Gsub,
        b"GPOS" => Kind::Gpos,
        b"GDEF" => Kind::Gdef,
        b"CPAL" => Kind::Cpal,
        b"fvar" => Kind::Fvar,
        _ => return None,
    })
}

/// Tables of the fixtures of given kinds.
fn fixture_tables(kinds: &[Kind]) -> Vec<(&'static Fixture, Kind, u64)> {
    let mut found = vec![];
    for fixture in fixtures() {
        for record in &fixture.records {
            if let Some(kind) = table_kind(&record.tag) {
                if kinds.contains(&kind) {
                    found.push((fixture, kind, record.offset as u64));
                }
            }
        }
    }
    found
}

// Making inputs.

/// A table in a file with other content around it.
pub struct Placed {
    pub image: Image,
    pub data: Arc<Vec<u8>>,
    pub at: u64,
}

fn noise(rng: &mut Rng, n: u64) -> Vec<u8> {
    let style = rng.below(3);
    (0..n)
        .map(|_| match style {
            0 => 0,
            1 => 0xFF,
            _ => rng.next() as u8,
        })
        .collect()
}

fn surround(rng: &mut Rng, bytes: &[u8]) -> (Vec<u8>, u64) {
    let before = match rng.below(10) {
        0..=2 => 0,
        3..=8 => rng.range(1, 40),
        _ => rng.range(41, 70_000),
    };
    let mut data = noise(rng, before);
    if before > 0 && rng.chance(15) {
        // As if the same structure ended right before.
        let n = bytes.len().min(data.len());
        let from = data.len() - n;
        data[from..].copy_from_slice(&bytes[bytes.len() - n..]);
    }
    data.extend_from_slice(bytes);
    match rng.below(10) {
        0..=3 => {}
        4..=6 => {
            let n = rng.range(1, 40);
            data.extend(noise(rng, n));
        }
        _ => resume(rng, &mut data),
    }
    (data, before)
}

/// Go on as if there were more of what is at the end.
fn resume(rng: &mut Rng, data: &mut Vec<u8>) {
    let stride = *rng.pick(&[1, 2, 3, 4, 6]);
    let grow = rng.chance(80);
    for _ in 0..rng.range(1, 24) {
        let word = |k: usize| match data.len().checked_sub(2 * k) {
            Some(k) => get(data, k, 2) as u16,
            _ => 0,
        };
        let last = word(stride);
        let next = match grow {
            // By the latest step, which is one for what has no steps.
            true if stride > 1 => last.wrapping_add(last.wrapping_sub(word(2 * stride))),
            true => last.wrapping_add(1),
            _ => last,
        };
        data.extend(next.to_be_bytes());
    }
}

fn place(rng: &mut Rng, image: Image) -> Placed {
    let (data, at) = surround(rng, &image.bytes);
    Placed { image, data: Arc::new(data), at }
}

/// Confirm that the reference decoder and the construction agree.
fn settle(image: &Image, lens: Lens) -> u64 {
    let d = decode(image.kind, &image.bytes, 0, lens, u64::MAX);
    match &d.value {
        Ok(v) => {
            assert!(!d.taint, "self-check: {:?} is outside the specification", image.kind);
            if let Some(difference) = diff(&image.value, v) {
                panic!("self-check: {:?}: {difference}", image.kind);
            }
        }
        Err(e) => panic!("self-check: {:?} is refused: {e:?}", image.kind),
    }
    d.cost
}

/// Break something at random.
fn mutate(rng: &mut Rng, image: &Image) -> Vec<u8> {
    let mut bytes = image.bytes.clone();
    let n = match rng.below(4) {
        0 | 1 => 1,
        2 => 2,
        _ => rng.range(3, 8),
    };
    for _ in 0..n {
        if bytes.is_empty() {
            break;
        }
        let len = bytes.len() as u64;
        match rng.below(12) {
            0 => {
                let k = rng.below(len) as usize;
                bytes[k] ^= 1 << rng.below(8);
            }
            1 => {
                let k = rng.below(len) as usize;
                bytes[k] = rng.next() as u8;
            }
            2 | 3 => {
                let k = (rng.below(len) as usize) & !1;
                let x = rng.u16();
                put(&mut bytes, k, 2, x as u64);
            }
            4 | 5 if !image.sites.is_empty() => {
                let &(k, w) = rng.pick(&image.sites);
                let x = boundary(rng, get(&bytes, k, w), w);
                put(&mut bytes, k, w, x);
            }
            6 | 7 if !image.links.is_empty() => {
                let &(k, w) = rng.pick(&image.links);
                let x = match rng.below(4) {
                    0 => 0,
                    1 => rng.below(len + 4),
                    2 => get(&bytes, k, w).wrapping_add(rng.range(0, 8)).wrapping_sub(4),
                    _ => rng.u32() as u64,
                };
                put(&mut bytes, k, w, x);
            }
            8 => {
                let k = rng.below(len + 1) as usize;
                bytes.truncate(k);
            }
            9 => {
                let k = (rng.below(len) as usize) & !1;
                put(&mut bytes, k, 2, 0xFFFF);
            }
            10 => {
                let k = rng.below(len) as usize;
                let n = rng.range(1, 4).min(len - k as u64) as usize;
                bytes.drain(k..k + n);
            }
            _ => {
                let k = rng.below(len) as usize;
                let x = rng.next() as u8;
                bytes.insert(k, x);
            }
        }
    }
    bytes
}

/// A value to try instead of another.
fn boundary(rng: &mut Rng, old: u64, width: usize) -> u64 {
    match rng.below(10) {
        0 | 1 => 0,
        2 => old.wrapping_add(1),
        3 => old.wrapping_sub(1),
        4 => *rng.pick(&[1, 0x7FFF, 0x8000, 0x8001, 0xFFFE, 0xFFFF]),
        5 => rng.below(12),
        6 => rng.u16() as u64,
        7 => old | 0x8000,
        _ => old ^ 1 << rng.below(8 * width as u64),
    }
}

fn get(bytes: &[u8], at: usize, width: usize) -> u64 {
    bytes.iter().skip(at).take(width).fold(0, |x, b| x << 8 | *b as u64)
}

fn put(bytes: &mut [u8], at: usize, width: usize, x: u64) {
    let x = x.to_be_bytes();
    for (k, b) in x[8 - width..].iter().enumerate() {
        if at + k < bytes.len() {
            bytes[at + k] = *b;
        }
    }
}

/// Operations within which a read of a given reference cost must end.
fn allowance(cost: u64) -> u64 {
    20_000 + 64 * cost
}

fn read_plain(kind: Kind, data: &Arc<Vec<u8>>, at: u64, cost: u64) -> Got<V> {
    let mut tape = Tape::new(data.clone()).at(at);
    tape.limit = allowance(cost);
    guard(|| read_v(kind, &mut tape))
}

fn input(data: &[u8], at: u64) -> &[u8] {
    &data[(at as usize).min(data.len())..]
}

// Decoding.

type View = fn(V) -> V;

fn entire(v: V) -> V {
    v
}

/// A field of a structure.
fn field(v: V, name: &str) -> V {
    match v {
        V::S(s) => s.into_iter().find(|(n, _)| *n == name).map_or(V::N, |(_, v)| v),
        v => v,
    }
}

/// Leave out what lookups contain.
fn without_tables(v: V) -> V {
    match v {
        V::L(l) => V::L(l.into_iter().map(without_tables).collect()),
        V::S(s) => V::S(
            s.into_iter()
                .filter(|(n, _)| *n != "tables")
                .map(|(n, v)| (n, without_tables(v)))
                .collect(),
        ),
        V::E(n, v) => V::e(n, without_tables(*v)),
        v => v,
    }
}

fn only_lookups(v: V) -> V {
    match &v {
        V::S(s) if s.iter().any(|(n, _)| *n == "lookups") => field(v, "lookups"),
        _ => v,
    }
}

/// Judge a read of content that the reference accepts.
fn judge(
    case: &mut Case,
    what: &str,
    kind: Kind,
    expected: &V,
    got: Got<V>,
    view: View,
    data: &[u8],
    at: u64,
) -> bool {
    case.evaluate();
    let expected = view(expected.clone());
    let detail = match got {
        Got::Value(v) => match diff(&expected, &view(v)) {
            None => {
                if expected.leaves() > 1 {
                    case.observe(expected.digest());
                }
                if data.len() > 0xFFFF {
                    for list in expected.long_lists(0x7FFF) {
                        case.count(&format!("more than 32767 in {}: {list}", name_of(kind)), 1);
                    }
                }
                return true;
            }
            Some(difference) => format!("{kind:?} {what}: {difference}"),
        },
        got => format!("{kind:?} {what}: expected a value, got {}", got.describe()),
    };
    case.violation(format!("{kind:?}"), detail, input(data, at));
    false
}

/// A number of classes of marks.
fn classes(rng: &mut Rng) -> u16 {
    match rng.below(12) {
        0 if !crate::run::small() => *rng.pick(&[16, 31, 32, 33, 64, 127, 128, 255, 256, 257, 300, 1000, 4097]),
        _ => rng.below(6) as u16,
    }
}

fn decoding(case: &mut Case, kinds: &[Kind], tables: &[Kind], view: View) {
    let lens = Lens::built();
    let real = fixture_tables(tables);
    if let Some((fixture, kind, at)) = real.get(case.id as usize) {
        let d = decode(*kind, &fixture.bytes, *at, lens, u64::MAX);
        let name = fixture.name.clone();
        match d.value {
            Ok(v) if !d.taint => {
                let got = read_plain(*kind, &fixture.bytes, *at, d.cost);
                case.count("tables of real fonts", 1);
                judge(case, &format!("in {name}"), *kind, &v, got, view, &fixture.bytes, *at);
            }
            _ => case.count("tables of real fonts outside the specification", 1),
        }
        return;
    }
    let kind = match *case.rng.pick(kinds) {
        Kind::Bases(_) => Kind::Bases(classes(&mut case.rng)),
        Kind::PosLigatures(_) => Kind::PosLigatures(classes(&mut case.rng)),
        Kind::Mark2s(_) => Kind::Mark2s(classes(&mut case.rng)),
        Kind::Pair1s(..) => Kind::Pair1s(case.rng.below(256) as u16, case.rng.below(256) as u16),
        Kind::Single(_) => Kind::Single(case.rng.below(256) as u16),
        kind => kind,
    };
    if case.id > 100 && !crate::run::small() && case.rng.below(80) == 0 {
        return blank_lists(case, kind, view);
    }
    let style = measured(case, kind);
    let image = image_in_style(kind, &mut case.rng, lens, style);
    let cost = settle(&image, lens);
    case.count(&format!("{}", name_of(kind)), 1);
    if case.rng.chance(25) {
        // What is left well-formed by a change must be reported as changed.
        let bytes = mutate(&mut case.rng, &image);
        let (data, at) = surround(&mut case.rng, &bytes);
        let d = decode(kind, &data, at, lens, FUEL);
        if let (Ok(v), false) = (&d.value, d.taint) {
            let data = Arc::new(data);
            let got = read_plain(kind, &data, at, d.cost);
            case.count("rearranged by mutation", 1);
            judge(case, "after a mutation", kind, v, got, view, &data, at);
        }
    }
    if case.rng.chance(4) {
        overlapping(case, &image, view);
    }
    if case.rng.chance(20) {
        far_apart(case, &image, cost, view);
    }
    if case.rng.chance(15) {
        at_distance(case, &image, cost, view);
    }
    let placed = place(&mut case.rng, image);
    let got = read_plain(kind, &placed.data, placed.at, cost);
    case.sample(|| {
        format!("{kind:?} in {} bytes: {:?}", placed.image.bytes.len(), placed.image.value)
    });
    judge(case, "", kind, &placed.image.value, got, view, &placed.data, placed.at);
}

/// Very long lists of next to nothing, which only fit where they refer to themselves.
fn blank_lists(case: &mut Case, kind: Kind, view: View) {
    let mut spent = 0;
    for _ in 0..300 {
        let bytes = blanks(&mut case.rng);
        let d = decode(kind, &bytes, 0, Lens::built(), 4 * FUEL);
        spent += d.cost;
        if spent > 6 * FUEL {
            return;
        }
        if let (Ok(v), false) = (&d.value, d.taint) {
            let long = v.leaves() > 0x8000;
            // Long lists of numbers are easy to come by.
            if long && !v.has_long_list(0x7FFF) && case.rng.chance(80) {
                continue;
            }
            let data = Arc::new(bytes);
            let got = read_plain(kind, &data, 0, d.cost);
            case.count(
                &if long { format!("lists of more than 32768 blanks in {}", name_of(kind)) } else { "lists of blanks".into() },
                1,
            );
            judge(case, "with long lists", kind, v, got, view, &data, 0);
            if long {
                return;
            }
        }
    }
}

/// A few numbers and then only one.
fn blanks(rng: &mut Rng) -> Vec<u8> {
    // What offsets lead to has to be something, too: the start of the table, or the list itself.
    let inside = rng.chance(50);
    let fill = match inside {
        true => 2 * rng.range(1, 10) as u16,
        false => *rng.pick(&[0, 0, 0, 2, 2, 2, 1, 4, 6, 8]),
    };
    let mut header: Vec<u16> = match inside {
        true => (0..8).map(|_| *rng.pick(&[0, 0, 0, fill, fill, fill, 1, 2])).collect(),
        false => (0..8)
            .map(|k| match rng.below(12) {
                0..=4 => fill,
                5 | 6 => 0,
                7 | 8 => rng.range(1, 3) as u16,
                9 if k > 0 => rng.range(0x8000, 0xFFFF) as u16,
                10 if k > 0 => rng.range(0, 0x7FFF) as u16,
                _ => 2,
            })
            .collect(),
    };
    if inside || header[0] == 0 || rng.chance(30) {
        header[0] = rng.range(1, 3) as u16;
    }
    let n = if rng.chance(30) { *rng.pick(&[0x7FFF, 0x8000, 0xFFFE, 0xFFFF, 0xFFFF]) } else { rng.range(0x8000, 0xFFFF) };
    let at = rng.range(if inside { 0 } else { 1 }, 5) as usize;
    if inside {
        header[at..].fill(fill);
    }
    if inside || rng.chance(85) {
        header[at] = n as u16;
    }
    let mut bytes = words(&header);
    let more = rng.range(70_000, 140_000) as usize;
    bytes.extend([0, fill as u8].repeat(more));
    bytes
}

/// A style in which one list is perhaps of a length that is chosen for it.
fn measured(case: &mut Case, kind: Kind) -> Style {
    let mut style = Style::random(&mut case.rng);
    if crate::run::small() || !case.rng.chance(20) {
        return style;
    }
    // See what lists there are.
    let trial = Style { budget: 400, null: 20, large: 0, force: UNFORCED, ..style };
    let sorts = spec::generate(kind, &mut case.rng, trial, Lens::built()).sorts;
    if sorts.is_empty() {
        return style;
    }
    let sort = *case.rng.pick(&sorts);
    let n = match case.rng.below(10) {
        0..=4 => case.rng.range(0, 300),
        5..=7 => (1u64 << case.rng.range(1, 16)).saturating_add_signed(case.rng.range(0, 2) as i64 - 1),
        8 => case.rng.range(300, 5000),
        _ => case.rng.range(0, 0xFFFF) >> case.rng.below(6),
    };
    style.given = Some((sort, n.min(0xFFFF) as u16));
    style.force = UNFORCED;
    style.large = 0;
    // What the list refers to has to be close enough.
    style.budget = style.budget.min(1500);
    style.share = *case.rng.pick(&[60, 95, 98]);
    style.null = *case.rng.pick(&[0, 20, 50]);
    case.count("lists of a chosen length", 1);
    style
}

/// Read a structure of which a part lies as far away as its offset can tell.
fn far_apart(case: &mut Case, image: &Image, cost: u64, view: View) {
    if image.long.is_empty() {
        return;
    }
    let &(k, base, target) = case.rng.pick(&image.long);
    let offset = match case.rng.below(3) {
        0 => case.rng.range(0x10_0000, 0xFFFF_FFFF),
        _ => *case.rng.pick(&[
            0xFF_FFFF, 0x100_0000, 0x7FFF_FFFE, 0x7FFF_FFFF, 0x8000_0000, 0x8000_0001, 0x8001_0000, 0xFFFF_0000,
            0xFFFF_FFFE, 0xFFFF_FFFF,
        ]),
    };
    let mut bytes = image.bytes.clone();
    let from = bytes.len() as u64;
    if base as u64 + offset < from {
        return;
    }
    put(&mut bytes, k, 4, offset);
    // Whatever is led to from there comes after it.
    bytes.extend_from_slice(&image.bytes[target..]);
    let mut tape = Tape::from_vec(bytes.clone());
    tape.hole = Some((from, base as u64 + offset - from));
    tape.limit = 2 * allowance(cost);
    let got = match guard(|| read_v(image.kind, &mut tape)) {
        Got::Value(v) => Got::Value(view(v).without_offsets()),
        got => got,
    };
    case.count("parts far away", 1);
    let expected = view(image.value.clone()).without_offsets();
    let what = format!("with the offset {offset:#X} at {k}, of which {from} bytes come first,");
    judge(case, &what, image.kind, &expected, got, entire, &bytes, 0);
}

/// Read a structure of which some part is led to by an offset at which something may change.
fn at_distance(case: &mut Case, image: &Image, cost: u64, view: View) {
    if image.short.is_empty() {
        return;
    }
    let &(k, base, target) = case.rng.pick(&image.short);
    let offset = match case.rng.below(4) {
        0 => case.rng.range(0x100, 0xFFFF) as usize,
        _ => *case.rng.pick(&[0x7FFE, 0x7FFF, 0x8000, 0x8001, 0xC000, 0xFFFE, 0xFFFF, 0xFFFF]),
    };
    let mut bytes = image.bytes.clone();
    if base + offset < bytes.len() {
        return;
    }
    put(&mut bytes, k, 2, offset as u64);
    let filling = case.rng.below(256) as u8;
    bytes.resize(base + offset, filling);
    // Whatever is led to from there comes after it.
    bytes.extend_from_slice(&image.bytes[target..]);
    let data = Arc::new(bytes);
    let mut tape = Tape::new(data.clone());
    tape.limit = 2 * allowance(cost);
    let got = match guard(|| read_v(image.kind, &mut tape)) {
        Got::Value(v) => Got::Value(view(v).without_offsets()),
        got => got,
    };
    case.count("parts at a chosen distance", 1);
    let expected = view(image.value.clone()).without_offsets();
    judge(case, &format!("with the offset {offset:#X} at {k}"), image.kind, &expected, got, entire, &data, 0);
}

/// Read a structure whose parts lie over one another, possibly with a count that they would not
/// have room for otherwise.
fn overlapping(case: &mut Case, image: &Image, view: View) {
    let rng = &mut case.rng;
    let huge = rng.chance(40);
    let mut bytes = image.bytes.clone();
    let most = if rng.chance(70) { 8 } else { 24 };
    let keep = rng.below(most) as usize * 2;
    bytes.truncate(keep);
    if huge {
        let n = *rng.pick(&[0x7FFF, 0x8000, 0x8001, 0xC000, 0xFFFE, 0xFFFF, 300, 4097]);
        bytes.extend_from_slice(&u16::to_be_bytes(n));
    }
    let period = rng.range(1, 3) as usize;
    let pattern: Vec<u16> = (0..period)
        .map(|_| match rng.below(12) {
            0..=2 => 0,
            3..=9 => rng.below(5) as u16 * 2,
            10 => rng.below(6) as u16,
            _ => rng.u16(),
        })
        .collect();
    let words = if huge { rng.range(70_000, 140_000) } else { rng.range(20, 400) } as usize;
    for k in 0..words {
        let word = if !huge && rng.chance(20) { rng.below(9) as u16 } else { pattern[k % period] };
        bytes.extend_from_slice(&word.to_be_bytes());
    }
    let kind = image.kind;
    let d = decode(kind, &bytes, 0, Lens::built(), FUEL);
    if let (Ok(v), false) = (&d.value, d.taint) {
        let data = Arc::new(bytes);
        let got = read_plain(kind, &data, 0, d.cost);
        case.count(if huge { "overlapping with a huge count" } else { "overlapping" }, 1);
        judge(case, "with overlapping parts", kind, v, got, view, &data, 0);
    }
}

fn name_of(kind: Kind) -> String {
    let name = format!("{kind:?}");
    match kind {
        Kind::Sub(_) | Kind::Pos(_) => name,
        _ => name.split('(').next().unwrap().into(),
    }
}

fn p02(case: &mut Case) {
    decoding(
        case,
        &[
            Kind::Sub(1),
            Kind::Sub(2),
            Kind::Sub(3),
            Kind::Sub(4),
            Kind::Sub(5),
            Kind::Sub(6),
            Kind::Sub(7),
            Kind::Sub(8),
            Kind::Sub(1),
            Kind::Sub(2),
            Kind::Sub(3),
            Kind::Sub(4),
            Kind::Sub(8),
            Kind::SubLookups,
            Kind::SubLookups,
            Kind::Gsub,
            Kind::Gsub,
        ],
        &[Kind::Gsub],
        only_lookups,
    );
}

/// Read a matrix with so many cells that what comes with it lies over them.
fn wide_matrix(case: &mut Case) {
    let rng = &mut case.rng;
    let &(f1, f2) = rng.pick(&[(4, 0), (0, 4), (1, 8), (8, 2), (0, 3)]);
    let cell = u16::count_ones(f1) as u64 + u16::count_ones(f2) as u64;
    let rows = match rng.below(3) {
        0 => 256,
        1 => rng.range(2, 600),
        _ => *rng.pick(&[1, 2, 255, 257, 300, 32768, 65535]),
    };
    let columns = (rng.range(30_000, 140_000) / cell / rows).clamp(1, 65_535);
    let (c, k1, k2) = (16 + 4 * rng.below(5), 16 + 4 * rng.below(5), 16 + 4 * rng.below(5));
    let mut bytes = words(&[2, c as u16, f1, f2, k1 as u16, k2 as u16, rows as u16, columns as u16]);
    let (a, b) = (1, rng.below(3) as u16);
    for k in 0..rows * columns * cell + 16 {
        let word = match k {
            0..=15 => if k % 2 == 0 { a } else { b },
            _ => rng.u16(),
        };
        bytes.extend_from_slice(&word.to_be_bytes());
    }
    let d = decode(Kind::Pos(2), &bytes, 0, Lens::built(), 4 * FUEL);
    if let (Ok(v), false) = (&d.value, d.taint) {
        let data = Arc::new(bytes);
        let got = read_plain(Kind::Pos(2), &data, 0, d.cost);
        case.count(if rows * columns > 0xFFFF { "matrices of more than 65535 cells" } else { "large matrices" }, 1);
        judge(case, "with a large matrix", Kind::Pos(2), v, got, entire, &data, 0);
    }
}

fn p03(case: &mut Case) {
    if case.id > 100 && case.rng.below(400) == 0 {
        return wide_matrix(case);
    }
    decoding(
        case,
        &[
            Kind::Pos(1),
            Kind::Pos(2),
            Kind::Pos(3),
            Kind::Pos(4),
            Kind::Pos(5),
            Kind::Pos(6),
            Kind::Pos(7),
            Kind::Pos(8),
            Kind::Pos(9),
            Kind::Pos(1),
            Kind::Pos(2),
            Kind::Pos(3),
            Kind::Pos(4),
            Kind::Pos(5),
            Kind::Pos(6),
            Kind::Mark1s,
            Kind::Bases(0),
            Kind::PosLigatures(0),
            Kind::Mark2s(0),
            Kind::Pair1s(0, 0),
            Kind::Single(0),
            Kind::PosLookups,
            Kind::PosLookups,
            Kind::Gpos,
            Kind::Gpos,
        ],
        &[Kind::Gpos],
        only_lookups,
    );
}

fn p04(case: &mut Case) {
    decoding(
        case,
        &[
            Kind::Context,
            Kind::Chained,
            Kind::Context,
            Kind::Chained,
            Kind::Sub(5),
            Kind::Sub(6),
            Kind::Pos(7),
            Kind::Pos(8),
        ],
        &[],
        entire,
    );
}

fn p05(case: &mut Case) {
    if case.id % 3 == 0 && case.id > 30 {
        return searching(case);
    }
    decoding(
        case,
        &[
            Kind::Scripts,
            Kind::Script,
            Kind::LangSys,
            Kind::Features,
            Kind::Feature,
            Kind::SubLookups,
            Kind::PosLookups,
            Kind::Gsub,
            Kind::Gpos,
        ],
        &[Kind::Gsub, Kind::Gpos],
        without_tables,
    );
}

/// Search by tag.
fn searching(case: &mut Case) {
    let lens = Lens::built();
    let kind = *case.rng.pick(&[Kind::Scripts, Kind::Script, Kind::Features]);
    let mut style = Style::random(&mut case.rng);
    style.large = 0;
    style.force = if case.rng.chance(4) { case.rng.below(3) } else { UNFORCED };
    if case.rng.chance(20) {
        // Many entries, rather than large ones.
        style.budget = style.budget.max(case.rng.range(1000, 6000) as i64);
        style.share = style.share.max(60);
    }
    let image = image_in_style(kind, &mut case.rng, lens, style);
    settle(&image, lens);
    let (headers, records) = match kind {
        Kind::Script => ("language_headers", "language_records"),
        _ => ("headers", "records"),
    };
    let V::L(headers) = field(image.value.clone(), headers) else { unreachable!() };
    let V::L(records) = field(image.value.clone(), records) else { unreachable!() };
    let stored: Vec<[u8; 4]> = headers
        .into_iter()
        .map(|v| match field(v, "tag") {
            V::T(t) => t,
            _ => unreachable!(),
        })
        .collect();
    let mut tags = stored.clone();
    for tag in &stored {
        let mut near = *tag;
        near[case.rng.below(4) as usize] ^= 1 << case.rng.below(8);
        tags.push(near);
        near = *tag;
        near.reverse();
        tags.push(near);
        tags.push(tag.map(|b| b.to_ascii_uppercase()));
        tags.push(tag.map(|b| b.to_ascii_lowercase()));
    }
    if tags.len() > 1000 {
        for _ in 0..500 {
            let k = case.rng.below(tags.len() as u64) as usize;
            let tag = tags.swap_remove(k);
            tags.push(tag);
        }
        tags.drain(..tags.len() - 500);
    }
    tags.extend([*b"DFLT", *b"dflt", *b"    ", [0; 4]]);
    for _ in 0..8 {
        tags.push(crate::tags::random(&mut case.rng).to_be_bytes());
    }
    let placed = place(&mut case.rng, image);
    let mut tape = Tape::new(placed.data.clone()).at(placed.at);
    let search = |tags: &[[u8; 4]]| -> Got<Vec<[V; 2]>> {
        macro_rules! each(
            ($table:expr, $enumeration:ty) => ({
                let table = $table;
                Ok(tags
                    .iter()
                    .map(|tag| {
                        let tag = Tag(*tag);
                        let by_name = <$enumeration>::from_tag(&tag);
                        [
                            table.get(tag.clone()).map_or(V::N, Val::val),
                            table.get(by_name).map_or(V::N, Val::val),
                        ]
                    })
                    .collect())
            });
        );
        match kind {
            Kind::Scripts => {
                guard(|| each!(tape.take::<Scripts>()?, script::Script))
            }
            Kind::Script => {
                guard(|| each!(tape.take::<script::Record>()?, language::Language))
            }
            _ => guard(|| each!(tape.take::<Features>()?, feature::Feature)),
        }
    };
    let mut search = search;
    match search(&tags) {
        Got::Value(found) => {
            for (tag, found) in tags.iter().zip(found) {
                let expected = stored
                    .iter()
                    .position(|t| t == tag)
                    .map_or(V::N, |k| records[k].clone());
                case.evaluate();
                case.count(if expected == V::N { "searches in vain" } else { "searches" }, 1);
                for (v, how) in found.iter().zip(["tag", "name"]) {
                    if let Some(difference) = diff(&expected, v) {
                        case.violation(
                            format!("search {kind:?}"),
                            format!(
                                "{kind:?}: searching for {:?} by {how} among {:?}: {difference}",
                                show(tag),
                                stored.iter().map(show).collect::<Vec<_>>()
                            ),
                            &placed.image.bytes,
                        );
                    }
                }
                if expected != V::N {
                    case.observe(expected.digest() ^ hash(tag));
                }
            }
        }
        got => {
            case.evaluate();
            case.violation(
                format!("search {kind:?}"),
                format!("{kind:?}: expected a value, got {}", got.describe()),
                &placed.image.bytes,
            );
        }
    }
}

fn show(tag: &[u8; 4]) -> String {
    tag.iter().map(|b| std::ascii::escape_default(*b).to_string()).collect()
}

fn p06(case: &mut Case) {
    decoding(
        case,
        &[
            Kind::Gdef,
            Kind::Gdef,
            Kind::Gdef,
            Kind::Gdef,
            Kind::Attachments,
            Kind::CaretLigatures,
            Kind::Caret,
            Kind::MarkSets,
            Kind::Store,
            Kind::StoreRecord,
        ],
        &[Kind::Gdef],
        entire,
    );
}

fn p07(case: &mut Case) {
    let lens = Lens::built();
    let kind = *case.rng.pick(&[
        Kind::Coverage,
        Kind::Class,
        Kind::Correction,
        Kind::Correction,
        Kind::Anchor,
        Kind::Anchor,
        Kind::SubLookups,
        Kind::PosLookups,
    ]);
    if !matches!(kind, Kind::SubLookups | Kind::PosLookups) && case.rng.chance(50) {
        return alone(case, kind);
    }
    decoding(case, &[kind], &[], if kind == Kind::Anchor { entire } else { without_tables });
    let _ = lens;
}

/// The structure is followed by another, or by nothing.
fn alone(case: &mut Case, kind: Kind) {
    let lens = Lens::built();
    let style = Style { large: 30, ..Style::random(&mut case.rng) };
    let image = image_in_style(kind, &mut case.rng, lens, style);
    let cost = settle(&image, lens);
    let before = case.rng.below(30);
    let mut data = noise(&mut case.rng, before);
    data.extend_from_slice(&image.bytes);
    let end = data.len() as u64;
    let nothing = case.rng.chance(60);
    if !nothing {
        let n = case.rng.range(1, 20);
        data.extend(noise(&mut case.rng, n));
    }
    case.count(if nothing { "at the end of the file" } else { "followed by other data" }, 1);
    let data = Arc::new(data);
    let mut tape = Tape::new(data.clone()).at(before);
    tape.limit = allowance(cost);
    let got = guard(|| read_v(kind, &mut tape));
    let after = tape.whereabouts();
    let high = tape.high;
    case.sample(|| format!("{kind:?} alone in {} bytes: {:?}", image.bytes.len(), image.value));
    if judge(case, "alone", kind, &image.value, got, entire, &data, before)
        && (after > end || high > end)
    {
        case.violation(
            format!("{kind:?} consumption"),
            format!(
                "{kind:?} ends at {} but reading went up to {} and stopped at {}",
                end - before,
                high - before,
                after as i64 - before as i64
            ),
            &image.bytes,
        );
    }
}

fn p08(case: &mut Case) {
    decoding(case, &[Kind::Fvar], &[Kind::Fvar], entire);
}

fn p09(case: &mut Case) {
    if case.id > 100 && case.rng.chance(25) {
        return wander(case);
    }
    decoding(case, &[Kind::Cpal], &[Kind::Cpal], entire);
}

/// Iterate over palettes and over their entries in all the ways there are.
fn wander(case: &mut Case) {
    let lens = Lens::built();
    let mut style = Style::random(&mut case.rng);
    style.budget = style.budget.min(1500);
    let image = image_in_style(Kind::Cpal, &mut case.rng, lens, style);
    settle(&image, lens);
    let V::L(palettes) = field(image.value.clone(), "palettes") else { unreachable!() };
    let mut tape = Tape::from_vec(image.bytes.clone());
    let rng = &mut case.rng;
    let got = guard(|| {
        let table: cpal::ColorPalettes = tape.take()?;
        let mut steps = 0;
        for _ in 0..6 {
            let colors = |rng: &mut Rng, i: usize, palette| {
                let V::L(expected) = &palettes[i] else { unreachable!() };
                Ok(match rng.below(2) {
                    0 => roam(rng, palette, expected.len(), |_, i, color: &cpal::Color| {
                        match color.val() == expected[i] {
                            true => Ok(1),
                            false => Err(format!("entry {i} is {:?}, not {:?}", color.val(), expected[i])),
                        }
                    })?,
                    _ => 0,
                })
            };
            match roam(rng, table.iter(), palettes.len(), |rng, i, palette| {
                colors(rng, i, palette).map_err(|e: String| format!("in palette {i}, {e}"))
            }) {
                Ok(n) => steps += n,
                Err(e) => return Ok(Err(e)),
            }
        }
        Ok(Ok(steps))
    });
    case.evaluate();
    case.observe(image.value.digest());
    let detail = match got {
        Got::Value(Ok(steps)) => return case.count("steps of iteration", steps),
        Got::Value(Err(e)) => e,
        got => got.describe(),
    };
    case.violation("Cpal iteration", format!("iterating: {detail}"), &image.bytes);
}

/// Go through items in some way, telling the number of items seen.
fn roam<T>(
    rng: &mut Rng,
    items: impl Iterator<Item = T>,
    n: usize,
    mut see: impl FnMut(&mut Rng, usize, T) -> std::result::Result<u64, String>,
) -> std::result::Result<u64, String> {
    let mut items = items;
    let mut steps = 0;
    let mut i = 0;
    loop {
        let (low, high) = items.size_hint();
        if low > n - i || high.map_or(false, |high| high < n - i) {
            return Err(format!("after {i} of {n} items, there are said to be {low} to {high:?} more"));
        }
        let (what, expected) = match rng.below(20) {
            0 => {
                let rest = items.count();
                return if rest == n - i { Ok(steps) } else { Err(format!("after {i} of {n} items, {rest} are counted")) };
            }
            1 => {
                return match (items.last(), i < n) {
                    (Some(item), true) => Ok(steps + see(rng, n - 1, item)?),
                    (None, false) => Ok(steps),
                    (item, _) => Err(format!("after {i} of {n} items, the last is there: {}", item.is_some())),
                };
            }
            2 => {
                // All that remain.
                return items.try_fold((i, steps), |(i, steps), item| {
                    if i == n {
                        return Err(format!("there are more items than {n}"));
                    }
                    Ok((i + 1, steps + see(rng, i, item)?))
                }).and_then(|(i, steps)| if i == n { Ok(steps) } else { Err(format!("there are {i} items, not {n}")) });
            }
            3 => {
                let mut seen = vec![];
                items.for_each(|item| seen.push(item));
                let (from, count) = (i, seen.len());
                if count != n - from {
                    return Err(format!("after {from} of {n} items, there are {count} more"));
                }
                for (k, item) in seen.into_iter().enumerate() {
                    steps += see(rng, from + k, item)?;
                }
                return Ok(steps);
            }
            4..=8 => {
                let k = match rng.below(4) {
                    0 => 0,
                    1 => n - i,
                    2 => rng.below((n - i) as u64 + 2) as usize,
                    _ => rng.below(3) as usize,
                };
                (items.nth(k), i + k)
            }
            _ => (items.next(), i),
        };
        match (what, expected < n) {
            (Some(item), true) => steps += see(rng, expected, item)?,
            (None, false) => return Ok(steps),
            (item, _) => return Err(format!("item {expected} of {n} is there: {}", item.is_some())),
        }
        i = expected + 1;
    }
}

fn p24(case: &mut Case) {
    let lens = Lens::built();
    let kind = match case.rng.below(12) {
        0..=2 => Kind::Gdef,
        3 => Kind::Script,
        4 => Kind::Anchor,
        5 => Kind::Context,
        6 => Kind::Chained,
        7 => Kind::Pos(3),
        8 => *case.rng.pick(&[Kind::Gsub, Kind::Gpos]),
        9 => Kind::Single(case.rng.below(256) as u16),
        10 => *case.rng.pick(&[Kind::Pos(1), Kind::Pos(2), Kind::Pos(4), Kind::Pos(5), Kind::Pos(6)]),
        _ => any_kind(&mut case.rng),
    };
    let mut style = Style::random(&mut case.rng);
    style.null = *case.rng.pick(&[20, 50, 50, 80]);
    let image = image_in_style(kind, &mut case.rng, lens, style);
    let cost = settle(&image, lens);
    if image.nulls.is_empty() {
        case.count("without optional parts", 1);
        return;
    }
    case.count("optional parts", image.nulls.len() as u64);
    case.count(
        "optional parts left out",
        image.nulls.iter().filter(|&&(k, w)| get(&image.bytes, k, w) == 0).count() as u64,
    );
    let present = |v: V| v.presence();
    let placed = place(&mut case.rng, image);
    let got = read_plain(kind, &placed.data, placed.at, cost);
    judge(case, "presence", kind, &placed.image.value, got, present, &placed.data, placed.at);
    // Leave out one part more.
    let mut bytes = placed.image.bytes.clone();
    let &(k, w) = case.rng.pick(&placed.image.nulls);
    put(&mut bytes, k, w, 0);
    let d = decode(kind, &bytes, 0, lens, FUEL);
    if let (Ok(v), false) = (&d.value, d.taint) {
        let data = Arc::new(bytes);
        let got = read_plain(kind, &data, 0, d.cost);
        case.sample(|| format!("{kind:?} with presence {:?}", v.presence()));
        judge(case, "with one part less", kind, v, got, present, &data, 0);
    }
}

// Refusals.

/// Judge a read of content that the reference refuses.
fn judge_refusal(case: &mut Case, what: &str, kind: Kind, got: Got<V>, data: &[u8], at: u64) {
    case.evaluate();
    case.observe(hash(input(data, at)));
    match got {
        Got::Error(_) => {}
        Got::Value(v) => {
            let mut text = format!("{v:?}");
            text.truncate((0..=300.min(text.len())).rev().find(|&n| text.is_char_boundary(n)).unwrap_or(0));
            case.violation(
                format!("{kind:?} accepted"),
                format!("{kind:?} {what} is accepted as {text}"),
                input(data, at),
            );
        }
        Got::Panic(s) => case.violation(
            format!("{kind:?} panic"),
            format!("{kind:?} {what} leads to the panic {s}"),
            input(data, at),
        ),
    }
}

fn p10(case: &mut Case) {
    let lens = Lens::built();
    if case.id % 16 == 7 {
        return signatures(case);
    }
    let kind = any_kind(&mut case.rng);
    if case.id % 8 == 3 {
        return sweep(case, kind);
    }
    let style = Style { large: 0, force: UNFORCED, ..Style::random(&mut case.rng) };
    let image = image_in_style(kind, &mut case.rng, lens, style);
    settle(&image, lens);
    for _ in 0..12 {
        let mut bytes = image.bytes.clone();
        let what;
        if !image.links.is_empty() && case.rng.chance(25) {
            let &(k, w) = case.rng.pick(&image.links);
            put(&mut bytes, k, w, 0);
            what = format!("with no offset at {k}");
        } else if !image.sites.is_empty() {
            let &(k, w) = case.rng.pick(&image.sites);
            let old = get(&bytes, k, w);
            let x = match case.rng.below(6) {
                0 => old + 1,
                1 => old.wrapping_sub(1),
                2 => 0,
                3 => old ^ 1 << case.rng.below(8 * w as u64),
                4 => old | 0x8000,
                _ => case.rng.u16() as u64,
            };
            put(&mut bytes, k, w, x);
            what = format!("with {:#x} at {k} instead of {old:#x}", get(&bytes, k, w));
        } else {
            return;
        }
        let (data, at) = surround(&mut case.rng, &bytes);
        let d = decode(kind, &data, at, lens, FUEL);
        if d.taint || d.value != Err(Rej::Bad) {
            case.count("still well-formed or undecided", 1);
            continue;
        }
        case.count("malformed", 1);
        case.sample(|| format!("{kind:?} {what}: {}", crate::run::hex(&bytes)));
        let data = Arc::new(data);
        let got = read_plain(kind, &data, at, d.cost.max(1000));
        judge_refusal(case, &what, kind, got, &data, at);
    }
}

/// Every value of a field that decides well-formedness.
fn sweep(case: &mut Case, kind: Kind) {
    let lens = Lens::built();
    let style = Style { large: 0, force: UNFORCED, budget: 300, ..Style::random(&mut case.rng) };
    let image = image_in_style(kind, &mut case.rng, lens, style);
    settle(&image, lens);
    if image.sites.is_empty() || image.bytes.len() > 2000 {
        return;
    }
    let &(k, w) = case.rng.pick(&image.sites);
    let old = get(&image.bytes, k, w);
    let step = if case.config.thorough { 1 } else { 7 };
    let mut x = case.rng.below(step);
    let mut bytes = image.bytes.clone();
    case.count("fields swept", 1);
    while x < 0x10000 {
        put(&mut bytes, k, w, x);
        let d = decode(kind, &bytes, 0, lens, 20_000);
        if !d.taint && d.value == Err(Rej::Bad) {
            let data = Arc::new(bytes.clone());
            let got = read_plain(kind, &data, 0, d.cost.max(1000));
            case.count("malformed", 1);
            judge_refusal(case, &format!("with {x:#x} at {k} instead of {old:#x}"), kind, got, &data, 0);
            if !case.stats.violations.is_empty() {
                return;
            }
        }
        x += if x < 16 || x >= 0xFFF0 { 1 } else { step };
    }
}

/// Files with signatures of all sorts.
fn signatures(case: &mut Case) {
    let tables = [(*b"GDEF", noise(&mut case.rng, 16))];
    let built = font::build(&mut case.rng, &tables);
    let mut candidates: Vec<[u8; 4]> = vec![*b"ttcf", *b"wOFF", *b"wOF2", [0; 4], *b"OTTo", [0, 2, 0, 0]];
    for signature in font::SIGNATURES {
        candidates.push(*signature);
        for bit in 0..32 {
            candidates.push((u32::from_be_bytes(*signature) ^ 1 << bit).to_be_bytes());
        }
    }
    for _ in 0..50 {
        candidates.push((case.rng.next() as u32).to_be_bytes());
        candidates.push(crate::tags::registered(&mut case.rng));
    }
    for signature in candidates {
        let mut bytes = built.bytes.clone();
        bytes[..4].copy_from_slice(&signature);
        let good = font::SIGNATURES.contains(&signature);
        let mut tape = Tape::from_vec(bytes.clone());
        let got = guard(|| File::read(&mut tape).map(|file| file.fonts.len()));
        case.evaluate();
        case.observe(hash(&signature));
        case.count(if good { "recognised signatures" } else { "unrecognised signatures" }, 1);
        match (good, got) {
            (true, Got::Value(1)) | (false, Got::Error(_)) => {}
            (_, got) => case.violation(
                "signature",
                format!("a file starting with {:?} comes to {}", show(&signature), got.describe()),
                &bytes,
            ),
        }
    }
}

/// What `accept` says and what opening a file says.
fn p27(case: &mut Case) {
    if case.id < 64 && !crate::run::small() {
        // All flags there are.
        for bits in (case.id as u32 * 1024..).take(1024) {
            case.evaluate();
            match guard(|| Ok(vals::flags_problem(bits as u16))) {
                Got::Value(None) => case.count("flags", 4),
                Got::Value(Some(problem)) => return case.violation("flags", problem, &(bits as u16).to_be_bytes()),
                got => return case.violation("flags", format!("{bits:#x}: {}", got.describe()), &(bits as u16).to_be_bytes()),
            }
        }
        return;
    }
    if case.id == 64 {
        case.evaluate();
        return match guard(|| Ok(vals::defaults())) {
            Got::Value(values) => {
                for (name, value) in values {
                    case.count("default values", 1);
                    if !value.is_blank() {
                        case.violation(format!("{name} default"), format!("{name} is by default {value:?}"), &[]);
                    }
                }
            }
            got => case.violation("default", got.describe(), &[]),
        };
    }
    if case.rng.chance(10) {
        return comparisons(case);
    }
    let lens = Lens::built();
    let kind = any_kind(&mut case.rng);
    let one = image(kind, &mut case.rng, lens);
    let two = image(kind, &mut case.rng, lens);
    settle(&one, lens);
    settle(&two, lens);
    let (mut a, mut b) = (Tape::from_vec(one.bytes.clone()), Tape::from_vec(two.bytes.clone()));
    let got = guard(|| vals::copies(kind, &mut a, &mut b));
    case.evaluate();
    if one.value.leaves() > 1 {
        case.observe(one.value.digest());
    }
    case.count(&name_of(kind), 1);
    case.sample(|| format!("{kind:?} copied in place of another: {:?}", one.value));
    let detail = match got {
        Got::Value(Ok(())) => return,
        Got::Value(Err(e)) => e,
        got => got.describe(),
    };
    case.violation(format!("{kind:?} copied"), format!("{kind:?}: {detail}"), &one.bytes);
}

/// Compare what tags stand for.
fn comparisons(case: &mut Case) {
    use opentype::layout::{Feature, Language, Script};
    use std::cmp::Ordering;
    use std::hash::{Hash, Hasher};
    fn digest<T: Hash>(value: &T) -> u64 {
        let mut hasher = std::collections::hash_map::DefaultHasher::new();
        value.hash(&mut hasher);
        hasher.finish()
    }
    fn problem<T: Copy + Ord + Hash + std::fmt::Debug>(tags: &[[u8; 4]], make: impl Fn(&Tag) -> T) -> Option<String> {
        let values: Vec<T> = tags.iter().map(|tag| make(&Tag(*tag))).collect();
        for (i, a) in values.iter().enumerate() {
            for (j, b) in values.iter().enumerate() {
                let same = tags[i] == tags[j];
                let order = a.cmp(b);
                #[allow(clippy::clone_on_copy)]
                let copy = a.clone();
                let fine = (a == b) == same
                    && (a != b) != same
                    && (order == Ordering::Equal) == same
                    && a.partial_cmp(b) == Some(order)
                    && b.cmp(a) == order.reverse()
                    && (a < b) == (order == Ordering::Less)
                    && (a >= b) == (order != Ordering::Less)
                    && (*a.max(b) == *b) == (order != Ordering::Greater)
                    && copy.cmp(b) == order
                    && (!same || digest(a) == digest(b))
                    && (!same || format!("{a:?}") == format!("{b:?}"));
                if !fine {
                    return Some(format!("{} and {} compare as {order:?}", show(&tags[i]), show(&tags[j])));
                }
            }
        }
        // An order that is not one puts them differently depending on where they were.
        let mut one: Vec<usize> = (0..values.len()).collect();
        let mut two: Vec<usize> = one.iter().rev().copied().collect();
        one.sort_by(|i, j| values[*i].cmp(&values[*j]));
        two.sort_by(|i, j| values[*i].cmp(&values[*j]));
        let tags = |order: &[usize]| order.iter().map(|k| tags[*k]).collect::<Vec<_>>();
        if tags(&one) != tags(&two) {
            return Some("the order depends on where the values are".into());
        }
        None
    }
    let mut tags: Vec<[u8; 4]> = vec![];
    for _ in 0..10 {
        let mut tag = match case.rng.below(5) {
            0 => crate::tags::random(&mut case.rng).to_be_bytes(),
            1 if !tags.is_empty() => *case.rng.pick(&tags),
            _ => crate::tags::registered(&mut case.rng),
        };
        if case.rng.chance(20) {
            tag[case.rng.below(4) as usize] ^= *case.rng.pick(&[1, 2, 0x20, 0x80]);
        }
        tags.push(tag);
    }
    let got = guard(|| {
        Ok(problem(&tags, Script::from_tag)
            .map(|p| format!("scripts: {p}"))
            .or_else(|| problem(&tags, Feature::from_tag).map(|p| format!("features: {p}")))
            .or_else(|| problem(&tags, Language::from_tag).map(|p| format!("languages: {p}"))))
    });
    case.evaluate();
    case.count("pairs of tags compared", 300);
    let bytes = tags.concat();
    match got {
        Got::Value(None) => case.observe(hash(&bytes)),
        Got::Value(Some(problem)) => case.violation("comparisons", problem, &bytes),
        got => case.violation("comparisons", got.describe(), &bytes),
    }
}

fn p26(case: &mut Case) {
    if case.id >= 40 && !cfg!(debug_assertions) && case.id < 40 + (1 << 12) {
        // All signatures there are.
        let page = ((case.id - 40) as u32) << 20;
        for low in 0..1u32 << 20 {
            let tag = (page | low).to_be_bytes();
            let font = font::SIGNATURES.contains(&tag);
            let expected = font || tag == *b"ttcf";
            if opentype::accept(&Tag(tag)) != expected {
                case.violation("accept", format!("{:?} is recognised: {}", show(&tag), !expected), &tag);
            }
            if case.config.thorough && tag != *b"ttcf" {
                // A file without tables.
                let mut data = [0; 12];
                data[..4].copy_from_slice(&tag);
                let got = guard(|| File::read(&mut std::io::Cursor::new(&data[..])));
                if !matches!((font, &got), (true, Got::Value(_)) | (false, Got::Error(_))) {
                    case.violation("opening", format!("{:?} without tables comes to {}", show(&tag), got.describe()), &data);
                }
            }
        }
        case.stats.evaluations += 1 << 20;
        case.count("pages of 2^20 signatures", 1);
        return;
    }
    let lens = Lens::built();
    let (built, images) = random_font(case, 6);
    let mut candidates: Vec<[u8; 4]> = vec![*b"wOFF", *b"wOF2", [0; 4], [0, 2, 0, 0], [0xFF; 4], [0, 0, 1, 0]];
    for signature in font::SIGNATURES.iter().chain([b"ttcf"]) {
        candidates.push(*signature);
        candidates.push(signature.map(|b| b.to_ascii_uppercase()));
        candidates.push(signature.map(|b| b.to_ascii_lowercase()));
        for k in 0..4 {
            let mut other = *signature;
            other.rotate_left(k);
            candidates.push(other);
            other.reverse();
            candidates.push(other);
            let mut near = *signature;
            near[k] = b' ';
            candidates.push(near);
            near[k] = case.rng.next() as u8;
            candidates.push(near);
        }
        for bit in 0..32 {
            candidates.push((u32::from_be_bytes(*signature) ^ 1 << bit).to_be_bytes());
        }
    }
    for _ in 0..300 {
        candidates.push((case.rng.next() as u32).to_be_bytes());
        candidates.push(crate::tags::registered(&mut case.rng));
    }
    // A collection of the font, as the specification has it.
    let mut collection = b"ttcf".to_vec();
    collection.extend(words(&[1, 0, 0, 1, 0, 16]));
    collection.extend_from_slice(&built.bytes);
    let at = case.rng.below(40);
    for signature in candidates {
        let collected = signature == *b"ttcf" && case.rng.chance(50);
        let mut bytes = if collected { collection.clone() } else { built.bytes.clone() };
        bytes[..4].copy_from_slice(&signature);
        let font = font::SIGNATURES.contains(&signature);
        let recognised = font || signature == *b"ttcf";
        let told = guard(|| Ok(opentype::accept(&Tag(signature))));
        // The beginning of a file may be anywhere.
        let mut data = noise(&mut case.rng, at);
        data.extend_from_slice(&bytes);
        let data = Arc::new(data);
        let got = guard(|| File::read(&mut Tape::new(data.clone()).at(at)));
        case.evaluate();
        case.observe(hash(&signature));
        case.count(if font { "fonts" } else if recognised { "collections" } else { "unrecognised" }, 1);
        if !matches!(told, Got::Value(told) if told == recognised) {
            case.violation(
                "accept",
                format!("{:?} should be recognised: {recognised}", show(&signature)),
                &signature,
            );
        }
        match (font, got) {
            (true, Got::Value(file))
                if file.fonts.len() == 1 && file[0].offsets.records.len() == built.records.len() =>
            {
                if let Some((_, image)) = images.first().filter(|_| at == 0) {
                    // The signature does not matter any more.
                    let got = present(guard(|| take_v(&file[0], image.kind, &mut Tape::new(data.clone()))));
                    judge(case, "whatever the signature", image.kind, &image.value, got, entire, &data, 0);
                }
            }
            (false, Got::Error(_)) => {}
            (_, got) => case.violation(
                "opening",
                format!("a file starting with {:?} comes to {}", show(&signature), got.describe()),
                &bytes,
            ),
        }
    }
    case.sample(|| format!("the directory {:?} under all sorts of signatures", built.records));
    let _ = lens;
}

fn p11(case: &mut Case) {
    let lens = Lens::built();
    let real = fixture_tables(&[Kind::Gsub, Kind::Gpos, Kind::Gdef, Kind::Cpal, Kind::Fvar]);
    if case.id % 40 == 11 && !real.is_empty() {
        // A real table cut short.
        let &(fixture, kind, at) = case.rng.pick(&real);
        let size = fixture
            .records
            .iter()
            .find(|r| r.offset as u64 == at)
            .map_or(0, |r| r.size as u64);
        if size > 200_000 {
            return;
        }
        let content = &fixture.bytes[at as usize..(at + size) as usize];
        for _ in 0..3 {
            let cut = case.rng.below(size) as usize;
            cut_short(case, kind, content, cut, lens);
        }
        case.count("real tables cut short", 3);
        return;
    }
    if case.id % 40 == 12 {
        let k = case.rng.below(6);
        let tables: Vec<_> = (0..k)
            .map(|_| (crate::tags::registered(&mut case.rng), noise(&mut case.rng, 8)))
            .collect();
        let built = font::build(&mut case.rng, &tables);
        for cut in 0..12 + 16 * tables.len() {
            let mut tape = Tape::from_vec(built.bytes[..cut].to_vec());
            let got = guard(|| File::read(&mut tape).map(|_| ()));
            case.evaluate();
            case.count("directories cut short", 1);
            if !matches!(got, Got::Error(_)) {
                case.violation(
                    "directory",
                    format!("a directory cut at {cut} comes to {}", got.describe()),
                    &built.bytes[..cut],
                );
            }
        }
        return;
    }
    let kind = any_kind(&mut case.rng);
    let image = image(kind, &mut case.rng, lens);
    settle(&image, lens);
    let n = image.bytes.len();
    let mut cuts: Vec<usize> = vec![];
    if n <= 120 {
        cuts.extend(0..n);
    } else {
        for _ in 0..20 {
            cuts.push(case.rng.below(n as u64) as usize);
        }
        for _ in 0..8 {
            let b = *case.rng.pick(&image.bounds);
            cuts.push(b.min(n - 1));
            cuts.push((b + 1).min(n - 1));
            cuts.push(b.saturating_sub(1).min(n - 1));
        }
        cuts.extend([n - 1, n - 2, n - 3]);
    }
    case.sample(|| format!("{kind:?} of {n} bytes cut at {cuts:?}"));
    for cut in cuts {
        cut_short(case, kind, &image.bytes, cut, lens);
    }
}

fn cut_short(case: &mut Case, kind: Kind, content: &[u8], cut: usize, lens: Lens) {
    let mut data = vec![0x5A; case.rng.below(3) as usize * 7];
    let at = data.len() as u64;
    data.extend_from_slice(&content[..cut]);
    let d = decode(kind, &data, at, lens, 4_000_000);
    let data = Arc::new(data);
    match d.value {
        Err(Rej::Eof) => {
            case.count("bytes missing", 1);
            let got = read_plain(kind, &data, at, d.cost.max(1000));
            judge_refusal(case, &format!("cut at {cut}"), kind, got, &data, at);
        }
        Ok(v) if !d.taint => {
            case.count("nothing needed is missing", 1);
            let got = read_plain(kind, &data, at, d.cost);
            judge(case, &format!("cut at {cut}"), kind, &v, got, entire, &data, at);
        }
        _ => case.count("undecided", 1),
    }
}

// Surroundings, delivery and arrangement.

fn p12(case: &mut Case) {
    let lens = Lens::built();
    let kind = any_kind(&mut case.rng);
    let image = image(kind, &mut case.rng, lens);
    let cost = settle(&image, lens);
    for k in 0..6 {
        let (mut data, mut at) = match k {
            0 => (image.bytes.clone(), 0),
            _ => surround(&mut case.rng, &image.bytes),
        };
        if k == 1 {
            // Nothing after the table.
            data.truncate(at as usize + image.bytes.len());
        }
        let origin = match k {
            4 => *case.rng.pick(&[0x1000_0000, 0x7FFF_FFF0, 0xFFFF_FFF0, 0xFFFF_FFFF]),
            5 => *case.rng.pick(&[0x1_0000_0000, 0x1_0000_0005, 0xFF_1234_5678, 1 << 60]),
            _ => 0,
        };
        at += origin;
        let data = Arc::new(data);
        let mut tape = Tape::new(data.clone());
        tape.origin = origin;
        tape.limit = allowance(cost);
        let mut tape = tape.at(at);
        let got = guard(|| read_v(kind, &mut tape));
        case.count(if origin > 0 { "far positions" } else { "near positions" }, 1);
        case.sample(|| format!("{kind:?} of {} bytes at {at}", image.bytes.len()));
        judge(case, &format!("at {at}"), kind, &image.value, got, entire, &image.bytes, 0);
    }
}

fn p13(case: &mut Case) {
    let lens = Lens::built();
    if case.id % 25 == 5 {
        return files(case);
    }
    let kind = any_kind(&mut case.rng);
    let image = image(kind, &mut case.rng, lens);
    let cost = settle(&image, lens);
    let placed = place(&mut case.rng, image);
    let mut deliveries = vec![
        Delivery::Single,
        Delivery::Random(case.rng.clone()),
        Delivery::Interrupted(case.rng.clone()),
        Delivery::Alternate(false),
    ];
    for size in [2, 3, 4, 7, 16, 64, 512] {
        if case.rng.chance(40) {
            deliveries.push(Delivery::Blocks(size));
        }
    }
    for delivery in deliveries {
        let name = format!("{delivery:?}").split('(').next().unwrap().to_string();
        let mut tape = Tape::new(placed.data.clone()).at(placed.at);
        tape.delivery = delivery;
        tape.limit = 16 * allowance(cost) + 16 * placed.data.len() as u64;
        let got = guard(|| read_v(kind, &mut tape));
        case.count(&format!("delivered {name}"), 1);
        case.count("pieces", tape.reads);
        case.count("interruptions", tape.interruptions);
        let what = format!("delivered {name}");
        judge(case, &what, kind, &placed.image.value, got, entire, &placed.data, placed.at);
    }
    if case.id % 50 == 3 {
        // A file of the system, with and without a buffer.
        let path = std::env::temp_dir().join(format!("mon-{}-{}", std::process::id(), case.id));
        std::fs::write(&path, &**placed.data).expect("writing a file");
        for capacity in [0, 1, 5, 64, 8192] {
            let file = std::fs::File::open(&path).expect("opening a file");
            let tape = match capacity {
                0 => Tape::file(file),
                _ => Tape::buffered(file, capacity),
            };
            let mut tape = tape.at(placed.at);
            let got = guard(|| read_v(kind, &mut tape));
            case.count("read from a file", 1);
            judge(case, "from a file", kind, &placed.image.value, got, entire, &placed.data, placed.at);
        }
        let _ = std::fs::remove_file(&path);
    }
}

/// Whole files under different deliveries.
fn files(case: &mut Case) {
    let (built, images) = random_font(case, 6);
    let data = Arc::new(built.bytes.clone());
    let style = case.rng.below(3);
    let mut tape = Tape::new(data.clone());
    tape.delivery = match style {
        0 => Delivery::Single,
        1 => Delivery::Interrupted(case.rng.clone()),
        _ => Delivery::Alternate(true),
    };
    let got = guard(|| File::read(&mut tape));
    case.evaluate();
    let Got::Value(file) = got else {
        return case.violation("file", format!("a file in pieces is not read: {}", got.describe()), &data);
    };
    for (tag, image) in &images {
        let kind = image.kind;
        let mut tape = Tape::new(data.clone());
        tape.delivery = match style {
            0 => Delivery::Random(case.rng.clone()),
            1 => Delivery::Alternate(false),
            _ => Delivery::Blocks(5),
        };
        let got = guard(|| take_v(&file[0], kind, &mut tape));
        let got = present(got);
        case.count("taken through a font in pieces", 1);
        judge(case, &format!("{} in pieces", show(tag)), kind, &image.value, got, entire, &data, 0);
    }
}

fn present(got: Got<Option<V>>) -> Got<V> {
    match got {
        Got::Value(Some(v)) => Got::Value(v),
        Got::Value(None) => Got::Panic("none at all: the table is reported absent".into()),
        Got::Error(e) => Got::Error(e),
        Got::Panic(s) => Got::Panic(s),
    }
}

/// Take a table through a font.
fn take_v(font: &Font, kind: Kind, tape: &mut Tape) -> opentype::Result<Option<V>> {
    fn take<U>(font: &Font, tape: &mut Tape) -> opentype::Result<Option<V>>
    where
        U: opentype::Table + opentype::value::Read + Val,
    {
        Ok(font.take::<Tape, U>(tape)?.map(|table| table.val()))
    }
    match kind {
        Kind::Gsub => take::<ot::GlyphSubstitution>(font, tape),
        Kind::Gpos => take::<ot::GlyphPositioning>(font, tape),
        Kind::Gdef => take::<ot::GlyphDefinition>(font, tape),
        Kind::Cpal => take::<ot::ColorPalettes>(font, tape),
        Kind::Fvar => take::<ot::FontVariations>(font, tape),
        _ => unreachable!(),
    }
}

const OWN: &[(&[u8; 4], Kind)] = &[
    (b"CPAL", Kind::Cpal),
    (b"GDEF", Kind::Gdef),
    (b"GPOS", Kind::Gpos),
    (b"GSUB", Kind::Gsub),
    (b"fvar", Kind::Fvar),
];

/// A font with some tables of this library and some others, in any order.
fn random_font(case: &mut Case, others: u64) -> (font::Built, Vec<([u8; 4], Image)>) {
    let lens = Lens::built();
    let mut tables: Vec<([u8; 4], Vec<u8>)> = vec![];
    let mut images = vec![];
    for &(tag, kind) in OWN {
        if case.rng.chance(60) {
            let budget = if crate::run::small() { 60 } else { 400 };
            let style = Style { large: if crate::run::small() { 0 } else { 2 }, force: UNFORCED, budget, ..Style::random(&mut case.rng) };
            let image = image_in_style(kind, &mut case.rng, lens, style);
            settle(&image, lens);
            tables.push((*tag, image.bytes.clone()));
            images.push((*tag, image));
        }
    }
    for _ in 0..case.rng.below(others + 1) {
        let tag = match case.rng.below(4) {
            0 | 1 => *font::SUPPORTED[case.rng.below(16) as usize].tag,
            2 => {
                // Similar but not the same.
                let mut tag = *font::SUPPORTED[case.rng.below(16) as usize].tag;
                match case.rng.below(3) {
                    0 => tag = tag.map(|b| b.to_ascii_uppercase()),
                    1 => tag = tag.map(|b| b.to_ascii_lowercase()),
                    _ => tag[case.rng.below(4) as usize] ^= 1 << case.rng.below(8),
                }
                tag
            }
            _ => *case.rng.pick(&[*b"DSIG", *b"kern", *b"BASE", *b"avar", *b"CFF2", *b"STAT"]),
        };
        if tables.iter().any(|(t, _)| *t == tag) {
            continue;
        }
        let n = case.rng.below(60);
        tables.push((tag, noise(&mut case.rng, n)));
    }
    for i in (1..tables.len()).rev() {
        tables.swap(i, case.rng.below(i as u64 + 1) as usize);
    }
    if case.rng.chance(40) {
        // As fonts tend to have them.
        tables.sort();
    }
    (font::build(&mut case.rng, &tables), images)
}

fn p23(case: &mut Case) {
    let lens = Lens::built();
    let kind = any_kind(&mut case.rng);
    let mut style = Style::random(&mut case.rng);
    style.budget = style.budget.min(4000);
    style.large /= 2;
    style.force = UNFORCED;
    let graph = spec::generate(kind, &mut case.rng, style, lens);
    let mut variants = vec![];
    for gaps in [0, 20, 60] {
        variants.push(("rearranged", graph.layout(&mut case.rng, gaps)));
    }
    variants.push(("merged", graph.merge().layout(&mut case.rng, 10)));
    if let Some(graph) = graph.unshare(12_000) {
        variants.push(("duplicated", graph.layout(&mut case.rng, 10)));
    }
    let expected = match variants.iter().find_map(|(_, image)| image.as_ref()) {
        Some(image) if image.value != V::N => {
            let cost = settle(image, lens);
            far_apart(case, image, cost, entire);
            image.value.without_offsets()
        }
        _ => return case.count("not laid out", 1),
    };
    for (name, image) in variants {
        let Some(image) = image else { continue };
        let cost = decode(kind, &image.bytes, 0, lens, u64::MAX).cost;
        let (data, at) = surround(&mut case.rng, &image.bytes);
        let data = Arc::new(data);
        let got = read_plain(kind, &data, at, cost);
        case.count(name, 1);
        case.sample(|| format!("{kind:?} {name} into {} bytes", image.bytes.len()));
        judge(case, name, kind, &expected, got, |v| v.without_offsets(), &data, at);
    }
}

// Failures of the source.

const KINDS: &[std::io::ErrorKind] = &[
    std::io::ErrorKind::Other,
    std::io::ErrorKind::UnexpectedEof,
    std::io::ErrorKind::PermissionDenied,
    std::io::ErrorKind::WouldBlock,
    std::io::ErrorKind::InvalidData,
    std::io::ErrorKind::InvalidInput,
    std::io::ErrorKind::TimedOut,
    std::io::ErrorKind::BrokenPipe,
    std::io::ErrorKind::NotFound,
    std::io::ErrorKind::ConnectionReset,
    std::io::ErrorKind::ConnectionAborted,
    std::io::ErrorKind::NotConnected,
    std::io::ErrorKind::AlreadyExists,
    std::io::ErrorKind::WriteZero,
    std::io::ErrorKind::Unsupported,
    std::io::ErrorKind::OutOfMemory,
    std::io::ErrorKind::UnexpectedEof,
];

/// EIO, ENOENT, EACCES, EAGAIN, EINVAL, ESPIPE, EOVERFLOW, ETIMEDOUT, ESTALE.
const CODES: &[i32] = &[5, 2, 13, 11, 22, 29, 75, 110, 116];

fn p14(case: &mut Case) {
    let lens = Lens::built();
    if case.id % 6 == 1 {
        return failing_fonts(case);
    }
    let kind = any_kind(&mut case.rng);
    let mut style = Style::random(&mut case.rng);
    style.large = 0;
    style.force = UNFORCED;
    style.budget = style.budget.min(700);
    let image = image_in_style(kind, &mut case.rng, lens, style);
    settle(&image, lens);
    let placed = place(&mut case.rng, image);
    let make = || Tape::new(placed.data.clone()).at(placed.at);
    let expected = placed.image.value.clone();
    let mut read = |tape: &mut Tape| guard(|| read_v(kind, tape).map(Some));
    failing(case, &format!("{kind:?}"), &placed.image.bytes, make, &mut read, Some(&expected));
}

/// Fail every operation in turn.
fn failing(
    case: &mut Case,
    what: &str,
    bytes: &[u8],
    make: impl Fn() -> Tape,
    read: &mut dyn FnMut(&mut Tape) -> Got<Option<V>>,
    expected: Option<&V>,
) {
    // A failure may also come after some of the bytes.
    let delivery = match case.rng.below(8) {
        0 => Delivery::Single,
        1 => Delivery::Blocks(3),
        2 => Delivery::Interrupted(case.rng.clone()),
        _ => Delivery::Whole,
    };
    let make = || {
        let mut tape = make();
        tape.delivery = delivery.clone();
        tape
    };
    let mut tape = make();
    let Got::Value(v) = read(&mut tape) else {
        // Another property's concern.
        return case.count("not read without failures", 1);
    };
    if v.as_ref() != expected {
        return case.count("not read right without failures", 1);
    }
    let total = tape.ops();
    let points: Vec<u64> = if total <= 400 || case.config.thorough && total < 4000 {
        (0..total).collect()
    } else {
        let mut points: Vec<u64> = (0..60).chain(total - 60..total).collect();
        for _ in 0..200 {
            points.push(case.rng.below(total));
        }
        points
    };
    case.count("operations", total);
    case.sample(|| format!("{what}: each of {} of {total} operations fails", points.len()));
    for at in points {
        let kind = *case.rng.pick(KINDS);
        let permanent = case.rng.chance(50);
        let form = match case.rng.below(6) {
            0 => Form::Bare,
            1 => Form::System(*case.rng.pick(CODES)),
            _ => Form::Marked,
        };
        let fault = Fault { at, permanent, kind, form };
        let mut tape = make();
        tape.fault = Some(fault.clone());
        tape.limit = 100 * total + 1000;
        let got = read(&mut tape);
        case.evaluate();
        if !tape.fired {
            case.count("points not reached", 1);
            continue;
        }
        case.count(if permanent { "permanent failures" } else { "single failures" }, 1);
        case.observe(hash(bytes) ^ at ^ (permanent as u64) << 40);
        let detail = match got {
            Got::Error(e) => {
                if fault.is(&e) {
                    continue;
                }
                format!("is reported as {e:?}")
            }
            Got::Value(_) => "is swallowed and a value is returned".into(),
            Got::Panic(s) => format!("leads to the panic {s}"),
        };
        case.violation(
            format!("{what} failure"),
            format!(
                "{what}: a {} failure of kind {kind:?} as {form:?} in operation {at} of {total} {detail}",
                if permanent { "permanent" } else { "single" },
            ),
            bytes,
        );
        return;
    }
    // The same read on a working source.
    let got = read(&mut make());
    case.evaluate();
    match got {
        Got::Value(v) if v.as_ref() == expected => {}
        got => case.violation(
            format!("{what} repeated"),
            format!("{what}: after the failures, a working source gives {}", got.describe()),
            bytes,
        ),
    }
}

fn failing_fonts(case: &mut Case) {
    let (built, images) = random_font(case, 5);
    let data = Arc::new(built.bytes.clone());
    let make = || Tape::new(data.clone());
    let count = V::I(built.records.len() as i64);
    let mut read = |tape: &mut Tape| {
        guard(|| Ok(Some(V::I(File::read(tape)?[0].offsets.records.len() as i64))))
    };
    failing(case, "a file", &data, make, &mut read, Some(&count));
    let Got::Value(file) = guard(|| File::read(&mut make())) else { return };
    let font = &file[0];
    for (tag, image) in &images {
        let kind = image.kind;
        let mut read = |tape: &mut Tape| guard(|| take_v(font, kind, tape));
        let what = format!("{} of a font", show(tag));
        failing(case, &what, &data, make, &mut read, Some(&image.value));
    }
    for supported in font::SUPPORTED {
        if case.rng.chance(20) {
            let mut read = |tape: &mut Tape| {
                guard(|| Ok((supported.position)(font, tape)?.map(|_| V::I(1))))
            };
            let expected = built.first(supported.tag).map(|_| V::I(1));
            let what = format!("locating {}", show(supported.tag));
            failing(case, &what, &data, make, &mut read, expected.as_ref());
        }
    }
}

// Fonts.

fn p15(case: &mut Case) {
    if (case.id as usize) < fixtures().len() {
        return real_font(case);
    }
    if case.id % 12 == 5 && !fixtures().is_empty() {
        return foreign(case);
    }
    let lens = Lens::built();
    let (built, images) = random_font(case, 24);
    let mut tables: Vec<([u8; 4], Vec<u8>)> = built
        .records
        .iter()
        .map(|r| (r.tag, built.bytes[r.offset as usize..(r.offset + r.size) as usize].to_vec()))
        .collect();
    // Tags that occur more than once: the first counts.
    let mut duplicates = 0;
    if case.rng.chance(40) && !tables.is_empty() {
        for _ in 0..case.rng.range(1, 3) {
            let k = case.rng.below(tables.len() as u64) as usize;
            let tag = tables[k].0;
            let at = case.rng.range(k as u64 + 1, tables.len() as u64) as usize;
            let content = match table_kind(&tag) {
                Some(kind) => {
                    let style = Style { large: 0, budget: 200, null: 50, share: 0, force: UNFORCED, given: None };
                    image_in_style(kind, &mut case.rng, lens, style).bytes
                }
                _ => {
                    let n = case.rng.below(40);
                    noise(&mut case.rng, n)
                }
            };
            tables.insert(at, (tag, content));
            duplicates += 1;
        }
    }
    if case.rng.chance(10) {
        // Many records.
        let n = *case.rng.pick(&[50, 100, 255, 256, 257, 400, 1000, 4096]);
        for _ in 0..n {
            let tag = (case.rng.next() as u32).to_be_bytes();
            let at = case.rng.below(tables.len() as u64 + 1) as usize;
            if !tables.iter().any(|(t, _)| *t == tag) {
                let n = case.rng.below(6);
                tables.insert(at, (tag, noise(&mut case.rng, n)));
            }
        }
    }
    let built = font::build(&mut case.rng, &tables);
    case.count("fonts", 1);
    case.count("records", tables.len() as u64);
    case.count("repeated tags", duplicates);
    let data = Arc::new(built.bytes.clone());
    let mut tape = Tape::new(data.clone());
    let got = guard(|| File::read(&mut tape));
    case.evaluate();
    case.sample(|| {
        format!(
            "a directory with {:?}",
            built.records.iter().map(|r| (show(&r.tag), r.offset, r.size)).collect::<Vec<_>>()
        )
    });
    let Got::Value(file) = got else {
        return case.violation("file", format!("a font is not read: {}", got.describe()), &data);
    };
    if file.len() != 1 || file[0].offsets.records.len() != tables.len() {
        return case.violation("file", "the directory differs".into(), &data);
    }
    let font = &file[0];
    for (record, expected) in font.offsets.records.iter().zip(&built.records) {
        if record.tag.0 != expected.tag
            || record.offset != expected.offset
            || record.size != expected.size
            || record.checksum != expected.checksum
        {
            return case.violation("file", format!("{record:?} instead of {expected:?}"), &data);
        }
    }
    locate(case, font, &built, &data);
    if case.rng.chance(20) {
        // The directory is elsewhere in the file, as in a collection.
        let mut bytes = built.bytes.clone();
        let n = case.rng.below(20);
        bytes.extend(noise(&mut case.rng, n));
        let at = bytes.len() as u64;
        bytes.extend_from_slice(&built.bytes[..12 + 16 * tables.len()]);
        let data = Arc::new(bytes);
        case.count("directories not at the beginning", 1);
        match guard(|| Font::read(&mut Tape::new(data.clone()).at(at))) {
            Got::Value(font) => locate(case, &font, &built, &data),
            got => case.violation(
                "directory elsewhere",
                format!("a directory at {at} is not read: {}", got.describe()),
                &data,
            ),
        }
    }
    for (tag, image) in &images {
        let expected = &image.value;
        // Unless a copy has been put before it, which cannot be.
        let mut tape = Tape::new(data.clone()).at(case.rng.below(100));
        let got = present(guard(|| take_v(font, image.kind, &mut tape)));
        case.count("tables taken", 1);
        judge(case, &show(tag), image.kind, expected, got, entire, &data, 0);
        let at = built.first(tag).unwrap().offset as u64;
        let mut tape = Tape::new(data.clone()).at(at);
        let got = guard(|| read_v(image.kind, &mut tape));
        judge(case, &format!("{} read directly", show(tag)), image.kind, expected, got, entire, &data, at);
    }
}

fn locate(case: &mut Case, font: &Font, built: &font::Built, data: &Arc<Vec<u8>>) {
    for supported in font::SUPPORTED {
        let first = built.first(supported.tag);
        let exists = guard(|| Ok((supported.exists)(font)));
        case.evaluate();
        case.observe(hash(data) ^ hash(supported.tag));
        if !matches!(exists, Got::Value(e) if e == first.is_some()) {
            case.violation(
                format!("exists {}", show(supported.tag)),
                format!("{} is in the directory: {}", show(supported.tag), first.is_some()),
                data,
            );
        }
        let mut tape = Tape::new(data.clone()).at(case.rng.below(300));
        let got = guard(|| (supported.position)(font, &mut tape));
        let position = tape.whereabouts();
        case.evaluate();
        case.count(if first.is_some() { "tables located" } else { "tables absent" }, 1);
        match (first, got) {
            (None, Got::Value(None)) => {}
            (Some(r), Got::Value(Some(()))) if position == r.offset as u64 => {}
            (first, got) => case.violation(
                format!("position {}", show(supported.tag)),
                format!(
                    "{}: expected {first:?}, got {} at {position}",
                    show(supported.tag),
                    match got {
                        Got::Value(None) => "absence".into(),
                        got => got.describe(),
                    },
                ),
                data,
            ),
        }
    }
}

/// A font made of tables of a real one, some of them left out, some repeated.
fn rebuilt(case: &mut Case, limit: usize) -> font::Built {
    let fixture = case.rng.pick(fixtures());
    let mut tables: Vec<([u8; 4], Vec<u8>)> = vec![];
    for record in &fixture.records {
        if case.rng.chance(85) && record.size as usize <= limit {
            let content = &fixture.bytes[record.offset as usize..][..record.size as usize];
            tables.push((record.tag, content.to_vec()));
        }
    }
    for _ in 0..case.rng.below(3) {
        if tables.is_empty() {
            break;
        }
        // A second table with the tag, with something of another.
        let k = case.rng.below(tables.len() as u64) as usize;
        let from = case.rng.pick(&tables).1.clone();
        let tag = tables[k].0;
        tables.push((tag, from));
    }
    for i in (1..tables.len()).rev() {
        tables.swap(i, case.rng.below(i as u64 + 1) as usize);
    }
    font::build(&mut case.rng, &tables)
}

/// Tables of other libraries are read where they are.
fn foreign(case: &mut Case) {
    use opentype::truetype::tables as tt;
    let built = rebuilt(case, 300_000);
    let data = Arc::new(built.bytes.clone());
    let Got::Value(file) = guard(|| File::read(&mut Tape::new(data.clone()))) else {
        return case.violation("file", "a rebuilt font is not read".into(), &data);
    };
    let font = &file[0];
    locate(case, font, &built, &data);
    // Debug output stands for the value.
    fn text<T: std::fmt::Debug>(got: opentype::Result<T>) -> String {
        match got {
            Ok(v) => format!("{v:?}"),
            Err(_) => "an error".into(),
        }
    }
    fn direct<T>(tag: &[u8; 4], built: &font::Built, data: &Arc<Vec<u8>>) -> Option<Tape> {
        let record = built.first(tag)?;
        Some(Tape::new(data.clone()).at(record.offset as u64))
    }
    let start = case.rng.below(50);
    let mut results: Vec<(&'static str, String, String)> = vec![];
    macro_rules! plain(
        ($tag:literal, $t:ty) => ({
            let taken = guard(|| Ok(match font.take::<Tape, $t>(&mut Tape::new(data.clone()).at(start)) {
                Ok(None) => "nothing".to_string(),
                Ok(Some(v)) => text(Ok(v)),
                Err(e) => text::<()>(Err(e)),
            }));
            let read = guard(|| Ok(match direct::<$t>($tag, &built, &data) {
                None => "nothing".to_string(),
                Some(mut tape) => text(tape.take::<$t>()),
            }));
            if let (Got::Value(taken), Got::Value(read)) = (taken, read) {
                results.push((std::str::from_utf8($tag).unwrap(), taken, read));
            }
        });
    );
    plain!(b"head", tt::FontHeader);
    plain!(b"hhea", tt::HorizontalHeader);
    plain!(b"maxp", tt::MaximumProfile);
    plain!(b"name", tt::Names);
    plain!(b"OS/2", tt::WindowsMetrics);
    plain!(b"post", tt::PostScript);
    plain!(b"cmap", tt::CharacterMapping);
    // Parameters come from the font, or from somewhere else.
    let parameters = guard(|| {
        Ok((
            font.take::<Tape, tt::FontHeader>(&mut Tape::new(data.clone()))?,
            font.take::<Tape, tt::HorizontalHeader>(&mut Tape::new(data.clone()))?,
            font.take::<Tape, tt::MaximumProfile>(&mut Tape::new(data.clone()))?,
        ))
    });
    if let Got::Value((Some(head), Some(hhea), Some(maxp))) = parameters {
        macro_rules! given(
            ($tag:literal, $t:ty, $parameter:expr) => ({
                let taken = guard(|| Ok(match font.take_given::<Tape, $t>(
                    &mut Tape::new(data.clone()).at(start),
                    $parameter,
                ) {
                    Ok(None) => "nothing".to_string(),
                    Ok(Some(v)) => text(Ok(v)),
                    Err(e) => text::<()>(Err(e)),
                }));
                let read = guard(|| Ok(match direct::<$t>($tag, &built, &data) {
                    None => "nothing".to_string(),
                    Some(mut tape) => text(tape.take_given::<$t>($parameter)),
                }));
                if let (Got::Value(taken), Got::Value(read)) = (taken, read) {
                    results.push((std::str::from_utf8($tag).unwrap(), taken, read));
                }
            });
        );
        given!(b"hmtx", tt::HorizontalMetrics, (&hhea, &maxp));
        given!(b"loca", tt::GlyphMapping, (&head, &maxp));
    }
    for (tag, taken, read) in results {
        case.evaluate();
        case.count("tables of other libraries", 1);
        case.observe(hash(tag.as_bytes()) ^ hash(taken.as_bytes()));
        if taken != read {
            let cut = |s: &str| s.chars().take(200).collect::<String>();
            case.violation(
                format!("foreign {tag}"),
                format!("{tag} taken through the font is {}, read at its offset {}", cut(&taken), cut(&read)),
                &data,
            );
        }
    }
}

fn real_font(case: &mut Case) {
    let fixture = &fixtures()[case.id as usize];
    let lens = Lens::built();
    let mut tape = Tape::new(fixture.bytes.clone());
    let got = guard(|| File::read(&mut tape));
    case.evaluate();
    let Got::Value(file) = got else {
        return case.violation("real", format!("{} is not read", fixture.name), &[]);
    };
    let font = &file[0];
    case.count("real fonts", 1);
    for supported in font::SUPPORTED {
        let first = fixture.records.iter().find(|r| r.tag == *supported.tag);
        case.evaluate();
        if (supported.exists)(font) != first.is_some() {
            case.violation("real", format!("{} {}", fixture.name, show(supported.tag)), &[]);
        }
        let Some(record) = first else { continue };
        let content = &fixture.bytes[record.offset as usize..][..record.size as usize];
        if font::checksum(&record.tag, content) != record.checksum {
            case.count("real tables with wrong checksums", 1);
            continue;
        }
        let mut tape = Tape::new(fixture.bytes.clone());
        let got = guard(|| (supported.position)(font, &mut tape));
        case.evaluate();
        if !matches!(got, Got::Value(Some(()))) || tape.whereabouts() != record.offset as u64 {
            case.violation(
                "real",
                format!("{} {}: {}", fixture.name, show(supported.tag), got.describe()),
                &[],
            );
        }
        let Some(kind) = table_kind(supported.tag) else { continue };
        let d = decode(kind, &fixture.bytes, record.offset as u64, lens, u64::MAX);
        if let (Ok(v), false) = (&d.value, d.taint) {
            let mut tape = Tape::new(fixture.bytes.clone());
            let got = present(guard(|| take_v(font, kind, &mut tape)));
            case.count("real tables taken", 1);
            judge(case, &fixture.name, kind, v, got, entire, &[], 0);
        }
    }
}

fn p16(case: &mut Case) {
    let (mut built, images) = match case.id % 10 {
        4 if !fixtures().is_empty() => {
            case.count("made of real tables", 1);
            (rebuilt(case, 600_000), vec![])
        }
        5 => {
            // Of a size at which sums wrap around many times.
            let mut tables = vec![];
            for _ in 0..case.rng.range(1, 3) {
                let tag = *font::SUPPORTED[case.rng.below(16) as usize].tag;
                let n = case.rng.range(1, 200_000);
                tables.push((tag, noise(&mut case.rng, n)));
            }
            case.count("with large tables", 1);
            (font::build(&mut case.rng, &tables), vec![])
        }
        _ => random_font(case, 20),
    };
    if built.records.is_empty() {
        return;
    }
    // Damage some of the tables and some of the records.
    let count = built.records.len();
    for _ in 0..case.rng.below(4) {
        let k = case.rng.below(count as u64) as usize;
        let record = built.records[k].clone();
        match case.rng.below(6) {
            0 | 1 if record.size > 0 => {
                let at = record.offset as u64 + case.rng.below(record.size as u64);
                built.bytes[at as usize] ^= 1 << case.rng.below(8);
            }
            2 if record.size >= 8 => {
                // The sum stays the same.
                let a = record.offset as usize + 4 * case.rng.below(record.size as u64 / 4) as usize;
                let b = record.offset as usize + 4 * case.rng.below(record.size as u64 / 4) as usize;
                for j in 0..4 {
                    built.bytes.swap(a + j, b + j);
                }
            }
            3 => built.records[k].checksum ^= 1 << case.rng.below(32),
            4 => built.records[k].checksum = case.rng.u32(),
            _ => {
                let size = record.size;
                if size > 0 && (record.offset as usize + size as usize + 4) < built.bytes.len() {
                    built.records[k].size = size - 1;
                }
            }
        }
        built.store(k);
    }
    let data = Arc::new(built.bytes.clone());
    let mut tape = Tape::new(data.clone());
    let got = guard(|| File::read(&mut tape));
    case.evaluate();
    let Got::Value(file) = got else {
        return case.violation("file", format!("a font is not read: {}", got.describe()), &data);
    };
    let font = &file[0];
    let enforced = !cfg!(feature = "ignore-invalid-checksums");
    case.sample(|| format!("a directory with {:?}", built.records));
    for supported in font::SUPPORTED {
        let Some(record) = built.first(supported.tag) else { continue };
        let content = &built.bytes[record.offset as usize..][..record.size as usize];
        let right = font::checksum(&record.tag, content) == record.checksum;
        let accept = right || !enforced;
        let mut tape = Tape::new(data.clone()).at(case.rng.below(300));
        let got = guard(|| (supported.position)(font, &mut tape));
        case.evaluate();
        case.observe(hash(content) ^ record.checksum as u64);
        case.count(if right { "right sums" } else { "wrong sums" }, 1);
        if supported.tag == b"head" {
            case.count("font headers", 1);
        }
        let fine = match &got {
            Got::Value(Some(())) => accept && tape.whereabouts() == record.offset as u64,
            Got::Error(_) => !accept,
            _ => false,
        };
        if !fine {
            case.violation(
                format!("checksum {}", show(supported.tag)),
                format!(
                    "{record:?} whose content sums {} comes to {}",
                    if right { "right" } else { "wrong" },
                    got.describe()
                ),
                &data,
            );
        }
        // Taking the table goes the same way.
        let Some((_, image)) = images.iter().find(|(tag, _)| tag == supported.tag) else { continue };
        let mut tape = Tape::new(data.clone());
        let got = guard(|| take_v(font, image.kind, &mut tape));
        case.evaluate();
        if !accept {
            if !matches!(got, Got::Error(_)) {
                case.violation(
                    format!("checksum {}", show(supported.tag)),
                    format!("taking a corrupted {record:?} comes to {}", got.describe()),
                    &data,
                );
            }
        } else if content == image.bytes {
            let got = present(got);
            case.count("intact tables taken", 1);
            judge(case, &show(supported.tag), image.kind, &image.value, got, entire, &data, 0);
        }
    }
}

// Registries.

struct Known {
    variant: &'static str,
    name: &'static str,
    codes: Vec<&'static str>,
}

type Registry = std::collections::HashMap<[u8; 4], Vec<Known>>;

fn registries() -> &'static [Registry; 3] {
    static REGISTRIES: OnceLock<[Registry; 3]> = OnceLock::new();
    REGISTRIES.get_or_init(|| {
        [registry::SCRIPTS, registry::FEATURES, registry::LANGUAGES].map(|list| {
            let mut map = Registry::new();
            for (tag, variant, name, codes) in list {
                map.entry(**tag).or_default().push(Known {
                    variant,
                    name,
                    codes: codes.split(", ").filter(|c| !c.is_empty()).collect(),
                });
            }
            map
        })
    })
}

struct Meaning {
    variant: String,
    name: Option<&'static str>,
    codes: Option<Vec<&'static str>>,
    back: [u8; 4],
    other: bool,
}

fn meaning(which: usize, tag: [u8; 4]) -> Meaning {
    let tag = Tag(tag);
    match which {
        0 => {
            let v = script::Script::from_tag(&tag);
            Meaning {
                variant: format!("{v:?}"),
                name: v.name(),
                codes: None,
                back: Tag::from(v).0,
                other: matches!(v, script::Script::Other(_)),
            }
        }
        1 => {
            let v = feature::Feature::from_tag(&tag);
            Meaning {
                variant: format!("{v:?}"),
                name: v.name(),
                codes: None,
                back: Tag::from(v).0,
                other: matches!(v, feature::Feature::Other(_)),
            }
        }
        _ => {
            let v = language::Language::from_tag(&tag);
            Meaning {
                variant: format!("{v:?}"),
                name: v.name(),
                codes: Some(v.codes().collect()),
                back: Tag::from(v).0,
                other: matches!(v, language::Language::Other(_)),
            }
        }
    }
}

/// Whether a tag means what the registry says.
fn is_right(which: usize, tag: [u8; 4], m: &Meaning) -> bool {
    m.back == tag
        && match registries()[which].get(&tag) {
            None => m.other && m.name.is_none() && m.codes.as_ref().map_or(true, |c| c.is_empty()),
            Some(known) => known.iter().any(|k| {
                m.variant == k.variant
                    && m.name == Some(k.name)
                    && m.codes.as_ref().map_or(true, |c| *c == k.codes)
                    && !m.other
            }),
        }
}

fn check_tag(case: &mut Case, which: usize, tag: [u8; 4]) {
    let name = ["script", "feature", "language"][which];
    case.evaluate();
    let got = guard(|| Ok(meaning(which, tag)));
    let detail = match &got {
        Got::Value(m) => {
            if registries()[which].contains_key(&tag) {
                case.observe(hash(&tag) ^ which as u64);
            }
            if is_right(which, tag, m) {
                return;
            }
            format!("{} ({:?}, {:?}), back to {:?}", m.variant, m.name, m.codes, show(&m.back))
        }
        got => got.describe(),
    };
    case.violation(
        format!("{name} {}", show(&tag)),
        format!("the {name} tag {:?} maps to {detail}", show(&tag)),
        &tag,
    );
}

fn p17(case: &mut Case) {
    let lists = [registry::SCRIPTS, registry::FEATURES, registry::LANGUAGES];
    let total: usize = lists.iter().map(|l| l.len()).sum();
    let mut k = case.id as usize;
    if k < total {
        // A registered tag and all its neighbours.
        let mut which = 0;
        while k >= lists[which].len() {
            k -= lists[which].len();
            which += 1;
        }
        let tag = *lists[which][k].0;
        case.count("registered tags", 1);
        case.sample(|| format!("{} and everything one byte away", show(&tag)));
        for which in 0..3 {
            check_tag(case, which, tag);
            for j in 0..4 {
                for b in 0..=255 {
                    let mut near = tag;
                    near[j] = b;
                    check_tag(case, which, near);
                }
            }
            check_tag(case, which, tag.map(|b| b.to_ascii_lowercase()));
            check_tag(case, which, tag.map(|b| b.to_ascii_uppercase()));
            for k in 0..4 {
                let mut other = tag;
                other.rotate_right(k);
                check_tag(case, which, other);
                other.reverse();
                check_tag(case, which, other);
                other.swap(1, 2);
                check_tag(case, which, other);
            }
        }
        // Variants are told apart by equality and order as well.
        let m = meaning(which, tag);
        for other in [(k + 1) % lists[which].len(), (k + 7) % lists[which].len()] {
            let other = *lists[which][other].0;
            if other != tag && meaning(which, other).variant == m.variant {
                case.violation("shared variant", format!("{} and {}", show(&tag), show(&other)), &tag);
            }
        }
        return;
    }
    if !cfg!(debug_assertions) && k < total + (1 << 12) {
        // All four billion tags, without formatting.
        let page = ((k - total) as u32) << 20;
        for low in 0..1u32 << 20 {
            let tag = (page | low).to_be_bytes();
            quick_tag(case, tag);
        }
        case.stats.evaluations += 3 << 20;
        case.count("pages of 2^20 tags", 1);
        return;
    }
    for _ in 0..2000 {
        let tag = match case.rng.below(3) {
            0 => (case.rng.next() as u32).to_be_bytes(),
            1 => {
                // Printable.
                let x = case.rng.next().to_be_bytes();
                [x[0], x[1], x[2], x[3]].map(|b| b' ' + b % 95)
            }
            _ => {
                let mut a = crate::tags::registered(&mut case.rng);
                let b = crate::tags::registered(&mut case.rng);
                let n = case.rng.range(1, 3) as usize;
                a[n..].copy_from_slice(&b[n..]);
                a
            }
        };
        for which in 0..3 {
            check_tag(case, which, tag);
        }
    }
}

fn quick_tag(case: &mut Case, tag: [u8; 4]) {
    let t = Tag(tag);
    let known = [
        !matches!(script::Script::from_tag(&t), script::Script::Other(x) if x.0 == tag),
        !matches!(feature::Feature::from_tag(&t), feature::Feature::Other(x) if x.0 == tag),
        !matches!(language::Language::from_tag(&t), language::Language::Other(x) if x.0 == tag),
    ];
    if known.iter().any(|k| *k) {
        for which in 0..3 {
            if known[which] && !registries()[which].contains_key(&tag) {
                check_tag(case, which, tag);
            }
        }
    }
}

// Memory, histories and threads.

/// Something to be read again and again.
struct Item {
    name: String,
    kind: Kind,
    data: Arc<Vec<u8>>,
    at: u64,
    expected: Option<V>,
    cost: u64,
}

/// Things to read, some of which resemble one another.
fn pool(case: &mut Case, n: u64, budget: i64) -> Vec<Item> {
    let lens = Lens::built();
    let mut items: Vec<Item> = vec![];
    while (items.len() as u64) < n {
        let kind = any_kind(&mut case.rng);
        let style = Style { large: 0, force: UNFORCED, budget, ..Style::random(&mut case.rng) };
        let image = image_in_style(kind, &mut case.rng, lens, style);
        settle(&image, lens);
        let (data, at) = surround(&mut case.rng, &image.bytes);
        let mut versions = vec![("", data.clone())];
        // The same but for some bytes, at the same place and of the same length.
        for _ in 0..case.rng.below(4) {
            let mut data = data.clone();
            for _ in 0..case.rng.range(1, 3) {
                let k = at + case.rng.below(image.bytes.len().max(1) as u64);
                if let Some(b) = data.get_mut(k as usize) {
                    *b ^= 1 << case.rng.below(8);
                }
            }
            versions.push(("altered ", data));
        }
        let mut short = data.clone();
        short.truncate(at as usize + case.rng.below(image.bytes.len() as u64 + 1) as usize);
        versions.push(("truncated ", short));
        let mut moved = vec![0xEE; 6];
        moved.extend_from_slice(&data);
        versions.push(("moved ", moved));
        for (name, data) in versions {
            let at = if name == "moved " { at + 6 } else { at };
            let d = decode(kind, &data, at, lens, FUEL);
            if d.taint || d.value == Err(Rej::Fuel) {
                continue;
            }
            items.push(Item {
                name: format!("{name}{kind:?}"),
                kind,
                data: Arc::new(data),
                at,
                cost: d.cost,
                expected: d.value.ok(),
            });
        }
    }
    items
}

impl Item {
    /// Whether the outcome of a read is right.
    fn check(&self, got: &Got<V>) -> Result<(), String> {
        match (&self.expected, got) {
            (Some(expected), Got::Value(v)) => match diff(expected, v) {
                None => Ok(()),
                Some(difference) => Err(difference),
            },
            (None, Got::Error(_)) => Ok(()),
            (Some(_), got) => Err(format!("expected a value, got {}", got.describe())),
            (None, got) => Err(format!("expected an error, got {}", got.describe())),
        }
    }
}

fn p18(case: &mut Case) {
    match case.id % 5 {
        3 => return twins(case),
        4 => return sharing(case),
        _ => {}
    }
    let items = pool(case, 6, 250);
    let steps = case.rng.range(15, 60);
    let mut history: Vec<String> = vec![];
    let mut whole = vec![];
    for step in 0..steps {
        let item = case.rng.pick(&items);
        history.push(item.name.clone());
        let mut tape = Tape::new(item.data.clone()).at(item.at);
        tape.limit = allowance(item.cost);
        match case.rng.below(6) {
            0 => {
                // A read that fails in the middle.
                let at = case.rng.below(40);
                tape.fault = Some(Fault { at, permanent: true, kind: std::io::ErrorKind::Other, form: Form::Marked });
                let _ = guard(|| read_v(item.kind, &mut tape));
                case.count("failed reads", 1);
                continue;
            }
            1 => {
                // The same source again.
                let _ = guard(|| read_v(item.kind, &mut tape));
                let _ = tape.seek(SeekFrom::Start(item.at));
                case.count("repeated reads", 1);
            }
            2 => {
                // Values that outlive the next reads.
                if let Got::Value(value) = guard(|| read_whole(item.kind, &mut tape)) {
                    whole.push((item, value));
                }
                let _ = tape.seek(SeekFrom::Start(item.at));
            }
            _ => {}
        }
        let got = guard(|| read_v(item.kind, &mut tape));
        case.evaluate();
        if let Some(v) = &item.expected {
            case.observe(v.digest());
        }
        if let Err(difference) = item.check(&got) {
            // Was it the history?
            return case.violation(
                "history",
                format!("{} in step {step} after {history:?}: {difference}", item.name),
                input(&item.data, item.at),
            );
        }
    }
    for (item, value) in whole {
        case.evaluate();
        case.count("values kept", 1);
        if let Err(difference) = item.check(&Got::Value(value.val())) {
            case.violation("kept", format!("{}: {difference}", item.name), input(&item.data, item.at));
        }
    }
    case.count("histories", 1);
    case.sample(|| format!("a history: {history:?}"));
}

/// Fonts with the same directory and different content, which take turns.
fn twins(case: &mut Case) {
    let (built, images) = random_font(case, 10);
    let candidates: Vec<usize> = (0..built.records.len()).filter(|&k| built.records[k].size >= 8).collect();
    if candidates.is_empty() {
        return;
    }
    let mut versions = vec![built.bytes.clone()];
    for _ in 0..case.rng.range(1, 3) {
        let mut bytes = built.bytes.clone();
        for _ in 0..case.rng.range(1, 3) {
            let record = &built.records[*case.rng.pick(&candidates)];
            if case.rng.chance(50) {
                let at = record.offset as u64 + case.rng.below(record.size as u64);
                bytes[at as usize] ^= 1 << case.rng.below(8);
            } else {
                // The sum stays the same.
                let a = record.offset as usize + 4 * case.rng.below(record.size as u64 / 4) as usize;
                let b = record.offset as usize + 4 * case.rng.below(record.size as u64 / 4) as usize;
                for j in 0..4 {
                    bytes.swap(a + j, b + j);
                }
            }
        }
        versions.push(bytes);
    }
    let mut files = vec![];
    let mut sources = vec![];
    for bytes in versions {
        let data = Arc::new(bytes);
        match guard(|| File::read(&mut Tape::new(data.clone()))) {
            Got::Value(file) => files.push(file),
            got => {
                return case.violation("file", format!("a font is not read: {}", got.describe()), &data)
            }
        }
        sources.push(data);
    }
    let enforced = !cfg!(feature = "ignore-invalid-checksums");
    let mut history = vec![];
    for step in 0..case.rng.range(8, 40) {
        let which = case.rng.below(sources.len() as u64) as usize;
        let data = &sources[which];
        // Opened anew, opened before, or opened from another source with the same directory.
        let fresh;
        let font = if case.rng.chance(20) {
            match guard(|| File::read(&mut Tape::new(data.clone()))) {
                Got::Value(file) => {
                    fresh = file;
                    &fresh[0]
                }
                _ => return case.violation("history", "a font is not read again".into(), data),
            }
        } else {
            &case.rng.pick(&files)[0]
        };
        let record = if case.rng.chance(70) {
            &built.records[*case.rng.pick(&candidates)]
        } else {
            case.rng.pick(&built.records)
        };
        let Some(supported) = font::SUPPORTED.iter().find(|s| *s.tag == record.tag) else { continue };
        history.push(format!("{} of {which}", show(&record.tag)));
        let content = &data[record.offset as usize..][..record.size as usize];
        let accept = !enforced || font::checksum(&record.tag, content) == record.checksum;
        case.evaluate();
        let image = images.iter().find(|(tag, _)| *tag == record.tag).map(|(_, image)| image);
        let problem = if let (Some(image), true) = (image, case.rng.chance(60)) {
            let d = decode(image.kind, data, record.offset as u64, Lens::built(), FUEL);
            if accept && (d.taint || d.value == Err(Rej::Fuel)) {
                continue;
            }
            let mut tape = Tape::new(data.clone());
            let got = present(guard(|| take_v(font, image.kind, &mut tape)));
            match (&d.value, got) {
                (Ok(v), Got::Value(w)) if accept => diff(v, &w),
                (Err(_), Got::Error(_)) => None,
                (_, Got::Error(_)) if !accept => None,
                (_, got) => Some(format!("an unexpected {}", got.describe())),
            }
        } else {
            let mut tape = Tape::new(data.clone()).at(case.rng.below(30));
            match guard(|| (supported.position)(font, &mut tape)) {
                Got::Value(Some(())) if accept && tape.whereabouts() == record.offset as u64 => None,
                Got::Error(_) if !accept => None,
                got => Some(format!("an unexpected {} at {}", got.describe(), tape.whereabouts())),
            }
        };
        if let Some(problem) = problem {
            return case.violation(
                "history of fonts",
                format!("in step {step} of {history:?}: {problem}"),
                data,
            );
        }
    }
    case.observe(hash(&sources[0]) ^ history.len() as u64);
    case.count("histories of fonts with one directory", 1);
}

/// What can be asked of a type when the reader is built.
struct Probe<T>(std::marker::PhantomData<T>);

#[allow(dead_code)]
trait Unshared {
    const SHARED: bool = false;
}

impl<T> Unshared for Probe<T> {}

impl<T: Send + Sync> Probe<T> {
    const SHARED: bool = true;
}

macro_rules! unshared {
    ($($t:ty,)*) => ([$((stringify!($t), Probe::<$t>::SHARED),)*].iter().find(|(_, shared)| !shared).map(|(name, _)| *name))
}

/// Something in the hands of several threads, which is checked above.
struct Shared<'a, T: ?Sized>(&'a T);

unsafe impl<T: ?Sized> Send for Shared<'_, T> {}

impl<T: ?Sized> Clone for Shared<'_, T> {
    fn clone(&self) -> Self {
        Shared(self.0)
    }
}

/// One font, several threads.
fn sharing(case: &mut Case) {
    let mut fonts = vec![];
    for _ in 0..if crate::run::small() { 1 } else { 2 } {
        let (built, images) = random_font(case, if crate::run::small() { 2 } else { 8 });
        let data = Arc::new(built.bytes.clone());
        let Got::Value(file) = guard(|| File::read(&mut Tape::new(data.clone()))) else {
            return case.violation("file", "a font is not read".into(), &data);
        };
        fonts.push((file, built, images, data));
    }
    let items = pool(case, if crate::run::small() { 1 } else { 4 }, if crate::run::small() { 40 } else { 200 });
    let style = Style { large: 0, force: UNFORCED, budget: 100, ..Style::random(&mut case.rng) };
    let lists = image_in_style(Kind::Scripts, &mut case.rng, Lens::built(), style);
    let Got::Value(scripts) = guard(|| Tape::from_vec(lists.bytes.clone()).take::<Scripts>()) else {
        return case.violation("scripts", "a list of scripts is not read".into(), &lists.bytes);
    };
    let first = |tag: &[u8; 4]| scripts.headers.iter().position(|h| h.tag.0 == *tag);
    let mut wanted: Vec<([u8; 4], Option<usize>)> =
        scripts.headers.iter().map(|h| (h.tag.0, first(&h.tag.0))).collect();
    wanted.push((*b"zzzz", first(b"zzzz")));
    let scripts = Shared(&scripts);
    let wanted = &wanted;
    let seeds: Vec<u64> = (0..if crate::run::small() { 2 } else { 4 }).map(|_| case.rng.next()).collect();
    let barrier = std::sync::Barrier::new(seeds.len());
    if let Some(name) = unshared!(
        Font, File, ot::ColorPalettes, ot::FontVariations, ot::GlyphDefinition, ot::GlyphPositioning,
        ot::GlyphSubstitution, Scripts, opentype::layout::Features, opentype::layout::Context, opentype::layout::ChainedContext,
        opentype::layout::Coverage, opentype::layout::Class, opentype::layout::Correction,
        opentype::layout::Lookups<ot::glyph_positioning::Type>, opentype::layout::Lookups<ot::glyph_substitution::Type>,
        opentype::variations::item::Store,
    ) {
        return case.violation("unshared", format!("{name} cannot be used by several threads"), &[]);
    }
    let (fonts, items, barrier) = (&fonts, &items, &barrier);
    let results: Vec<(u64, Vec<String>)> = std::thread::scope(|scope| {
        let handles: Vec<_> = seeds
            .iter()
            .map(|&seed| {
                let fonts = Shared(&fonts[..]);
                let scripts = scripts.clone();
                scope.spawn(move || {
                    let fonts = fonts.clone().0;
                    let scripts = scripts.clone().0;
                    let mut rng = Rng::new(seed, "threads", 0);
                    let mut reads = 0;
                    let mut wrong = vec![];
                    barrier.wait();
                    for _ in 0..if crate::run::small() { 4 } else { 20 } {
                        reads += 1;
                        if rng.chance(20) {
                            // What tags mean, and searches in one list.
                            let which = rng.below(3) as usize;
                            let tag = crate::tags::registered(&mut rng);
                            match guard(|| Ok(meaning(which, tag))) {
                                Got::Value(m) if is_right(which, tag, &m) => {}
                                _ => wrong.push(format!("the meaning of {}", show(&tag))),
                            }
                            let (tag, k) = rng.pick(wanted);
                            let found = scripts.get(Tag(*tag)).map(|r| r as *const _);
                            if found != k.map(|k| &scripts.records[k] as *const _) {
                                wrong.push(format!("the script {}", show(tag)));
                            }
                            continue;
                        }
                        if rng.chance(40) {
                            let item = rng.pick(items);
                            let mut tape = Tape::new(item.data.clone()).at(item.at);
                            let got = guard(|| read_v(item.kind, &mut tape));
                            if let Err(difference) = item.check(&got) {
                                wrong.push(format!("{}: {difference}", item.name));
                            }
                            continue;
                        }
                        let (file, built, images, data) = rng.pick(fonts);
                        let font = &file[0];
                        let supported = &font::SUPPORTED[rng.below(16) as usize];
                        if (supported.exists)(font) != built.first(supported.tag).is_some() {
                            wrong.push(format!("{} exists", show(supported.tag)));
                        }
                        if images.is_empty() {
                            continue;
                        }
                        let (tag, image) = rng.pick(images);
                        let mut tape = Tape::new(data.clone());
                        let got = present(guard(|| take_v(font, image.kind, &mut tape)));
                        match got {
                            Got::Value(v) => {
                                if let Some(difference) = diff(&image.value, &v) {
                                    wrong.push(format!("{}: {difference}", show(tag)));
                                }
                            }
                            got => wrong.push(format!("{}: {}", show(tag), got.describe())),
                        }
                    }
                    (reads, wrong)
                })
            })
            .collect();
        handles.into_iter().map(|h| h.join().expect("a thread")).collect()
    });
    for (reads, wrong) in results {
        case.stats.evaluations += reads;
        case.count("reads in threads", reads);
        if let Some(first) = wrong.into_iter().next() {
            case.violation("threads", format!("with several threads, {first}"), &[]);
        }
    }
    case.observe(seeds[0]);
    case.count("shared fonts", fonts.len() as u64);
}

fn p19(case: &mut Case) {
    let lens = Lens::built();
    let real = fixture_tables(&[Kind::Gsub, Kind::Gpos, Kind::Gdef, Kind::Cpal, Kind::Fvar]);
    let families = FAMILIES.len() as u64;
    if case.id < families {
        return memory_family(case);
    }
    if let Some(&(fixture, kind, at)) = real.get((case.id - families) as usize) {
        case.count("tables of real fonts", 1);
        return memory(case, kind, &fixture.bytes, at, "real");
    }
    if case.id % 16 == 9 {
        return hoarding(case);
    }
    if case.id % 8 == 3 {
        return climb(case);
    }
    let kind = any_kind(&mut case.rng);
    let image = image(kind, &mut case.rng, lens);
    settle(&image, lens);
    let placed = place(&mut case.rng, image);
    case.count("well-formed", 1);
    memory(case, kind, &placed.data, placed.at, "well-formed");
    // Counts blown up.
    for _ in 0..6 {
        let mut bytes = placed.image.bytes.clone();
        let n = case.rng.range(1, 3);
        for _ in 0..n {
            let k = if case.rng.chance(50) {
                (case.rng.below(24.min(bytes.len() as u64)) & !1) as usize
            } else {
                (case.rng.below(bytes.len() as u64) & !1) as usize
            };
            let x = *case.rng.pick(&[0xFFFF, 0xFFFE, 0x8000, 0x7FFF, 0x4000]);
            put(&mut bytes, k, 2, x);
        }
        if case.rng.chance(50) {
            let k = case.rng.below(bytes.len() as u64 + 1) as usize;
            bytes.truncate(k);
        }
        let d = decode(kind, &bytes, 0, lens, FUEL / 8);
        if d.value == Err(Rej::Fuel) {
            case.count("too expensive to judge", 1);
            continue;
        }
        case.count("with counts blown up", 1);
        memory(case, kind, &Arc::new(bytes), 0, "with counts blown up");
    }
    let bytes = mutate(&mut case.rng, &placed.image);
    let d = decode(kind, &bytes, 0, lens, FUEL / 8);
    if d.value != Err(Rej::Fuel) {
        case.count("mutated", 1);
        memory(case, kind, &Arc::new(bytes), 0, "mutated");
    }
    if case.id % 20 == 0 {
        // A directory with many records announced.
        let (built, _) = random_font(case, 4);
        let mut bytes = built.bytes;
        put(&mut bytes, 4, 2, 0xFFFF);
        let mark = crate::alloc::mark();
        let mut tape = Tape::from_vec(bytes.clone());
        let got = guard(|| File::read(&mut tape).map(|_| ()));
        case.evaluate();
        let peak = crate::alloc::peak(mark);
        if peak > memory_bound(tape.bytes) + bytes.len() as i64 {
            case.violation("directory", format!("{peak} bytes for {}", got.describe()), &bytes);
        }
    }
}

/// Change one field after another, keeping what takes more memory.
fn climb(case: &mut Case) {
    let lens = Lens::built();
    let kind = if case.rng.chance(15) {
        *case.rng.pick(&[Kind::Fvar, Kind::Cpal, Kind::Pos(2), Kind::StoreRecord])
    } else {
        any_kind(&mut case.rng)
    };
    let mut style = Style::random(&mut case.rng);
    style.budget = style.budget.min(6000);
    if case.rng.chance(50) {
        style.force = case.rng.below(5);
    }
    let image = image_in_style(kind, &mut case.rng, lens, style);
    let head: Vec<usize> = (0..image.bytes.len().min(20) / 2).map(|k| 2 * k).collect();
    let mut bytes = image.bytes.clone();
    let mut best = 0;
    for _ in 0..4 {
        let mut places = head.clone();
        for _ in 0..10 {
            if !image.sites.is_empty() {
                places.push(case.rng.pick(&image.sites).0);
            }
        }
        let mut step = None;
        for k in places {
            let x = *case.rng.pick(&[0xFFFF, 0xFFFF, 0xFFFE, 0x8000, 0x7FFF, 0x4000, 0x1000]);
            let mut bytes = bytes.clone();
            put(&mut bytes, k, 2, x);
            let Some(cost) = reach(kind, &bytes, 0, lens, FUEL / 8) else {
                case.count("too expensive to judge", 1);
                continue;
            };
            let data = Arc::new(bytes);
            let mut tape = Tape::new(data.clone());
            tape.limit = allowance(cost.max(data.len() as u64));
            let mark = crate::alloc::mark();
            let got = guard(|| read_whole(kind, &mut tape).map(|_| ()));
            let peak = crate::alloc::peak(mark);
            case.evaluate();
            if peak > memory_bound(tape.bytes) {
                let detail = format!(
                    "{kind:?} with fields blown up: {peak} bytes of memory after {} bytes read, with {}",
                    tape.bytes,
                    got.describe()
                );
                return case.violation(format!("{kind:?} memory"), detail, &data);
            }
            if peak > best {
                best = peak;
                step = Some(data.to_vec());
            }
        }
        match step {
            Some(step) => bytes = step,
            _ => break,
        }
        case.count("fields blown up one after another", 1);
    }
    case.observe(hash(&bytes));
}

/// Many different inputs, one after another: nothing may stay behind each time.
fn hoarding(case: &mut Case) {
    let lens = Lens::built();
    let fonts = case.rng.chance(40);
    let kind = any_kind(&mut case.rng);
    let mut windows = [0; 6];
    let mut last = vec![];
    for window in &mut windows {
        for _ in 0..24 {
            if fonts {
                let (built, images) = random_font(case, 6);
                last = built.bytes;
                if case.rng.chance(40) {
                    // What is wrong with a font is an error to give back as well.
                    let k = case.rng.below(last.len() as u64) as usize;
                    last[k] ^= 1 << case.rng.below(8);
                }
                let tag = Tag(crate::tags::registered(&mut case.rng));
                let data = Arc::new(last.clone());
                let live = crate::alloc::live().0;
                if let Got::Value(file) = guard(|| File::read(&mut Tape::new(data.clone()))) {
                    for (_, image) in &images {
                        drop(guard(|| take_v(&file[0], image.kind, &mut Tape::new(data.clone()))));
                    }
                    for supported in font::SUPPORTED {
                        drop(guard(|| (supported.position)(&file[0], &mut Tape::new(data.clone()))));
                    }
                }
                std::hint::black_box((
                    script::Script::from_tag(&tag).name(),
                    feature::Feature::from_tag(&tag).name(),
                    language::Language::from_tag(&tag).name(),
                    language::Language::from_tag(&tag).codes().count(),
                ));
                *window += crate::alloc::live().0 - live;
            } else {
                let style = Style { large: 0, force: UNFORCED, budget: 150, ..Style::random(&mut case.rng) };
                let image = image_in_style(kind, &mut case.rng, lens, style);
                last = image.bytes;
                let mut bytes = last.clone();
                if case.rng.chance(30) && !bytes.is_empty() {
                    bytes.truncate(bytes.len() - 1);
                }
                let data = Arc::new(bytes);
                let mut tape = Tape::new(data);
                let live = crate::alloc::live().0;
                drop(guard(|| read_whole(kind, &mut tape)));
                *window += crate::alloc::live().0 - live;
            }
            case.evaluate();
        }
    }
    case.count("different inputs in a row", 24 * windows.len() as u64);
    let grown = windows[2..].iter().filter(|n| **n > 0).count();
    if grown >= 3 {
        case.violation(
            "hoarding",
            format!(
                "reading different {} one after another leaves behind {windows:?} bytes, 24 inputs at a time",
                if fonts { "fonts".into() } else { format!("{kind:?}") }
            ),
            &last,
        );
    }
}

fn memory_bound(bytes: u64) -> i64 {
    (128 << 20) + 4096 * bytes as i64
}

fn memory(case: &mut Case, kind: Kind, data: &Arc<Vec<u8>>, at: u64, what: &str) {
    // The first time may initialise something for good.
    let mut before = (0, 0);
    for round in 0..3 {
        let mut tape = Tape::new(data.clone()).at(at);
        tape.limit = allowance(FUEL);
        let live = crate::alloc::live();
        if round == 1 {
            before = live;
        }
        let mark = crate::alloc::mark();
        let got = guard(|| read_whole(kind, &mut tape));
        let peak = crate::alloc::peak(mark);
        if round == 0 {
            case.evaluate();
            case.observe(hash(input(data, at)));
            case.count("bytes read", tape.bytes);
            let highest = case.stats.counters.entry("peak bytes in total".into()).or_default();
            *highest += peak.max(0) as u64;
            if peak > memory_bound(tape.bytes) {
                case.violation(
                    format!("{kind:?} memory"),
                    format!(
                        "{kind:?} {what}: {peak} bytes of memory after {} bytes read, with {}",
                        tape.bytes,
                        got.describe()
                    ),
                    input(data, at),
                );
            }
        }
        if matches!(got, Got::Panic(_)) {
            return;
        }
        if let (0, Got::Value(value)) = (round, &got) {
            // What is held is what there is, not what there could have been.
            let held = crate::alloc::live().0 - live.0;
            if let Got::Value(copy) = guard(|| Ok(value.size_of_copy())) {
                case.count("values held", 1);
                case.count("bytes held", held.max(0) as u64);
                case.count("bytes held by copies", copy.max(0) as u64);
                if held > 8 * copy + (64 << 10) {
                    case.violation(
                        format!("{kind:?} room"),
                        format!("{kind:?} {what}: {held} bytes of memory are held by what a copy needs {copy} bytes for"),
                        input(data, at),
                    );
                }
            }
        }
        drop(got);
    }
    let after = crate::alloc::live();
    case.count("checked for leaks", 1);
    if after.0 > before.0 || after.1 > before.1 {
        case.violation(
            format!("{kind:?} leak"),
            format!(
                "{kind:?} {what}: {} bytes in {} blocks are not given back by two reads",
                after.0 - before.0,
                after.1 - before.1
            ),
            input(data, at),
        );
    }
}

/// Inputs built to cost as much as possible.
struct Family {
    name: &'static str,
    make: fn() -> (Kind, Vec<u8>),
}

fn words(words: &[u16]) -> Vec<u8> {
    words.iter().flat_map(|w| w.to_be_bytes()).collect()
}

const FAMILIES: &[Family] = &[
    Family {
        // Cells without content, which cost nothing to store.
        name: "empty cells of a pair matrix",
        make: || {
            let mut bytes = words(&[2, 16, 0, 0, 18, 18, 1000, 1000]);
            bytes.extend(words(&[1, 0, 0, 0, 0, 0]));
            (Kind::Pos(2), bytes)
        },
    },
    Family {
        name: "empty components of attached ligatures",
        make: || {
            let n = 200;
            let mut bytes = words(&[n]);
            bytes.extend(words(&vec![2 * n + 2; n as usize]));
            bytes.extend(words(&[0xFFFF]));
            (Kind::PosLigatures(0), bytes)
        },
    },
];

fn memory_family(case: &mut Case) {
    let family = &FAMILIES[case.id as usize];
    let (kind, bytes) = (family.make)();
    let mut tape = Tape::from_vec(bytes.clone());
    let mark = crate::alloc::mark();
    let got = guard(|| read_whole(kind, &mut tape));
    let peak = crate::alloc::peak(mark);
    case.evaluate();
    case.count("adversarial families", 1);
    if peak > memory_bound(tape.bytes) {
        case.violation(
            format!("family {}", family.name),
            format!(
                "{}: {peak} bytes of memory after {} bytes read from a table of {} bytes, with {}",
                family.name,
                tape.bytes,
                bytes.len(),
                got.describe()
            ),
            &bytes,
        );
    }
}

// Effort.

fn effort_bound(size: u64) -> u64 {
    8192 + 64 * size
}

fn p25(case: &mut Case) {
    let lens = Lens::built();
    let real = fixture_tables(&[Kind::Gsub, Kind::Gpos, Kind::Gdef, Kind::Cpal, Kind::Fvar]);
    let families = SHARING.len() as u64;
    if case.id < families {
        let (name, make) = SHARING[case.id as usize];
        let (kind, bytes) = make();
        let size = bytes.len() as u64;
        case.count("adversarial families", 1);
        return effort(case, kind, &Arc::new(bytes), 0, size, &format!("family {name}"));
    }
    if let Some(&(fixture, kind, at)) = real.get((case.id - families) as usize) {
        let size = fixture.records.iter().find(|r| r.offset as u64 == at).map_or(0, |r| r.size);
        case.count("tables of real fonts", 1);
        return effort(case, kind, &fixture.bytes, at, size as u64, &format!("{kind:?}"));
    }
    match case.id % 8 {
        1 | 2 => return effort_amid_damage(case),
        3 => return effort_of_fonts(case),
        5 => return effort_of_long_lists(case),
        _ => {}
    }
    let kind = any_kind(&mut case.rng);
    let mut style = Style::random(&mut case.rng);
    style.share = 0;
    style.large = *case.rng.pick(&[0, 5, 50, 200]);
    let mut tries = 0;
    let image = loop {
        let graph = spec::generate(kind, &mut case.rng, style, lens);
        // Nothing is stored once and used twice.
        if let Some(image) = graph.unshare(600_000).and_then(|g| g.layout(&mut case.rng, 5)) {
            break image;
        }
        tries += 1;
        if tries > 4 {
            style.budget /= 2;
            style.large /= 2;
        }
    };
    let size = image.bytes.len() as u64;
    case.count("tables without sharing", 1);
    case.count("bytes of tables", size);
    case.sample(|| format!("{kind:?} of {size} bytes without sharing"));
    effort(case, kind, &Arc::new(image.bytes), 0, size, &format!("{kind:?}"));
}

/// The processor time of this thread in nanoseconds.
fn processor_time() -> u64 {
    extern "C" {
        fn clock_gettime(clock: i32, time: *mut [i64; 2]) -> i32;
    }
    let mut time = [0; 2];
    // The clock of the thread on Linux.
    if unsafe { clock_gettime(3, &mut time) } != 0 {
        return 0;
    }
    time[0] as u64 * 1_000_000_000 + time[1] as u64
}

/// Say so if something takes longer than is due for an amount of work.
fn hurried(case: &mut Case, work: u64, mut measure: impl FnMut() -> u64) -> Option<String> {
    let due = 20_000_000 + 500 * work;
    let mut took = u64::MAX;
    // The system takes some time for itself now and then.
    for _ in 0..4 {
        took = took.min(measure());
        if took <= due {
            case.count("microseconds of reading", took / 1000);
            return None;
        }
    }
    // The machine may be slow for everything.
    let pace = (0..4).map(|_| pace(work)).min().unwrap_or(0);
    if took <= 20 * pace {
        case.count("slow moments", 1);
        return None;
    }
    Some(format!(
        "{} ms where {} ms would do, and {} ms go by for plain reading",
        took / 1_000_000,
        due / 1_000_000,
        pace / 1_000_000,
    ))
}

/// How long it takes to ask for an amount of bytes and do nothing with them.
fn pace(work: u64) -> u64 {
    let data = Arc::new(vec![0; 1 << 16]);
    let mut sum = 0;
    let began = processor_time();
    for _ in 0..work.div_ceil(1 << 16) {
        let mut tape = Tape::new(data.clone());
        for _ in 0..1 << 15 {
            sum += tape.take::<u16>().unwrap_or(1) as u64;
        }
    }
    let took = processor_time() - began;
    std::hint::black_box(sum);
    took
}

fn effort(case: &mut Case, kind: Kind, data: &Arc<Vec<u8>>, at: u64, size: u64, what: &str) {
    let bound = effort_bound(size);
    let mut tape = Tape::new(data.clone()).at(at);
    tape.limit = 2 * bound;
    let got = guard(|| read_whole(kind, &mut tape).map(|_| ()));
    let asked = tape.ops() + tape.bytes;
    let problem = hurried(case, asked + size, || {
        let mut tape = Tape::new(data.clone()).at(at);
        tape.limit = 2 * bound;
        let began = processor_time();
        let _ = guard(|| read_whole(kind, &mut tape));
        processor_time() - began
    });
    if let Some(problem) = problem {
        let detail = format!("{kind:?} of {size} bytes for which {asked} are asked: {problem}");
        return case.violation(format!("{what} in time"), detail, input(data, at));
    }
    case.evaluate();
    case.observe(hash(input(data, at)));
    case.count("operations", tape.ops());
    case.count("bytes delivered", tape.bytes);
    if tape.ops() > bound || tape.bytes > bound {
        case.violation(
            what,
            format!(
                "{kind:?}: {}{} operations and {} bytes for a table of {size} bytes, with {}",
                if tape.exhausted { "more than " } else { "" },
                tape.ops(),
                tape.bytes,
                got.describe()
            ),
            &data[at as usize..][..(size as usize).min(data.len() - at as usize)],
        );
    }
}

/// What takes a step for each pair in a list shows in long ones.
fn effort_of_long_lists(case: &mut Case) {
    if case.rng.chance(30) {
        return effort_of_searches(case);
    }
    let lens = Lens::built();
    let kind = any_kind(&mut case.rng);
    if case.rng.chance(60) {
        // Lists of different numbers.
        let mut style = Style { budget: 200, null: 20, share: 0, large: 0, force: UNFORCED, ..Style::random(&mut case.rng) };
        let sorts = spec::generate(kind, &mut case.rng, style, lens).sorts;
        if sorts.is_empty() {
            return;
        }
        let n = *case.rng.pick(&[5_000, 10_000, 16_000, 30_000, 65_000]);
        style.given = Some((*case.rng.pick(&sorts), case.rng.range(n / 2, n) as u16));
        let graph = spec::generate(kind, &mut case.rng, style, lens);
        let Some(image) = graph.unshare(2_000_000).and_then(|g| g.layout(&mut case.rng, 5)) else {
            return case.count("lists too long to lay out", 1);
        };
        case.count("tables with long lists of different numbers", 1);
        let size = image.bytes.len() as u64;
        return effort(case, kind, &Arc::new(image.bytes), 0, size, &format!("{kind:?} with long lists"));
    }
    for _ in 0..20 {
        let bytes = blanks(&mut case.rng);
        let d = decode(kind, &bytes, 0, lens, 4 * FUEL);
        if d.value.as_ref().is_ok_and(|v| !d.taint && v.leaves() > 0x8000) {
            case.count("tables with long lists", 1);
            let size = bytes.len() as u64 + d.cost;
            return effort(case, kind, &Arc::new(bytes), 0, size, &format!("{kind:?} with long lists"));
        }
    }
}

/// Searches take time in proportion to what is searched.
fn effort_of_searches(case: &mut Case) {
    let count = case.rng.range(0x4000, 0xFFFF);
    let sorted = case.rng.chance(50);
    let (a, b) = (crate::tags::registered(&mut case.rng), crate::tags::registered(&mut case.rng));
    let mut list = words(&[count as u16]);
    for k in 0..count as u32 {
        // The first one is what all of them lead to: a feature of no lookups.
        let tag = match sorted {
            true => (k << 8).to_be_bytes(),
            false if k == 0 => [0; 4],
            false => *case.rng.pick(&[a, b]),
        };
        list.extend(tag);
        list.extend([0, 2]);
    }
    let data = Arc::new(list);
    let tags: Vec<[u8; 4]> = vec![a, b, *b"zzzz", [0; 4], [0, 1, 0, 1], [0xFF; 4]];
    let mut tape = Tape::new(data.clone());
    tape.limit = 100 * data.len() as u64;
    let got = guard(|| tape.take::<Features>());
    case.evaluate();
    case.observe(hash(&data));
    let Got::Value(features) = got else { return case.count("lists that lead nowhere", 1) };
    case.count("searches in long lists", tags.len() as u64);
    for tag in tags {
        let problem = hurried(case, 8 * count, || {
            let began = processor_time();
            let _ = guard(|| Ok(features.get(Tag(tag)).is_some()));
            processor_time() - began
        });
        if let Some(problem) = problem {
            let detail = format!("a search for {} in {count} records: {problem}", show(&tag));
            return case.violation("searches in time", detail, &data);
        }
    }
}

/// What is malformed or cut short is given up in time.
fn effort_amid_damage(case: &mut Case) {
    let Some((kind, data, at, cost)) = hostile(case) else { return };
    if cost == EXPLOSIVE {
        return;
    }
    // Structures may be shared here, for which the reference is charged each time.
    let bound = 4 * effort_bound(cost.max(data.len() as u64));
    let mut tape = Tape::new(data.clone()).at(at);
    tape.limit = 2 * bound;
    let got = guard(|| read_whole(kind, &mut tape).map(|_| ()));
    case.evaluate();
    case.observe(hash(input(&data, at)));
    case.count("operations amid damage", tape.ops());
    let asked = tape.ops() + tape.bytes;
    let problem = hurried(case, asked + cost, || {
        let mut tape = Tape::new(data.clone()).at(at);
        tape.limit = 2 * bound;
        let began = processor_time();
        let _ = guard(|| read_whole(kind, &mut tape));
        processor_time() - began
    });
    if let Some(problem) = problem {
        let detail = format!("{kind:?} at {at} for which {asked} are asked: {problem}");
        return case.violation(format!("{kind:?} amid damage in time"), detail, input(&data, at));
    }
    if tape.ops() > bound || tape.bytes > bound {
        case.violation(
            format!("{kind:?} amid damage"),
            format!(
                "{kind:?} at {at}: {} operations and {} bytes for a cost of {cost}, with {}",
                tape.ops(),
                tape.bytes,
                got.describe()
            ),
            input(&data, at),
        );
    }
}

/// Opening a font and finding and taking its tables.
fn effort_of_fonts(case: &mut Case) {
    let (built, images) = random_font(case, 60);
    let data = Arc::new(built.bytes);
    let directory = 12 + 16 * built.records.len() as u64;
    let mut tape = Tape::new(data.clone());
    tape.limit = 2 * effort_bound(directory);
    let got = guard(|| File::read(&mut tape));
    case.evaluate();
    case.observe(hash(&data));
    if tape.ops() > effort_bound(directory) || tape.bytes > effort_bound(directory) {
        let (ops, bytes) = (tape.ops(), tape.bytes);
        let detail = format!("{ops} operations and {bytes} bytes for a directory of {directory} bytes");
        return case.violation("directory", detail, &data);
    }
    let Got::Value(file) = got else { return };
    case.count("fonts", 1);
    for (tag, image) in &images {
        let Some(kind) = table_kind(tag) else { continue };
        let cost = decode(kind, &image.bytes, 0, Lens::built(), FUEL).cost;
        let bound = effort_bound(directory + image.bytes.len() as u64 + cost);
        let mut tape = Tape::new(data.clone());
        tape.limit = 2 * bound;
        let _ = guard(|| take_v(&file[0], kind, &mut tape));
        case.evaluate();
        case.count("tables taken", 1);
        if tape.ops() > bound || tape.bytes > bound {
            let (ops, bytes) = (tape.ops(), tape.bytes);
            let detail = format!(
                "{}: {ops} operations and {bytes} bytes for a table of {} bytes and cost {cost}",
                show(tag),
                image.bytes.len()
            );
            case.violation(format!("taking {}", show(tag)), detail, &data);
        }
    }
}

/// Tables whose many offsets lead to the same place.
const SHARING: &[(&str, fn() -> (Kind, Vec<u8>))] = &[
    ("scripts at one place", || {
        let n = 400;
        let mut bytes = words(&[n]);
        for _ in 0..n {
            bytes.extend(b"latn");
            bytes.extend(words(&[6 * n + 2]));
        }
        // One script with many languages at one place.
        bytes.extend(words(&[0, n]));
        for _ in 0..n {
            bytes.extend(b"DEU ");
            bytes.extend(words(&[6 * n + 4]));
        }
        bytes.extend(words(&[0, 0, 400]));
        bytes.extend(words(&[7; 400]));
        (Kind::Scripts, bytes)
    }),
    ("features at one place", || {
        let n = 2000;
        let mut bytes = words(&[n]);
        for _ in 0..n {
            bytes.extend(b"kern");
            bytes.extend(words(&[6 * n + 2]));
        }
        bytes.extend(words(&[0, 2000]));
        bytes.extend(words(&[7; 2000]));
        (Kind::Features, bytes)
    }),
    ("lookups at one place", || {
        let n = 500;
        let mut bytes = words(&[n]);
        bytes.extend(words(&vec![2 * n + 2; n as usize]));
        bytes.extend(words(&[1, 0, n]));
        bytes.extend(words(&vec![2 * n + 6; n as usize]));
        bytes.extend(words(&[1, 6, 5, 1, 400]));
        bytes.extend(words(&[3; 400]));
        (Kind::SubLookups, bytes)
    }),
    ("rules at one place", || {
        let n = 1000;
        let mut bytes = words(&[1, 2 * n + 6, n]);
        bytes.extend(words(&vec![2 * n + 10; n as usize]));
        bytes.extend(words(&[1, 0]));
        bytes.extend(words(&[500]));
        bytes.extend(words(&vec![1002; 500]));
        bytes.extend(words(&[1, 0]));
        (Kind::Context, bytes)
    }),
    ("sequences at one place", || {
        let n = 2000;
        let mut bytes = words(&[1, 2 * n + 6, n]);
        bytes.extend(words(&vec![2 * n + 10; n as usize]));
        bytes.extend(words(&[1, 0, 2000]));
        bytes.extend(words(&[9; 2000]));
        (Kind::Sub(2), bytes)
    }),
    ("anchors at one place", || {
        let n = 1000;
        let mut bytes = words(&[n]);
        bytes.extend(words(&vec![8 * n + 2; 4 * n as usize]));
        bytes.extend(words(&[3, 1, 1, 10, 10, 0, 1000, 3]));
        bytes.extend(words(&[5; 501]));
        (Kind::Bases(4), bytes)
    }),
    ("coverages of mark sets at one place", || {
        let n = 1000u32;
        let mut bytes = words(&[1, n as u16]);
        for _ in 0..n {
            bytes.extend((4 * n + 4).to_be_bytes());
        }
        bytes.extend(words(&[1, 2000]));
        bytes.extend(words(&[5; 2000]));
        (Kind::MarkSets, bytes)
    }),
    ("variation data at one place", || {
        let n = 500u32;
        let mut bytes = words(&[1, 0, 0, n as u16]);
        for _ in 0..n {
            bytes.extend((4 * n + 8).to_be_bytes());
        }
        bytes.extend(words(&[1000, 0, 1, 0]));
        bytes.extend(vec![1; 1000]);
        (Kind::Store, bytes)
    }),
    ("records without length", || {
        let mut bytes = words(&[1, 0, 16, 2, 2000, 0, 2000, 0]);
        bytes.extend(vec![0; 20000]);
        (Kind::Fvar, bytes)
    }),
];

// Hostile inputs.

/// An input of any sort with the kind it is read as.
fn hostile(case: &mut Case) -> Option<(Kind, Arc<Vec<u8>>, u64, u64)> {
    let lens = Lens::built();
    let real = fixture_tables(&[Kind::Gsub, Kind::Gpos, Kind::Gdef, Kind::Cpal, Kind::Fvar]);
    let mut damaged = false;
    let (kind, data, at) = match case.rng.below(20) {
        0 => {
            // Noise.
            let n = case.rng.below(300);
            let data: Vec<u8> = match case.rng.below(3) {
                0 => noise(&mut case.rng, n),
                _ => (0..n)
                    .map(|_| if case.rng.chance(60) { case.rng.below(4) as u8 } else { case.rng.next() as u8 })
                    .collect(),
            };
            let at = case.rng.below(20);
            (any_kind(&mut case.rng), data, at)
        }
        1 => {
            // One thing taken for another.
            let kind = any_kind(&mut case.rng);
            let image = image(any_kind(&mut case.rng), &mut case.rng, lens);
            let at = case.rng.below(image.bytes.len() as u64 + 2);
            (kind, image.bytes, at)
        }
        2 if !real.is_empty() => {
            let &(fixture, kind, at) = case.rng.pick(&real);
            let record = fixture.records.iter().find(|r| r.offset as u64 == at)?;
            if record.size > 60_000 {
                return None;
            }
            let mut bytes = fixture.bytes[at as usize..][..record.size as usize].to_vec();
            for _ in 0..case.rng.range(1, 6) {
                let k = (case.rng.below(bytes.len() as u64) & !1) as usize;
                let x = case.rng.u16();
                put(&mut bytes, k, 2, x as u64);
            }
            (kind, bytes, 0)
        }
        3 => {
            let kind = any_kind(&mut case.rng);
            let image = image(kind, &mut case.rng, lens);
            // No file reaches beyond an `i64`.
            let at = *case.rng.pick(&[i64::MAX as u64, i64::MAX as u64 - 1, i64::MAX as u64 - 100, 1 << 62, 1 << 40]);
            (kind, image.bytes, at)
        }
        4..=5 => {
            let kind = any_kind(&mut case.rng);
            let image = image(kind, &mut case.rng, lens);
            (kind, image.bytes, 0)
        }
        6..=10 => {
            // Otherwise right, and one field that decides is not.
            let kind = if case.rng.chance(4) { Kind::Cpal } else { any_kind(&mut case.rng) };
            let mut style = Style::random(&mut case.rng);
            if !crate::run::small() && case.rng.chance(15) {
                // The one field may be one of many.
                style.force = case.rng.below(4);
                style.budget = style.budget.min(1500);
            }
            let mut image = image_in_style(kind, &mut case.rng, lens, style);
            if !image.sites.is_empty() {
                let &(k, w) = case.rng.pick(&image.sites);
                let old = get(&image.bytes, k, w);
                let x = boundary(&mut case.rng, old, w);
                put(&mut image.bytes, k, w, x);
            }
            damaged = true;
            case.count("with one field damaged", 1);
            (kind, image.bytes, 0)
        }
        _ => {
            let kind = any_kind(&mut case.rng);
            let image = image(kind, &mut case.rng, lens);
            let bytes = mutate(&mut case.rng, &image);
            let (data, at) = surround(&mut case.rng, &bytes);
            (kind, data, at)
        }
    };
    let mut data = data;
    let behind = if damaged { 30 } else { 12 };
    if !crate::run::small() && case.rng.chance(behind) {
        // Much to go on with, so that what is too large or too far is still there.
        let n = match case.rng.below(2) {
            0 => case.rng.range(1_000, 140_000),
            _ => case.rng.range(140_000, 280_000),
        } as usize;
        let from = data.len();
        match case.rng.below(3) {
            0 => data.resize(from + n, 0),
            1 if from > 0 => {
                while data.len() < from + n {
                    let k = (data.len() - from) % from;
                    data.push(data[k]);
                }
            }
            _ => data.extend(noise(&mut case.rng, n as u64)),
        }
        case.count("with much behind", 1);
    }
    let d = decode(kind, &data, at, lens, FUEL);
    match d.value {
        Err(Rej::Fuel) => {
            case.count("too expensive to judge", 1);
            return None;
        }
        Err(Rej::Eof) => case.count("bytes missing", 1),
        Err(Rej::Bad) => case.count("malformed", 1),
        Ok(_) => case.count("well-formed", 1),
    }
    let mut cost = d.cost;
    if d.value.is_err() {
        // What is wrong may be found late.
        cost = reach(kind, &data, at, lens, FUEL).unwrap_or(EXPLOSIVE);
        if cost == EXPLOSIVE {
            case.count("perhaps expensive", 1);
        }
    }
    Some((kind, Arc::new(data), at, cost))
}

/// The cost of what the reference decoder gives up on.
const EXPLOSIVE: u64 = 2 * FUEL;

/// Search the longest lists there are, for what comes first, comes last, and is missing.
fn long_lists(case: &mut Case) {
    let n = 0xFFFF - case.id as u16 % 3;
    let kind = [Kind::Scripts, Kind::Script, Kind::Features][case.id as usize % 3];
    let head: &[u16] = if kind == Kind::Script { &[0, n] } else { &[n] };
    let mut bytes = words(head);
    let ordered = case.rng.chance(50);
    for k in 0..n {
        let k = if ordered || k < 2 { k } else { k.wrapping_mul(0x9E37) };
        // All of them are where the first tag has its zeros.
        bytes.extend(words(&[0, if k == 0 { 0 } else { k | 0x8000 }, if kind == Kind::Script { 4 } else { 2 }]));
    }
    bytes.extend([0; 16]);
    let tags: Vec<Tag> = [1, n as usize / 2, n as usize - 1]
        .iter()
        .map(|k| 2 * head.len() + 6 * k)
        .map(|at| Tag(bytes[at..at + 4].try_into().unwrap()))
        .chain([Tag(*b"cyrl"), Tag([0; 4]), Tag([0xFF; 4])])
        .collect();
    let mut tape = Tape::from_vec(bytes.clone());
    macro_rules! each(
        ($table:expr) => ({
            let table = $table;
            Ok(tags.iter().map(|tag| table.get(tag.clone()).is_some()).collect::<Vec<_>>())
        });
    );
    let got = guard(|| match kind {
        Kind::Scripts => each!(tape.take::<Scripts>()?),
        Kind::Script => each!(tape.take::<script::Record>()?),
        _ => each!(tape.take::<Features>()?),
    });
    case.evaluate();
    case.count("searches of the longest lists", tags.len() as u64);
    match got {
        Got::Value(found) if found == [true, true, true, false, true, false] => {}
        Got::Value(found) => case.violation(
            format!("{kind:?} long"),
            format!("searches among {n} entries of {kind:?} come to {found:?}"),
            &bytes,
        ),
        got => case.violation(format!("{kind:?} long"), format!("{n} entries of {kind:?} come to {}", got.describe()), &bytes),
    }
}

fn p01(case: &mut Case) {
    if !crate::run::small() && case.id < 6 {
        return long_lists(case);
    }
    if case.id % 8 == 0 {
        return hostile_font(case);
    }
    let Some((kind, data, at, cost)) = hostile(case) else { return };
    let mut tape = Tape::new(data.clone()).at(at);
    tape.limit = allowance(cost.max(data.len() as u64));
    if cost < EXPLOSIVE {
        tape.limit *= 16;
    }
    let got = guard(|| read_whole(kind, &mut tape));
    case.evaluate();
    case.observe(hash(input(&data, at)));
    case.sample(|| format!("{kind:?} at {at} of {}", crate::run::hex(&data)));
    let got = match got {
        // Walk what was read.
        Got::Value(value) => {
            case.count("walked", 1);
            let mut got = guard(|| Ok(drop(value.val())));
            if let Got::Value(()) = got {
                got = walk(kind, &data, at);
            }
            got
        }
        Got::Error(e) => Got::Error(e),
        Got::Panic(s) => Got::Panic(s),
    };
    if tape.exhausted && cost < EXPLOSIVE {
        case.violation(
            format!("{kind:?} endless"),
            format!("{kind:?} at {at} asks for more than {} operations", tape.limit),
            input(&data, at),
        );
    }
    if let Got::Panic(s) = got {
        case.violation(format!("{kind:?} panic"), format!("{kind:?} at {at} panics with {s}"), input(&data, at));
    }
}

/// Searches by tag and other ways to look at what was read.
fn walk(kind: Kind, data: &Arc<Vec<u8>>, at: u64) -> Got<()> {
    let mut tape = Tape::new(data.clone()).at(at);
    let tags: Vec<Tag> = (0..6)
        .map(|k| {
            let k = at as usize + 2 + 6 * k;
            Tag(data.get(k..k + 4).map_or(*b"latn", |t| t.try_into().unwrap()))
        })
        .collect();
    guard(|| {
        match kind {
            Kind::Scripts => {
                let table: Scripts = tape.take()?;
                for tag in &tags {
                    if let Some(record) = table.get(tag.clone()) {
                        for tag in &tags {
                            std::hint::black_box(record.get(tag.clone()).is_some());
                        }
                    }
                }
            }
            Kind::Features => {
                let table: Features = tape.take()?;
                for tag in &tags {
                    std::hint::black_box(table.get(tag.clone()).is_some());
                }
            }
            Kind::Gsub => {
                let table: gsub::GlyphSubstitution = tape.take()?;
                for header in &table.scripts.headers {
                    std::hint::black_box(table.scripts.get(header.tag.clone()).is_some());
                }
                for header in &table.features.headers {
                    std::hint::black_box(table.features.get(header.tag.clone()).is_some());
                }
                std::hint::black_box(table.clone().lookups.records.len());
            }
            Kind::PosLookups => {
                let table: Lookups<gpos::Type> = tape.take()?;
                for record in &table.records {
                    let flags: lookup::Flags = record.flags;
                    std::hint::black_box((
                        flags.is_right_to_left(),
                        flags.should_ignore_marks(),
                        format!("{flags:?}").len(),
                    ));
                }
            }
            _ => {}
        }
        Ok(())
    })
}

fn hostile_font(case: &mut Case) {
    if let Some(bytes) = hostile_font_bytes(case) {
        check_hostile_font(case, bytes);
    }
}

fn hostile_font_bytes(case: &mut Case) -> Option<Vec<u8>> {
    let mut bytes = match case.rng.below(6) {
        0 => {
            let n = case.rng.below(200);
            let mut bytes = font::SIGNATURES[case.rng.below(4) as usize].to_vec();
            bytes.extend(noise(&mut case.rng, n));
            bytes
        }
        1 if !fixtures().is_empty() => {
            let fixture = case.rng.pick(fixtures());
            if fixture.bytes.len() > 150_000 {
                return None;
            }
            fixture.bytes.to_vec()
        }
        _ => random_font(case, 8).0.bytes,
    };
    for _ in 0..case.rng.below(6) {
        let directory = (12 + 16 * get(&bytes, 4, 2)).min(bytes.len() as u64).max(1);
        let k = if case.rng.chance(80) { case.rng.below(directory) } else { case.rng.below(bytes.len() as u64) };
        match case.rng.below(3) {
            0 => bytes[k as usize] = case.rng.next() as u8,
            1 => put(&mut bytes, (k & !3) as usize, 4, case.rng.u32() as u64),
            _ => {
                let x = *case.rng.pick(&[0u64, 1, 2, 3, 0xFFFF_FFFC, 0xFFFF_FFFD, 0xFFFF_FFFE, 0xFFFF_FFFF]);
                put(&mut bytes, (k & !3) as usize, 4, x);
            }
        }
    }
    if case.rng.chance(10) {
        let k = case.rng.below(bytes.len() as u64 + 1) as usize;
        bytes.truncate(k);
    }
    Some(bytes)
}

fn check_hostile_font(case: &mut Case, bytes: Vec<u8>) {
    let data = Arc::new(bytes);
    let at = if case.rng.chance(5) { case.rng.below(60) } else { 0 };
    let mut tape = Tape::new(data.clone()).at(at);
    let got = guard(|| File::read(&mut tape));
    case.evaluate();
    case.observe(hash(&data));
    let file = match got {
        Got::Value(file) => file,
        Got::Error(_) => return case.count("fonts refused", 1),
        Got::Panic(s) => return case.violation("file panic", format!("a file panics with {s}"), &data),
    };
    case.count("fonts opened", 1);
    for supported in font::SUPPORTED {
        let font = &file[0];
        let mut tape = Tape::new(data.clone());
        let got = guard(|| {
            (supported.exists)(font);
            (supported.position)(font, &mut tape)
        });
        case.evaluate();
        if let Got::Panic(s) = got {
            case.violation(
                format!("position {} panic", show(supported.tag)),
                format!("locating {} panics with {s}", show(supported.tag)),
                &data,
            );
            continue;
        }
        let Some(kind) = table_kind(supported.tag) else { continue };
        if !matches!(got, Got::Value(Some(()))) {
            continue;
        }
        let fuel = if crate::run::small() { FUEL / 100 } else { FUEL };
        let Some(cost) = reach(kind, &data, tape.whereabouts(), Lens::built(), fuel) else {
            continue;
        };
        case.count("tables taken", 1);
        let mut tape = Tape::new(data.clone());
        tape.limit = allowance(cost.max(data.len() as u64));
        if let Got::Panic(s) = guard(|| take_v(font, kind, &mut tape)) {
            case.violation(format!("{kind:?} panic"), format!("taking {kind:?} panics with {s}"), &data);
        }
    }
}

// Builds and configurations. The results are compared by the driver.

fn outcome(got: &Got<V>) -> (u64, &'static str) {
    match got {
        Got::Value(v) => (v.digest(), "value"),
        Got::Error(_) => (0, "error"),
        Got::Panic(_) => (0, "panic"),
    }
}

fn p21(case: &mut Case) {
    let got;
    if case.id % 10 == 0 {
        let (mut built, _) = random_font(case, 10);
        for _ in 0..case.rng.below(3) {
            if built.records.is_empty() {
                break;
            }
            let k = case.rng.below(built.records.len() as u64) as usize;
            match case.rng.below(3) {
                0 => built.records[k].size = *case.rng.pick(&[0, 0xFFFF_FFFF, 0xFFFF_FFFD, 0xFFFF_FFFC, 7]),
                1 => built.records[k].offset = case.rng.u32(),
                _ => built.records[k].checksum = case.rng.u32(),
            }
            built.store(k);
        }
        let data = Arc::new(built.bytes.clone());
        let which = case.rng.below(16) as usize;
        got = guard(|| {
            let mut tape = Tape::new(data.clone());
            let file = File::read(&mut tape)?;
            let supported = &font::SUPPORTED[which];
            let found = (supported.position)(&file[0], &mut tape)?;
            Ok(V::L(vec![
                V::I((supported.exists)(&file[0]) as i64),
                found.map_or(V::N, |_| V::I(tape.whereabouts() as i64)),
            ]))
        });
        case.count("fonts", 1);
        case.observe(hash(&data));
    } else {
        let Some((kind, data, at, cost)) = hostile(case) else { return };
        got = read_plain(kind, &data, at, cost.max(1000));
        case.observe(hash(input(&data, at)));
        case.sample(|| format!("{kind:?} at {at} of {}", crate::run::hex(&data)));
    }
    case.evaluate();
    let (digest, what) = outcome(&got);
    case.count(what, 1);
    let id = case.id;
    case.stats.digests.push((id, digest, what));
}

fn p20(case: &mut Case) {
    let built = Lens::built();
    let id = case.id;
    match case.id % 8 {
        0 => {
            // Checksums.
            p16(case);
        }
        1 => {
            // Names of languages and the rest of the registries.
            for _ in 0..50 {
                let tag = match case.rng.below(4) {
                    0 => *case.rng.pick(&[*b"DFLT", *b"dflt", *b"DFLt", *b"DFL ", *b"latn"]),
                    _ => crate::tags::random(&mut case.rng).to_be_bytes(),
                };
                for which in 0..3 {
                    check_tag(case, which, tag);
                }
            }
        }
        2 => {
            // Malformed in ways that no option forgives.
            p10(case);
        }
        3 | 4 => {
            // Accepted in the strict configuration: identical in all. The digest does not depend
            // on the configuration, and neither does the input.
            let kind = any_kind(&mut case.rng);
            let image = image(kind, &mut case.rng, Lens::default());
            let cost = settle(&image, Lens::default());
            let data = Arc::new(image.bytes.clone());
            let got = read_plain(kind, &data, 0, cost);
            let (digest, what) = outcome(&got);
            case.stats.digests.push((id, digest, what));
            case.count("strictly well-formed", 1);
            judge(case, "strictly well-formed", kind, &image.value, got, entire, &data, 0);
        }
        _ => {
            // Incomplete: generated under all the leniency there is, judged under what is built.
            let kind = match case.rng.below(4) {
                0 => *case.rng.pick(&[Kind::Gsub, Kind::Gpos]),
                1 => Kind::Mark1s,
                2 => *case.rng.pick(&[Kind::Pos(4), Kind::Pos(5), Kind::Pos(6)]),
                _ => any_kind(&mut case.rng),
            };
            let mut style = Style::random(&mut case.rng);
            style.null = *case.rng.pick(&[20, 50, 80]);
            let image = image_in_style(kind, &mut case.rng, Lens { dirs: true, marks: true }, style);
            let (data, at) = surround(&mut case.rng, &image.bytes);
            let d = decode(kind, &data, at, built, u64::MAX);
            let data = Arc::new(data);
            let got = read_plain(kind, &data, at, d.cost.max(1000));
            if d.taint {
                return case.count("undecided", 1);
            }
            case.sample(|| format!("{kind:?} with parts missing: {:?}", image.value));
            match &d.value {
                Ok(v) => {
                    case.count("incomplete or complete, accepted", 1);
                    judge(case, "incomplete", kind, v, got, entire, &data, at);
                }
                Err(_) => {
                    case.count("incomplete, refused", 1);
                    judge_refusal(case, "incomplete", kind, got, &data, at);
                }
            }
        }
    }
}

/// What the sanitizers are given to read, made ahead of time as they are slow.
fn stock(case: &mut Case) {
    let Some(item) = stock_item(case) else { return };
    let mut bytes = vec![];
    match item {
        Stocked::Font(data) => {
            bytes.extend(words(&[0xFFFF, 0, 0]));
            bytes.extend([0; 16]);
            bytes.extend_from_slice(&data);
        }
        Stocked::Table(kind, data, at, cost) => {
            let (a, b, c) = kind.code();
            bytes.extend(words(&[a, b, c]));
            bytes.extend(at.to_be_bytes());
            bytes.extend(cost.to_be_bytes());
            bytes.extend_from_slice(&data);
        }
    }
    case.evaluate();
    case.stats.stock.push((case.id, bytes));
}

enum Stocked {
    Table(Kind, Arc<Vec<u8>>, u64, u64),
    Font(Vec<u8>),
}

fn stock_item(case: &mut Case) -> Option<Stocked> {
    if case.id % 8 == 7 {
        return hostile_font_bytes(case).map(Stocked::Font);
    }
    let (kind, data, at, cost) = hostile(case)?;
    if data.len() > 40_000 && case.rng.chance(95) || crate::run::small() && cost > 4_000 {
        // It would only take up room.
        return None;
    }
    Some(Stocked::Table(kind, data, at, cost))
}

/// The items in stock.
fn in_stock(case: &mut Case) -> Option<Stocked> {
    static STOCK: OnceLock<(Vec<u8>, Vec<(u64, usize, usize)>)> = OnceLock::new();
    let (bytes, stock) = STOCK.get_or_init(|| {
        let Some(path) = &case.config.stock else { return Default::default() };
        let bytes = std::fs::read(path).expect("reading the stock");
        let mut items = vec![];
        let mut k = 0;
        while k < bytes.len() {
            let (id, size) = (get(&bytes, k, 8), get(&bytes, k + 8, 8) as usize);
            items.push((id, k + 16, k + 16 + size));
            k += 16 + size;
        }
        (bytes, items)
    });
    if stock.is_empty() {
        let mut maker = Case {
            config: case.config,
            id: case.id,
            rng: crate::rng::Rng::new(case.config.seed, "STOCK", case.id),
            stats: Default::default(),
        };
        return stock_item(&mut maker);
    }
    let k = stock.binary_search_by_key(&case.id, |item| item.0).ok()?;
    let bytes = &bytes[stock[k].1..stock[k].2];
    let word = |k: usize| get(bytes, 2 * k, 2) as u16;
    let data = bytes[22..].to_vec();
    Some(match word(0) {
        0xFFFF => Stocked::Font(data),
        a => Stocked::Table(Kind::from_code(a, word(1), word(2)), Arc::new(data), get(bytes, 6, 8), get(bytes, 14, 8)),
    })
}

/// The number of cases that come from the stock.
fn stocked() -> u64 {
    if cfg!(miri) { 4_000 } else { 60_000 }
}

/// The workload for the sanitizers: the judgement is theirs, but values are compared as well.
fn p22(case: &mut Case) {
    // Races are for the tool that looks for them.
    let share = if cfg!(racing) { 20 } else if cfg!(miri) { 1 } else { 0 };
    if (case.id + 50) % 100 < share {
        return sharing(case);
    }
    if case.id < stocked() {
        match in_stock(case) {
            Some(Stocked::Table(kind, data, at, cost)) => sanitized(case, kind, data, at, cost),
            Some(Stocked::Font(bytes)) => check_hostile_font(case, bytes),
            _ => {}
        }
        return;
    }
    match case.rng.below(8) {
        0 if !cfg!(miri) => {
            let tag = crate::tags::random(&mut case.rng).to_be_bytes();
            for which in 0..3 {
                check_tag(case, which, tag);
            }
        }
        1 => hostile_font(case),
        _ => {
            let Some((kind, data, at, cost)) = hostile(case) else { return };
            sanitized(case, kind, data, at, cost);
        }
    }
}

fn sanitized(case: &mut Case, kind: Kind, data: Arc<Vec<u8>>, at: u64, cost: u64) {
    let mut tape = Tape::new(data.clone()).at(at);
    tape.limit = 16 * allowance(cost.max(data.len() as u64));
    match case.rng.below(4) {
        0 => {
            tape.delivery = Delivery::Random(case.rng.clone());
            case.count("delivered in pieces", 1);
        }
        1 => {
            tape.delivery = Delivery::Blocks(case.rng.range(1, 9));
            case.count("delivered in pieces", 1);
        }
        _ => {}
    }
    tape.limit += 16 * data.len() as u64;
    let got = guard(|| read_whole(kind, &mut tape));
    case.evaluate();
    case.observe(hash(input(&data, at)));
    if let Got::Value(value) = got {
        case.count("values looked at in full", 1);
        let v = value.val();
        // Every byte of the result takes part in a comparison.
        case.sample(|| format!("{kind:?}: digest {:x}", v.digest()));
        // The result decides where to go.
        let digest = v.digest();
        for bit in 0..64 {
            if digest >> bit & 1 == 1 {
                std::hint::black_box(bit);
            }
        }
    } else {
        case.count("refusals", 1);
    }
    if case.id % 6 == 0 {
        // What has been read so far is dropped.
        let ops = tape.ops().min(4000);
        for _ in 0..4 {
            let mut tape = Tape::new(data.clone()).at(at);
            let at = case.rng.below(ops + 1);
            let kind_ = std::io::ErrorKind::Other;
            tape.fault = Some(Fault { at, permanent: true, kind: kind_, form: Form::Marked });
            drop(guard(|| read_whole(kind, &mut tape)));
            case.evaluate();
        }
        case.count("failing sources", 4);
    }
}
