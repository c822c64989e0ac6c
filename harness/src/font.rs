//! Font files: a builder and the reference for directories and checksums.

use opentype::truetype::tables as tt;
use opentype::{tables as ot, Font};

use crate::rng::Rng;
use crate::tape::Tape;

#[derive(Clone, Debug)]
pub struct Record {
    pub tag: [u8; 4],
    pub checksum: u32,
    pub offset: u32,
    pub size: u32,
}

#[derive(Clone, Debug, Default)]
pub struct Built {
    pub bytes: Vec<u8>,
    pub records: Vec<Record>,
}

pub const SIGNATURES: &[[u8; 4]] = &[[0, 1, 0, 0], *b"OTTO", *b"true", *b"typ1"];

/// The sum of a table, as the specification defines it.
pub fn checksum(tag: &[u8; 4], content: &[u8]) -> u32 {
    let mut sum = 0u32;
    for (i, word) in content.chunks(4).enumerate() {
        let mut bytes = [0; 4];
        bytes[..word.len()].copy_from_slice(word);
        if tag != b"head" || i != 2 {
            sum = sum.wrapping_add(u32::from_be_bytes(bytes));
        }
    }
    sum
}

/// Assemble a file out of tables in the order given in the directory.
///
/// The tables are stored in an order of their own.
pub fn build(rng: &mut Rng, tables: &[([u8; 4], Vec<u8>)]) -> Built {
    let mut bytes = rng.pick(SIGNATURES).to_vec();
    bytes.extend_from_slice(&(tables.len() as u16).to_be_bytes());
    for _ in 0..3 {
        // These help in searching; nothing depends on them.
        bytes.extend_from_slice(&rng.u16().to_be_bytes());
    }
    let directory = bytes.len();
    bytes.resize(directory + 16 * tables.len(), 0);
    let mut order: Vec<usize> = (0..tables.len()).collect();
    if rng.chance(70) {
        for i in (1..order.len()).rev() {
            order.swap(i, rng.below(i as u64 + 1) as usize);
        }
    }
    let mut records = vec![Record { tag: [0; 4], checksum: 0, offset: 0, size: 0 }; tables.len()];
    for k in order {
        let (tag, content) = &tables[k];
        while bytes.len() % 4 != 0 {
            bytes.push(0);
        }
        if rng.chance(20) {
            for _ in 0..rng.range(1, 8) {
                bytes.push(rng.next() as u8);
            }
        }
        records[k] = Record {
            tag: *tag,
            checksum: checksum(tag, content),
            offset: bytes.len() as u32,
            size: content.len() as u32,
        };
        bytes.extend_from_slice(content);
    }
    // The last table is padded as well.
    bytes.extend_from_slice(&[0; 4]);
    let mut built = Built { bytes, records };
    for k in 0..tables.len() {
        built.store(k);
    }
    built
}

impl Built {
    /// Write a directory record.
    pub fn store(&mut self, k: usize) {
        let record = &self.records[k];
        let at = 12 + 16 * k;
        self.bytes[at..at + 4].copy_from_slice(&record.tag);
        self.bytes[at + 4..at + 8].copy_from_slice(&record.checksum.to_be_bytes());
        self.bytes[at + 8..at + 12].copy_from_slice(&record.offset.to_be_bytes());
        self.bytes[at + 12..at + 16].copy_from_slice(&record.size.to_be_bytes());
    }

    pub fn first(&self, tag: &[u8; 4]) -> Option<&Record> {
        self.records.iter().find(|record| record.tag == *tag)
    }
}

/// Read the directory of a font.
pub fn directory(bytes: &[u8]) -> Option<Vec<Record>> {
    if !SIGNATURES.iter().any(|s| bytes.starts_with(s)) || bytes.len() < 12 {
        return None;
    }
    let n = u16::from_be_bytes([bytes[4], bytes[5]]) as usize;
    let word = |at: usize| -> Option<[u8; 4]> { bytes.get(at..at + 4)?.try_into().ok() };
    (0..n)
        .map(|k| {
            let at = 12 + 16 * k;
            Some(Record {
                tag: word(at)?,
                checksum: u32::from_be_bytes(word(at + 4)?),
                offset: u32::from_be_bytes(word(at + 8)?),
                size: u32::from_be_bytes(word(at + 12)?),
            })
        })
        .collect()
}

/// A type of table that a font is asked about.
pub struct Supported {
    pub tag: &'static [u8; 4],
    pub exists: fn(&Font) -> bool,
    pub position: fn(&Font, &mut Tape) -> std::io::Result<Option<()>>,
}

macro_rules! supported {
    ($($tag:literal => $t:ty,)*) => (&[$(Supported {
        tag: $tag,
        exists: |font| font.exists::<$t>(),
        position: |font, tape| font.position::<Tape, $t>(tape),
    },)*]);
}

pub const SUPPORTED: &[Supported] = supported! {
    b"CFF " => opentype::postscript::compact1::FontSet,
    b"CPAL" => ot::ColorPalettes,
    b"GDEF" => ot::GlyphDefinition,
    b"GPOS" => ot::GlyphPositioning,
    b"GSUB" => ot::GlyphSubstitution,
    b"OS/2" => tt::WindowsMetrics,
    b"cmap" => tt::CharacterMapping,
    b"fvar" => ot::FontVariations,
    b"glyf" => tt::GlyphData,
    b"head" => tt::FontHeader,
    b"hhea" => tt::HorizontalHeader,
    b"hmtx" => tt::HorizontalMetrics,
    b"loca" => tt::GlyphMapping,
    b"maxp" => tt::MaximumProfile,
    b"name" => tt::Names,
    b"post" => tt::PostScript,
};
