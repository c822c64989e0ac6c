//! Tags for generation: registered ones, near misses and arbitrary ones.

use crate::registry::{FEATURES, LANGUAGES, SCRIPTS};
use crate::rng::Rng;

pub fn registered(rng: &mut Rng) -> [u8; 4] {
    let list = *rng.pick(&[SCRIPTS, FEATURES, LANGUAGES]);
    // The default language is only there in some builds, and generation is to be the same in all.
    let count = list.iter().filter(|row| row.0 != b"DFLT").count();
    let index = rng.below(count as u64) as usize;
    *list.iter().filter(|row| row.0 != b"DFLT").nth(index).unwrap().0
}

pub fn random(rng: &mut Rng) -> u32 {
    let mut tag = registered(rng);
    match rng.below(10) {
        0..=6 => {}
        7 => tag[rng.below(4) as usize] ^= 1 << rng.below(8),
        8 => tag = *rng.pick(&[*b"DFLT", *b"dflt", *b"latn", *b"    ", [0; 4], [0xFF; 4]]),
        _ => return rng.next() as u32,
    }
    u32::from_be_bytes(tag)
}

/// A list of tags, in order or not, some of which come again.
pub fn list(rng: &mut Rng, n: usize) -> Vec<u32> {
    let mut tags: Vec<u32> = vec![];
    let again = *rng.pick(&[0, 10, 10, 40]);
    for _ in 0..n {
        let tag = if !tags.is_empty() && rng.chance(again) { *rng.pick(&tags) } else { random(rng) };
        tags.push(tag);
    }
    match rng.below(20) {
        0..=7 => tags.sort(),
        8 => {
            tags.sort();
            tags.reverse();
        }
        9..=10 if n > 0 => {
            // Almost in order.
            tags.sort();
            let (i, j) = (rng.below(n as u64) as usize, rng.below(n as u64) as usize);
            tags.swap(i, j);
        }
        _ => {}
    }
    tags
}
