//! C09 and C16: nodes that cut received messages into items, with probe items that record exactly
//! the bytes they were handed.
mod limit;
mod probe_gen;
mod tile;

use ssz_sim::core::*;

pub fn hex(b: &[u8]) -> String {
    let mut s = String::new();
    for x in b.iter().take(64) {
        s.push_str(&format!("{x:02x}"));
    }
    if b.len() > 64 {
        s.push_str(&format!("..({} bytes)", b.len()));
    }
    s
}

/// In a schema: an item of a fixed length of zero bytes. (0 stands for a variable-length item.)
pub const NOTHING: usize = 1 << 60;

/// The bytes an item takes in the fixed part.
pub fn width(n: usize) -> usize {
    match n {
        0 => 4,
        NOTHING => 0,
        n => n,
    }
}

/// The reference: how a container of these items (fixed length, or 0 for variable) tiles `b`.
/// `None` when it does not.
pub fn tile(schema: &[usize], b: &[u8]) -> Option<Vec<(usize, usize)>> {
    let fixed: u128 = schema.iter().map(|n| width(*n) as u128).sum();
    if fixed > b.len() as u128 {
        return None;
    }
    let fixed = fixed as usize;
    let mut at = 0;
    let mut r = vec![(0, 0); schema.len()];
    let mut var: Vec<(usize, usize)> = vec![];
    for (k, n) in schema.iter().enumerate() {
        if *n == 0 {
            let o = b[at] as usize | (b[at + 1] as usize) << 8 | (b[at + 2] as usize) << 16 | (b[at + 3] as usize) << 24;
            var.push((k, o));
            at = at.saturating_add(4);
        } else {
            r[k] = (at, at + width(*n));
            at += width(*n);
        }
    }
    if var.is_empty() {
        return if fixed == b.len() { Some(r) } else { None };
    }
    if var[0].1 != fixed {
        return None;
    }
    for j in 0..var.len() {
        let end = if j + 1 < var.len() { var[j + 1].1 } else { b.len() };
        if var[j].1 > end || end > b.len() {
            return None;
        }
        r[var[j].0] = (var[j].1, end);
    }
    Some(r)
}

/// The reference for a list of variable-size items.
pub fn tile_list(b: &[u8]) -> Option<Vec<(usize, usize)>> {
    if b.is_empty() {
        return Some(vec![]);
    }
    let f = announced(b)?;
    if f % 4 != 0 || f < 4 || f > b.len() {
        return None;
    }
    tile(&vec![0; f / 4], b)
}

/// The first offset word.
pub fn announced(b: &[u8]) -> Option<usize> {
    b.get(..4).map(|w| w[0] as usize | (w[1] as usize) << 8 | (w[2] as usize) << 16 | (w[3] as usize) << 24)
}

const MEDIUM: usize = 24 << 20;

/// A well-formed message for `schema`.
pub fn layout(c: &Ctx, schema: &[usize], sizes: impl Fn(&mut Rng) -> usize) -> Vec<u8> {
    let mut r = c.rng();
    let fixed: usize = schema.iter().map(|n| width(*n)).sum();
    // no message is longer than the medium carries
    let mut room = MEDIUM;
    let var: Vec<usize> = schema
        .iter()
        .filter(|n| **n == 0)
        .map(|_| {
            let k = sizes(&mut r).min(room);
            room -= k;
            k
        })
        .collect();
    let mut b = Vec::with_capacity(fixed + var.iter().sum::<usize>());
    let mut o = fixed;
    let mut vi = 0;
    for n in schema {
        if *n == 0 {
            b.extend_from_slice(&(o as u32).to_le_bytes());
            o += var[vi];
            vi += 1;
        } else {
            b.extend(r.bytes(width(*n)));
        }
    }
    let rest = r.bytes(var.iter().sum());
    b.extend(rest);
    b
}

/// Sizes of variable parts, by class.
pub fn size_class(c: &Ctx, big: u64) -> Box<dyn Fn(&mut Rng) -> usize> {
    match c.draw(10) {
        0..=3 => Box::new(|r| r.below(6) as usize),
        4 => Box::new(|_| 0),
        5 => Box::new(|r| if r.chance(1, 2) { 0 } else { 1 + r.below(3) as usize }),
        6 | 7 => Box::new(|r| r.below(40) as usize),
        8 => Box::new(|r| r.below(300) as usize),
        _ => match big {
            0 => Box::new(|r| r.below(600) as usize),
            1 => Box::new(|r| r.below(90_000) as usize),
            _ => Box::new(|r| r.below(9_000_000) as usize),
        },
    }
}

/// Byzantine edits of a message: offset words set to boundary values.
pub fn tamper(c: &Ctx, b: &mut Vec<u8>, offsets: &[usize], fixed: usize) {
    let k = 1 + c.draw(3);
    for _ in 0..k {
        let offs: Vec<usize> = offsets.iter().copied().filter(|o| o.checked_add(4).is_some_and(|e| e <= b.len())).collect();
        if offs.is_empty() || c.draw(4) == 0 {
            c.with(|i| damage(&mut i.tape, b, &mut i.stats));
            continue;
        }
        let j = c.draw(offs.len() as u64) as usize;
        let get = |b: &[u8], k: usize| u32::from_le_bytes(b[offs[k]..offs[k] + 4].try_into().unwrap());
        let old = get(b, j);
        let n = b.len() as u32;
        let new = match c.draw(22) {
            0 => old.wrapping_add(1),
            1 => old.wrapping_sub(1),
            2 => old.wrapping_add(4),
            3 => old.wrapping_sub(4),
            4 => n,
            5 => n + 1,
            6 => n.wrapping_sub(1),
            7 => fixed as u32,
            8 => (fixed as u32).wrapping_sub(1),
            9 => (fixed as u32).wrapping_add(1),
            10 => 0,
            11 => u32::MAX,
            12 if j > 0 => get(b, j - 1),
            13 if j + 1 < offs.len() => get(b, j + 1),
            14 if j > 0 => get(b, j - 1).wrapping_sub(1),
            15 if j + 1 < offs.len() => get(b, j + 1).wrapping_add(1),
            16 if j + 1 < offs.len() => {
                // swap with the next one
                let nx = get(b, j + 1);
                b[offs[j + 1]..offs[j + 1] + 4].copy_from_slice(&old.to_le_bytes());
                nx
            }
            17 => {
                // move every later boundary along
                let d = c.draw(9) as u32;
                for k in j..offs.len() {
                    let v = get(b, k).wrapping_add(d).wrapping_sub(4);
                    b[offs[k]..offs[k] + 4].copy_from_slice(&v.to_le_bytes());
                }
                get(b, j)
            }
            18 => old ^ (1 << c.draw(32)),
            19 => old.wrapping_add(1 << (8 * (1 + c.draw(3)))),
            20 => c.draw(n as u64 + 3) as u32,
            _ => old.swap_bytes(),
        };
        b[offs[j]..offs[j] + 4].copy_from_slice(&new.to_le_bytes());
        c.stat("byzantine.offset_words", 1);
    }
}

pub fn offset_positions(schema: &[usize]) -> (Vec<usize>, usize) {
    let mut at = 0usize;
    let mut v = vec![];
    for n in schema {
        if *n == 0 {
            v.push(at);
        }
        at = at.saturating_add(width(*n));
    }
    (v, at)
}

fn main() {
    tile::containers();
    ssz_sim::runner::main(&[tile::WORLD, limit::WORLD]);
}
