//! C06 and C10: nodes that encode, ship, store and decode values of many types.
mod chain;
mod erased;
mod mem;
mod append;
mod zoo;
mod zoo_gen;

use ssz_sim::core::Ctx;
use std::sync::OnceLock;
use zoo::Gen;

pub fn registry() -> &'static [Box<dyn erased::Erased>] {
    static R: OnceLock<Vec<Box<dyn erased::Erased>>> = OnceLock::new();
    R.get_or_init(zoo_gen::registry)
}

/// Draw a type. Runs focus on a few types, so that histories revisit them.
pub struct Types {
    focus: Vec<usize>,
}
impl Types {
    pub fn draw(t: &mut ssz_sim::core::Tape) -> Types {
        let n = registry().len() as u64;
        let k = t.draw(5);
        Types { focus: (0..k).map(|_| t.draw(n) as usize).collect() }
    }
    pub fn pick(&self, c: &Ctx) -> usize {
        if self.focus.is_empty() {
            c.draw(registry().len() as u64) as usize
        } else {
            self.focus[c.draw(self.focus.len() as u64) as usize]
        }
    }
}

/// Draw a value of registry type `t`. `big` is the size class this run may reach.
pub fn gen_val(c: &Ctx, t: usize, big: u64) -> erased::Val {
    let e = &registry()[t];
    let k = c.draw(40);
    let mut budget = match k {
        0..=9 => 24,
        10..=17 => 4,
        18..=29 => 120,
        30..=36 => 700,
        37 | 38 => 3000,
        _ => match big {
            0 => 3000,
            1 => 70_000,
            _ => 1_200_000,
        },
    };
    if e.recursive() {
        budget = budget.min(2000);
    }
    let seed = c.draw(1 << 20);
    e.gen(&mut Gen::new(seed, budget))
}

pub fn hex(b: &[u8]) -> String {
    let mut s = String::new();
    for x in b.iter().take(64) {
        s.push_str(&format!("{x:02x}"));
    }
    if b.len() > 64 {
        s.push_str(&format!("..({} bytes)", b.len()));
    }
    s
}

fn main() {
    registry();
    ssz_sim::runner::main(&[mem::WORLD, append::WORLD]);
}
