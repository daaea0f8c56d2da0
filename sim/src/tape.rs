//! One tape of choices decides a run. Generation draws it from a PRNG; replay reads it back; the
//! minimiser edits it. 0 is always the simplest choice, and past the end every choice is 0.
use crate::seam::splitmix;

pub const MAX_DRAWS: usize = 20_000;

pub struct Tape {
    pub vals: Vec<u32>,
    pub pos: usize,
    rng: Option<u64>,
    /// shared memory that mirrors the tape, for runs that kill the process
    pub mirror: Option<*mut u32>,
}

impl Tape {
    pub fn seeded(seed: u64) -> Self {
        Tape { vals: Vec::with_capacity(512), pos: 0, rng: Some(splitmix(seed)), mirror: None }
    }
    pub fn replay(vals: Vec<u32>) -> Self {
        Tape { vals, pos: 0, rng: None, mirror: None }
    }
    /// a choice in 0..n
    pub fn below(&mut self, n: u32) -> u32 {
        if n <= 1 {
            return 0;
        }
        let v = if self.pos < self.vals.len() {
            self.vals[self.pos] % n
        } else if self.pos >= MAX_DRAWS {
            return 0;
        } else if let Some(s) = &mut self.rng {
            *s = s.wrapping_add(0x9e37_79b9_7f4a_7c15);
            let v = (splitmix(*s) % u64::from(n)) as u32;
            self.vals.push(v);
            if let Some(m) = self.mirror {
                // SAFETY: the mirror holds MAX_DRAWS + 1 words
                unsafe {
                    m.add(self.vals.len()).write_volatile(v);
                    m.write_volatile(self.vals.len() as u32);
                }
            }
            v
        } else {
            0
        };
        self.pos += 1;
        v
    }
    /// true with probability pm/1000; the simplest choice is false
    pub fn chance(&mut self, pm: u32) -> bool {
        pm > 0 && self.below(1000) >= 1000 - pm.min(1000)
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len() as u32) as usize]
    }
    /// lo..=hi
    pub fn range(&mut self, lo: u32, hi: u32) -> u32 {
        lo + self.below(hi - lo + 1)
    }
}
