//! A case is a tape of 32-bit choices. proptest generates and shrinks the tape; every generator of
//! this crate only draws from it, so that a case is a pure function of the tape.
//! An exhausted tape yields zeros, and zero is always the simplest choice.
use proptest::strategy::{NewTree, Strategy, ValueTree};
use proptest::test_runner::TestRunner;

pub struct Src<'a> {
    tape: &'a [u32],
    pos: usize,
}

impl<'a> Src<'a> {
    pub fn new(tape: &'a [u32]) -> Self {
        Src { tape, pos: 0 }
    }

    pub fn tape(&self) -> &'a [u32] {
        self.tape
    }

    pub fn used(&self) -> usize {
        self.pos
    }

    pub fn exhausted(&self) -> bool {
        self.pos >= self.tape.len()
    }

    pub fn word(&mut self) -> u32 {
        let v = self.tape.get(self.pos).copied().unwrap_or(0);
        self.pos += 1;
        v
    }

    /// Uniform in `0..n`.
    pub fn below(&mut self, n: u64) -> u64 {
        debug_assert!(n > 0);
        if n <= 1 {
            return 0;
        }
        if n <= u64::from(u32::MAX) {
            (u64::from(self.word()) * n) >> 32
        } else {
            let hi = u128::from(self.word());
            let lo = u128::from(self.word());
            ((((hi << 32) | lo) * u128::from(n)) >> 64) as u64
        }
    }

    pub fn usize(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }

    /// Uniform in `lo..=hi`, `lo` is the simplest.
    /// Rarely a number of the sources' constants, or next to one.
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        const PLAIN: u32 = 0xFC00_0000;
        let n = i128::from(hi) - i128::from(lo) + 1;
        if n > 12 {
            let w = self.word();
            if w >= PLAIN
                && let Some(x) = crate::dict::int(w - PLAIN, lo, hi)
            {
                return x;
            }
            let w = w % PLAIN;
            if n <= i128::from(u32::MAX) {
                return lo + (i128::from(w) * n / i128::from(PLAIN)) as i64;
            }
            let x = (u128::from(w) << 32) | u128::from(self.word());
            return (i128::from(lo) + (x * n as u128 / (u128::from(PLAIN) << 32)) as i128) as i64;
        }
        (i128::from(lo) + i128::from(self.below((i128::from(hi) - i128::from(lo)) as u64 + 1)))
            as i64
    }

    /// True `num` times out of `den`; false when exhausted.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) >= den - num
    }

    pub fn pick<T: Clone>(&mut self, xs: &[T]) -> T {
        xs[self.usize(xs.len())].clone()
    }

    /// Index chosen with the given weights.
    pub fn weighted(&mut self, weights: &[u64]) -> usize {
        let total = weights.iter().sum();
        let mut x = self.below(total);
        for (i, w) in weights.iter().enumerate() {
            if x < *w {
                return i;
            }
            x -= w;
        }
        unreachable!()
    }

    /// A small count: mostly 0..=2, sometimes up to `max`, rarely hundreds.
    pub fn count(&mut self, max: usize) -> usize {
        match self.weighted(&[160, 120, 60, 59, 1]) {
            0 => 0,
            1 => 1.min(max),
            2 => 2.min(max),
            3 => self.usize(max + 1),
            _ => self.many(),
        }
    }

    /// A number beyond what is usual, around the sizes where a narrow counter or a limit would show.
    pub fn many(&mut self) -> usize {
        match self.weighted(&[10, 5, 1, 2]) {
            0 => 5 + self.usize(9),
            1 => 14 + self.usize(30),
            3 => {
                // a constant of the sources
                let x = self.word() >> 6;
                crate::dict::int(x, 3, 400).unwrap_or(8) as usize
            }
            _ => 60 + self.usize(250),
        }
    }

    /// Thousands: of each order of magnitude as often as of the others.
    pub fn far(&mut self) -> usize {
        let scale = 100 << self.usize(10);
        scale + self.usize(scale)
    }

    pub fn shuffle<T>(&mut self, xs: &mut [T]) {
        for i in (1..xs.len()).rev() {
            let j = i - self.usize(i + 1);
            xs.swap(i, j);
        }
    }
}

#[derive(Debug, Clone)]
pub struct Tapes {
    pub max_len: usize,
}

impl Strategy for Tapes {
    type Tree = TapeTree;
    type Value = Vec<u32>;

    fn new_tree(&self, runner: &mut TestRunner) -> NewTree<Self> {
        let rng = runner.rng();
        use proptest::prelude::Rng as _;
        // A few end early, with nothing but the simplest choices from there on. The others are as
        // long as allowed, which is more than most cases use: what a case draws last is drawn at
        // random too.
        let max = self.max_len;
        let class = rng.next_u32() % 100;
        let len = if class < 5 {
            rng.next_u32() as usize % (max / 16 + 1) + 1
        } else if class < 20 {
            rng.next_u32() as usize % (max / 4 + 1) + 1
        } else {
            max
        };
        let tape = (0..len).map(|_| rng.next_u32()).collect::<Vec<_>>();
        Ok(TapeTree::new(tape))
    }
}

/// Shrinking: remove blocks, zero blocks, then lower single choices.
#[derive(Debug, Clone)]
pub struct TapeTree {
    best: Vec<u32>,
    current: Vec<u32>,
    pass: usize,
    block: usize,
    index: usize,
    improved: bool,
}

const PASS_TRUNCATE: usize = 0;
const PASS_DELETE: usize = 1;
const PASS_ZERO: usize = 2;
const PASS_LOWER: usize = 3;
const PASS_END: usize = 4;

impl TapeTree {
    pub fn new(tape: Vec<u32>) -> Self {
        let block = tape.len() / 2;
        TapeTree {
            current: tape.clone(),
            best: tape,
            pass: PASS_TRUNCATE,
            block,
            index: 0,
            improved: false,
        }
    }

    fn propose(&mut self) -> bool {
        loop {
            match self.pass {
                PASS_TRUNCATE => {
                    if self.block == 0 || self.best.is_empty() {
                        self.pass = PASS_DELETE;
                        self.block = (self.best.len() / 2).clamp(1, 64);
                        self.index = 0;
                        continue;
                    }
                    let keep = self.best.len().saturating_sub(self.block);
                    self.current = self.best[..keep].to_vec();
                    self.block /= 2;
                    return true;
                }
                PASS_DELETE | PASS_ZERO => {
                    if self.index >= self.best.len() {
                        self.index = 0;
                        self.block /= 2;
                        if self.block == 0 {
                            self.pass += 1;
                            self.block = 32.min(self.best.len().max(1));
                        }
                        continue;
                    }
                    let end = (self.index + self.block).min(self.best.len());
                    if self.pass == PASS_DELETE {
                        let mut c = self.best[..self.index].to_vec();
                        c.extend_from_slice(&self.best[end..]);
                        self.current = c;
                    } else {
                        if self.best[self.index..end].iter().all(|x| *x == 0) {
                            self.index = end;
                            continue;
                        }
                        let mut c = self.best.clone();
                        c[self.index..end].fill(0);
                        self.current = c;
                    }
                    self.index = end;
                    return true;
                }
                PASS_LOWER => {
                    // two tries per word: half, and minus a small step
                    if self.index >= self.best.len() * 3 {
                        if self.improved {
                            self.improved = false;
                            self.pass = PASS_DELETE;
                            self.block = 16.min(self.best.len().max(1));
                            self.index = 0;
                            continue;
                        }
                        self.pass = PASS_END;
                        continue;
                    }
                    let i = self.index / 3;
                    let how = self.index % 3;
                    self.index += 1;
                    let v = self.best[i];
                    if v == 0 {
                        self.index = (i + 1) * 3;
                        continue;
                    }
                    let w = match how {
                        0 => v / 2,
                        1 => v - v / 8,
                        _ => v.saturating_sub(1 << 24),
                    };
                    if w == v {
                        continue;
                    }
                    let mut c = self.best.clone();
                    c[i] = w;
                    self.current = c;
                    return true;
                }
                _ => {
                    self.current = self.best.clone();
                    return false;
                }
            }
        }
    }
}

impl ValueTree for TapeTree {
    type Value = Vec<u32>;

    fn current(&self) -> Self::Value {
        self.current.clone()
    }

    fn simplify(&mut self) -> bool {
        // The current tape fails: keep it.
        if self.current != self.best {
            let shorter = self.current.len() < self.best.len();
            self.best = self.current.clone();
            self.improved = true;
            if self.pass == PASS_DELETE && shorter {
                // what follows moved into place
                self.index = self.index.saturating_sub(self.block);
            }
            if self.pass == PASS_LOWER {
                self.index = (self.index - 1) / 3 * 3;
            }
        }
        self.propose()
    }

    fn complicate(&mut self) -> bool {
        // The current tape passes: back to the last failing one.
        self.current = self.best.clone();
        self.propose()
    }
}
