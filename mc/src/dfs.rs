//! Stateless depth-first exploration: a run is a function of the choices it
//! makes through `Ch::pick`; `explore` replays it once per leaf of the tree.

#[derive(Default, Clone)]
pub struct Ch {
    path: Vec<(u32, u32)>,
    pos: usize,
    fresh: u64,
}

impl Ch {
    pub fn replay(path: &[u32]) -> Ch {
        Ch {
            path: path.iter().map(|c| (*c, u32::MAX)).collect(),
            pos: 0,
            fresh: 0,
        }
    }

    /// one of `n` alternatives
    pub fn pick(&mut self, n: usize) -> usize {
        assert!(n > 0, "no alternative to pick from");
        if self.pos == self.path.len() {
            self.path.push((0, n as u32));
            self.fresh += 1;
        } else if self.path[self.pos].1 == u32::MAX {
            self.path[self.pos].1 = n as u32;
        }
        let (c, m) = self.path[self.pos];
        assert_eq!(m as usize, n, "the run is not a function of its choices");
        self.pos += 1;
        c as usize
    }

    pub fn flip(&mut self) -> bool {
        self.pick(2) == 1
    }

    pub fn path(&self) -> Vec<u32> {
        self.path[..self.pos].iter().map(|(c, _)| *c).collect()
    }

    /// choices taken for the first time in this run (= new transitions)
    pub fn take_fresh(&mut self) -> u64 {
        std::mem::take(&mut self.fresh)
    }

    fn advance(&mut self) -> bool {
        self.path.truncate(self.pos);
        self.pos = 0;
        while let Some((c, n)) = self.path.pop() {
            if c + 1 < n {
                self.path.push((c + 1, n));
                self.fresh += 1;
                return true;
            }
        }
        false
    }
}

/// Runs every choice sequence, until there is none left or `run` says stop.
pub fn explore(mut run: impl FnMut(&mut Ch) -> bool) {
    let mut ch = Ch::default();
    loop {
        if !run(&mut ch) || !ch.advance() {
            return;
        }
    }
}
