//! Shrinks a failing tape while the same class of violation persists.

use crate::sim::{TapeData, LANES};

/// `eval` returns true when the candidate fails in the same class. Stops after `budget` candidates.
pub fn minimise(start: TapeData, budget: usize, mut eval: impl FnMut(&TapeData) -> bool) -> (TapeData, usize) {
    let mut best = start;
    let mut used = 0;
    let mut attempt = |cand: &TapeData, used: &mut usize| -> bool {
        if *used >= budget {
            return false;
        }
        *used += 1;
        eval(cand)
    };
    // whole lanes first: no faults, no interesting schedule
    for l in [2usize, 1, 3, 0] {
        if !best.lanes[l].is_empty() {
            let mut c = best.clone();
            c.lanes[l].clear();
            if attempt(&c, &mut used) {
                best = c;
            }
        }
    }
    loop {
        let before = weight(&best);
        for l in [2usize, 1, 3, 0] {
            // drop the tail, then chunks of decreasing size
            let mut cut = best.lanes[l].len() / 2;
            while cut > 0 {
                let mut c = best.clone();
                let n = c.lanes[l].len() - cut.min(c.lanes[l].len());
                c.lanes[l].truncate(n);
                if attempt(&c, &mut used) {
                    best = c;
                    cut = best.lanes[l].len() / 2;
                } else {
                    cut /= 2;
                }
            }
            let mut size = (best.lanes[l].len() / 2).max(1);
            loop {
                let mut i = 0;
                while i < best.lanes[l].len() {
                    // zero a chunk
                    let end = (i + size).min(best.lanes[l].len());
                    if best.lanes[l][i..end].iter().any(|&v| v != 0) {
                        let mut c = best.clone();
                        c.lanes[l][i..end].iter_mut().for_each(|v| *v = 0);
                        if attempt(&c, &mut used) {
                            best = c;
                        }
                    }
                    // delete a chunk
                    let mut c = best.clone();
                    c.lanes[l].drain(i..end);
                    if attempt(&c, &mut used) {
                        best = c;
                    } else {
                        i += size;
                    }
                    if used >= budget {
                        break;
                    }
                }
                if size == 1 || used >= budget {
                    break;
                }
                size /= 2;
            }
            // smaller values
            let mut i = 0;
            while i < best.lanes[l].len() && used < budget {
                let v = best.lanes[l][i];
                for cand in [0, v / 8, v / 2, v.saturating_sub(1)] {
                    if cand < best.lanes[l][i] {
                        let mut c = best.clone();
                        c.lanes[l][i] = cand;
                        if attempt(&c, &mut used) {
                            best = c;
                        }
                    }
                }
                i += 1;
            }
        }
        if used >= budget || weight(&best) >= before {
            break;
        }
    }
    // trailing zeros are what missing draws read as
    for l in 0..LANES {
        let mut c = best.clone();
        while c.lanes[l].last() == Some(&0) {
            c.lanes[l].pop();
        }
        if c != best && eval(&c) {
            best = c;
        }
    }
    (best, used)
}

fn weight(t: &TapeData) -> u128 {
    t.lanes.iter().flatten().map(|&v| u128::from(v) + 1).sum()
}
