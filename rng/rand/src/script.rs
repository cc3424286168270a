//! Added by the checker: a thread-local script that answers for the generators.
use std::cell::RefCell;
use std::vec::Vec;

struct Script {
    words: Vec<u64>,
    at: usize,
    lcg: u64,
    log: Vec<u64>,
}

thread_local!(static SCRIPT: RefCell<Option<Script>> = RefCell::new(None));

/// From now on the generators of this thread answer with `words`, then with a fixed sequence.
pub fn set(words: &[u64], seed: u64) {
    SCRIPT.with(|s| {
        *s.borrow_mut() = Some(Script { words: words.to_vec(), at: 0, lcg: seed | 1, log: Vec::new() })
    });
}

/// Ends the script and returns the words that were consumed.
pub fn stop() -> Vec<u64> {
    SCRIPT.with(|s| s.borrow_mut().take().map(|s| s.log).unwrap_or_default())
}

/// The next word of the script, if there is one.
pub fn next() -> Option<u64> {
    SCRIPT.with(|s| {
        let mut s = s.borrow_mut();
        let s = s.as_mut()?;
        let w = if s.at < s.words.len() {
            s.at += 1;
            s.words[s.at - 1]
        } else {
            // splitmix64
            s.lcg = s.lcg.wrapping_add(0x9e3779b97f4a7c15);
            let mut z = s.lcg;
            z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
            z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
            z ^ (z >> 31)
        };
        s.log.push(w);
        Some(w)
    })
}

pub(crate) fn fill(dest: &mut [u8]) -> bool {
    for c in dest.chunks_mut(8) {
        match next() {
            None => return false,
            Some(w) => {
                let b = w.to_le_bytes();
                let n = c.len();
                c.copy_from_slice(&b[..n]);
            }
        }
    }
    true
}
