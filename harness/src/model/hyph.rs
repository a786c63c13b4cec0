//! Hyphenation by patterns, straight from Liang's description.

use super::Info;
use std::collections::{HashMap, HashSet};

#[derive(Clone, Debug)]
pub struct Hyph {
    /// letters (with `.` for the ends of a word) to the numbers around them
    pub patterns: HashMap<Vec<char>, Vec<u8>>,
    pub left: usize,
    pub right: usize,
}

impl Hyph {
    /// `patterns`: like `1ab2c`; of two with the same letters the last one counts.
    pub fn of(patterns: &[String], left: usize, right: usize) -> Hyph {
        let mut m = HashMap::new();
        for p in patterns {
            let mut letters = vec![];
            let mut nums = vec![0];
            for c in p.chars() {
                if let Some(d) = c.to_digit(10) {
                    *nums.last_mut().unwrap() = d as u8;
                } else {
                    letters.push(c);
                    nums.push(0);
                }
            }
            m.insert(letters, nums);
        }
        Hyph { patterns: m, left, right }
    }
    /// i: the word may be broken between its characters i and i+1
    pub fn word(&self, w: &[char]) -> HashSet<usize> {
        let mut d = vec!['.'];
        d.extend(w);
        d.push('.');
        let mut score = vec![0u8; d.len() + 1];
        for i in 0..d.len() {
            for j in i + 1..=d.len() {
                if let Some(nums) = self.patterns.get(&d[i..j]) {
                    for (k, n) in nums.iter().enumerate() {
                        score[i + k] = score[i + k].max(*n);
                    }
                }
            }
        }
        // score[k] is before d[k], that is before w[k-1]
        (0..w.len().saturating_sub(1))
            .filter(|i| score[i + 2] % 2 == 1)
            .filter(|i| i + 1 >= self.left && w.len() - (i + 1) >= self.right)
            .collect()
    }
    pub fn breaks(&self, t: &[char], info: &Info) -> HashSet<usize> {
        let mut out = HashSet::new();
        let mut i = 0;
        while i < t.len() {
            let mut j = i;
            while j < t.len() && info.is("letter", t[j]) {
                j += 1;
            }
            if j > i {
                out.extend(self.word(&t[i..j]).into_iter().map(|b| b + i));
                i = j;
            } else {
                i += 1;
            }
        }
        out
    }
}
