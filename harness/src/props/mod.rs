//! The properties, one check each.
use std::fmt::Debug;

use crate::engine::{Fail, Outcome, Prop};

mod hostile;
mod identity;
mod labels;
mod meta;
mod stats;
mod traffic;

pub use meta::snap_main;

pub static PROPS: &[&Prop] = &[
    &hostile::C01,
    &meta::C02,
    &meta::C03,
    &traffic::C04,
    &traffic::C05,
    &traffic::C06,
    &traffic::C07,
    &identity::C08,
    &identity::C09,
    &identity::C10,
    &identity::C11,
    &identity::C12,
    &traffic::C13,
    &traffic::C14,
    &stats::C15,
    &stats::C16,
    &stats::C17,
    &identity::C18,
    &identity::C19,
    &traffic::C20,
    &stats::C21,
    &meta::C22,
    &meta::C23,
    &meta::C24,
    &labels::C25,
];

/// got == want, with a short report around the first difference.
pub fn same<T: PartialEq + Debug + ?Sized>(what: &str, got: &T, want: &T) -> Outcome {
    if got == want {
        return Ok(());
    }
    let (g, w) = (format!("{got:?}"), format!("{want:?}"));
    Err(Fail(differs(what, &g, &w)))
}

pub fn differs(what: &str, g: &str, w: &str) -> String {
    let g: Vec<char> = g.chars().collect();
    let w: Vec<char> = w.chars().collect();
    let at = g.iter().zip(&w).take_while(|(a, b)| a == b).count();
    let cut = |s: &[char]| -> String {
        let from = at.saturating_sub(60);
        let to = s.len().min(at + 160);
        let mut r: String = s[from.min(to)..to].iter().collect();
        if from > 0 {
            r.insert_str(0, "...");
        }
        if to < s.len() {
            r.push_str("...");
        }
        r
    };
    format!("{what}: got {} expected {}", cut(&g), cut(&w))
}
