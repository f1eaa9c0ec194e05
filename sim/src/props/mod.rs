//! The properties: each is a function of one simulated run.

use crate::sim::{Check, Sim};

pub struct Prop {
    pub id: &'static str,
    pub run: fn(&Sim) -> Check,
    pub quick_runs: u64,
    pub level: &'static str,
    /// how cases are made and what makes one non-trivial
    pub rule: &'static str,
    pub stubs: &'static str,
    pub assumptions: &'static [&'static str],
}

mod decode;
mod encode;
mod faults;
mod misc;
mod stream;

pub static ALL: &[&Prop] = &[&decode::C01, &decode::C02, &decode::C03, &faults::C04, &faults::C05, &faults::C06, &faults::C07, &faults::C08, &stream::C09, &stream::C10, &stream::C11, &stream::C12, &encode::C13, &encode::C14, &encode::C15, &encode::C16, &encode::C17, &misc::C18, &misc::C19, &misc::C20, &faults::C21, &stream::C22];

pub fn find(id: &str) -> Option<&'static Prop> {
    ALL.iter().copied().find(|p| p.id == id)
}
