//! Hand-written realistic texts, perturbed by the workloads.
pub const TEXTS: [&str; 3] = [
    include_str!("../corpus/sample.mo"),
    include_str!("../corpus/library.mo"),
    include_str!("../corpus/odd.mo"),
];
