use crate::cluster::{run_cluster, Focus};
use crate::core::*;
use crate::toy::Toy;
use ark_bls12_381::Bls12_381 as Bls;

pub struct Prop {
    pub id: &'static str,
    pub toy: fn(&mut Cx) -> R,
    pub real: fn(&mut Cx) -> R,
    pub runs_quick: u64,
    pub runs_thorough: u64,
    /// one run in this many is on BLS12-381
    pub real_every: u64,
    pub real_every_thorough: u64,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
}

/// how cases are made in the cluster scenarios
const CLUSTER: &str = "one case = one seeded run of the simulated deployment: party counts, sessions, chunk sizes, messages, wire encoding, fault mix, every delivery time, loss, duplicate, partition, crash point and restart are drawn from the run's seed. Non-trivial: at least two holders or at least one injected fault. Distinct: different hash of the full event log (every event, message content and rayon task order).";
/// how cases are made in the other scenarios
const ACTORS: &str = "one case = one seeded run: the actors' keys, messages, sizes, the order in which contributions, requests and retries are processed, the faults (misrouted, replayed, altered, partial, foreign or stale material; device errors where I/O is involved) and the thread-pool schedule are drawn from the run's seed. Non-trivial: at least one fault injected or one multi-party exchange. Distinct: different hash of the run's event log including ciphertext content and rayon task order.";
const ASSUME: &[&str] = &[
    "ark-ec, ark-ff, ark-serialize, ark-groth16 and ark-relations compute correctly",
    "the stand-in 61-bit pairing curve satisfies the Pairing contract (self-tested at start); the code under test is generic over the curve",
    "a check explores the sampled runs only",
];

macro_rules! prop {
    ($id:expr, $rule:expr, $q:expr, $t:expr, $re:expr, $ret:expr, $($f:ident)::+) => {
        Prop {
            id: $id,
            toy: |cx| $($f)::+::<Toy>(cx),
            real: |cx| $($f)::+::<Bls>(cx),
            runs_quick: $q,
            runs_thorough: $t,
            real_every: $re,
            real_every_thorough: $ret,
            rule: $rule,
            assumptions: ASSUME,
        }
    };
}
fn c01<E: crate::sys::Curve>(cx: &mut Cx) -> R {
    run_cluster::<E>(cx, Focus::Keygen)
}
fn c02<E: crate::sys::Curve>(cx: &mut Cx) -> R {
    run_cluster::<E>(cx, Focus::Collective)
}
fn c04<E: crate::sys::Curve>(cx: &mut Cx) -> R {
    if cx.chance(1, 2) {
        crate::aggregate::run::<E>(cx)
    } else {
        run_cluster::<E>(cx, Focus::Aggregate)
    }
}

pub static PROPS: &[Prop] = &[
    prop!("C01", CLUSTER, 8000, 400000, 100, 100, c01),
    prop!("C02", CLUSTER, 8000, 400000, 60, 60, c02),
    prop!("C03", ACTORS, 8000, 400000, 100, 100, crate::shares::run),
    prop!("C04", CLUSTER, 8000, 200000, 100, 100, c04),
    prop!("C05", ACTORS, 8000, 400000, 100, 100, crate::honest::run_honest),
    prop!("C06", ACTORS, 5000, 400000, 100, 100, crate::verify::run_tamper),
    prop!("C07", ACTORS, 8000, 400000, 100, 100, crate::verify::run_batch),
    prop!("C08", ACTORS, 8000, 400000, 100, 100, crate::honest::run_authority),
    prop!("C09", ACTORS, 16000, 400000, 100, 100, crate::store::run),
    prop!("C10", ACTORS, 24000, 400000, 100, 100, crate::malformed::run),
    prop!("C11", ACTORS, 4000, 200000, 100, 100, crate::sched::run),
    prop!("C12", ACTORS, 16000, 400000, 100, 100, crate::badkeys::run),
    prop!("C13", ACTORS, 8000, 300000, 100, 100, crate::eavesdrop::run),
    prop!("C14", ACTORS, 150000, 6000000, 100, 100, crate::split::run),
    prop!("C15", ACTORS, 16000, 800000, 100, 100, crate::derive::run_commit),
    prop!("C16", ACTORS, 16000, 800000, 100, 100, crate::derive::run_labels),
    prop!("C18", ACTORS, 12000, 1600000, 100, 100, crate::range::run),
    prop!("C19", CLUSTER, 8000, 400000, 100, 100, crate::ballot::run),
    #[cfg(feature = "serial")]
    prop!("C20", ACTORS, 8000, 400000, 100, 100, crate::builds::run),
    prop!("C17", ACTORS, 16000, 800000, 100, 100, crate::erase::run),
];
