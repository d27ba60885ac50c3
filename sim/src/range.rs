//! C18: a set-up node, provers and verifiers share range statements of several sessions (chunk size,
//! number of values, public or private values, field); provers are honest, faulty or adversarial.
//! Whatever a prover assigns, the statement holds exactly for values in range, and every node builds
//! the same statement.
use crate::core::*;
use crate::ensure;
use crate::sys::*;
use ark_ec::pairing::Pairing;
use ark_ff::{BigInteger, PrimeField, UniformRand};
use ark_relations::r1cs::{ConstraintMatrices, ConstraintSynthesizer, ConstraintSystem, OptimizationGoal, SynthesisMode};
use dist_saver::circuit::BitsizeCheckCircuit;
use rayon_core::sim;

struct Stmt<P: PrimeField> {
    bits: u8,
    n: usize,
    implied: bool,
    public: bool,
    m: ConstraintMatrices<P>,
}
/// one prover's assignment: the instance, the witness, and what the system says about it
struct Asg<P: PrimeField> {
    m: ConstraintMatrices<P>,
    inst: Vec<P>,
    wit: Vec<P>,
    sat: bool,
}

fn circuit<P: PrimeField>(bits: u8, n: usize, implied: bool, public: bool, vals: Option<Vec<P>>) -> BitsizeCheckCircuit<P> {
    BitsizeCheckCircuit::new(bits, if implied { None } else { Some(n as u8) }, vals, public)
}
fn synth<P: PrimeField>(c: BitsizeCheckCircuit<P>, setup: bool) -> Option<Asg<P>> {
    let cs = ConstraintSystem::<P>::new_ref();
    cs.set_optimization_goal(OptimizationGoal::Constraints);
    cs.set_mode(if setup { SynthesisMode::Setup } else { SynthesisMode::Prove { construct_matrices: true } });
    c.generate_constraints(cs.clone()).ok()?;
    cs.finalize();
    let m = cs.to_matrices()?;
    let (inst, wit) = match (setup, cs.borrow()) {
        (false, Some(b)) => (b.instance_assignment.clone(), b.witness_assignment.clone()),
        _ => (vec![], vec![]),
    };
    let sat = !setup && holds(&m, &inst.iter().chain(&wit).cloned().collect::<Vec<_>>()).is_none();
    Some(Asg { m, inst, wit, sat })
}
fn elsewhere<T: Send>(cx: &mut Cx, f: impl FnOnce() -> T + Send) -> R<T> {
    if cx.chance(1, 5) {
        cx.fault("call_on_new_thread");
        cx.lib("generate_constraints", || std::thread::scope(|s| s.spawn(f).join()).expect("call on another thread panicked"))
    } else {
        cx.lib("generate_constraints", f)
    }
}
fn same<P: PrimeField>(a: &ConstraintMatrices<P>, b: &ConstraintMatrices<P>) -> bool {
    a.num_instance_variables == b.num_instance_variables
        && a.num_witness_variables == b.num_witness_variables
        && a.num_constraints == b.num_constraints
        && a.a == b.a
        && a.b == b.b
        && a.c == b.c
}
fn fits<P: PrimeField>(v: &P, bits: u8) -> bool {
    v.into_bigint().num_bits() <= bits as u32
}
fn holds<P: PrimeField>(m: &ConstraintMatrices<P>, z: &[P]) -> Option<usize> {
    let dot = |row: &[(P, usize)]| row.iter().map(|(c, k)| *c * z[*k]).sum::<P>();
    (0..m.num_constraints).find(|r| dot(&m.a[*r]) * dot(&m.b[*r]) != dot(&m.c[*r]))
}
/// An adversary with the statement in hand: repairs violated rows one variable at a time, never
/// touching the values. True when it ends up with a satisfying assignment.
fn attack<P: PrimeField>(cx: &mut Cx, m: &ConstraintMatrices<P>, z: &mut Vec<P>, frozen: &dyn Fn(usize) -> bool, budget: &mut usize, depth: usize) -> bool {
    let Some(r) = holds(m, z) else { return true };
    if depth == 0 || *budget == 0 {
        return false;
    }
    let mut vars: Vec<usize> = m.a[r].iter().chain(&m.b[r]).chain(&m.c[r]).map(|(_, k)| *k).filter(|k| !frozen(*k)).collect();
    vars.sort();
    vars.dedup();
    if vars.len() > 8 {
        // a packing row: some of its variables
        let ord = cx.ch.perm(vars.len().min(64));
        vars = ord.into_iter().take(8).map(|i| vars[i]).collect();
    }
    for k in vars {
        if *budget == 0 {
            return false;
        }
        *budget -= 1;
        let old = z[k];
        let f = |z: &mut Vec<P>, x: P| -> P {
            z[k] = x;
            let dot = |row: &[(P, usize)]| row.iter().map(|(c, j)| *c * z[*j]).sum::<P>();
            dot(&m.a[r]) * dot(&m.b[r]) - dot(&m.c[r])
        };
        let (f0, f1, fm) = (f(z, P::zero()), f(z, P::one()), f(z, -P::one()));
        let half = P::from(2u64).inverse().unwrap();
        let (q, l) = ((f1 + fm) * half - f0, (f1 - fm) * half);
        let roots: Vec<P> = if q.is_zero() {
            l.inverse().map(|i| vec![-f0 * i]).unwrap_or_default()
        } else {
            [P::zero(), P::one()].into_iter().filter(|x| f(z, *x).is_zero()).collect()
        };
        for x in roots {
            if x == old {
                continue;
            }
            z[k] = x;
            if attack(cx, m, z, frozen, budget, depth - 1) {
                return true;
            }
        }
        z[k] = old;
    }
    false
}
fn value<P: PrimeField>(cx: &mut Cx, bits: u8, inside: bool) -> P {
    let top = P::MODULUS_BIT_SIZE as usize;
    let b = (bits as usize).min(top - 1);
    let two = P::from(2u64);
    let low = |cx: &mut Cx, b: usize| -> P {
        // random of at most b bits
        if b == 0 {
            return P::zero();
        }
        let mut r = cx.rng();
        let v = P::rand(&mut r).into_bigint().to_bits_le();
        let mut a = P::zero();
        for i in (0..b).rev() {
            a = a.double();
            if v[i] {
                a += P::one();
            }
        }
        a
    };
    if inside {
        return match cx.ch.weighted(&[2, 3, 3, 1]) {
            0 => P::zero(),
            1 => two.pow([b as u64]) - P::one(),
            2 => low(cx, b),
            _ => if b == 0 { P::zero() } else { two.pow([cx.choose(b) as u64]) },
        };
    }
    match cx.ch.weighted(&[3, 2, 3, 2, 2, 1]) {
        0 => two.pow([b as u64]),
        1 => two.pow([b as u64]) + low(cx, b),
        2 => {
            let e = b + cx.choose(top - b);
            two.pow([e as u64]) + low(cx, b)
        }
        3 => -P::one(),
        4 => -P::from(1 + cx.choose(300) as u64),
        _ => P::rand(&mut cx.rng()),
    }
}

fn go<P: PrimeField>(cx: &mut Cx, what: &str) -> R {
    let top = P::MODULUS_BIT_SIZE as usize;
    let sessions = 1 + cx.choose(3);
    let mut st: Vec<Stmt<P>> = vec![];
    let mut rows = 0;
    for _ in 0..sessions {
        let bits = match cx.ch.weighted(&[4, 3, 3, 1]) {
            0 => [8u8, 4, 16][cx.choose(3)],
            1 => 1 + cx.choose(31) as u8,
            2 => 1 + cx.choose(top.min(255) - 1) as u8,
            _ => [top - 2, top - 1, top, top + 1, 255][cx.choose(5)].min(255) as u8,
        };
        let public = cx.chance(1, 2);
        let whole = (top + bits.max(1) as usize - 1) / bits.max(1) as usize;
        let implied = bits > 0 && whole * top < 1500 && cx.chance(1, 3);
        let n = if implied { whole } else if cx.chance(1, 12) { 0 } else { 1 + cx.choose(if top > 64 { 3 } else { 6 }) };
        let c = circuit::<P>(bits, n, implied, public, None);
        ensure!(c.num_values as usize == n && c.required_bit_size == bits && c.alloc_as_public == public, "range:count", "statement of {} values for {} bits where {} were expected", c.num_values, bits, n);
        let Some(a) = elsewhere(cx, move || synth(c, true))? else {
            return viol("range:setup", format!("no statement for {} {} values of {} bits", n, what, bits));
        };
        rows += a.m.num_constraints;
        cx.check();
        ensure!(a.m.num_instance_variables == 1 + if public { n } else { 0 }, "range:instance", "{} public inputs for {} values (public: {})", a.m.num_instance_variables - 1, n, public);
        st.push(Stmt { bits, n, implied, public, m: a.m });
    }
    if sessions > 1 {
        cx.fault("sessions_interleaved");
    }
    let jobs = (2 + cx.choose(5)).min(1 + 20000 / rows.max(1));
    for _ in 0..jobs {
        let s = &st[cx.choose(st.len())];
        let (bits, n, implied, public) = (s.bits, s.n, s.implied, s.public);
        let mut vals: Vec<P> = (0..n).map(|_| value::<P>(cx, bits, true)).collect();
        let bad = if n == 0 { 0 } else { cx.ch.weighted(&[3, 4, 1]) };
        let mut at = 0;
        for _ in 0..bad {
            at = match cx.choose(3) {
                0 => n - 1,
                1 => 0,
                _ => cx.choose(n),
            };
            vals[at] = value::<P>(cx, bits, false);
            cx.fault("value_out_of_range");
        }
        let good = vals.iter().all(|v| fits(v, bits));
        let a = {
            let c = circuit(bits, n, implied, public, Some(vals.clone()));
            elsewhere(cx, move || synth(c, false))?
        };
        let Some(a) = a else {
            // a prover that notices is fine, a refused honest one is not
            cx.check();
            ensure!(!good, "range:refused", "{} {} values within {} bits refused", n, what, bits);
            continue;
        };
        cx.log(|| format!("{} bits {} n {} public {} good {} rows {} {:x}", what, bits, n, public, good, a.m.num_constraints, hstr(&format!("{:?}", vals))));
        cx.check();
        ensure!(same(&a.m, &s.m), "range:statement_differs", "the prover's statement for {} {} values of {} bits (public: {}) is not the one of the set-up", n, what, bits, public);
        ensure!(a.sat == good, if good { "range:honest_unsatisfied" } else { "range:out_of_range_satisfied" }, "{} values of {} bits in the {} (public: {}): in range is {}, the constraints say {}", n, bits, what, public, good, a.sat);
        // the values are where a verifier or a commitment looks for them
        if good {
            cx.check();
            let place = if public { a.inst[1..].to_vec() } else { a.wit[..n.min(a.wit.len())].to_vec() };
            ensure!(place == vals, "range:values_misplaced", "the {} values are not the first {} variables", n, if public { "public" } else { "private" });
        }
        if n == 0 {
            continue;
        }
        // an adversary that wants its value accepted
        if !good || cx.chance(1, 2) {
            let ni = a.m.num_instance_variables;
            let off = if public { 1 } else { ni };
            let mut z: Vec<P> = a.inst.iter().chain(&a.wit).cloned().collect();
            if good {
                // honest bits, another value
                at = cx.choose(n);
                z[off + at] = value::<P>(cx, bits, false);
                if fits(&z[off + at], bits) {
                    continue;
                }
            }
            cx.fault("adversarial_assignment");
            let want = z[off..off + n].to_vec();
            let frozen = move |k: usize| k < ni || (k >= off && k < off + n);
            let mut budget = 120;
            let won = attack(cx, &a.m, &mut z, &frozen, &mut budget, 3);
            cx.check();
            ensure!(!won, "range:unsound", "an assignment with value {} of {} outside {} bits in the {} satisfies every constraint (public: {}): {:?}", at, n, bits, what, public, want[at].into_bigint().to_bytes_be());
        }
        cx.st.steps += 1;
    }
    cx.sample.insert("statement".into(), format!("{:?}", st.iter().map(|s| (s.bits, s.n, s.public)).collect::<Vec<_>>()));
    cx.sample.insert("field".into(), what.into());
    cx.nontrivial = true;
    Ok(())
}

pub fn run<E: Curve>(cx: &mut Cx) -> R {
    let outer = sim::save();
    let threads = [1usize, 2, 8, 64][cx.choose(4)];
    sim::install(sim::Policy::Random, h64(&[cx.seed, 0x18]), threads);
    let r = if E::REAL {
        go::<F<E>>(cx, "BLS12-381 scalar field")
    } else {
        match cx.ch.weighted(&[6, 3, 1, 1]) {
            0 => go::<F<E>>(cx, "61-bit scalar field"),
            1 => go::<<E as Pairing>::BaseField>(cx, "63-bit base field"),
            2 => go::<ark_bls12_381::Fr>(cx, "BLS12-381 scalar field"),
            _ => go::<ark_bls12_381::Fq>(cx, "BLS12-381 base field"),
        }
    };
    sim::restore(outer);
    r
}
