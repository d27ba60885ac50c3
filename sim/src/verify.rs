//! C06: the verifiers' verdicts on altered, replayed, misrouted and forged material equal the
//! reference equations. C07: batch verdict equals the conjunction of individual verdicts.
use crate::core::*;
use crate::ensure;
use crate::honest::snarked;
use crate::kit::*;
use crate::sys::*;
use ark_ec::{AffineRepr, CurveGroup};
use ark_ff::{Field, One, PrimeField, UniformRand, Zero};
use ark_relations::r1cs::{ConstraintSynthesizer, ConstraintSystem, ConstraintSystemRef, OptimizationGoal, SynthesisError};
use dist_saver::circuit::BitsizeCheckCircuit;
use dist_saver::encryption::{Ciphertext, Encryption};
use dist_saver::keygen::*;
use dist_saver::saver_groth16::{self, PreparedVerifyingKey, Proof, VerifyingKey};
use dist_saver::setup::{EncryptionGens, PreparedEncryptionGens};

/// The library's circuit with an adversarial assignment.
#[derive(Clone)]
pub struct Evil<Fr: Field> {
    pub bits: u8,
    pub n: u8,
    pub vals: Vec<Fr>,
    pub patch: Vec<(bool, usize, Fr)>,
}
impl<Fr: ark_ff::PrimeField> ConstraintSynthesizer<Fr> for Evil<Fr> {
    fn generate_constraints(self, cs: ConstraintSystemRef<Fr>) -> Result<(), SynthesisError> {
        let c = BitsizeCheckCircuit::new(self.bits, Some(self.n), Some(self.vals.clone()), true);
        c.generate_constraints(cs.clone())?;
        if !cs.is_in_setup_mode() {
            if let Some(mut b) = cs.borrow_mut() {
                for (inst, i, v) in &self.patch {
                    if *inst {
                        b.instance_assignment[*i] = *v;
                    } else {
                        b.witness_assignment[*i] = *v;
                    }
                }
            }
        }
        Ok(())
    }
}

/// A patch of the honest assignment under which chunk `i` (instance i+1) takes value `v` and the
/// circuit is satisfied all the same; None when the circuit resists.
fn unsound<Fr: ark_ff::PrimeField>(bits: u8, n: usize, vals: &[Fr], i: usize, v: Fr) -> Option<Vec<(bool, usize, Fr)>> {
    let cs = ConstraintSystem::<Fr>::new_ref();
    cs.set_optimization_goal(OptimizationGoal::Constraints);
    let c = Evil { bits, n: n as u8, vals: vals.to_vec(), patch: vec![] };
    c.generate_constraints(cs.clone()).ok()?;
    cs.finalize();
    let m = cs.to_matrices()?;
    let ni = cs.num_instance_variables();
    let (inst, wit) = {
        let b = cs.borrow()?;
        (b.instance_assignment.clone(), b.witness_assignment.clone())
    };
    if i + 1 >= inst.len() {
        return None;
    }
    let d = v - inst[i + 1];
    let mut cands: Vec<Vec<(bool, usize, Fr)>> = vec![vec![(true, i + 1, v)]];
    for row in 0..m.a.len() {
        let all: Vec<(Fr, usize)> = m.a[row].iter().chain(&m.b[row]).chain(&m.c[row]).cloned().collect();
        if let Some((cx_, _)) = all.iter().find(|(_, k)| *k == i + 1) {
            for (cw, k) in all.iter().filter(|(_, k)| *k >= ni) {
                if let Some(inv) = cw.inverse() {
                    let e = d * cx_ * inv;
                    for e in [e, -e] {
                        cands.push(vec![(true, i + 1, v), (false, k - ni, wit[k - ni] + e)]);
                    }
                }
            }
        }
    }
    for cand in cands {
        let mut z: Vec<Fr> = inst.iter().chain(&wit).cloned().collect();
        for (is, k, x) in &cand {
            z[if *is { *k } else { ni + *k }] = *x;
        }
        let dot = |row: &[(Fr, usize)]| row.iter().map(|(c, k)| *c * z[*k]).sum::<Fr>();
        if (0..m.a.len()).all(|r| dot(&m.a[r]) * dot(&m.b[r]) == dot(&m.c[r])) {
            return Some(cand);
        }
    }
    None
}

/// ciphertext of arbitrary field values (what a malicious encryptor can always write down)
pub fn forge_ct<E: Curve>(p: &Params<E>, ek: &EncryptionKey<E>, vals: &[F<E>], r: &F<E>) -> Ciphertext<E> {
    let mut psi = mul(&ek.P_1, r);
    let mut c = vec![];
    for j in 0..vals.len() {
        c.push(add(&mul(&ek.X[j], r), &mul(&p.g[j], &vals[j])));
        psi = add(&psi, &mul(&ek.Y[j], &vals[j]));
    }
    Ciphertext { X_r: mul(&ek.X_0, r), enc_chunks: c, commitment: psi }
}

fn rpoint<E: Curve>(cx: &mut Cx, p: &Params<E>, ek: &EncryptionKey<E>) -> G1<E> {
    let j = cx.choose(p.n);
    match cx.choose(8) {
        0 => p.gens.G,
        1 => p.g[j],
        2 => ek.X[j],
        3 => ek.Y[j],
        4 => ek.X_0,
        5 => ek.P_1,
        6 => ek.P_2,
        _ => G1::<E>::rand(&mut cx.rng()),
    }
}

struct Case<E: Curve> {
    ct: Ciphertext<E>,
    proof: Proof<E>,
    ek: EncryptionKey<E>,
    vk: VerifyingKey<E>,
    pvk: PreparedVerifyingKey<E>,
    gens: EncryptionGens<E>,
}

fn judge<E: Curve>(cx: &mut Cx, what: &str, c: &Case<E>) -> R<bool> {
    let sc = spec_commitment::<E>(&c.ct.X_r, &c.ct.enc_chunks, &c.ct.commitment, &c.ek, &c.gens.H);
    let sp = spec_proof::<E>(&c.vk, &c.proof, &c.ct);
    let prepared = cx.chance(1, 3);
    cx.check();
    let lc = if prepared {
        let e = cx.lib("PreparedEncryptionKey::from", || PreparedEncryptionKey::from(c.ek.clone()))?;
        verdict(cx, "verify_commitment(prepared)", || c.ct.verify_commitment(e, PreparedEncryptionGens::from(c.gens.clone())))?
    } else {
        verdict(cx, "verify_ciphertext_commitment", || {
            Encryption::<E>::verify_ciphertext_commitment(&c.ct.X_r, &c.ct.enc_chunks, &c.ct.commitment, c.ek.clone(), c.gens.clone())
        })?
    };
    let lp = verdict(cx, "verify_proof", || saver_groth16::verify_proof(&c.pvk, &c.proof, &c.ct))?;
    let both = verdict(cx, "verify_commitment_and_proof", || c.ct.verify_commitment_and_proof(&c.proof, &c.pvk, c.ek.clone(), c.gens.clone()))?;
    cx.log(|| format!("{} {} {} {}", what, sc, sp, hbytes(format!("{:?}", c.ct).as_bytes())));
    ensure!(lc == sc, if lc { "verify:accepts_bad_commitment" } else { "verify:refuses_good_commitment" }, "commitment verification says {} but the pairing equation says {} after: {}", lc, sc, what);
    ensure!(lp == sp, if lp { "verify:accepts_bad_proof" } else { "verify:refuses_good_proof" }, "proof verification says {} but the Groth16 equation says {} after: {}", lp, sp, what);
    ensure!(both == (sc && sp), "verify:combined", "combined verification says {} but commitment is {} and proof is {} after: {}", both, sc, sp, what);
    if c.ct.enc_chunks.len() == c.ek.X.len() {
        let w = F::<E>::rand(&mut cx.rng());
        let lb = verdict(cx, "verify_commitments_in_batch(one)", || Encryption::<E>::verify_commitments_in_batch(&[c.ct.clone()], &[w], c.ek.clone(), c.gens.clone()))?;
        ensure!(lb == sc, "verify:batch_of_one", "batch of one says {} but the commitment is {} after: {}", lb, sc, what);
    }
    Ok(both)
}

pub fn run_tamper<E: Curve>(cx: &mut Cx) -> R {
    let s = snarked::<E>(cx, &[8, 16, 4, 8, 16, 12, 20, 5, 6, 7, 9, 10, 11, 13, 15, 30])?;
    let p = s.p.clone();
    let srs = p.srs.as_ref().unwrap();
    // a second key over the same SRS, and (stand-in curve) a second SRS
    let other_ek = if cx.chance(1, 2) {
        let n = parties(cx, E::REAL);
        joint::<E>(cx, &p, n)?.ek
    } else {
        dealer::<E>(cx, &p)?.ek
    };
    let p2 = if E::REAL { None } else { Some(if p.plain { inputs_params::<E>(cx, p.bits)? } else { params::<E>(cx, p.bits, true, 5, false)? }) };
    let vb = p.bits.min(16);
    let m1 = gen_msg(cx, p.n, vb);
    let m2 = if cx.chance(1, 3) { m1.clone() } else { gen_msg(cx, p.n, vb) };
    let c1 = encrypt::<E>(cx, &p, &s.ek, &m1)?;
    let c2 = encrypt::<E>(cx, &p, &s.ek, &m2)?;
    let c3 = encrypt::<E>(cx, &p, &other_ek, &m1)?;
    let pr1 = prove::<E>(cx, &p, &s.ek, &c1)?;
    let pr2 = prove::<E>(cx, &p, &s.ek, &c2)?;
    let base = || Case::<E> { ct: c1.ct.clone(), proof: pr1.clone(), ek: s.ek.clone(), vk: srs.vk().clone(), pvk: srs.pvk.clone(), gens: p.gens.clone() };
    ensure!(judge(cx, "nothing", &base())?, "verify:honest_refused", "honest ciphertext and proof refused");
    let rounds = if E::REAL { 3 } else { 6 };
    for _ in 0..rounds {
        let mut c = base();
        let nm = 1 + cx.ch.weighted(&[6, 2, 1]);
        let mut what = vec![];
        // expected to be refused whatever the equations say? (only for single clear-cut alterations)
        for _ in 0..nm {
            let n = c.ct.enc_chunks.len();
            if n == 0 {
                break;
            }
            let j = cx.choose(n);
            let k = cx.choose(n);
            let jj = j.min(p.n - 1);
            let name: &str = match cx.choose(32) {
                0 => { c.ct.X_r = add(&c.ct.X_r, &rpoint(cx, &p, &s.ek)); "header shifted" }
                1 => { c.ct.enc_chunks[j] = add(&c.ct.enc_chunks[j], &rpoint(cx, &p, &s.ek)); "chunk shifted" }
                2 => { c.ct.commitment = add(&c.ct.commitment, &rpoint(cx, &p, &s.ek)); "commitment shifted" }
                3 => { c.ct.X_r = c2.ct.X_r; "header of another ciphertext" }
                4 => { c.ct.enc_chunks[j] = c2.ct.enc_chunks[jj]; "chunk of another ciphertext" }
                5 => { c.ct.commitment = c2.ct.commitment; "commitment of another ciphertext" }
                6 => { c.ct.enc_chunks.swap(j, k); "chunks swapped" }
                7 => { c.ct.enc_chunks.rotate_left(1); "chunks rotated" }
                8 => { c.ct.enc_chunks.pop(); "last chunk dropped" }
                9 => { c.ct.enc_chunks.remove(0); "first chunk dropped" }
                10 => { c.ct.enc_chunks.push(G1::<E>::default()); "identity appended" }
                11 => { let x = rpoint(cx, &p, &s.ek); c.ct.enc_chunks.push(x); "element appended" }
                12 | 13 => {
                    // the sum over the chunks (all the proof sees) stays the same
                    let x = rpoint(cx, &p, &s.ek);
                    c.ct.enc_chunks[j] = add(&c.ct.enc_chunks[j], &x);
                    c.ct.enc_chunks[k] = sub(&c.ct.enc_chunks[k], &x);
                    "sum-preserving shift between chunks"
                }
                14 => {
                    // the header and a chunk compensate in the proof equation
                    let x = rpoint(cx, &p, &s.ek);
                    c.ct.X_r = add(&c.ct.X_r, &x);
                    c.ct.enc_chunks[j] = sub(&c.ct.enc_chunks[j], &x);
                    "sum-preserving shift between header and chunk"
                }
                15 | 16 => {
                    // a different message, commitment adjusted
                    c.ct.enc_chunks[j] = add(&c.ct.enc_chunks[j], &p.g[jj]);
                    c.ct.commitment = add(&c.ct.commitment, &s.ek.Y[jj]);
                    "message changed with its commitment"
                }
                17 => {
                    let a = cx.choose(p.n);
                    c.ct.enc_chunks[j] = add(&c.ct.enc_chunks[j], &p.g[jj]);
                    c.ct.enc_chunks[k] = sub(&c.ct.enc_chunks[k], &p.g[k.min(p.n - 1)]);
                    c.ct.commitment = sub(&add(&c.ct.commitment, &s.ek.Y[jj]), &s.ek.Y[k.min(p.n - 1)]);
                    let _ = a;
                    "one unit moved between chunks with its commitment"
                }
                18 => {
                    // rerandomised without telling the proof
                    let r = F::<E>::rand(&mut cx.rng());
                    let z = forge_ct(&p, &s.ek, &vec![F::<E>::zero(); p.n], &r);
                    if n == p.n {
                        let v = to_vec(&c.ct).iter().zip(to_vec(&z)).map(|(a, b)| add(a, &b)).collect::<Vec<_>>();
                        c.ct = to_ct(&v);
                    }
                    "rerandomised"
                }
                19 => {
                    let r = F::<E>::rand(&mut cx.rng());
                    let z = forge_ct(&p, &s.ek, &vec![F::<E>::zero(); p.n], &r);
                    if n == p.n {
                        let v = to_vec(&c.ct).iter().zip(to_vec(&z)).map(|(a, b)| add(a, &b)).collect::<Vec<_>>();
                        c.ct = to_ct(&v);
                        c.proof.c = add(&c.proof.c, &mul(&s.ek.P_2, &r));
                    }
                    "rerandomised together with the proof"
                }
                20 => { let v = to_vec(&c.ct).iter().map(|x| mulu(x, 2)).collect::<Vec<_>>(); c.ct = to_ct(&v); "ciphertext doubled" }
                21 => { let v = to_vec(&c.ct).iter().map(neg).collect::<Vec<_>>(); c.ct = to_ct(&v); "ciphertext negated" }
                22 => { c.proof = pr2.clone(); "proof of another ciphertext" }
                23 => { c.ct = c2.ct.clone(); "other ciphertext, old proof" }
                24 => match cx.choose(6) {
                    0 => { c.proof.a = pr2.a; "A of another proof" }
                    1 => { c.proof.b = pr2.b; "B of another proof" }
                    2 => { c.proof.c = pr2.c; "C of another proof" }
                    3 => { c.proof.c = add(&c.proof.c, &rpoint(cx, &p, &s.ek)); "C shifted" }
                    4 => { c.proof.a = neg(&c.proof.a); "A negated" }
                    _ => { c.proof.a = neg(&c.proof.a); c.proof.b = neg(&c.proof.b); "A and B negated" }
                },
                25 => {
                    match cx.choose(4) {
                        0 => { c.proof.a = G1::<E>::default(); }
                        1 => { c.proof.b = G2::<E>::default(); }
                        2 => { c.proof.c = G1::<E>::default(); }
                        _ => { c.proof = Proof { a: G1::<E>::default(), b: G2::<E>::default(), c: G1::<E>::default() }; }
                    }
                    "proof element zeroed"
                }
                26 => { c.ek = other_ek.clone(); "key of another session" }
                27 => { c.ct = c3.ct.clone(); "ciphertext under another key" }
                28 => {
                    let z = c.ek.Z.len();
                    match cx.choose(5) {
                        0 => { let a = cx.choose(z); let b = cx.choose(z); c.ek.Z.swap(a, b); }
                        1 => { c.ek.Z.pop(); }
                        2 => { c.ek.Z.pop(); c.ek.X.pop(); c.ek.Y.pop(); }
                        3 => { let a = cx.choose(z); c.ek.Z[a] = other_ek.Z[a]; }
                        _ => { let a = cx.choose(z); c.ek.Z[a] = G2::<E>::default(); }
                    }
                    "altered key"
                }
                29 => {
                    if let Some(q) = &p2 {
                        let s2 = q.srs.as_ref().unwrap();
                        c.vk = s2.vk().clone();
                        c.pvk = s2.pvk.clone();
                        "verification key of another SRS"
                    } else {
                        c.gens.H = G2::<E>::rand(&mut cx.rng());
                        "other generators"
                    }
                }
                30 => {
                    c.gens.H = match cx.choose(3) { 0 => G2::<E>::rand(&mut cx.rng()), 1 => neg(&c.gens.H), _ => s.ek.Z[cx.choose(p.n + 1)] };
                    "other generators"
                }
                _ => {
                    match cx.choose(3) {
                        0 => { c.ct.X_r = G1::<E>::default(); }
                        1 => { c.ct.enc_chunks[j] = G1::<E>::default(); }
                        _ => { c.ct.commitment = G1::<E>::default(); }
                    }
                    "element zeroed"
                }
            };
            what.push(name);
            cx.fault(&format!("tamper: {}", name));
        }
        let what = what.join(" + ");
        let acc = judge(cx, &what, &c)?;
        if acc {
            cx.probe("altered_but_equivalent");
        }
        if cx.chance(1, 3) {
            // the untouched original afterwards
            cx.check();
            ensure!(judge(cx, "nothing (after an alteration)", &base())?, "verify:honest_refused", "honest ciphertext and proof refused after: {}", what);
        }
    }
    // whole-ciphertext sum: commitment fine, either proof refused
    if cx.chance(1, 4) {
        let mut c = base();
        let v = cx.ok("add_cts", || Encryption::<E>::add_cts(&to_vec(&c1.ct), &to_vec(&c2.ct)))?;
        c.ct = to_ct(&v);
        cx.fault("tamper: sum of ciphertexts");
        judge(cx, "sum of ciphertexts with the proof of one", &c)?;
    }
    // forged proofs without a witness
    for f in 0..4 {
        let mut c = base();
        let mut d = srs.vk().gamma_abc_g1[0].into_group();
        d += c.ct.X_r;
        for x in &c.ct.enc_chunks {
            d += x;
        }
        let d = d.into_affine();
        c.proof = Proof {
            a: srs.vk().alpha_g1,
            b: srs.vk().beta_g2,
            c: match f { 0 => neg(&d), 1 => d, 2 => G1::<E>::default(), _ => { let x = rpoint(cx, &p, &s.ek); sub(&x, &d) } },
        };
        cx.fault("forgery without witness");
        cx.check();
        ensure!(!judge(cx, "forged from the verification key", &c)?, "verify:forged", "proof made from the verification key alone is accepted");
    }
    // a malicious encryptor proves an out-of-range chunk
    let tries = if p.plain { 0 } else { 2 + cx.choose(2) };
    for _ in 0..tries {
        let i = cx.choose(p.n);
        let max = F::<E>::from((1u64 << p.bits) - 1);
        let over = match cx.choose(10) {
            0 => max + F::<E>::one(),
            1 => max + F::<E>::from(2u64 + cx.choose(20) as u64),
            2 => max.double() + F::<E>::one(),
            3 => -F::<E>::one(),
            4 => F::<E>::rand(&mut cx.rng()),
            // beyond the size by less than a rounding of the size would show
            8 => max + F::<E>::one() + F::<E>::from(cx.choose(1usize << p.bits.min(16)) as u64),
            9 => F::<E>::from(1u64 << (p.bits + 1 + cx.choose(4) as u8)) - F::<E>::one(),
            5 | 6 => {
                // a single high bit, anywhere up to the top of the field
                let top = F::<E>::MODULUS_BIT_SIZE as usize;
                let e = if cx.chance(1, 2) { top - 1 - cx.choose((top - p.bits as usize).min(8)) } else { p.bits as usize + cx.choose(top - p.bits as usize) };
                let low = if cx.chance(1, 2) { F::<E>::zero() } else { F::<E>::from(cx.choose(p.bits as usize + 2) as u64) };
                F::<E>::from(2u64).pow([e as u64]) + low
            }
            _ => (max + F::<E>::one()) * F::<E>::from(1 + cx.choose(200) as u64),
        };
        let honest: Vec<F<E>> = m1.iter().map(|x| F::<E>::from(*x as u64)).collect();
        let mut vals = honest.clone();
        vals[i] = over;
        let r = F::<E>::rand(&mut cx.rng());
        let ct = forge_ct(&p, &s.ek, &vals, &r);
        let mut attempts: Vec<(&str, Evil<F<E>>)> = vec![("library prover with the value", Evil { bits: p.bits, n: p.n as u8, vals: vals.clone(), patch: vec![] })];
        // honest witness, dishonest statement
        attempts.push(("honest witness, other statement", Evil { bits: p.bits, n: p.n as u8, vals: honest.clone(), patch: vec![(true, i + 1, over)] }));
        if let Some(patch) = unsound::<F<E>>(p.bits, p.n, &honest, i, over) {
            cx.probe("circuit_assignment_found");
            attempts.push(("adversarial witness", Evil { bits: p.bits, n: p.n as u8, vals: honest.clone(), patch }));
        }
        for (name, ev) in attempts {
            cx.fault("out-of-range chunk");
            let mut rng = cx.rng();
            // a prover that notices and refuses is as good as a verifier that refuses
            let Ok(Ok(proof)) = cx.lib("create_proof", || saver_groth16::create_proof(ev, &r, &srs.pk, &s.ek, &mut rng)) else { continue };
            let mut c = base();
            c.ct = ct.clone();
            c.proof = proof;
            cx.check();
            ensure!(!judge(cx, name, &c)?, "verify:out_of_range_accepted", "chunk {} of {} with a value outside {} bits is accepted ({})", i, p.n, p.bits, name);
        }
    }
    cx.sample.insert("curve".into(), E::NAME.into());
    cx.sample.insert("chunks".into(), format!("{:?}", (p.bits, p.n)));
    cx.nontrivial = true;
    Ok(())
}

// --------------------------------------------------------------------------------------------

pub fn run_batch<E: Curve>(cx: &mut Cx) -> R {
    let bits = if E::REAL { [64u8, 32, 16, 2, 3, 1][cx.ch.weighted(&[2, 2, 2, 2, 1, 1])] } else { [8u8, 16, 4, 12, 20, 31, 61, 2][cx.ch.weighted(&[6, 5, 3, 1, 2, 2, 1, 1])] };
    let p = params::<E>(cx, bits, false, 0, false)?;
    let ek = if cx.chance(1, 2) {
        let n = parties(cx, E::REAL);
        joint::<E>(cx, &p, n)?.ek
    } else {
        dealer::<E>(cx, &p)?.ek
    };
    let pek = cx.lib("PreparedEncryptionKey::from", || PreparedEncryptionKey::from(ek.clone()))?;
    let other = dealer::<E>(cx, &p)?.ek;
    let rounds = if p.n > 64 { 1 } else if E::REAL { 2 } else { 4 };
    for _ in 0..rounds {
        let size = match cx.ch.weighted(&[1, 2, 4, 8, 4, 1]) {
            0 => 0,
            1 => 1,
            2 => 2,
            3 => 3 + cx.choose(4),
            4 => 7 + cx.choose(7),
            _ => if E::REAL { 12 } else if cx.chance(1, 12) { 255 + cx.choose(10) } else { 33 + cx.choose(40) },
        };
        let mut list: Vec<Ciphertext<E>> = vec![];
        for i in 0..size {
            let again = i > 0 && cx.chance(1, 6);
            if again {
                let k = cx.choose(i);
                list.push(list[k].clone());
            } else if cx.chance(1, 12) {
                // what satisfies the equation without being a fresh encryption
                let vals: Vec<F<E>> = gen_msg(cx, p.n, bits.min(16)).iter().map(|x| F::<E>::from(*x as u64)).collect();
                let zero = vec![F::<E>::zero(); p.n];
                list.push(match cx.choose(4) {
                    0 => forge_ct(&p, &ek, &vals, &F::<E>::zero()),
                    1 => forge_ct(&p, &ek, &zero, &F::<E>::zero()),
                    2 => forge_ct(&p, &ek, &vals, &F::<E>::one()),
                    _ => match list.last() {
                        Some(c) => to_ct(&to_vec(c).iter().map(neg).collect::<Vec<_>>()),
                        None => forge_ct(&p, &ek, &zero, &-F::<E>::one()),
                    },
                });
                cx.fault("batch: degenerate but valid");
            } else {
                let m = gen_msg(cx, p.n, bits.min(16));
                list.push(encrypt::<E>(cx, &p, &ek, &m)?.ct);
            }
        }
        let nfaults = if size == 0 { 0 } else { cx.ch.weighted(&[3, 4, 3, 1]) };
        for _ in 0..nfaults {
            let i = cx.choose(size);
            let k = cx.choose(size);
            if list[i].enc_chunks.len() != p.n || list[k].enc_chunks.len() != p.n {
                continue;
            }
            let j = cx.choose(p.n);
            let x = rpoint(cx, &p, &ek);
            let name = match cx.choose(13) {
                0 => { list[i].X_r = add(&list[i].X_r, &x); "header" }
                1 => { list[i].enc_chunks[j] = add(&list[i].enc_chunks[j], &x); "chunk" }
                2 => { list[i].commitment = add(&list[i].commitment, &x); "commitment" }
                // cancels if two ciphertexts get the same weight
                3 => { list[i].commitment = add(&list[i].commitment, &x); list[k].commitment = sub(&list[k].commitment, &x); "cancelling commitments" }
                4 => { list[i].enc_chunks[j] = add(&list[i].enc_chunks[j], &x); list[k].enc_chunks[j] = sub(&list[k].enc_chunks[j], &x); "cancelling chunks" }
                5 => { list[i].X_r = add(&list[i].X_r, &x); list[k].X_r = sub(&list[k].X_r, &x); "cancelling headers" }
                6 => { let a = list[i].commitment; list[i].commitment = list[k].commitment; list[k].commitment = a; "commitments exchanged" }
                7 => { let a = list[i].enc_chunks[j]; list[i].enc_chunks[j] = list[k].enc_chunks[j]; list[k].enc_chunks[j] = a; "chunks exchanged" }
                8 => {
                    // a change with a matching commitment: still valid
                    list[i].enc_chunks[j] = add(&list[i].enc_chunks[j], &p.g[j]);
                    list[i].commitment = add(&list[i].commitment, &ek.Y[j]);
                    "valid change"
                }
                9 => { let m = vec![1; p.n]; list[i] = encrypt::<E>(cx, &p, &other, &m)?.ct; "under another key" }
                10 => { if cx.chance(1, 2) { list[i].enc_chunks.pop(); } else { let y = list[i].enc_chunks[j]; list[i].enc_chunks.push(y); } "wrong chunk count" }
                11 => {
                    // three-way cancellation
                    let l = cx.choose(size);
                    list[i].commitment = add(&list[i].commitment, &x);
                    list[k].commitment = add(&list[k].commitment, &x);
                    list[l].commitment = sub(&list[l].commitment, &mulu(&x, 2));
                    "three-way cancellation"
                }
                _ => {
                    // one chunk moves into the neighbour
                    let j2 = (j + 1) % p.n;
                    list[i].enc_chunks[j] = add(&list[i].enc_chunks[j], &x);
                    list[i].enc_chunks[j2] = sub(&list[i].enc_chunks[j2], &x);
                    "shift between chunks"
                }
            };
            cx.fault(&format!("batch: {}", name));
        }
        let mut want = true;
        for c in &list {
            let sp = spec_commitment::<E>(&c.X_r, &c.enc_chunks, &c.commitment, &ek, &p.gens.H);
            want &= sp;
        }
        let bad = !want;
        let passes = 1 + cx.choose(2);
        for pass in 0..passes {
            let ord = cx.ch.perm(list.len());
            let l2: Vec<Ciphertext<E>> = ord.iter().map(|i| list[*i].clone()).collect();
            let mut rng = cx.rng();
            let w: Vec<F<E>> = match cx.choose(3) {
                0 => l2.iter().map(|_| F::<E>::rand(&mut rng)).collect(),
                1 => {
                    let r = F::<E>::rand(&mut rng);
                    let mut c = F::<E>::one();
                    l2.iter().map(|_| { let y = c; c *= r; y }).collect()
                }
                _ => {
                    let r = F::<E>::rand(&mut rng);
                    let mut c = r;
                    l2.iter().map(|_| { let y = c; c *= r; y }).collect()
                }
            };
            cx.check();
            let got = if cx.chance(1, 2) {
                verdict(cx, "verify_commitments_in_batch", || Encryption::<E>::verify_commitments_in_batch(&l2, &w, pek.clone(), p.pgens.clone()))?
            } else {
                verdict(cx, "verify_commitments_in_batch", || Encryption::<E>::verify_commitments_in_batch(&l2, &w, ek.clone(), p.gens.clone()))?
            };
            cx.log(|| format!("batch {} {} {}", size, got, hbytes(format!("{:?}", l2).as_bytes())));
            ensure!(got == want, if got { "batch:accepts_bad" } else { "batch:refuses_good" }, "batch of {} says {} but individually {} (order {:?}, pass {})", size, got, want, ord, pass);
        }
        // and the library's individual verdicts
        let mut ind = true;
        for c in &list {
            ind &= verdict(cx, "verify_commitment", || c.verify_commitment(pek.clone(), p.pgens.clone()))?;
        }
        cx.check();
        ensure!(ind == want, "batch:individual", "individual verification says {} but the equations say {}", ind, want);
        if size > 0 && cx.chance(1, 2) {
            // the verifier has just judged this batch; now one member is exchanged for another that
            // shares part of it (a replayed header, chunk or commitment), then the first batch again
            let good: Vec<Ciphertext<E>> = list.iter().filter(|c| spec_commitment::<E>(&c.X_r, &c.enc_chunks, &c.commitment, &ek, &p.gens.H)).cloned().collect();
            if !good.is_empty() {
                let mut second = good.clone();
                let i = cx.choose(second.len());
                let j = cx.choose(p.n);
                let x = rpoint(cx, &p, &ek);
                let m = gen_msg(cx, p.n, bits.min(16));
                let fresh = encrypt::<E>(cx, &p, &ek, &m)?.ct;
                let name = match cx.choose(8) {
                    0 => { second[i] = Ciphertext { commitment: second[i].commitment, ..fresh }; "old commitment on a fresh ciphertext" }
                    1 => { second[i] = Ciphertext { X_r: second[i].X_r, ..fresh }; "old header on a fresh ciphertext" }
                    2 => { second[i].enc_chunks = fresh.enc_chunks; "fresh chunks under an old header and commitment" }
                    3 => { second[i].enc_chunks[j] = add(&second[i].enc_chunks[j], &x); "one chunk altered" }
                    4 => { second[i].X_r = add(&second[i].X_r, &x); "header altered" }
                    5 => { second[i].commitment = add(&second[i].commitment, &x); "commitment altered" }
                    6 => { second[i] = fresh; "a fresh member" }
                    _ => { second.push(fresh); "one more member" }
                };
                cx.fault(&format!("batch again: {}", name));
                for l in [&good, &second, &good, &second] {
                    let want = l.iter().all(|c| spec_commitment::<E>(&c.X_r, &c.enc_chunks, &c.commitment, &ek, &p.gens.H));
                    let mut rng = cx.rng();
                    let w: Vec<F<E>> = l.iter().map(|_| F::<E>::rand(&mut rng)).collect();
                    cx.check();
                    let got = verdict(cx, "verify_commitments_in_batch", || Encryption::<E>::verify_commitments_in_batch(l, &w, pek.clone(), p.pgens.clone()))?;
                    ensure!(got == want, if got { "batch:accepts_bad" } else { "batch:refuses_good" }, "batch of {} verified after another says {} but individually {} ({})", l.len(), got, want, name);
                    let one = &l[i];
                    let want = spec_commitment::<E>(&one.X_r, &one.enc_chunks, &one.commitment, &ek, &p.gens.H);
                    let got = verdict(cx, "verify_commitment", || one.verify_commitment(pek.clone(), p.pgens.clone()))?;
                    ensure!(got == want, "batch:individual", "member verified after another says {} but the equation says {} ({})", got, want, name);
                }
            }
        }
        if bad {
            // remove the bad ones: the rest must pass
            let good: Vec<_> = list.iter().filter(|c| spec_commitment::<E>(&c.X_r, &c.enc_chunks, &c.commitment, &ek, &p.gens.H)).cloned().collect();
            let mut rng = cx.rng();
            let w: Vec<F<E>> = good.iter().map(|_| F::<E>::rand(&mut rng)).collect();
            cx.check();
            ensure!(verdict(cx, "verify_commitments_in_batch", || Encryption::<E>::verify_commitments_in_batch(&good, &w, pek.clone(), p.gens.clone()))?, "batch:refuses_good", "batch of the {} good ones is refused after a bad batch", good.len());
            cx.probe("bad_batch");
        }
    }
    cx.sample.insert("curve".into(), E::NAME.into());
    cx.sample.insert("chunks".into(), format!("{:?}", (p.bits, p.n)));
    cx.nontrivial = true;
    Ok(())
}
