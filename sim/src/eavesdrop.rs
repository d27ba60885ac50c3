//! C13: a passive observer, possibly holding the secrets of every party but one, mounts a battery of
//! attacks on the transcript of a faulty deployment; every randomised output is checked for freshness.
//!
//! The attacker works in the bilinear group: it looks for the value it would need to test a guessed
//! chunk (`u_i = c_i − m_i·g_i = r·S_i·δ`), to re-identify a message, or to unmask a share, among all
//! public points, their sums and differences, and through pairings with every public G2 element.
//! Each test below can hold for at most one guess, so a hit on the true value is a distinguisher.
use crate::codec::*;
use crate::core::*;
use crate::ensure;
use crate::kit::*;
use crate::sys::*;
use ark_ec::pairing::PairingOutput;
use ark_ec::{AffineRepr, CurveGroup};
use ark_ff::{BigInteger, Field, PrimeField, Zero};
use ark_relations::r1cs::{ConstraintSynthesizer, ConstraintSystem, OptimizationGoal};
use ark_std::rand::{Error, RngCore};
use dist_saver::circuit::BitsizeCheckCircuit;
use dist_saver::encryption::{Ciphertext, Encryption};
use dist_saver::keygen::*;
use dist_saver::saver_groth16::{self, Proof};
use std::collections::HashMap;
use std::panic::{catch_unwind, AssertUnwindSafe};

/// generator that dies after `left` words: the calling thread is killed in the middle of an operation
struct DyingRng {
    inner: SimRng,
    left: u64,
}
impl RngCore for DyingRng {
    fn next_u32(&mut self) -> u32 {
        self.next_u64() as u32
    }
    fn next_u64(&mut self) -> u64 {
        if self.left == 0 {
            panic!("killed by the simulator");
        }
        self.left -= 1;
        self.inner.next_u64()
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        for c in d.chunks_mut(8) {
            let v = self.next_u64().to_le_bytes();
            c.copy_from_slice(&v[..c.len()]);
        }
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), Error> {
        self.fill_bytes(d);
        Ok(())
    }
}
impl ark_std::rand::CryptoRng for DyingRng {}

/// one randomised library call, sometimes preceded by an attempt that is killed or whose result is lost
fn call<T>(cx: &mut Cx, op: &'static str, f: impl Fn(&mut DyingRng) -> dist_saver::Result<T>) -> R<T> {
    if cx.chance(1, 6) {
        let left = [0, 1, 2, 3, 5, 8, 13, 40][cx.choose(8)];
        let mut rng = DyingRng { inner: cx.rng(), left };
        let _ = take_panic();
        match catch_unwind(AssertUnwindSafe(|| f(&mut rng))) {
            Err(_) => {
                let m = take_panic().unwrap_or_default();
                ensure!(m.contains("killed by the simulator"), format!("panic:{}", op), "{} panicked: {}", op, m);
                cx.fault("call_killed_and_retried");
            }
            Ok(_) => cx.fault("result_lost_and_retried"),
        }
    }
    let mut rng = DyingRng { inner: cx.rng(), left: u64::MAX };
    cx.ok(op, || f(&mut rng))
}

struct View<E: Curve> {
    /// points no honest relation ties together by small coefficients
    basis: Vec<(String, G1<E>)>,
    /// further public points, for pairing tests
    more: Vec<(String, G1<E>)>,
    g2: Vec<(String, G2<E>)>,
    /// hidden values: kind, name, point
    hidden: Vec<(&'static str, String, G1<E>)>,
    scalars: Vec<(String, F<E>)>,
}
impl<E: Curve> View<E> {
    fn b(&mut self, n: impl Into<String>, p: G1<E>) {
        self.basis.push((n.into(), p));
    }
    fn m(&mut self, n: impl Into<String>, p: G1<E>) {
        self.more.push((n.into(), p));
    }
    fn q(&mut self, n: impl Into<String>, p: G2<E>) {
        self.g2.push((n.into(), p));
    }
    fn h(&mut self, k: &'static str, n: impl Into<String>, p: G1<E>) {
        self.hidden.push((k, n.into(), p));
    }
    fn s(&mut self, n: impl Into<String>, f: F<E>) {
        self.scalars.push((n.into(), f));
    }
}

/// one honest party's view of a session, kept for the attacks
struct Enc<E: Curve> {
    ct: Ciphertext<E>,
    r: F<E>,
    m: Vec<u32>,
    proof: Option<Proof<E>>,
    name: String,
}

pub fn run<E: Curve>(cx: &mut Cx) -> R {
    let mut v = View::<E> { basis: vec![], more: vec![], g2: vec![], hidden: vec![], scalars: vec![] };
    let snark = cx.chance(2, 5);
    let p = if snark {
        snarked_params::<E>(cx)?
    } else {
        let bits = crate::cluster::draw_bits::<E>(cx, false);
        params::<E>(cx, bits, false, 0, false)?
    };
    let n = p.n;
    let mode = mode(cx);
    let idx: Vec<usize> = {
        let mut o = cx.ch.perm(n.min(16));
        o.truncate(3);
        if n > 16 && cx.chance(1, 2) {
            o[0] = n - 1;
        }
        o
    };

    // ---------------------------------------------------------------- keys
    v.b("G", p.gens.G);
    v.b("delta", p.delta);
    v.b("gamma", p.gamma);
    v.q("H", p.gens.H);
    if let Some(s) = &p.srs {
        let vk = s.vk();
        v.b("alpha", vk.alpha_g1);
        v.b("beta", s.pk.pk.beta_g1);
        v.q("beta2", vk.beta_g2);
        v.q("gamma2", vk.gamma_g2);
        v.q("delta2", vk.delta_g2);
        // no two trapdoors of the set-up are the same or trivially related
        trapdoors::<E>(cx, &p)?;
    }
    for j in &idx {
        v.b(format!("g[{}]", j), p.g[*j]);
    }
    let parties = parties(cx, E::REAL);
    let dealer_made = cx.chance(1, 4);
    let honest = cx.choose(parties);
    let (ek, sks, coal): (EncryptionKey<E>, Vec<SecretKeyST<E>>, Vec<F<E>>) = if dealer_made {
        let (sk, ek, dk) = call(cx, "keygen", |r| keygen(r, p.bits, &p.gens, &p.g, &p.delta, &p.gamma))?;
        v.s("authority", sk.0);
        for j in &idx {
            v.b(format!("X[{}]", j), ek.X[*j]);
            v.b(format!("Y[{}]", j), ek.Y[*j]);
            v.q(format!("Z[{}]", j + 1), ek.Z[*j + 1]);
        }
        v.b("P1", ek.P_1);
        v.b("P2", ek.P_2);
        v.q("Z[0]", ek.Z[0]);
        ensure_distinct(cx, "key_element", ek.X.iter().map(|x| (x, "X")).collect())?;
        ensure_distinct2::<E>(cx, "key_element", &ek.Z)?;
        // the decryption key may be handed to helpers: its masks are fresh and unrelated as well
        let mut l = dk.V_1.clone();
        l.extend(dk.V_2.iter());
        l.push(dk.V_0);
        l.extend(ek.Z.iter());
        ensure_distinct2::<E>(cx, "decryption_key_element", &l)?;
        (ek, vec![], vec![F::<E>::zero(); n])
    } else {
        let mut sks = vec![];
        let mut parts = vec![];
        for i in 0..parties {
            let (sk, part) = call(cx, "FkeygenPartial", |r| FkeygenPartial(r, p.bits, &p.gens, &p.g, &p.delta, &p.gamma))?;
            ensure!(sk.s.len() == n && sk.t.len() == n + 1, "partial:shape", "{} / {} secrets for {} chunks", sk.s.len(), sk.t.len(), n);
            for (j, x) in sk.s.iter().enumerate() {
                v.s(format!("party {} s[{}]", i, j), *x);
            }
            for (j, x) in sk.t.iter().enumerate() {
                v.s(format!("party {} t[{}]", i, j), *x);
            }
            if i == honest || cx.chance(1, 2) {
                for j in &idx {
                    v.b(format!("party {} X[{}]", i, j), part.X[*j]);
                    v.b(format!("party {} Y[{}]", i, j), part.Y[*j]);
                }
                v.b(format!("party {} P2", i), part.P_2);
            }
            if i == honest {
                v.q(format!("party {} Z[0]", i), part.Z[0]);
                for j in &idx {
                    v.q(format!("party {} Z[{}]", i, j + 1), part.Z[*j + 1]);
                }
            }
            wire::<E, _>(cx, mode, "partial key", &part, &[&sk.s[..], &sk.t[..]])?;
            sks.push(sk);
            parts.push(part);
        }
        let comb = cx.lib("combineEKs", || combineEKs(&p.gamma, &parts))?;
        let mut shares = vec![];
        for i in 0..parties {
            let s = cx.lib("genP1share", || genP1share(&comb, &sks[i]))?;
            v.b(format!("party {} P1 share", i), s.P_1);
            wire::<E, _>(cx, mode, "P1 share", &s, &[&sks[i].s[..], &sks[i].t[..]])?;
            shares.push(s);
        }
        let p1 = cx.lib("combineP1share", || combineP1share(&shares))?;
        let ek = cx.lib("keygenFinal", || keygenFinal(&comb, &p1))?;
        if parties > 1 {
            v.q("Z[0]", ek.Z[0]);
            for j in &idx {
                v.q(format!("Z[{}]", j + 1), ek.Z[*j + 1]);
                v.m(format!("X[{}]", j), ek.X[*j]);
            }
            v.m("P1", ek.P_1);
            v.m("P2", ek.P_2);
            cx.probe("coalition_of_all_but_one");
        }
        let coal = (0..n).map(|j| (0..parties).filter(|i| *i != honest).map(|i| sks[i].s[j]).sum()).collect();
        if parties > 1 && cx.chance(1, 2) {
            cx.fault("party_crash_and_restart");
            // only what was on disk survives
            for i in 0..parties {
                let b = enc(cx, mode, &sks[i])?;
                sks[i] = dec(cx, mode, &b)?;
            }
        }
        (ek, sks, coal)
    };
    let (dsk, dpk) = call(cx, "Fkeygen_dest", |r| Fkeygen_dest::<_, E>(r, &p.gens))?;
    let (osk, opk) = call(cx, "Fkeygen_dest", |r| Fkeygen_dest::<_, E>(r, &p.gens))?;
    v.s("destination", dsk.0);
    v.s("other destination", osk.0);
    v.b("destination pk", dpk.pk);
    v.b("other destination pk", opk.pk);
    wire::<E, _>(cx, mode, "destination key", &dpk, &[&[dsk.0]])?;

    // ---------------------------------------------------------------- encryptions
    let count = 2 + cx.choose(if E::REAL { 2 } else { 4 });
    let mut encs: Vec<Enc<E>> = vec![];
    let field_msgs = [4u8, 8, 16].contains(&p.bits);
    let (f0, d0) = if field_msgs { gen_field::<E>(cx, p.bits)? } else { (F::<E>::zero(), vec![]) };
    let m0 = gen_msg(cx, n, p.bits.min(16));
    for k in 0..count {
        // the same message again, or another
        let repeat = k > 0 && cx.chance(1, 2);
        if repeat {
            cx.probe("message_encrypted_again");
        }
        let name = format!("encryption {}", k);
        let entry = if field_msgs { cx.choose(4) } else { 0 };
        let (m, ct, r, proof) = if entry == 0 {
            let m = if repeat { m0.clone() } else { gen_msg(cx, n, p.bits.min(16)) };
            let (c, r) = call(cx, "encrypt_decomposed_message", |g| Encryption::<E>::encrypt_decomposed_message(g, m.clone(), &ek, &p.g))?;
            ensure!(c.len() == n + 2, "encrypt:shape", "ciphertext has {} elements", c.len());
            (m, to_ct::<E>(&c), r, None)
        } else {
            let (f, d) = if repeat { (f0, d0.clone()) } else { gen_field::<E>(cx, p.bits)? };
            match (entry, &p.srs) {
                (1, Some(s)) => {
                    let (c, r, pr) = call(cx, "encrypt_with_proof", |g| Encryption::<E>::encrypt_with_proof(g, &f, &ek, &s.pk, p.bits))?;
                    (d, c, r, Some(pr))
                }
                (2, Some(s)) => {
                    let (c, r) = call(cx, "encrypt_given_snark_vk", |g| Encryption::<E>::encrypt_given_snark_vk(g, &f, &ek, s.vk(), p.bits))?;
                    (d, c, r, None)
                }
                _ => {
                    let (c, r) = call(cx, "encrypt", |g| Encryption::<E>::encrypt(g, &f, &ek, &p.g, p.bits))?;
                    (d, c, r, None)
                }
            }
        };
        v.s(format!("{} r", name), r);
        // a second proof for the same ciphertext, as after a lost acknowledgement
        let mut proofs: Vec<Proof<E>> = proof.clone().into_iter().collect();
        if let Some(s) = &p.srs {
            let want = if E::REAL { 1 } else { 1 + cx.choose(2) };
            while proofs.len() < want + proof.is_some() as usize {
                let vals: Vec<F<E>> = m.iter().map(|x| F::<E>::from(*x as u64)).collect();
                let rng0 = cx.rng();
                if cx.chance(1, 4) {
                    tied::<E>(cx, &p, &m, &r, &ek, rng0)?;
                }
                let pr = call(cx, "create_proof", |g| {
                    saver_groth16::create_proof(BitsizeCheckCircuit::new(p.bits, None, Some(vals.clone()), true), &r, &s.pk, &ek, g)
                })?;
                proofs.push(pr);
            }
        }
        if p.srs.is_some() {
            let base = unblinded::<E>(&p, &m);
            for (a, pr) in proofs.iter().enumerate() {
                blinded(cx, &mut v, &p, &name, a, pr, &base, &ct)?;
            }
        }
        wire::<E, _>(cx, mode, "ciphertext", &ct, &[&[r]])?;
        v.b(format!("{} X_r", name), ct.X_r);
        let mut tot = ct.X_r.into_group();
        let mut any = false;
        for j in 0..n {
            let u = sub(&ct.enc_chunks[j], &mulu(&p.g[j], m[j] as u64));
            tot += u;
            if idx.contains(&j) {
                // c_j itself is the hidden value when the chunk is 0 and one generator away when it
                // is 1: only larger chunks are attacked through sums
                if m[j] >= 2 {
                    v.b(format!("{} c[{}]", name, j), ct.enc_chunks[j]);
                    let u = sub(&u, &mul(&ct.X_r, &coal[j]));
                    v.h("chunk", format!("{} chunk {} ({})", name, j, m[j]), u);
                    any = true;
                } else {
                    v.m(format!("{} c[{}]", name, j), ct.enc_chunks[j]);
                }
            }
        }
        if any {
            // the whole-message test: r·(1+ΣS)·δ
            v.h("message", format!("{} all chunks", name), sub(&tot.into_affine(), &mul(&ct.X_r, &coal.iter().sum())));
            let mut ps = ct.commitment.into_group();
            for j in 0..n {
                ps -= mulu(&ek.Y[j], m[j] as u64).into_group();
            }
            v.h("commitment", format!("{} commitment", name), ps.into_affine());
            v.b(format!("{} commitment", name), ct.commitment);
        }
        encs.push(Enc { ct, r, m: m.iter().map(|x| *x as u32).collect(), proof: proofs.first().cloned(), name });
    }
    // all headers, chunk masks and proofs of the run
    let mut hs = vec![];
    for e in &encs {
        hs.push((&e.ct.X_r, "X_r"));
        if let Some(pr) = &e.proof {
            hs.push((&pr.a, "proof A"));
            hs.push((&pr.c, "proof C"));
        }
    }
    ensure_distinct(cx, "ciphertext", hs)?;
    // within one ciphertext, no two chunks carry the same mask
    for e in &encs {
        let us: Vec<G1<E>> = (0..n).map(|j| sub(&e.ct.enc_chunks[j], &mulu(&p.g[j], e.m[j] as u64))).collect();
        ensure_distinct(cx, "chunk_mask", us.iter().map(|u| (u, "mask")).collect())?;
    }

    // ---------------------------------------------------------------- key switching
    if !dealer_made {
        // (encryption, destination, how often the honest party is asked)
        let jobs = 1 + cx.choose(2);
        for q in 0..jobs {
            let e = &encs[cx.choose(encs.len())];
            let other = cx.chance(1, 3);
            let (pk, sk) = if other { (&opk, &osk) } else { (&dpk, &dsk) };
            let times = 1 + cx.choose(3);
            let mut last: Option<Share<E>> = None;
            let j = *cx.ch.pick(&idx);
            for a in 0..times {
                if a > 0 {
                    cx.fault("share_request_repeated");
                }
                let s: Share<E> = call(cx, "re_encrypt_share", |g| Encryption::<E>::re_encrypt_share(g, &p.gens, &e.ct.X_r, &e.ct.enc_chunks, pk, &sks[honest]))?;
                ensure!(s.0.len() == n, "share:shape", "share has {} elements for {} chunks", s.0.len(), n);
                let nm = format!("share {}.{} of {}", q, a, e.name);
                for jj in 0..n {
                    // the honest party's contribution of the header, and its mask, stay hidden
                    let part = mul(&e.ct.X_r, &sks[honest].s[jj]);
                    cx.check();
                    ensure!(s.0[jj] != neg(&part) && s.0[jj] != part, "share:unmasked", "{} carries element {} without a mask", nm, jj);
                }
                v.b(format!("{} w[{}]", nm, j), s.0[j]);
                v.b(format!("{} g_r", nm), s.1);
                if !other {
                    v.h("share mask", format!("{} mask", nm), add(&s.0[j], &mul(&e.ct.X_r, &sks[honest].s[j])));
                }
                wire::<E, _>(cx, mode, "share", &s.0, &[&sks[honest].s[..]])?;
                last = Some(s);
            }
            // the rest of the coalition: their masks are known to the attacker
            let mut set = vec![last.unwrap()];
            for i in (0..parties).filter(|i| *i != honest) {
                let s: Share<E> = call(cx, "re_encrypt_share", |g| Encryption::<E>::re_encrypt_share(g, &p.gens, &e.ct.X_r, &e.ct.enc_chunks, pk, &sks[i]))?;
                v.b(format!("coalition mask {}.{}", q, i), add(&s.0[j], &mul(&e.ct.X_r, &sks[i].s[j])));
                v.b(format!("coalition g_r {}.{}", q, i), s.1);
                set.push(s);
            }
            let tot = fold_shares::<E>(cx, set)?;
            let (c0, c) = switch::<E>(cx, &p, &e.ct, &tot)?;
            // the switched chunk hides behind the sum of the masks
            let mask = sub(&c[j], &mulu(&p.g[j], e.m[j] as u64));
            cx.check();
            ensure!(!mask.is_zero(), "switch:unmasked", "switched chunk {} of {} is in the clear", j, e.name);
            ensure!(mask == mul(&c0, &sk.0), "switch:mask", "switched chunk {} of {} is not masked for its destination", j, e.name);
            // the published switched ciphertext: does it give away how chunks relate?
            if n >= 2 {
                let i = cx.choose(n);
                let k = (i + 1 + cx.choose(n - 1)) % n;
                let lhs = sub(&c[i], &c[k]);
                let rhs = sub(&mulu(&p.g[i], e.m[i] as u64), &mulu(&p.g[k], e.m[k] as u64));
                cx.check();
                if lhs == rhs {
                    cx.finding(
                        "re_encrypt_share:one_mask_for_all_chunks",
                        format!("a share masks all its chunks with the same point, so after key switching an observer can test any pair of chunks ({} and {} of {})", i, k, e.name),
                    )?;
                }
            }
        }
    }

    attack(cx, &v)?;
    cx.nontrivial |= parties > 1 && !dealer_made;
    cx.log(|| format!("view of {} points, {} hidden", v.basis.len(), v.hidden.len()));
    for (_, x) in v.basis.iter() {
        let mut b = vec![];
        ark_serialize::CanonicalSerialize::serialize_uncompressed(x, &mut b).ok();
        cx.log_bytes(&b);
    }
    cx.sample.insert("curve".into(), E::NAME.into());
    cx.sample.insert("holders_chunks_bits".into(), format!("{} {} {}", parties, n, p.bits));
    Ok(())
}

fn snarked_params<E: Curve>(cx: &mut Cx) -> R<std::sync::Arc<Params<E>>> {
    let bits = if E::REAL { 64 } else { [8u8, 16, 4][cx.ch.weighted(&[3, 4, 1])] };
    let fresh = !E::REAL && cx.chance(1, 8);
    let i = if E::REAL { 0 } else { cx.choose(2) as u64 };
    params::<E>(cx, bits, true, i, fresh)
}

fn trapdoors<E: Curve>(cx: &mut Cx, p: &Params<E>) -> R {
    let s = p.srs.as_ref().unwrap();
    let k = &s.pk.pk;
    let g = p.gens.G;
    // everything as a multiple of G: alpha, beta, delta, gamma (negated), 1
    let l = [("alpha", k.vk.alpha_g1), ("beta", k.beta_g1), ("delta", k.delta_g1), ("gamma", s.pk.gamma_g1), ("1", g)];
    for i in 0..l.len() {
        cx.check();
        ensure!(!l[i].1.is_zero(), "setup:trapdoor", "{} of the set-up is zero", l[i].0);
        for j in 0..i {
            let (a, b) = (l[i].1, l[j].1);
            ensure!(a != b && a != neg(&b), "setup:trapdoor", "{} and {} of the set-up coincide", l[i].0, l[j].0);
        }
    }
    if !E::REAL && cx.chance(1, 8) {
        // another set-up over the same generators shares none of them
        let mut first: Vec<G1<E>> = vec![];
        for _ in 0..2 {
            let gens = p.gens.clone();
            let k = call(cx, "generate_srs", |r| saver_groth16::generate_srs::<E, _, _>(BitsizeCheckCircuit::<F<E>>::new(p.bits, Some(1), None, true), &gens, r))?;
            first.extend([k.pk.vk.alpha_g1, k.pk.beta_g1, k.pk.delta_g1, k.gamma_g1]);
        }
        let l = first.iter().map(|x| (x, "set-up element")).collect();
        ensure_distinct(cx, "setup", l)?;
        let mut l1 = vec![];
        let mut l2 = vec![];
        for _ in 0..3 {
            let g = call(cx, "EncryptionGens::new_using_rng", |r| Ok(dist_saver::setup::EncryptionGens::<E>::new_using_rng(r)))?;
            let c = call(cx, "ChunkedCommitmentGens::new_using_rng", |r| Ok(dist_saver::setup::ChunkedCommitmentGens::<G1<E>>::new_using_rng(r)))?;
            l1.extend([g.G, c.G, c.H]);
            l2.push(g.H);
        }
        let l = l1.iter().map(|x| (x, "generator")).collect();
        ensure_distinct(cx, "generators", l)?;
        ensure_distinct2::<E>(cx, "generators", &l2)?;
    }
    Ok(())
}

/// proof elements for the true witness with no blinding at all
fn unblinded<E: Curve>(p: &Params<E>, m: &[Chunk]) -> Option<(G1<E>, G2<E>)> {
    let pk = &p.srs.as_ref().unwrap().pk.pk;
    let cs = ConstraintSystem::<F<E>>::new_ref();
    cs.set_optimization_goal(OptimizationGoal::Constraints);
    let vals = m.iter().map(|x| F::<E>::from(*x as u64)).collect();
    BitsizeCheckCircuit::new(p.bits, None, Some(vals), true).generate_constraints(cs.clone()).ok()?;
    cs.finalize();
    let z: Vec<F<E>> = {
        let b = cs.borrow()?;
        b.instance_assignment.iter().chain(&b.witness_assignment).cloned().collect()
    };
    if z.len() != pk.a_query.len() || z.len() != pk.b_g2_query.len() {
        return None;
    }
    let mut a = pk.vk.alpha_g1.into_group();
    let mut b = pk.vk.beta_g2.into_group();
    for (i, x) in z.iter().enumerate() {
        if x.is_zero() {
            continue;
        }
        a += pk.a_query[i].mul_bigint(x.into_bigint());
        b += pk.b_g2_query[i].mul_bigint(x.into_bigint());
    }
    Some((a.into_affine(), b.into_affine()))
}

/// the scalars that blind a proof are independent draws: with the generator's words known to the
/// simulator, one blinding is not a function of the other
fn tied<E: Curve>(cx: &mut Cx, p: &Params<E>, m: &[Chunk], r: &F<E>, ek: &EncryptionKey<E>, rng: SimRng) -> R {
    use ark_ff::UniformRand;
    let Some((a0, b0)) = unblinded::<E>(p, m) else { return Ok(()) };
    let s = p.srs.as_ref().unwrap();
    let vals: Vec<F<E>> = m.iter().map(|x| F::<E>::from(*x as u64)).collect();
    let mut g = rng.clone();
    let pr = cx.ok("create_proof", || saver_groth16::create_proof(BitsizeCheckCircuit::new(p.bits, None, Some(vals), true), r, &s.pk, ek, &mut g))?;
    let (da, db) = (sub(&pr.a, &a0), sub(&pr.b, &b0));
    let mut g = rng;
    for _ in 0..4 {
        let t = F::<E>::rand(&mut g);
        let f = [t, t.square(), t.square() * t, t.inverse().unwrap_or_default(), t + F::<E>::from(1u64), t - F::<E>::from(1u64), t.double(), t + r, t * r, *r, r.square(), r.double()];
        let is_a = mul(&p.delta, &t) == da;
        let is_b = mul(&s.vk().delta_g2, &t) == db;
        for x in f {
            for x in [x, -x] {
                cx.check();
                ensure!(!is_a || mul(&s.vk().delta_g2, &x) != db, "proof:blinding_tied", "the blinding of proof element B is a function of that of A or of the randomness of the ciphertext");
                ensure!(!is_b || mul(&p.delta, &x) != da, "proof:blinding_tied", "the blinding of proof element A is a function of that of B or of the randomness of the ciphertext");
            }
        }
    }
    cx.probe("blinding_independence");
    Ok(())
}

/// the blinding of a proof, as a multiple of delta, is fresh and tied to nothing public
#[allow(clippy::too_many_arguments)]
fn blinded<E: Curve>(
    cx: &mut Cx, v: &mut View<E>, p: &Params<E>, name: &str, a: usize, pr: &Proof<E>, base: &Option<(G1<E>, G2<E>)>, ct: &Ciphertext<E>,
) -> R {
    let vk = p.srs.as_ref().unwrap().vk();
    v.b(format!("{} proof {} A", name, a), pr.a);
    v.b(format!("{} proof {} C", name, a), pr.c);
    v.q(format!("{} proof {} B", name, a), pr.b);
    let Some((a0, b0)) = base else { return Ok(()) };
    let da = sub(&pr.a, a0);
    let db = sub(&pr.b, b0);
    cx.check();
    ensure!(!da.is_zero() && !db.is_zero(), "proof:not_blinded", "{}: a proof element is a function of the message", name);
    for k in 1..=8u64 {
        ensure!(da != mulu(&p.delta, k) && da != neg(&mulu(&p.delta, k)), "proof:weak_blinding", "{}: proof blinded by {}", name, k);
        ensure!(db != mulu(&vk.delta_g2, k) && db != neg(&mulu(&vk.delta_g2, k)), "proof:weak_blinding", "{}: proof blinded by {}", name, k);
    }
    ensure!(da != ct.X_r && da != neg(&ct.X_r), "proof:blinding_reused", "{}: proof blinded with the randomness of the ciphertext", name);
    let x = pair::<E>(&p.delta, &db);
    ensure!(x != pair::<E>(&da, &vk.delta_g2) && x != pair::<E>(&neg(&da), &vk.delta_g2), "proof:blinding_reused", "{}: both proof elements share one blinding", name);
    ensure!(x != pair::<E>(&ct.X_r, &vk.delta_g2), "proof:blinding_reused", "{}: proof element B blinded with the randomness of the ciphertext", name);
    v.h("proof", format!("{} proof {}", name, a), da);
    v.g2.push((format!("{} proof {} blinding", name, a), db));
    Ok(())
}

fn ensure_distinct<A: AffineRepr>(cx: &mut Cx, what: &str, l: Vec<(&A, &str)>) -> R {
    let mut seen: HashMap<A, &str> = HashMap::new();
    cx.check();
    for (x, n) in l {
        ensure!(!x.is_zero(), format!("fresh:{}:zero", what), "{} is the identity", n);
        ensure!(!seen.contains_key(x), format!("fresh:{}:repeated", what), "{} repeats {}", n, seen[x]);
        seen.insert(*x, n);
        seen.insert(neg(x), n);
    }
    Ok(())
}
fn ensure_distinct2<E: Curve>(cx: &mut Cx, what: &str, l: &[G2<E>]) -> R {
    ensure_distinct(cx, what, l.iter().map(|x| (x, "element")).collect())
}

/// no published record contains the encoding of a secret scalar
fn wire<E: Curve, T: Obj2>(cx: &mut Cx, _m: Mode, what: &str, t: &T, secrets: &[&[F<E>]]) -> R {
    let m = [ark_serialize::Compress::Yes, ark_serialize::Compress::No][cx.choose(2)];
    let mut b = vec![];
    if t.serialize_with_mode(&mut b, m).is_err() {
        return Ok(());
    }
    cx.check();
    for l in secrets {
        for s in l.iter().take(4) {
            for e in [s.into_bigint().to_bytes_le(), s.into_bigint().to_bytes_be()] {
                if b.len() >= e.len() && b.windows(e.len()).any(|w| w == &e[..]) {
                    return viol(&format!("leak:{}", what), format!("the published {} contains a secret scalar", what));
                }
            }
        }
    }
    Ok(())
}
pub trait Obj2: ark_serialize::CanonicalSerialize {}
impl<T: ark_serialize::CanonicalSerialize> Obj2 for T {}

/// the battery
fn attack<E: Curve>(cx: &mut Cx, v: &View<E>) -> R {
    // scalars: full-sized, and no two equal, opposite, close or small multiples of each other
    let bits = F::<E>::MODULUS_BIT_SIZE;
    let floor = bits - 45;
    let mut seen: HashMap<F<E>, String> = HashMap::new();
    for (n, s) in &v.scalars {
        for t in [*s, -*s] {
            cx.check();
            ensure!(t.into_bigint().num_bits() > floor, "fresh:scalar:small", "{} is a {}-bit number", n, t.into_bigint().num_bits());
        }
        if let Some(o) = seen.get(s) {
            return viol("fresh:scalar:related", format!("{} and {} are trivially related", n, o));
        }
        for k in 1..=4u64 {
            let ks = *s * F::<E>::from(k);
            for t in [ks, -ks] {
                seen.entry(t).or_insert_with(|| n.clone());
            }
        }
        for d in 1..=8u64 {
            seen.entry(*s + F::<E>::from(d)).or_insert_with(|| n.clone());
            seen.entry(*s - F::<E>::from(d)).or_insert_with(|| n.clone());
        }
        if let Some(i) = s.inverse() {
            seen.entry(i).or_insert_with(|| n.clone());
        }
        seen.entry(s.square()).or_insert_with(|| n.clone());
    }
    // no secret is the sum or the product of two others
    let few: Vec<&(String, F<E>)> = {
        let mut o = cx.ch.perm(v.scalars.len());
        o.truncate(if E::REAL { 12 } else { 24 });
        o.into_iter().map(|i| &v.scalars[i]).collect()
    };
    let all: HashMap<F<E>, &str> = v.scalars.iter().flat_map(|(n, s)| [(*s, n.as_str()), (-*s, n.as_str())]).collect();
    for i in 0..few.len() {
        for j in 0..i {
            let (a, b) = (few[i].1, few[j].1);
            for (w, x) in [("sum", a + b), ("difference", a - b), ("product", a * b)] {
                cx.st.checks += 1;
                if let Some(o) = all.get(&x) {
                    return viol("fresh:scalar:related", format!("{} is ± the {} of {} and {}", o, w, few[i].0, few[j].0));
                }
            }
        }
    }
    // points: sums and differences of two public points, as a table of everything an observer can
    // form with small coefficients
    let cap = if E::REAL { 40 } else { 70 };
    let b: Vec<&(String, G1<E>)> = if v.basis.len() > cap {
        // hidden-value neighbours first: keep a random subset
        let mut o = cx.ch.perm(v.basis.len());
        o.truncate(cap);
        o.sort();
        o.into_iter().map(|i| &v.basis[i]).collect()
    } else {
        v.basis.iter().collect()
    };
    let mut single: HashMap<G1<E>, usize> = HashMap::new();
    for (i, (n, x)) in b.iter().enumerate() {
        cx.check();
        ensure!(!x.is_zero(), "observer:trivial_point", "{} is the identity", n);
        if let Some(o) = single.get(x) {
            return viol("observer:repeated_point", format!("{} repeats {}", n, b[*o].0));
        }
        single.insert(*x, i);
        single.insert(neg(x), i);
    }
    let mut names: Vec<(usize, usize, bool)> = vec![];
    let mut pts = vec![];
    for i in 0..b.len() {
        for j in 0..=i {
            let x = b[i].1.into_group();
            pts.push(x + b[j].1);
            names.push((i, j, true));
            if i != j {
                pts.push(x - b[j].1.into_group());
                names.push((i, j, false));
            }
        }
    }
    let aff = <E as ark_ec::pairing::Pairing>::G1::normalize_batch(&pts);
    let mut table: HashMap<G1<E>, (usize, usize, bool)> = HashMap::with_capacity(aff.len());
    for (x, w) in aff.iter().zip(&names) {
        cx.st.checks += 1;
        let say = |w: &(usize, usize, bool)| format!("{} {} {}", b[w.0].0, if w.2 { "+" } else { "-" }, b[w.1].0);
        if let Some(o) = single.get(x) {
            return viol("observer:linear_relation", format!("{} = ±({})", b[*o].0, say(w)));
        }
        table.insert(*x, *w);
    }
    let mut kinds: HashMap<(&str, G1<E>), &str> = HashMap::new();
    for (k, n, x) in &v.hidden {
        cx.check();
        ensure!(!x.is_zero(), format!("observer:{}", k), "the value hiding {} vanishes", n);
        for y in [*x, neg(x)] {
            if let Some(o) = single.get(&y) {
                return viol(&format!("observer:{}", k), format!("the value hiding {} is public: {}", n, b[*o].0));
            }
            if let Some(w) = table.get(&y) {
                return viol(&format!("observer:{}", k), format!("the value hiding {} is ±({} {} {})", n, b[w.0].0, if w.2 { "+" } else { "-" }, b[w.1].0));
            }
        }
        if let Some(o) = kinds.insert((k, *x), n) {
            return viol(&format!("observer:{}", k), format!("{} and {} hide behind the same value", n, o));
        }
    }
    // pairings: e(hidden, A) = e(public, B) for public A, B
    let mut qs: Vec<&(String, G1<E>)> = v.basis.iter().filter(|x| x.0.ends_with("X_r") || x.0.ends_with("g_r")).collect();
    let rest: Vec<&(String, G1<E>)> = v.basis.iter().chain(&v.more).filter(|x| !x.0.ends_with("X_r") && !x.0.ends_with("g_r")).collect();
    for _ in 0..6 {
        qs.push(*cx.ch.pick(&rest));
    }
    qs.truncate(14);
    let g2: Vec<&(String, G2<E>)> = if v.g2.len() > 12 {
        let mut o: Vec<usize> = cx.ch.perm(v.g2.len() - 1).into_iter().map(|i| i + 1).take(11).collect();
        o.insert(0, 0);
        o.into_iter().map(|i| &v.g2[i]).collect()
    } else {
        v.g2.iter().collect()
    };
    let mut pt: HashMap<PairingOutput<E>, (usize, usize)> = HashMap::new();
    for (i, (_, q)) in qs.iter().enumerate() {
        for (j, (_, b)) in g2.iter().enumerate() {
            pt.insert(pair::<E>(q, b), (i, j));
        }
    }
    let hid: Vec<&(&'static str, String, G1<E>)> = {
        let mut o = cx.ch.perm(v.hidden.len());
        o.truncate(8);
        o.into_iter().map(|i| &v.hidden[i]).collect()
    };
    for (k, n, x) in hid {
        let other = cx.choose(g2.len());
        for a in [0, other] {
            cx.check();
            let y = pair::<E>(x, &g2[a].1);
            for z in [y, -y] {
                if let Some((i, j)) = pt.get(&z) {
                    return viol(&format!("observer:{}:pairing", k), format!("e(value hiding {}, {}) = ±e({}, {})", n, g2[a].0, qs[*i].0, g2[*j].0));
                }
            }
        }
    }
    Ok(())
}
