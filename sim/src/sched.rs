//! C11: the same inputs and randomness give the same results under every pool schedule and worker
//! count, whatever was called before, between, or on another worker.
use crate::cluster::draw_bits;
use crate::core::*;
use crate::ensure;
use crate::kit::*;
use crate::sys::*;
use ark_ec::AffineRepr;
use ark_ff::{Field, One, UniformRand};
use dist_saver::circuit::BitsizeCheckCircuit;
use dist_saver::commitment::ChunkedCommitment;
use dist_saver::encryption::Encryption;
use dist_saver::keygen::*;
use dist_saver::saver_groth16;
use dist_saver::setup::{ChunkedCommitmentGens, EncryptionGens, PreparedEncryptionGens};
use dist_saver::utils::{self, WindowTable};
use rayon_core::sim;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Arc;

/// name, operation, call, what it must return if that is known without the library
type Job = (String, &'static str, Box<dyn Fn() -> u64 + Send + Sync>, Option<u64>);

fn digest<T: std::fmt::Debug>(t: T) -> u64 {
    hstr(&format!("{:?}", t))
}
/// errors are compared as "an error"
fn dres<T: std::fmt::Debug, Er>(t: Result<T, Er>) -> u64 {
    match t {
        Ok(t) => digest(t),
        Err(_) => 0xE44,
    }
}

/// Everything one session calls, as closures over fixed inputs and fixed randomness.
fn session<E: Curve>(cx: &mut Cx, tag: usize, snark: bool) -> R<Vec<Job>> {
    // keys of up to 255 chunks: the pool splits their loops into many unequal parts
    let wide = E::REAL && !snark && cx.chance(1, 2);
    let bits = if wide { [2u8, 1, 3, 4, 8][cx.choose(5)] } else if E::REAL { 64 } else { draw_bits::<E>(cx, snark) };
    let p = params::<E>(cx, bits, snark, tag as u64 % 2, false)?;
    let n = if wide { 1 + cx.choose(2) } else { 1 + cx.choose(4) };
    let j = Arc::new(joint::<E>(cx, &p, n)?);
    let d = Arc::new(dealer::<E>(cx, &p)?);
    let (dsk, dpk) = dest::<E>(cx, &p)?;
    let vb = bits.min(if E::REAL { 4 } else { 6 });
    let m = gen_msg(cx, p.n, vb);
    let a = Arc::new(encrypt::<E>(cx, &p, &j.ek, &m)?);
    let b = Arc::new(encrypt::<E>(cx, &p, &d.ek, &m)?);
    let sh = {
        let mut v = vec![];
        for i in 0..n {
            v.push(share::<E>(cx, &p, &a.ct, &dpk, &j.sks[i])?);
        }
        v
    };
    let folded = fold_shares::<E>(cx, sh.clone())?;
    let (s0, s1) = switch::<E>(cx, &p, &a.ct, &folded)?;
    let tb = bits.min(if E::REAL { 3 } else { 5 });
    let tabs = Arc::new(cx.ok("pairing_powers", || d.dk.pairing_powers(tb, &p.g))?);
    let mut bad = a.ct.clone();
    {
        let i = cx.choose(p.n);
        bad.enc_chunks[i] = add(&bad.enc_chunks[i], &p.gens.G);
    }
    let k = 1 + cx.choose(12);
    let list: Vec<_> = (0..k).map(|i| if i % 3 == 2 && cx.chance(1, 6) { bad.clone() } else { a.ct.clone() }).collect();
    let weights: Vec<F<E>> = {
        let mut r = cx.rng();
        (0..k).map(|_| F::<E>::rand(&mut r)).collect()
    };
    let field = F::<E>::rand(&mut cx.rng());
    let seed = h64(&[cx.seed, 0x11, tag as u64]);
    let mut jobs: Vec<Job> = vec![];
    macro_rules! job {
        ($name:expr, [$($c:ident),*], $body:expr) => {{
            $(let $c = $c.clone();)*
            let s = h64(&[seed, hstr($name), jobs.len() as u64]);
            #[allow(unused_variables, unused_mut)]
            let f = move || { let mut rng = SimRng::new(s); ($body)(&mut rng) };
            jobs.push((format!("session {} {}", tag, $name), $name, Box::new(f), None));
        }};
    }
    job!("keygen", [p], |rng: &mut SimRng| dres(keygen(rng, p.bits, &p.gens, &p.g, &p.delta, &p.gamma).map(|(a, b, c)| (a.0, b, c))));
    job!("FkeygenPartial", [p], |rng: &mut SimRng| dres(FkeygenPartial(rng, p.bits, &p.gens, &p.g, &p.delta, &p.gamma)));
    job!("Fkeygen_dest", [p], |rng: &mut SimRng| dres(Fkeygen_dest::<_, E>(rng, &p.gens).map(|(a, b)| (a.0, b))));
    job!("combineEKs", [p, j], |_: &mut SimRng| digest(combineEKs(&p.gamma, &j.parts)));
    job!("genP1share", [j], |_: &mut SimRng| digest(j.sks.iter().map(|s| genP1share(&j.comb, s)).collect::<Vec<_>>()));
    job!("combineP1share", [j], |_: &mut SimRng| digest(combineP1share(&j.shares)));
    job!("keygenFinal", [j], |_: &mut SimRng| digest(keygenFinal(&j.comb, &combineP1share(&j.shares))));
    job!("PreparedEncryptionKey::from", [j], |_: &mut SimRng| digest(PreparedEncryptionKey::from(j.ek.clone())));
    job!("PreparedDecryptionKey::from", [d], |_: &mut SimRng| digest(PreparedDecryptionKey::from(d.dk.clone())));
    job!("encrypt_decomposed_message", [p, j, a], |rng: &mut SimRng| dres(Encryption::<E>::encrypt_decomposed_message(rng, a.m.clone(), &j.ek, &p.g)));
    job!("encrypt_decomposed_message(dealer)", [p, d, a], |rng: &mut SimRng| dres(Encryption::<E>::encrypt_decomposed_message(rng, a.m.clone(), &d.ek, &p.g)));
    job!("encrypt", [p, j], |rng: &mut SimRng| dres(Encryption::<E>::encrypt(rng, &field, &j.ek, &p.g, p.bits)));
    job!("verify_commitment", [p, j, a], |_: &mut SimRng| a.ct.verify_commitment(j.ek.clone(), p.gens.clone()).is_ok() as u64);
    job!("verify_commitment(tampered)", [p, j, bad], |_: &mut SimRng| bad.verify_commitment(j.ek.clone(), p.gens.clone()).is_ok() as u64);
    job!("verify_commitment(other key)", [p, d, a], |_: &mut SimRng| a.ct.verify_commitment(d.ek.clone(), p.pgens.clone()).is_ok() as u64);
    job!("verify_commitments_in_batch", [p, j, list, weights], |_: &mut SimRng| Encryption::<E>::verify_commitments_in_batch(&list, &weights, j.ek.clone(), p.gens.clone()).is_ok() as u64);
    job!("batch g1", [list, weights], |_: &mut SimRng| digest(Encryption::<E>::get_g1_for_ciphertext_commitments_in_batch_pairing_checks(&list, &weights)));
    job!("decrypt_to_chunks", [p, d, b], |_: &mut SimRng| dres(Encryption::<E>::decrypt_to_chunks(&b.ct.X_r, &b.ct.enc_chunks, &d.sk, d.dk.clone(), &p.g, p.bits.min(10))));
    job!("decrypt_to_chunks(wrong key)", [p, d, a], |_: &mut SimRng| dres(Encryption::<E>::decrypt_to_chunks(&a.ct.X_r, &a.ct.enc_chunks, &d.sk, d.dk.clone(), &p.g, tb)));
    job!("decrypt_to_chunks_given_pairing_powers", [p, d, b, tabs], |_: &mut SimRng| dres(Encryption::<E>::decrypt_to_chunks_given_pairing_powers(&b.ct.X_r, &b.ct.enc_chunks, &d.sk, d.dk.clone(), &p.g, tb, Some(&tabs))));
    job!("pairing_powers", [p, d], |_: &mut SimRng| dres(d.dk.pairing_powers(tb, &p.g)));
    job!("re_encrypt_share", [p, j, a, dpk], |rng: &mut SimRng| dres(Encryption::<E>::re_encrypt_share(rng, &p.gens, &a.ct.X_r, &a.ct.enc_chunks, &dpk, &j.sks[0])));
    job!("combine_re_encrypt_share", [sh], |_: &mut SimRng| dres(Encryption::<E>::combine_re_encrypt_share(&sh[0].1, &sh[n - 1].1, &sh[0].0, &sh[n - 1].0)));
    job!("combine_ct_with_w", [p, a, folded], |_: &mut SimRng| dres(Encryption::<E>::combine_ct_with_w(&p.gens, &a.ct.enc_chunks, &folded.1, &folded.0)));
    job!("decrypt_to_chunks_after_re_encryption", [p, s0, s1, dsk], |_: &mut SimRng| dres(Encryption::<E>::decrypt_to_chunks_after_re_encryption(&s0, &s1, &dsk, &p.g, p.bits.min(10))));
    job!("add_cts", [a, b], |_: &mut SimRng| dres(Encryption::<E>::add_cts(&to_vec(&a.ct), &to_vec(&b.ct))));
    job!("EncryptionGens::new", [], |_: &mut SimRng| digest(EncryptionGens::<E>::new::<blake2::Blake2b512>(&[tag as u8, 7])));
    job!("EncryptionGens::new_using_rng", [], |rng: &mut SimRng| digest(EncryptionGens::<E>::new_using_rng(rng)));
    job!("ChunkedCommitmentGens::new", [], |_: &mut SimRng| digest(ChunkedCommitmentGens::<G1<E>>::new::<blake2::Blake2b512>(&[tag as u8])));
    let cb = *cx.ch.pick(&[8u8, 16, 4]);
    job!("ChunkedCommitment::new", [], |rng: &mut SimRng| {
        let g = ChunkedCommitmentGens::<G1<E>>::new_using_rng(rng);
        dres(ChunkedCommitment::new(&field, &F::<E>::from(5u64), cb, &g))
    });
    job!("commitment_key", [], |rng: &mut SimRng| digest(ChunkedCommitment::<G1<E>>::commitment_key(&ChunkedCommitmentGens::<G1<E>>::new_using_rng(rng), cb)));
    job!("WindowTable", [p], |rng: &mut SimRng| {
        use ark_ec::AffineRepr;
        let x: Vec<F<E>> = (0..5).map(|_| F::<E>::rand(rng)).collect();
        let t = WindowTable::<E::G1>::new(k, p.gens.G.into_group());
        let y = t.multiply_many(&x);
        let one: Vec<E::G1> = x.iter().map(|e| t.multiply(e)).collect();
        // one at a time, together or without a table
        let same = y == one && y == utils::multiply_field_elems_with_same_group_elem(p.gens.G.into_group(), &x) && y.iter().zip(&x).all(|(y, e)| *y == p.gens.G * *e);
        if same { 1 } else { 0 }
    });
    jobs.last_mut().unwrap().3 = Some(1);
    job!("decompose", [], |_: &mut SimRng| dres(utils::decompose(&field, cb).map(|v| { let c: F<E> = utils::compose(&v, cb).unwrap_or(F::<E>::one().double()); (v, c) })));
    if let Some(s) = &p.srs {
        let proof = prove::<E>(cx, &p, &j.ek, &a)?;
        let _ = s;
        let vals: Vec<F<E>> = a.m.iter().map(|x| F::<E>::from(*x as u64)).collect();
        job!("create_proof", [p, j, a, vals], |rng: &mut SimRng| {
            let c = BitsizeCheckCircuit::new(p.bits, None, Some(vals.clone()), true);
            dres(saver_groth16::create_proof(c, &a.r, &p.srs.as_ref().unwrap().pk, &j.ek, rng))
        });
        job!("verify_proof", [p, a, proof], |_: &mut SimRng| saver_groth16::verify_proof(&p.srs.as_ref().unwrap().pvk, &proof, &a.ct).is_ok() as u64);
        job!("verify_proof(tampered)", [p, bad, proof], |_: &mut SimRng| saver_groth16::verify_proof(&p.srs.as_ref().unwrap().pvk, &proof, &bad).is_ok() as u64);
        job!("verify_commitment_and_proof", [p, j, a, proof], |_: &mut SimRng| a.ct.verify_commitment_and_proof(&proof, &p.srs.as_ref().unwrap().pvk, j.ek.clone(), p.gens.clone()).is_ok() as u64);
        let mut proof2 = proof.clone();
        let mut pvk2 = s.pvk.clone();
        match cx.choose(3) {
            0 => proof2.a = p.gens.G,
            1 => proof2.b = p.gens.H,
            _ => proof2.c = p.gens.G,
        }
        match cx.choose(3) {
            0 => pvk2.alpha_g1_beta_g2 = E::pairing(p.gens.G, p.gens.H).0,
            1 => pvk2.delta_g2_neg_pc = E::G2Prepared::from(p.gens.H),
            _ => pvk2.gamma_g2_neg_pc = E::G2Prepared::from(p.gens.H),
        }
        let pvk2 = Arc::new(pvk2);
        job!("verify_proof(twin proof)", [p, a, proof2], |_: &mut SimRng| saver_groth16::verify_proof(&p.srs.as_ref().unwrap().pvk, &proof2, &a.ct).is_ok() as u64);
        jobs.last_mut().unwrap().3 = Some(0);
        job!("verify_proof(twin verifying key)", [pvk2, a, proof], |_: &mut SimRng| saver_groth16::verify_proof(&pvk2, &proof, &a.ct).is_ok() as u64);
        jobs.last_mut().unwrap().3 = Some(0);
        job!("verify_proof(own)", [p, a, proof], |_: &mut SimRng| saver_groth16::verify_proof(&p.srs.as_ref().unwrap().pvk, &proof, &a.ct).is_ok() as u64);
        jobs.last_mut().unwrap().3 = Some(1);
        job!("calculate_d", [p, a], |_: &mut SimRng| dres(saver_groth16::calculate_d(&p.srs.as_ref().unwrap().pvk, &a.ct)));
        if matches!(p.bits, 4 | 8 | 16) {
            job!("encrypt_with_proof", [p, j], |rng: &mut SimRng| dres(Encryption::<E>::encrypt_with_proof(rng, &field, &j.ek, &p.srs.as_ref().unwrap().pk, p.bits)));
        }
        if !E::REAL && cx.chance(1, 4) {
            job!("generate_srs", [p], |rng: &mut SimRng| dres(saver_groth16::generate_srs::<E, _, _>(BitsizeCheckCircuit::new(p.bits, None, None, true), &p.gens, rng)));
        }
    }
    // inputs that differ from the session's own in one component only: what a careless cache, keyed on
    // part of the input, would confuse
    let tw = cx.choose(4);
    let mut gens2 = p.gens.clone();
    match tw {
        0 => gens2.H = (p.gens.H * F::<E>::from(7u64)).into(),
        1 => gens2.G = (p.gens.G * F::<E>::from(7u64)).into(),
        2 => gens2.H = (-p.gens.H.into_group()).into(),
        _ => gens2 = EncryptionGens { G: p.gens.G, H: d.ek.Z[0] },
    }
    let at = cx.choose(p.n);
    let mut ek2 = j.ek.clone();
    match cx.choose(8) {
        0 => ek2.X_0 = p.gens.G,
        1 => ek2.X[at] = d.ek.X[at],
        2 => ek2.Y[at] = d.ek.Y[at],
        3 => ek2.Z[at + 1] = d.ek.Z[at + 1],
        4 => ek2.Z[0] = d.ek.Z[0],
        5 => ek2.P_1 = d.ek.P_1,
        6 => ek2.P_2 = d.ek.P_2,
        _ => ek2.Y = d.ek.Y.clone(),
    }
    let ek2 = Arc::new(ek2);
    let mut dk2 = d.dk.clone();
    match cx.choose(4) {
        0 => dk2.V_0 = p.gens.H,
        1 => dk2.V_1[at] = p.gens.H,
        2 => dk2.V_2[at] = p.gens.H,
        _ => dk2.V_2.reverse(),
    }
    let dk2 = Arc::new(dk2);
    let mut g2 = p.g.clone();
    g2[at] = p.gens.G;
    let g2 = Arc::new(g2);
    let mut comb2 = j.comb.clone();
    match cx.choose(3) {
        0 => comb2.X[at] = d.ek.X[at],
        1 => comb2.Z[at] = d.ek.Z[at],
        _ => comb2.Y[at] = d.ek.Y[at],
    }
    let comb2 = Arc::new(comb2);
    let mut ct2 = a.ct.clone();
    match cx.choose(3) {
        0 => ct2.X_r = b.ct.X_r,
        1 => ct2.enc_chunks[at] = b.ct.enc_chunks[at],
        _ => ct2.commitment = b.ct.commitment,
    }
    let ct2 = Arc::new(ct2);
    let (_, dpk2) = dest::<E>(cx, &p)?;
    let mut sk2 = j.sks[0].clone();
    sk2.s[at] += F::<E>::one();
    let sk2 = Arc::new(sk2);
    let w2: Vec<F<E>> = weights.iter().rev().cloned().collect();
    // the twins come in pairs, and what they must say is known independently
    macro_rules! spec {
        ($ct:expr, $ek:expr, $gens:expr) => {
            spec_commitment::<E>(&$ct.X_r, &$ct.enc_chunks, &$ct.commitment, &$ek, &$gens.H) as u64
        };
    }
    macro_rules! expect {
        ($e:expr) => {
            let e = $e;
            jobs.last_mut().unwrap().3 = Some(e);
        };
    }
    job!("verify_commitment(twin gens)", [p, j, a, gens2], |_: &mut SimRng| a.ct.verify_commitment(j.ek.clone(), gens2.clone()).is_ok() as u64);
    expect!(spec!(a.ct, j.ek, gens2));
    job!("verify_commitment(own gens)", [p, j, a], |_: &mut SimRng| a.ct.verify_commitment(j.ek.clone(), p.gens.clone()).is_ok() as u64);
    expect!(1);
    job!("verify_commitment(twin key)", [p, ek2, a], |_: &mut SimRng| a.ct.verify_commitment((*ek2).clone(), p.gens.clone()).is_ok() as u64);
    expect!(spec!(a.ct, *ek2, p.gens));
    job!("verify_commitment(twin ciphertext)", [p, j, ct2], |_: &mut SimRng| ct2.verify_commitment(j.ek.clone(), p.gens.clone()).is_ok() as u64);
    expect!(spec!(ct2, j.ek, p.gens));
    job!("PreparedEncryptionGens::from(twin)", [gens2], |_: &mut SimRng| digest(PreparedEncryptionGens::from(gens2.clone())));
    expect!(digest(PreparedEncryptionGens::<E> { G: E::G1Prepared::from(gens2.G), H: E::G2Prepared::from(gens2.H) }));
    job!("PreparedEncryptionGens::from", [p], |_: &mut SimRng| digest(PreparedEncryptionGens::from(p.gens.clone())));
    expect!(digest(PreparedEncryptionGens::<E> { G: E::G1Prepared::from(p.gens.G), H: E::G2Prepared::from(p.gens.H) }));
    job!("PreparedEncryptionKey::from(twin)", [ek2], |_: &mut SimRng| digest(PreparedEncryptionKey::from((*ek2).clone())));
    job!("PreparedDecryptionKey::from(twin)", [dk2], |_: &mut SimRng| digest(PreparedDecryptionKey::from((*dk2).clone())));
    job!("pairing_powers(twin key)", [p, dk2], |_: &mut SimRng| dres(dk2.pairing_powers(tb, &p.g)));
    job!("pairing_powers(twin generators)", [d, g2], |_: &mut SimRng| dres(d.dk.pairing_powers(tb, &g2)));
    job!("pairing_powers(other size)", [p, d], |_: &mut SimRng| dres(d.dk.pairing_powers(tb.max(2) - 1, &p.g)));
    job!("decrypt_to_chunks(twin generators)", [d, g2, b], |_: &mut SimRng| dres(Encryption::<E>::decrypt_to_chunks(&b.ct.X_r, &b.ct.enc_chunks, &d.sk, d.dk.clone(), &g2, tb)));
    job!("decrypt_to_chunks(own, small)", [p, d, b], |_: &mut SimRng| dres(Encryption::<E>::decrypt_to_chunks(&b.ct.X_r, &b.ct.enc_chunks, &d.sk, d.dk.clone(), &p.g, tb)));
    job!("genP1share(twin)", [j, comb2], |_: &mut SimRng| digest(genP1share(&comb2, &j.sks[0])));
    job!("genP1share(twin secret)", [j, sk2], |_: &mut SimRng| digest(genP1share(&j.comb, &sk2)));
    job!("re_encrypt_share(twin destination)", [p, j, a, dpk2], |rng: &mut SimRng| dres(Encryption::<E>::re_encrypt_share(rng, &p.gens, &a.ct.X_r, &a.ct.enc_chunks, &dpk2, &j.sks[0])));
    job!("re_encrypt_share(twin secret)", [p, a, dpk, sk2], |rng: &mut SimRng| dres(Encryption::<E>::re_encrypt_share(rng, &p.gens, &a.ct.X_r, &a.ct.enc_chunks, &dpk, &sk2)));
    job!("re_encrypt_share(twin ciphertext)", [p, j, ct2, dpk], |rng: &mut SimRng| dres(Encryption::<E>::re_encrypt_share(rng, &p.gens, &ct2.X_r, &ct2.enc_chunks, &dpk, &j.sks[0])));
    job!("add_cts(twin)", [a, ct2], |_: &mut SimRng| dres(Encryption::<E>::add_cts(&to_vec(&a.ct), &to_vec(&ct2))));
    job!("verify_commitments_in_batch(twin weights)", [p, j, list, w2], |_: &mut SimRng| Encryption::<E>::verify_commitments_in_batch(&list, &w2, j.ek.clone(), p.gens.clone()).is_ok() as u64);
    job!("batch g1(twin weights)", [list, w2], |_: &mut SimRng| digest(Encryption::<E>::get_g1_for_ciphertext_commitments_in_batch_pairing_checks(&list, &w2)));
    job!("encrypt_decomposed_message(twin key)", [p, ek2, a], |rng: &mut SimRng| dres(Encryption::<E>::encrypt_decomposed_message(rng, a.m.clone(), &ek2, &p.g)));
    job!("encrypt_decomposed_message(twin generators)", [j, g2, a], |rng: &mut SimRng| dres(Encryption::<E>::encrypt_decomposed_message(rng, a.m.clone(), &j.ek, &g2)));
    for (nm, lab) in [("EncryptionGens::new(twin label)", [tag as u8, 8]), ("EncryptionGens::new(twin label 2)", [tag as u8 + 1, 7])] {
        job!(nm, [], |_: &mut SimRng| digest(EncryptionGens::<E>::new::<blake2::Blake2b512>(&lab)));
    }
    job!("ChunkedCommitmentGens::new(G2)", [], |_: &mut SimRng| digest(ChunkedCommitmentGens::<G2<E>>::new::<blake2::Blake2b512>(&[tag as u8])));
    let cg = ChunkedCommitmentGens::<G1<E>> { G: p.gens.G, H: p.delta };
    let cg2 = ChunkedCommitmentGens::<G1<E>> { G: p.gens.G, H: p.gamma };
    for (nm, g, bb) in [("commitment_key(a)", &cg, 8u8), ("commitment_key(other H)", &cg2, 8), ("commitment_key(other size)", &cg, 16)] {
        let g = g.clone();
        job!(nm, [g], |_: &mut SimRng| digest(ChunkedCommitment::<G1<E>>::commitment_key(&g, bb)));
    }
    let small = p.bits.min(7);
    let mut dsk2 = dsk.clone();
    dsk2.0 += F::<E>::one();
    let s02 = add(&s0, &p.gens.G);
    let mut s12 = s1.clone();
    s12[at] = add(&s12[at], &p.g[at]);
    job!("decrypt_to_chunks_after_re_encryption(own)", [p, s0, s1, dsk], |_: &mut SimRng| dres(Encryption::<E>::decrypt_to_chunks_after_re_encryption(&s0, &s1, &dsk, &p.g, small)));
    job!("decrypt_to_chunks_after_re_encryption(twin generators)", [g2, s0, s1, dsk], |_: &mut SimRng| dres(Encryption::<E>::decrypt_to_chunks_after_re_encryption(&s0, &s1, &dsk, &g2, small)));
    job!("decrypt_to_chunks_after_re_encryption(twin chunk)", [p, s0, s12, dsk], |_: &mut SimRng| dres(Encryption::<E>::decrypt_to_chunks_after_re_encryption(&s0, &s12, &dsk, &p.g, small)));
    job!("decrypt_to_chunks_after_re_encryption(twin header)", [p, s02, s1, dsk], |_: &mut SimRng| dres(Encryption::<E>::decrypt_to_chunks_after_re_encryption(&s02, &s1, &dsk, &p.g, small)));
    job!("decrypt_to_chunks_after_re_encryption(twin secret)", [p, s0, s1, dsk2], |_: &mut SimRng| dres(Encryption::<E>::decrypt_to_chunks_after_re_encryption(&s0, &s1, &dsk2, &p.g, small)));
    job!("decrypt_to_chunks_after_re_encryption(other size)", [p, s0, s1, dsk], |_: &mut SimRng| dres(Encryption::<E>::decrypt_to_chunks_after_re_encryption(&s0, &s1, &dsk, &p.g, small.max(2) - 1)));
    let mut tabs2 = (*tabs).clone();
    tabs2[at].rotate_left(1);
    let tabs2 = Arc::new(tabs2);
    job!("decrypt_to_chunks_given_pairing_powers(twin tables)", [p, d, b, tabs2], |_: &mut SimRng| dres(Encryption::<E>::decrypt_to_chunks_given_pairing_powers(&b.ct.X_r, &b.ct.enc_chunks, &d.sk, d.dk.clone(), &p.g, tb, Some(&tabs2))));
    job!("decrypt_to_chunks(twin decryption key)", [p, d, b, dk2], |_: &mut SimRng| dres(Encryption::<E>::decrypt_to_chunks(&b.ct.X_r, &b.ct.enc_chunks, &d.sk, (*dk2).clone(), &p.g, tb)));
    let mut b2 = b.ct.clone();
    b2.enc_chunks[at] = add(&b2.enc_chunks[at], &p.g[at]);
    job!("decrypt_to_chunks(twin ciphertext)", [p, d, b2], |_: &mut SimRng| dres(Encryption::<E>::decrypt_to_chunks(&b2.X_r, &b2.enc_chunks, &d.sk, d.dk.clone(), &p.g, tb)));
    let mut parts2 = j.parts.clone();
    {
        let k = cx.choose(parts2.len());
        let g1 = p.gens.G;
        match cx.choose(4) {
            0 => parts2[k].X[at] = g1,
            1 => parts2[k].Y[at] = g1,
            2 => parts2[k].Z[at] = p.gens.H,
            _ => parts2[k].P_2 = g1,
        }
    }
    let parts2 = Arc::new(parts2);
    job!("combineEKs(twin)", [p, parts2], |_: &mut SimRng| digest(combineEKs(&p.gamma, &parts2)));
    job!("combineEKs(twin gamma)", [p, j], |_: &mut SimRng| digest(combineEKs(&p.delta, &j.parts)));
    job!("combineEKs(own)", [p, j], |_: &mut SimRng| digest(combineEKs(&p.gamma, &j.parts)));
    let mut shares2 = j.shares.clone();
    {
        let k = cx.choose(shares2.len());
        shares2[k].P_1 = p.gens.G;
    }
    let shares2 = Arc::new(shares2);
    job!("combineP1share(twin)", [shares2], |_: &mut SimRng| digest(combineP1share(&shares2)));
    job!("keygenFinal(own)", [j], |_: &mut SimRng| digest(keygenFinal(&j.comb, &combineP1share(&j.shares))));
    job!("keygenFinal(twin)", [j, comb2], |_: &mut SimRng| digest(keygenFinal(&comb2, &combineP1share(&j.shares))));
    job!("keygenFinal(twin share)", [j, shares2], |_: &mut SimRng| digest(keygenFinal(&j.comb, &shares2[0])));
    let mut wt = sh[n - 1].0.clone();
    wt[at] = p.gens.G;
    job!("combine_re_encrypt_share(twin)", [sh, wt], |_: &mut SimRng| dres(Encryption::<E>::combine_re_encrypt_share(&sh[0].1, &sh[n - 1].1, &sh[0].0, &wt)));
    job!("combine_re_encrypt_share(twin header)", [sh, p], |_: &mut SimRng| dres(Encryption::<E>::combine_re_encrypt_share(&sh[0].1, &p.gens.G, &sh[0].0, &sh[n - 1].0)));
    job!("combine_ct_with_w(twin)", [p, ct2, folded], |_: &mut SimRng| dres(Encryption::<E>::combine_ct_with_w(&p.gens, &ct2.enc_chunks, &folded.1, &folded.0)));
    job!("combine_ct_with_w(twin share)", [p, a, wt, folded], |_: &mut SimRng| dres(Encryption::<E>::combine_ct_with_w(&p.gens, &a.ct.enc_chunks, &folded.1, &wt)));
    let g3 = gens2.clone();
    let gam2 = add(&p.gamma, &p.gens.G);
    // the same randomness, one public input changed
    for (nm, k) in [("keygen(own)", 0usize), ("keygen(twin gens)", 1), ("keygen(twin generators)", 2), ("keygen(twin delta)", 3), ("keygen(twin gamma)", 4)] {
        let s = h64(&[seed, 0x6E]);
        let (p, g2, g3) = (p.clone(), g2.clone(), g3.clone());
        let f = move |joint: bool| {
            let mut rng = SimRng::new(s);
            let gens = if k == 1 { &g3 } else { &p.gens };
            let g = if k == 2 { &g2[..] } else { &p.g[..] };
            let de = if k == 3 { &gam2 } else { &p.delta };
            let ga = if k == 4 { &gam2 } else { &p.gamma };
            if joint {
                dres(FkeygenPartial(&mut rng, p.bits, gens, g, de, ga))
            } else {
                dres(keygen(&mut rng, p.bits, gens, g, de, ga).map(|(a, b, c)| (a.0, b, c)))
            }
        };
        let joint = cx.chance(1, 2);
        let op = if joint { "FkeygenPartial" } else { "keygen" };
        jobs.push((format!("session {} {} {}", tag, op, nm), op, Box::new(move || f(joint)), None));
    }
    for (nm, x) in [("encrypt(own)", F::<E>::from(0u64)), ("encrypt(twin message)", F::<E>::one())] {
        let s = h64(&[seed, 0x6F]);
        let (p, j) = (p.clone(), j.clone());
        jobs.push((
            format!("session {} {}", tag, nm),
            "encrypt",
            Box::new(move || dres(Encryption::<E>::encrypt(&mut SimRng::new(s), &(field + x), &j.ek, &p.g, p.bits))),
            None,
        ));
    }
    // the crate's own fork-join: results in their places, everything done exactly once, on any number of workers
    let jn = 1 + cx.choose(6);
    job!("join!", [p, a], |_: &mut SimRng| {
        use dist_saver::join;
        let c = AtomicU64::new(0);
        let x = |i: u64| {
            c.fetch_add(1 << (8 * i), Ordering::SeqCst);
            // some of them work, and fork themselves
            match i % 3 {
                0 => digest(p.gens.G * F::<E>::from(i + 2)),
                1 => {
                    let (u, v) = join!(p.g[0] * F::<E>::from(i + 2), digest(&a.ct.commitment));
                    h64(&[digest(u), v])
                }
                _ => i,
            }
        };
        let y = |i: u64| match i % 3 {
            0 => digest(p.gens.G * F::<E>::from(i + 2)),
            1 => h64(&[digest(p.g[0] * F::<E>::from(i + 2)), digest(&a.ct.commitment)]),
            _ => i,
        };
        let got: Vec<u64> = match jn {
            1 => vec![join!(x(0))],
            2 => { let t = join!(x(0), x(1)); vec![t.0, t.1] }
            3 => { let t = join!(x(0), x(1), x(2)); vec![t.0, t.1, t.2] }
            4 => { let t = join!(x(0), x(1), x(2), x(3)); vec![t.0, t.1, t.2, t.3] }
            5 => { let t = join!(x(0), x(1), x(2), x(3), x(4)); vec![t.0, t.1, t.2, t.3, t.4] }
            _ => { let t = join!(x(0), x(1), x(2), x(3), x(4), x(5)); vec![t.0, t.1, t.2, t.3, t.4, t.5] }
        };
        let once = (0..jn).map(|i| 1u64 << (8 * i)).sum::<u64>() == c.load(Ordering::SeqCst);
        (once && got == (0..jn as u64).map(y).collect::<Vec<_>>()) as u64
    });
    expect!(1);
    for (nm, bb) in [("decompose(4)", 4u8), ("decompose(16)", 16)] {
        job!(nm, [], |_: &mut SimRng| dres(utils::decompose(&field, bb)));
    }
    Ok(jobs)
}

fn schedule(cx: &mut Cx) -> (sim::Policy, u64, usize, u64) {
    let pol = [sim::Policy::Random, sim::Policy::Reversed, sim::Policy::Sequential][cx.ch.weighted(&[6, 2, 1])];
    let seed = h64(&[cx.seed, 0x5C4ED, cx.choose(1 << 16) as u64]);
    let threads = [2usize, 1, 3, 4, 5, 7, 8, 16, 33, 64, 256][cx.choose(11)];
    let foreign = if cx.chance(1, 3) { 1 + cx.choose(6) as u64 } else { 0 };
    (pol, seed, threads, foreign)
}

pub fn run<E: Curve>(cx: &mut Cx) -> R {
    let sessions = if E::REAL { 1 + cx.choose(2) } else { 1 + cx.choose(3) };
    let snark = cx.chance(1, if E::REAL { 4 } else { 4 });
    let outer = sim::save();
    sim::install(sim::Policy::Sequential, 0, 1);
    let mut jobs: Vec<Job> = vec![];
    for t in 0..sessions {
        let js = session::<E>(cx, t, snark && t == 0)?;
        // the operations this run looks at
        let keep = if E::REAL { 6 + cx.choose(14) } else { 8 + cx.choose(66) };
        for (i, x) in js.into_iter().enumerate() {
            if i < 2 || cx.ch.choose(110) < keep {
                jobs.push(x);
            }
        }
    }
    // what each call returns alone, in order, on one worker
    let mut want = vec![];
    for (name, op, f, known) in &jobs {
        // on a thread that has called nothing before
        let w = cx.lib(op, || std::thread::scope(|s| s.spawn(|| f()).join()).unwrap_or_else(|e| std::panic::resume_unwind(e)))?;
        if let Some(k) = known {
            cx.check();
            ensure!(*k == w, format!("schedule:{}", op), "{} gives another result after other calls than its inputs define", name);
        }
        want.push(w);
    }
    for round in 0..(if E::REAL { 1 } else { 2 }) {
        let mut plan = cx.ch.perm(jobs.len());
        if cx.chance(1, 2) {
            // repeated calls
            for _ in 0..cx.choose(6) {
                let x = cx.choose(jobs.len());
                let at = cx.choose(plan.len() + 1);
                plan.insert(at, x);
            }
            cx.fault("call_repeated");
        }
        if sessions > 1 {
            cx.fault("sessions_interleaved");
        }
        let mut i = 0;
        while i < plan.len() {
            let (pol, seed, threads, foreign) = schedule(cx);
            sim::install(pol, seed, threads);
            sim::allow_foreign(foreign);
            let together = i + 1 < plan.len() && cx.chance(1, 4);
            let x = plan[i];
            let got = if together {
                // two sessions' calls as two tasks of one pool
                let y = plan[i + 1];
                let (fx, fy) = (&jobs[x].2, &jobs[y].2);
                let (a, b) = cx.lib(jobs[x].1, || rayon_core::join(fx, fy))?;
                cx.fault("calls_in_one_pool");
                vec![(x, a), (y, b)]
            } else {
                vec![(x, cx.lib(jobs[x].1, &jobs[x].2)?)]
            };
            let c = sim::uninstall();
            cx.st.rayon_joins += c.joins;
            cx.st.rayon_swapped += c.swapped;
            if c.swapped > 0 {
                cx.fault("tasks_out_of_order");
            }
            if c.foreign > 0 {
                cx.fault("task_on_other_thread");
            }
            i += got.len();
            for (k, v) in got {
                cx.check();
                cx.log(|| format!("round {} {} {:?}/{} -> {:x} [{:x}]", round, jobs[k].0, pol, threads, v, c.hash));
                ensure!(v == want[k], format!("schedule:{}", jobs[k].1), "{} gives another result under {:?} with {} workers after other calls", jobs[k].0, pol, threads);
            }
        }
    }
    sim::restore(outer);
    Ok(())
}
