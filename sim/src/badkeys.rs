//! C12: key generations in which contributions of either round were lost, duplicated, stale,
//! equivocated, altered or mixed between sessions, or a party lost its memory between the rounds.
//! Honest encryptions under the outcome verify exactly when the key satisfies the key relations.
use crate::cluster::draw_bits;
use crate::core::*;
use crate::ensure;
use crate::kit::*;
use crate::sys::*;
use ark_ec::AffineRepr;
use ark_ff::{Field, One, UniformRand, Zero};
use dist_saver::encryption::Encryption;
use dist_saver::keygen::*;
use dist_saver::saver_groth16;
use std::sync::Arc;

/// which relations of the key hold: P_1, every Y_j, P_2 (true when there is no SRS to tie it to)
fn relations<E: Curve>(p: &Params<E>, ek: &EncryptionKey<E>) -> (bool, Vec<usize>, bool) {
    let n = ek.X.len();
    let mut acc = pair::<E>(&ek.X_0, &ek.Z[0]);
    let mut bad = vec![];
    for j in 0..n {
        acc += pair::<E>(&ek.X[j], &ek.Z[j + 1]);
        if pair::<E>(&ek.Y[j], &p.gens.H) != pair::<E>(&p.g[j], &ek.Z[j + 1]) {
            bad.push(j);
        }
    }
    let p1 = acc == pair::<E>(&ek.P_1, &p.gens.H);
    let p2 = match &p.srs {
        None => true,
        Some(s) => {
            let mut x = ek.X_0.into_group();
            for y in &ek.X {
                x += y;
            }
            pair::<E>(&ek.P_2, &s.vk().delta_g2) == pair::<E>(&neg(&x.into()), &s.vk().gamma_g2)
        }
    };
    (p1, bad, p2)
}

fn alter<E: Curve>(cx: &mut Cx, p: &Params<E>, q: &mut FEncryptionKeyPartial<E>, other: &FEncryptionKeyPartial<E>) -> String {
    let j = cx.choose(p.n);
    let k = cx.choose(p.n);
    let mut rng = cx.rng();
    let d = match cx.choose(4) {
        0 => p.gens.G,
        1 => p.delta,
        2 => p.g[j],
        _ => G1::<E>::rand(&mut rng),
    };
    match cx.choose(12) {
        0 => {
            q.X[j] = add(&q.X[j], &d);
            format!("X[{}] altered", j)
        }
        1 => {
            q.Y[j] = add(&q.Y[j], &d);
            format!("Y[{}] altered", j)
        }
        2 => {
            q.Z[j] = add(&q.Z[j], &p.gens.H);
            format!("Z[{}] altered", j)
        }
        3 => {
            let n = q.Z.len();
            q.Z[n - 1] = add(&q.Z[n - 1], &p.gens.H);
            "last Z altered".into()
        }
        4 => {
            q.P_2 = add(&q.P_2, &d);
            "P_2 altered".into()
        }
        5 => {
            q.X_0 = add(&q.X_0, &d);
            "X_0 altered".into()
        }
        6 => {
            q.X.swap(j, k);
            format!("X[{}] and X[{}] swapped", j, k)
        }
        7 => {
            q.Y.swap(j, k);
            format!("Y[{}] and Y[{}] swapped", j, k)
        }
        8 => {
            q.Z.swap(j, k + 1);
            format!("Z[{}] and Z[{}] swapped", j, k + 1)
        }
        9 => {
            q.X = other.X.clone();
            "X of another session".into()
        }
        10 => {
            q.Y = other.Y.clone();
            q.Z = other.Z.clone();
            "Y and Z of another session".into()
        }
        _ => {
            // compensated inside one vector
            q.X[j] = add(&q.X[j], &d);
            q.X[k] = sub(&q.X[k], &d);
            format!("X[{}] and X[{}] shifted against each other", j, k)
        }
    }
}

pub fn run<E: Curve>(cx: &mut Cx) -> R {
    let snark = if E::REAL { cx.chance(1, 2) } else { cx.chance(1, 2) };
    let bits = if E::REAL && (snark || cx.chance(1, 2)) { 64 } else if E::REAL { wide_bits::<E>(cx) } else { draw_bits::<E>(cx, snark) };
    let idx = if E::REAL { 0 } else { cx.choose(2) as u64 };
    let p = params::<E>(cx, bits, snark, idx, false)?;
    let n = parties(cx, E::REAL).min(if E::REAL { 3 } else { 5 });

    // two generations over the same parameters; the second provides stale and foreign material
    let mut cur: Vec<(SecretKeyST<E>, FEncryptionKeyPartial<E>)> = vec![];
    for _ in 0..n {
        cur.push(partial::<E>(cx, &p)?);
    }
    let old = joint::<E>(cx, &p, n)?;

    // what each party received in round one: (dealer of the partial, the partial)
    let mut views: Vec<Vec<(usize, FEncryptionKeyPartial<E>)>> = (0..n).map(|_| (0..n).map(|i| (i, cur[i].1.clone())).collect()).collect();
    let mut gammas = vec![p.gamma; n];
    let mut sk1: Vec<SecretKeyST<E>> = cur.iter().map(|c| c.0.clone()).collect();
    let mut what: Vec<String> = vec![];
    // effective multiplicity of each party's secrets in the assembled key, while it is defined
    let faults = [0usize, 1, 1, 1, 2, 3][cx.choose(6)];
    let mut r2: Vec<usize> = (0..n).collect();
    let mut r2_stale: Vec<usize> = vec![];
    let mut r2_alter: Option<G1<E>> = None;
    for _ in 0..faults {
        let i = cx.choose(n);
        let everywhere = cx.chance(1, 2);
        let one = cx.choose(n);
        let each: Vec<usize> = if everywhere { (0..n).collect() } else { vec![one] };
        let scope = if everywhere { "for all".to_string() } else { format!("at party {}", one) };
        match cx.choose(13) {
            0 => {
                if n > 1 {
                    for v in &each {
                        if views[*v].len() > 1 {
                            if let Some(k) = views[*v].iter().position(|x| x.0 == i) {
                                views[*v].remove(k);
                            }
                        }
                    }
                    cx.fault("r1_lost");
                    what.push(format!("partial of {} lost {}", i, scope));
                    if everywhere && cx.chance(1, 2) && r2.len() > 1 {
                        r2.retain(|x| *x != i);
                        what.push(format!("share of {} lost", i));
                    }
                }
            }
            1 => {
                let times = 1 + cx.choose(2);
                for v in &each {
                    for _ in 0..times {
                        let q = cur[i].1.clone();
                        views[*v].push((i, q));
                    }
                }
                cx.fault("r1_duplicated");
                what.push(format!("partial of {} counted {} times {}", i, times + 1, scope));
                if everywhere && cx.chance(1, 2) {
                    for _ in 0..times {
                        r2.push(i);
                    }
                    what.push(format!("share of {} counted {} times", i, times + 1));
                }
            }
            2 => {
                for v in &each {
                    for x in views[*v].iter_mut().filter(|x| x.0 == i) {
                        x.1 = old.parts[i].clone();
                    }
                }
                cx.fault("r1_stale");
                what.push(format!("partial of {} from an earlier session {}", i, scope));
                if everywhere && cx.chance(1, 3) {
                    sk1[i] = old.sks[i].clone();
                    what.push(format!("{} goes on with that session's secret", i));
                }
            }
            3 => {
                let (_, q) = partial::<E>(cx, &p)?;
                for x in views[one].iter_mut().filter(|x| x.0 == i) {
                    x.1 = q.clone();
                }
                cx.fault("r1_equivocated");
                what.push(format!("{} told party {} something else", i, one));
            }
            4 | 5 | 6 => {
                let mut q = cur[i].1.clone();
                let d = alter::<E>(cx, &p, &mut q, &old.parts[i]);
                for v in &each {
                    for x in views[*v].iter_mut().filter(|x| x.0 == i) {
                        x.1 = q.clone();
                    }
                }
                cx.fault("r1_altered");
                what.push(format!("partial of {}: {} {}", i, d, scope));
            }
            7 => {
                let (s, q) = partial::<E>(cx, &p)?;
                // restarted without its secret between the rounds
                sk1[i] = s;
                cx.fault("amnesia");
                if cx.chance(1, 4) {
                    for v in views.iter_mut() {
                        for x in v.iter_mut().filter(|x| x.0 == i) {
                            x.1 = q.clone();
                        }
                    }
                    what.push(format!("{} lost its secret and everyone took its new partial", i));
                } else {
                    what.push(format!("{} lost its secret between the rounds", i));
                }
            }
            8 => {
                if r2.len() > 1 {
                    let k = cx.choose(r2.len());
                    let g = r2.remove(k);
                    cx.fault("r2_lost");
                    what.push(format!("share of {} lost", g));
                }
            }
            9 => {
                r2.push(i);
                cx.fault("r2_duplicated");
                what.push(format!("share of {} counted twice", i));
            }
            10 => {
                if let Some(k) = r2.iter().position(|x| *x == i) {
                    r2.remove(k);
                    r2_stale.push(i);
                    cx.fault("r2_stale");
                    what.push(format!("share of {} from an earlier session", i));
                }
            }
            11 => {
                let mut rng = cx.rng();
                r2_alter = Some(if cx.chance(1, 2) { p.gens.G } else { G1::<E>::rand(&mut rng) });
                cx.fault("r2_altered");
                what.push("a share altered".into());
            }
            _ => {
                for v in &each {
                    gammas[*v] = add(&p.gamma, &p.gens.G);
                }
                cx.fault("wrong_gamma");
                what.push(format!("wrong gamma {}", scope));
            }
        }
    }

    // round two, each party from its own view
    let mut combs = vec![];
    for v in 0..n {
        let ord = cx.ch.perm(views[v].len());
        let list: Vec<_> = ord.iter().map(|i| views[v][*i].1.clone()).collect();
        combs.push(cx.lib("combineEKs", || combineEKs(&gammas[v], &list))?);
    }
    let mut shares = vec![];
    for v in 0..n {
        shares.push(cx.lib("genP1share", || genP1share(&combs[v], &sk1[v]))?);
    }
    let mut list: Vec<P1share<E>> = r2.iter().map(|i| shares[*i].clone()).collect();
    list.extend(r2_stale.iter().map(|i| old.shares[*i].clone()));
    if let Some(d) = r2_alter {
        let k = cx.choose(list.len());
        list[k].P_1 = add(&list[k].P_1, &d);
    }
    let at = cx.choose(n);
    let p1 = cx.lib("combineP1share", || combineP1share(&list))?;
    let ek = cx.lib("keygenFinal", || keygenFinal(&combs[at], &p1))?;

    // round one is assembled as received, whatever was received
    {
        let v = &views[at];
        let x: Vec<G1<E>> = (0..p.n).map(|j| sum(&v.iter().map(|q| q.1.X[j]).collect::<Vec<_>>())).collect();
        let y: Vec<G1<E>> = (0..p.n).map(|j| sum(&v.iter().map(|q| q.1.Y[j]).collect::<Vec<_>>())).collect();
        let z: Vec<G2<E>> = (0..=p.n).map(|j| sum(&v.iter().map(|q| q.1.Z[j]).collect::<Vec<_>>())).collect();
        let p2 = add(&gammas[at], &sum(&v.iter().map(|q| q.1.P_2).collect::<Vec<_>>()));
        let q1 = sum(&list.iter().map(|s| s.P_1).collect::<Vec<_>>());
        cx.check();
        ensure!(ek.X == x && ek.Y == y && ek.Z == z && ek.P_2 == p2 && ek.P_1 == q1, "badkey:masked", "the assembled key is not the sum of what was received, after: {:?}", what);
    }

    let (ok1, bady, ok2) = relations::<E>(&p, &ek);
    let good = ok1 && bady.is_empty();
    let fine = good && ok2;
    cx.log(|| format!("n={} bits={} {:?}: p1={} y={:?} p2={}", n, bits, what, ok1, bady, ok2));
    cx.log_bytes(format!("{:?}", ek).as_bytes());
    if faults == 0 {
        cx.check();
        ensure!(fine, "badkey:honest_inconsistent", "a clean key generation of {} parties violates the key relations (P_1 {}, Y {:?}, P_2 {})", n, ok1, bady, ok2);
        let want = model_joint_key(&p, &sk1);
        if let Some(d) = diff_key(&ek, &want) {
            return viol("joint_key:wrong", format!("component {} of the joint key of {} parties is not what their secrets define", d, n));
        }
    }
    cx.probe(if fine { "key_satisfies_relations" } else { "key_violates_relations" });
    if fine && faults > 0 {
        cx.probe("faulty_run_with_consistent_key");
    }

    // honest encryptions under it: some arbitrary, one aimed at each kind of violation
    let vb = bits.min(if E::REAL { 4 } else { 8 });
    let mut msgs = vec![];
    msgs.push(gen_msg(cx, p.n, vb));
    {
        let mut r = cx.rng();
        use ark_std::rand::RngCore;
        msgs.push((0..p.n).map(|_| (1 + r.next_u32() % max_of(vb)) as Chunk).collect());
    }
    if let Some(j) = bady.first() {
        let mut m = vec![0; p.n];
        m[*j] = 1;
        msgs.push(m);
    }
    if cx.chance(1, 3) {
        msgs.push(vec![0; p.n]);
    }
    let pek = cx.lib("PreparedEncryptionKey::from", || PreparedEncryptionKey::from(ek.clone()))?;
    let mut any = false;
    let mut cts = vec![];
    for (k, m) in msgs.iter().enumerate() {
        let c = encrypt::<E>(cx, &p, &ek, m)?;
        let lc = if cx.chance(1, 2) {
            verdict(cx, "verify_commitment", || c.ct.verify_commitment(ek.clone(), p.gens.clone()))?
        } else {
            verdict(cx, "verify_commitment(prepared)", || c.ct.verify_commitment(pek.clone(), p.pgens.clone()))?
        };
        cx.check();
        let spec = spec_commitment::<E>(&c.ct.X_r, &c.ct.enc_chunks, &c.ct.commitment, &ek, &p.gens.H);
        ensure!(lc == spec, "badkey:verdict", "an encryption under the key {} commitment verification, but the equation says {}, after: {:?}", if lc { "passes" } else { "fails" }, spec, what);
        ensure!(!good || lc, "badkey:good_key_refused", "an encryption under a key satisfying P_1 and Y relations fails commitment verification after: {:?}", what);
        ensure!(ok1 || !lc, "badkey:bad_key_passes", "an encryption under a key whose P_1 is wrong passes commitment verification after: {:?}", what);
        let mut passes = lc;
        if let Some(s) = &p.srs {
            if k < 2 {
                let pr = prove::<E>(cx, &p, &ek, &c)?;
                let lp = verdict(cx, "verify_proof", || saver_groth16::verify_proof(&s.pvk, &pr, &c.ct))?;
                cx.check();
                ensure!(lp == ok2, if lp { "badkey:bad_key_passes" } else { "badkey:good_key_refused" }, "an honest proof under the key verifies: {}, although its P_2 relation holds: {}, after: {:?}", lp, ok2, what);
                let both = verdict(cx, "verify_commitment_and_proof", || c.ct.verify_commitment_and_proof(&pr, &s.pvk, pek.clone(), p.gens.clone()))?;
                ensure!(both == (lc && lp), "badkey:combined", "combined verification says {} but its parts {} and {}, after: {:?}", both, lc, lp, what);
                passes &= lp;
            }
        }
        let w = [F::<E>::one()];
        let bt = verdict(cx, "verify_commitments_in_batch", || Encryption::<E>::verify_commitments_in_batch(std::slice::from_ref(&c.ct), &w, pek.clone(), p.gens.clone()))?;
        ensure!(bt == lc, "badkey:batch", "batch verification says {} for an encryption that verifies {}, after: {:?}", bt, lc, what);
        any |= !passes;
        cts.push(c);
    }
    cx.check();
    // (a proof only accompanies the first two messages, both with P_2 relation checked exactly)
    ensure!(fine || any, "badkey:undetected", "the key violates its relations (P_1 {}, Y {:?}, P_2 {}) but every honest encryption verifies, after: {:?}", ok1, bady, ok2, what);
    ensure!(!fine || !any, "badkey:good_key_refused", "the key satisfies its relations but an honest encryption is refused, after: {:?}", what);

    // the parties notice and repeat the second round: with everyone's proper material the very same
    // calls now give the proper key, and the spoilt one keeps its verdict
    if cx.chance(1, 2) {
        let own: Vec<_> = cur.iter().map(|c| c.1.clone()).collect();
        let comb = cx.lib("combineEKs", || combineEKs(&p.gamma, &own))?;
        let mut sh = vec![];
        for c in &cur {
            sh.push(cx.lib("genP1share", || genP1share(&comb, &c.0))?);
        }
        // the proper shares may first be tried on the spoilt first round, and the other way round
        let proper = cx.lib("combineP1share", || combineP1share(&sh))?;
        let mixed = [(&combs[at], &proper), (&comb, &p1)][cx.choose(2)];
        let ekm = cx.lib("keygenFinal", || keygenFinal(mixed.0, mixed.1))?;
        let clean = cx.lib("keygenFinal", || keygenFinal(&comb, &proper))?;
        let sks: Vec<SecretKeyST<E>> = cur.iter().map(|c| c.0.clone()).collect();
        cx.fault("generation_repeated");
        cx.check();
        if let Some(d) = diff_key(&clean, &model_joint_key(&p, &sks)) {
            return viol("badkey:not_recovered", format!("component {} of the key is still wrong after the round was repeated with proper material; before: {:?}", d, what));
        }
        let keys = [&ek, &clean, &ekm];
        for k in [0usize, 1, 2, 0] {
            // an encryption under one of them, judged with each of them
            let by = cx.choose(3);
            let c = encrypt::<E>(cx, &p, keys[by], &msgs[1])?;
            let q = cx.lib("PreparedEncryptionKey::from", || PreparedEncryptionKey::from(keys[k].clone()))?;
            let lc = if cx.chance(1, 2) {
                verdict(cx, "verify_commitment", || c.ct.verify_commitment(keys[k].clone(), p.gens.clone()))?
            } else {
                verdict(cx, "verify_commitment(prepared)", || c.ct.verify_commitment(q, p.pgens.clone()))?
            };
            let spec = spec_commitment::<E>(&c.ct.X_r, &c.ct.enc_chunks, &c.ct.commitment, keys[k], &p.gens.H);
            cx.check();
            ensure!(lc == spec, "badkey:verdict", "an encryption {} commitment verification but the equation says {}, with keys of a spoilt and a repeated generation side by side, after: {:?}", if lc { "passes" } else { "fails" }, spec, what);
        }
    }

    // a key that satisfies the relations opens with the secrets that are in it
    if fine {
        let mult: Vec<u64> = (0..n).map(|i| views[at].iter().filter(|q| q.0 == i).count() as u64).collect();
        let s: Vec<F<E>> = (0..p.n).map(|j| (0..n).map(|i| sk1[i].s[j] * F::<E>::from(mult[i])).sum()).collect();
        if (0..p.n).all(|j| ek.X[j] == mul(&ek.X_0, &s[j])) {
            let (dsk, dpk) = dest::<E>(cx, &p)?;
            let c = &cts[0];
            let mut v = vec![];
            for i in 0..n {
                for _ in 0..mult[i] {
                    v.push(share::<E>(cx, &p, &c.ct, &dpk, &sk1[i])?);
                }
            }
            let w = fold_shares::<E>(cx, v)?;
            let (a, b) = switch::<E>(cx, &p, &c.ct, &w)?;
            let m = cx.ok("decrypt_to_chunks_after_re_encryption", || {
                Encryption::<E>::decrypt_to_chunks_after_re_encryption(&a, &b, &dsk, &p.g, vb)
            })?;
            cx.check();
            ensure!(m == c.m, "badkey:wrong_plaintext", "{:?} decrypts as {:?} under a consistent key", &c.m[..c.m.len().min(8)], &m[..m.len().min(8)]);
            cx.probe("opened");
        }
    }
    let _ = (Arc::strong_count(&p), F::<E>::zero().double());
    Ok(())
}
