//! C03: a switched ciphertext opens exactly when every party's matching share is in it once, and
//! only for its destination. The fault is in how the board collects shares.
use crate::cluster::draw_bits;
use crate::core::*;
use crate::ensure;
use crate::kit::*;
use crate::sys::*;
use ark_ff::{Field, One, PrimeField, UniformRand, Zero};
use dist_saver::encryption::{Ciphertext, Encryption};
use dist_saver::keygen::*;

fn opens<E: Curve>(cx: &mut Cx, c0: &G1<E>, c: &[G1<E>], sk: &SecretKey<F<E>>, g: &[G1<E>], bits: u8) -> R<Option<Vec<u32>>> {
    let v = cx.lib("decrypt_to_chunks_after_re_encryption", || {
        Encryption::<E>::decrypt_to_chunks_after_re_encryption(c0, c, sk, g, bits)
    })?;
    Ok(v.ok().map(|v| v.into_iter().map(|x| x as u32).collect()))
}

/// nobody holding one of `keys` recovers a chunk (in `which`) of the switched ciphertext
#[allow(clippy::too_many_arguments)]
fn closed<E: Curve>(
    cx: &mut Cx, what: &str, p: &Params<E>, c0: &G1<E>, c: &[G1<E>], keys: &[(&str, F<E>)], which: &[usize], m: &[u32], bits: u8,
) -> R {
    let max = max_of(bits);
    for (who, k) in keys {
        let sk = SecretKey(*k);
        // one library decryption over the whole vector, the model on every chunk
        if !which.is_empty() {
            cx.check();
            if let Some(v) = opens::<E>(cx, c0, c, &sk, &p.g, bits)? {
                return viol(&format!("share_misuse:{}:opened", what), format!("{} decrypts to {:?} (message {:?})", who, &v[..v.len().min(6)], &m[..m.len().min(6)]));
            }
        }
        for &j in which {
            cx.check();
            let v = model_open::<E>(k, c0, &c[j]);
            if let Some(x) = small_multiple::<E>(&p.g[j], &v, max) {
                return viol(&format!("share_misuse:{}:chunk", what), format!("{} recovers chunk {} as {} (message {})", who, j, x, m[j]));
            }
        }
        if !which.is_empty() {
            let j = which[cx.choose(which.len())];
            cx.check();
            if let Some(v) = opens::<E>(cx, c0, &c[j..j + 1], &sk, &p.g[j..j + 1], bits)? {
                return viol(&format!("share_misuse:{}:chunk", what), format!("{} decrypts chunk {} to {:?} (message {})", who, j, v, m[j]));
            }
        }
    }
    Ok(())
}

const FAULTS: [&str; 16] = [
    "complete", "omitted", "duplicated", "other_ciphertext", "other_session", "half_mixed_retry", "other_destination",
    "wrong_destination_key", "omitted_and_duplicated", "one_chunk_missing", "made_for_single_used_for_sum", "made_for_sum_used_for_single",
    "no_share", "swapped_chunks", "stale_key_generation", "header_not_switched",
];

pub fn run<E: Curve>(cx: &mut Cx) -> R {
    let bits = {
        let b = draw_bits::<E>(cx, false);
        if !E::REAL && cx.chance(1, 2) { 8 } else { b }
    };
    let p = params::<E>(cx, bits, false, 0, false)?;
    let n = parties(cx, E::REAL);
    let a = joint::<E>(cx, &p, n)?;
    // another session over the same parameters, same number of holders
    let b = joint::<E>(cx, &p, n)?;
    let (dsk, dpk) = dest::<E>(cx, &p)?;
    let (osk, opk) = dest::<E>(cx, &p)?;
    let vb = bits.min(if E::REAL { 4 } else { 8 });
    let m1 = gen_msg(cx, p.n, vb);
    let m2 = gen_msg(cx, p.n, vb);
    let c1 = encrypt::<E>(cx, &p, &a.ek, &m1)?;
    let c2 = encrypt::<E>(cx, &p, &a.ek, &m2)?;
    let sumv = cx.ok("add_cts", || Encryption::<E>::add_cts(&to_vec(&c1.ct), &to_vec(&c2.ct)))?;
    let csum: Ciphertext<E> = to_ct(&sumv);
    let use_sum = cx.chance(1, 4);
    let (target, msg): (Ciphertext<E>, Vec<u32>) = if use_sum {
        (csum.clone(), m1.iter().zip(&m2).map(|(x, y)| *x as u32 + *y as u32).collect())
    } else {
        (c1.ct.clone(), m1.iter().map(|x| *x as u32).collect())
    };
    let dbits = if use_sum { (vb + 1).min(16) } else { vb };
    let all: Vec<usize> = (0..p.n).collect();

    let mut good: Vec<Share<E>> = vec![];
    for i in 0..n {
        let s = share::<E>(cx, &p, &target, &dpk, &a.sks[i])?;
        // each share is mask − s_j·c_0 with the same mask behind g_r
        let mask = mul(&s.1, &dsk.0);
        for j in 0..p.n {
            cx.check();
            ensure!(s.0[j] == sub(&mask, &mul(&target.X_r, &a.sks[i].s[j])), "share:wrong", "share of party {} is wrong at chunk {}", i, j);
        }
        good.push(s);
    }

    let kinds = 2 + cx.choose(3);
    for k in 0..kinds {
        let f = if k == 0 { 0 } else { cx.choose(FAULTS.len()) };
        let name = FAULTS[f];
        if f != 0 {
            cx.fault(&format!("share_{}", name));
        }
        let x = cx.choose(n);
        let mut set = good.clone();
        let mut ct = target.clone();
        let mut which = all.clone();
        let mut msg = msg.clone();
        let mut keys = vec![("the destination", dsk.0)];
        let mut header = None;
        match f {
            0 => {}
            1 => {
                if n == 1 {
                    continue;
                }
                let drop = 1 + cx.choose(n - 1);
                for _ in 0..drop {
                    let i = cx.choose(set.len());
                    set.remove(i);
                }
            }
            2 => {
                let s = set[x].clone();
                let at = cx.choose(n + 1);
                set.insert(at, s);
            }
            3 => {
                let other = if use_sum { &c1.ct } else { &c2.ct };
                set[x] = share::<E>(cx, &p, other, &dpk, &a.sks[x])?;
            }
            4 => set[x] = share::<E>(cx, &p, &target, &dpk, &b.sks[x])?,
            5 => {
                let again = share::<E>(cx, &p, &target, &dpk, &a.sks[x])?;
                cx.check();
                ensure!(again.1 != set[x].1 && again.0 != set[x].0, "share:mask_reused", "party {} answers a repeated request with the same mask", x);
                if cx.chance(1, 2) {
                    set[x].0 = again.0;
                } else {
                    set[x].1 = again.1;
                }
            }
            6 => set[x] = share::<E>(cx, &p, &target, &opk, &a.sks[x])?,
            7 => keys = vec![("another destination", osk.0)],
            8 => {
                if n == 1 {
                    continue;
                }
                let y = (x + 1 + cx.choose(n - 1)) % n;
                set[x] = set[y].clone();
            }
            9 => {
                let j = cx.choose(p.n);
                set[x].0[j] = <G1<E>>::default();
                which = vec![j];
            }
            10 => {
                if use_sum {
                    continue;
                }
                ct = csum.clone();
                msg = m1.iter().zip(&m2).map(|(x, y)| *x as u32 + *y as u32).collect();
            }
            11 => {
                for i in 0..n {
                    set[i] = share::<E>(cx, &p, &csum, &dpk, &a.sks[i])?;
                }
                ct = c1.ct.clone();
                if use_sum {
                    msg = m1.iter().map(|x| *x as u32).collect();
                }
            }
            12 => set.clear(),
            13 => {
                if p.n < 2 {
                    continue;
                }
                let i = cx.choose(p.n);
                let j = (i + 1 + cx.choose(p.n - 1)) % p.n;
                set[x].0.swap(i, j);
                which = vec![i, j];
            }
            14 => {
                // a party that lost its secret generates another one and answers with it
                let (sk, _) = partial::<E>(cx, &p)?;
                set[x] = share::<E>(cx, &p, &target, &dpk, &sk)?;
            }
            _ => header = Some(ct.X_r),
        }
        let ord = cx.ch.perm(set.len());
        let list: Vec<Share<E>> = ord.iter().map(|i| set[*i].clone()).collect();
        let (mut c0, c) = if list.is_empty() {
            (ct.X_r, ct.enc_chunks.clone())
        } else {
            let s = fold_shares::<E>(cx, list)?;
            switch::<E>(cx, &p, &ct, &s)?
        };
        if let Some(h) = header {
            c0 = h;
        }
        cx.log(|| format!("{} n={} bits={} {:x}", name, n, bits, hbytes(format!("{:?}{:?}", c0, c).as_bytes())));
        if f == 0 {
            cx.check();
            match opens::<E>(cx, &c0, &c, &dsk, &p.g, dbits)? {
                Some(v) => ensure!(v == msg, "share:complete_wrong", "complete share set of {} parties decrypts to {:?}, message {:?}", n, &v[..v.len().min(6)], &msg[..msg.len().min(6)]),
                None => return viol("share:complete_refused", format!("complete share set of {} parties does not decrypt", n)),
            }
            // nobody else
            let mut keys = vec![("an observer", F::<E>::zero()), ("another destination", osk.0), ("the number one", F::<E>::one())];
            let j = cx.choose(p.n);
            let i = cx.choose(n);
            keys.push(("one holder", a.sks[i].s[j]));
            keys.push(("one holder's other secret", a.sks[i].t[j]));
            for (who, k) in keys {
                closed::<E>(cx, "complete", &p, &c0, &c, &[(who, k)], &all, &msg, dbits)?;
            }
            // the unswitched ciphertext is closed for the destination as well
            closed::<E>(cx, "unswitched", &p, &ct.X_r, &ct.enc_chunks, &[("the destination", dsk.0)], &all, &msg, dbits)?;
        } else {
            let mut keys = keys;
            if cx.chance(1, 3) {
                keys.push(("an observer", F::<E>::zero()));
            }
            if f == 6 && n > 1 {
                keys.push(("the other destination", osk.0));
            }
            if f == 9 || f == 13 {
                // the remaining chunks are unaffected
                for j in (0..p.n).filter(|j| !which.contains(j)) {
                    cx.check();
                    let v = model_open::<E>(&dsk.0, &c0, &c[j]);
                    ensure!(v == mulu(&p.g[j], msg[j] as u64), "share:chunk_cross_talk", "fault in chunks {:?} changes chunk {}", which, j);
                }
            }
            closed::<E>(cx, name, &p, &c0, &c, &keys, &which, &msg, dbits)?;
        }
    }
    // incomplete coalition: all holders but one cannot open the original ciphertext
    if n > 1 {
        let x = cx.choose(n);
        for j in 0..p.n.min(4) {
            let s: F<E> = (0..n).filter(|i| *i != x).map(|i| a.sks[i].s[j]).sum();
            cx.check();
            let v = model_open::<E>(&s, &target.X_r, &target.enc_chunks[j]);
            ensure!(small_multiple::<E>(&p.g[j], &v, max_of(dbits)).is_none(), "share:coalition", "{} of {} holders open chunk {}", n - 1, n, j);
        }
        cx.fault("coalition_without_one");
    }
    // linear mistakes: twice everything, weighted by small factors
    if cx.chance(1, 4) {
        let mut s = fold_shares::<E>(cx, good.clone())?;
        let f = F::<E>::from(2u64 + cx.choose(5) as u64);
        let f = if cx.chance(1, 2) { f } else { f.inverse().unwrap() };
        s.0 = s.0.iter().map(|w| mul(w, &f)).collect();
        s.1 = mul(&s.1, &f);
        let (c0, c) = switch::<E>(cx, &p, &target, &s)?;
        cx.fault("share_scaled");
        closed::<E>(cx, "scaled", &p, &c0, &c, &[("the destination", dsk.0)], &all, &msg, dbits)?;
    }
    cx.sample.insert("curve".into(), E::NAME.into());
    cx.sample.insert("holders_chunks_bits".into(), format!("{} {} {}", n, p.n, bits));
    let _ = F::<E>::rand(&mut cx.rng()).into_bigint();
    Ok(())
}
