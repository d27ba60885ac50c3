//! C04, second scenario: an aggregator that adds ciphertexts in a seeded shape (any tree, repeated
//! operands, doubling, restarts from stored intermediate sums), and an authority or a destination
//! that opens the sums, at and beyond the edge of the stated chunk size.
use crate::codec::*;
use crate::core::*;
use crate::ensure;
use crate::honest::*;
use crate::kit::*;
use crate::sys::*;
use ark_ec::{AffineRepr, CurveGroup};
use dist_saver::encryption::{Ciphertext, Encryption};
use dist_saver::keygen::*;

struct Node<E: Curve> {
    v: Vec<G1<E>>,
    sum: Vec<u64>,
    depth: usize,
}
impl<E: Curve> Clone for Node<E> {
    fn clone(&self) -> Self {
        Node { v: self.v.clone(), sum: self.sum.clone(), depth: self.depth }
    }
}

pub fn run<E: Curve>(cx: &mut Cx) -> R {
    let bits = if E::REAL { [4u8, 8, 64, 2, 3, 1][cx.ch.weighted(&[2, 3, 1, 2, 1, 1])] } else { [8u8, 4, 16, 1, 2, 3, 5, 6, 7, 12, 31][cx.ch.weighted(&[6, 6, 3, 1, 1, 1, 1, 1, 1, 1, 1])] };
    let with_srs = !E::REAL && [4, 8, 16].contains(&bits) && cx.chance(1, 3);
    let p = if with_srs { params::<E>(cx, bits, true, 0, false)? } else { params::<E>(cx, bits, false, 0, false)? };
    let n = p.n;
    let authority = cx.chance(1, 2);
    let (d, j) = if authority {
        (Some(dealer::<E>(cx, &p)?), None)
    } else {
        let np = parties(cx, E::REAL);
        (None, Some(joint::<E>(cx, &p, np)?))
    };
    let ek = d.as_ref().map(|d| d.ek.clone()).unwrap_or_else(|| j.as_ref().unwrap().ek.clone());
    let pek = PreparedEncryptionKey::from(ek.clone());
    // the size the reader states
    let sb = if bits <= 8 { bits } else { [8u8, 6, 10, 16][cx.ch.weighted(&[4, 4, 1, 1])].min(if E::REAL { 8 } else { bits.min(16) }) };
    let max = max_of(sb) as u64;

    let k = 2 + cx.choose(if E::REAL { 2 } else { 5 });
    let edge = cx.choose(n);
    let over = cx.choose(4);
    let mut pool: Vec<Node<E>> = vec![];
    let mut left = max + if over == 3 { 1 } else { 0 };
    for i in 0..k {
        let mut m: Vec<Chunk> = if cx.chance(1, 3) {
            gen_msg(cx, n, (sb / 2).max(1))
        } else {
            let cap = max / k as u64;
            (0..n).map(|_| 0).collect::<Vec<Chunk>>().into_iter().map(|_| cx.rng_small(cap)).collect()
        };
        // one chunk whose sum over all the messages is exactly the largest value, or one more
        let x = if i + 1 == k { left } else { cx.choose(left.min(300) as usize + 1) as u64 };
        m[edge] = x.min(max) as Chunk;
        left -= m[edge] as u64;
        let c = encrypt::<E>(cx, &p, &ek, &m)?;
        pool.push(Node { v: to_vec(&c.ct), sum: m.iter().map(|x| *x as u64).collect(), depth: 0 });
    }
    let base = pool.clone();
    let mut steps = vec![];
    // the plain total in a random order, then free-form sums
    let ord = cx.ch.perm(k);
    let all: Vec<Node<E>> = ord.iter().map(|i| base[*i].clone()).collect();
    let total = crate::cluster::tree_fold(cx, all, |cx, a, b| addn::<E>(cx, a, b))?;
    steps.push(total.clone());
    let extra = if E::REAL { 1 } else { 1 + cx.choose(4) };
    for _ in 0..extra {
        let a = pool[cx.choose(pool.len())].clone();
        let b = match cx.choose(4) {
            0 => {
                cx.fault("ciphertext_delivered_twice");
                a.clone()
            }
            1 => total.clone(),
            _ => pool[cx.choose(pool.len())].clone(),
        };
        let mut s = addn::<E>(cx, &a, &b)?;
        let t = cx.lib("add_cts", || Encryption::<E>::add_cts(&b.v, &a.v))?;
        cx.check();
        ensure!(t.as_ref().ok() == Some(&s.v), "sum:order", "a + b and b + a differ");
        if cx.chance(1, 3) {
            cx.fault("aggregator_crash_and_restart");
            let md = mode(cx);
            s.v = to_vec(&ship(cx, md, &to_ct::<E>(&s.v))?);
        }
        steps.push(s.clone());
        pool.push(s);
        if cx.chance(1, 6) {
            // doubling: repeated delivery of everything so far
            let mut s = pool[cx.choose(pool.len())].clone();
            for _ in 0..1 + cx.choose(3) {
                let o = s.clone();
                s = addn::<E>(cx, &s, &o)?;
            }
            cx.fault("ciphertext_delivered_twice");
            steps.push(s);
        }
    }
    if !E::REAL && cx.chance(1, 80) {
        // hundreds of operands, one after the other
        let mut s = base[0].clone();
        let k = 256 + cx.choose(20);
        for _ in 0..k {
            let o = base[cx.choose(base.len())].clone();
            s = addn::<E>(cx, &s, &o)?;
        }
        cx.probe("hundreds_of_operands");
        steps.push(s);
    }
    let table = if let (Some(d), true) = (&d, sb <= 8 && !(E::REAL && sb > 5)) {
        Some(cx.ok("pairing_powers", || d.dk.pairing_powers(sb, &p.g))?)
    } else {
        None
    };
    let pdk = d.as_ref().map(|d| PreparedDecryptionKey::from(d.dk.clone()));
    let last = if E::REAL { 1 } else { 3 };
    for (i, s) in steps.iter().enumerate() {
        if i > 0 && i + last < steps.len() && !cx.chance(1, 3) {
            continue;
        }
        let ct: Ciphertext<E> = to_ct(&s.v);
        // commitment of the sum
        cx.check();
        let ok = match cx.choose(3) {
            0 => verdict(cx, "verify_commitment", || ct.verify_commitment(ek.clone(), p.gens.clone()))?,
            1 => verdict(cx, "verify_commitment(prepared)", || ct.verify_commitment(pek.clone(), p.pgens.clone()))?,
            _ => verdict(cx, "verify_commitments_in_batch", || {
                Encryption::<E>::verify_commitments_in_batch(&[ct.clone(), to_ct::<E>(&base[0].v)], &[F::<E>::from(3u64), F::<E>::from(1_000_003u64)], pek.clone(), p.gens.clone())
            })?,
        };
        ensure!(ok, "sum:commitment_refused", "the commitment of a sum of {} levels does not verify", s.depth);
        let fits = s.sum.iter().all(|x| *x <= max);
        let want: Vec<u32> = s.sum.iter().map(|x| (*x).min(u32::MAX as u64) as u32).collect();
        if !fits {
            cx.probe("sum_does_not_fit");
        }
        if s.sum.iter().any(|x| *x == max) {
            cx.probe("sum_at_the_edge");
        }
        if let Some(d) = &d {
            let nu = mul(&ct.X_r, &d.sk.0);
            let mut ps = paths(&p, sb);
            if E::REAL || sb > 8 {
                ps = vec![*cx.ch.pick(&ps)];
            } else {
                // table-free refusals search the whole range
                let keep = 1 + cx.choose(3);
                let o = cx.ch.perm(ps.len());
                ps = o.into_iter().take(keep).map(|i| ps[i]).collect();
            }
            for path in ps {
                if uses_table(path) && table.is_none() {
                    continue;
                }
                let none: Vec<Vec<ark_ec::pairing::PairingOutput<E>>> = vec![];
                let (name, r) = dec_path::<E>(cx, path, &p, &ct, &d.sk, &d.dk, pdk.as_ref().unwrap(), sb, table.as_ref().unwrap_or(&none))?;
                cx.check();
                match r {
                    None => ensure!(!fits, "sum:refused", "{} refuses the sum {:?} ({} bits)", name, crate::cluster::short(&want), sb),
                    Some((v, f, got)) => {
                        ensure!(fits, "sum:overflow_answered", "{} answers {:?} for the sum {:?}, which does not fit {} bits", name, v, crate::cluster::short(&want), sb);
                        ensure!(v.as_ref().map_or(true, |v| *v == want), "sum:wrong", "{} returns {:?} for the sum {:?}", name, v, crate::cluster::short(&want));
                        ensure!(f.map_or(true, |f| f == compose_ref::<E>(&want, sb)), "sum:wrong", "{} returns another message for the sum {:?}", name, crate::cluster::short(&want));
                        ensure!(got == nu, "sum:nu", "{} returns a wrong commitment to the randomness of a sum", name);
                    }
                }
            }
        }
        if let Some(j) = &j {
            let (dsk, dpk) = dest::<E>(cx, &p)?;
            let mut sh = vec![];
            for i in cx.ch.perm(j.sks.len()) {
                sh.push(share::<E>(cx, &p, &ct, &dpk, &j.sks[i])?);
            }
            // destinations may also receive the sum of the switched parts
            let w = fold_shares::<E>(cx, sh)?;
            let (c0, c) = switch::<E>(cx, &p, &ct, &w)?;
            let r = cx.lib("decrypt_to_chunks_after_re_encryption", || Encryption::<E>::decrypt_to_chunks_after_re_encryption(&c0, &c, &dsk, &p.g, sb))?;
            cx.check();
            match r {
                Err(_) => ensure!(!fits, "sum:refused", "the destination cannot open the sum {:?} ({} bits)", crate::cluster::short(&want), sb),
                Ok(v) => {
                    ensure!(fits, "sum:overflow_answered", "the destination reads {:?} for the sum {:?}, which does not fit {} bits", v, crate::cluster::short(&want), sb);
                    ensure!(v.iter().map(|x| *x as u32).collect::<Vec<_>>() == want, "sum:wrong", "the destination reads {:?} for the sum {:?}", v, crate::cluster::short(&want));
                }
            }
        }
        for x in &s.v {
            let mut b = vec![];
            ark_serialize::CanonicalSerialize::serialize_uncompressed(x, &mut b).ok();
            cx.log_bytes(&b);
        }
        cx.log(|| format!("sum fits={}", fits));
    }
    cx.nontrivial = true;
    cx.sample.insert("curve".into(), E::NAME.into());
    cx.sample.insert("chunks_bits_messages".into(), format!("{} {} {}", n, bits, k));
    Ok(())
}

fn addn<E: Curve>(cx: &mut Cx, a: &Node<E>, b: &Node<E>) -> R<Node<E>> {
    let v = cx.ok("add_cts", || Encryption::<E>::add_cts(&a.v, &b.v))?;
    cx.check();
    let want: Vec<G1<E>> = a.v.iter().zip(&b.v).map(|(x, y)| (x.into_group() + y).into_affine()).collect();
    ensure!(v == want, "sum:elements", "a sum is not the element-wise sum of its operands");
    Ok(Node { v, sum: a.sum.iter().zip(&b.sum).map(|(x, y)| x + y).collect(), depth: a.depth.max(b.depth) + 1 })
}
