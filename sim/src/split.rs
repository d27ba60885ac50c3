//! C14: splitter nodes cut messages into chunks, a lossy network carries every chunk as a packet of
//! its own, joiner nodes recompose what they hold; several sessions with other chunk sizes and fields
//! share the nodes' threads. Every split is compared with integer arithmetic.
use crate::codec::*;
use crate::core::*;
use crate::ensure;
use crate::sys::*;
use ark_ec::pairing::Pairing;
use ark_ff::{BigInteger, Field, PrimeField, UniformRand};
use dist_saver::utils;
use rayon_core::sim;

/// chunks of a big-endian bit string, by integer arithmetic
fn model_chunks<P: PrimeField>(m: &P, bits: u8) -> Vec<Chunk> {
    let b = m.into_bigint().to_bits_be();
    assert!(b.len() % bits as usize == 0);
    b.chunks(bits as usize).map(|c| c.iter().fold(0u32, |a, x| a * 2 + *x as u32) as Chunk).collect()
}
fn model_join<P: PrimeField>(v: &[Chunk], bits: u8) -> P {
    let radix = P::from(2u64).pow([bits as u64]);
    v.iter().fold(P::zero(), |a, c| a * radix + P::from(*c as u64))
}

fn message<P: PrimeField>(cx: &mut Cx, seen: &[P]) -> P {
    let top = P::MODULUS_BIT_SIZE as u64;
    match cx.ch.weighted(&[2, 4, 2, 2, 3, 3, 3, 3, 2, 2]) {
        0 => P::from(cx.choose(300) as u64),
        1 => P::rand(&mut cx.rng()),
        2 => -P::one(),
        3 => -P::from(1 + cx.choose(70000) as u64),
        4 => P::from(2u64).pow([cx.choose(top as usize) as u64]),
        5 => P::from(2u64).pow([cx.choose(top as usize) as u64]) - P::one(),
        6 => -P::from(2u64).pow([cx.choose(top as usize - 1) as u64]),
        7 => {
            // one repeated byte below the top
            let b = [0xffu8, 0x80, 0x01, 0x10, 0x0f, 0xf0, 0x7f, 0xaa][cx.choose(8)];
            let n = 1 + cx.choose((top as usize - 1) / 8);
            P::from_le_bytes_mod_order(&vec![b; n])
        }
        8 if !seen.is_empty() => seen[cx.choose(seen.len())] + P::one(),
        _ => {
            // zero except for two stretches
            let a = P::from(1 + cx.choose(65535) as u64) * P::from(2u64).pow([cx.choose(top as usize - 17) as u64]);
            a + P::from(cx.choose(65536) as u64)
        }
    }
}

struct Sess<P> {
    bits: u8,
    m: P,
    chunks: Vec<Chunk>,
    /// what the joiner holds
    got: Vec<Option<Chunk>>,
    wire: Vec<(usize, Chunk)>,
    done: bool,
}

fn elsewhere<T: Send>(cx: &mut Cx, op: &'static str, f: impl FnOnce() -> T + Send) -> R<T> {
    if cx.chance(1, 5) {
        cx.fault("call_on_new_thread");
        cx.lib(op, || std::thread::scope(|s| s.spawn(f).join()).expect("call on another thread panicked"))
    } else {
        cx.lib(op, f)
    }
}

fn go<P: PrimeField>(cx: &mut Cx, what: &str) -> R {
    let sessions = 1 + cx.choose(4);
    let mut all: Vec<Sess<P>> = vec![];
    let mut seen: Vec<P> = vec![];
    for _ in 0..sessions {
        let bits = [8u8, 4, 16][cx.choose(3)];
        let m = message::<P>(cx, &seen);
        seen.push(m);
        let v = match elsewhere(cx, "decompose", move || utils::decompose(&m, bits))? {
            Ok(v) => v,
            Err(e) => return viol("split:refused", format!("{} element refused with {} bits: {:?}", what, bits, e)),
        };
        let want = model_chunks(&m, bits);
        cx.check();
        ensure!(v.iter().all(|c| *c as u32 <= max_of(bits)), "split:out_of_range", "a chunk of a {} element exceeds {} bits", what, bits);
        ensure!(v == want, "split:wrong", "{} element split into {} bit chunks differs from its binary representation", what, bits);
        let n = cx.lib("chunks_count", || utils::chunks_count::<P>(bits))?;
        ensure!(n as usize == v.len(), "split:count", "{} chunks of {} bits announced, {} made", n, bits, v.len());
        let md = [Mode::Json, Mode::Bincode, Mode::Compressed, Mode::Uncompressed][cx.choose(4)];
        let v = ship(cx, md, &v)?;
        let wire = v.iter().cloned().enumerate().collect();
        cx.log(|| format!("{} bits {} -> {:?}", what, bits, v));
        all.push(Sess { bits, m, got: vec![None; v.len()], chunks: v, wire, done: false });
    }
    if sessions > 1 {
        cx.fault("sessions_interleaved");
    }
    let mut budget = 3000;
    while let Some(_) = all.iter().find(|s| !s.done) {
        budget -= 1;
        let i = cx.choose(all.len());
        if all[i].done {
            let i = all.iter().position(|s| !s.done).unwrap();
            step(cx, &mut all, i, what, budget)?;
        } else {
            step(cx, &mut all, i, what, budget)?;
        }
    }
    // pairwise: different elements never share their chunks, equal ones always
    for a in 0..all.len() {
        for b in 0..a {
            if all[a].bits == all[b].bits {
                cx.check();
                ensure!((all[a].m == all[b].m) == (all[a].chunks == all[b].chunks), "split:collision", "two {} elements share their {} bit chunks", what, all[a].bits);
            }
        }
    }
    // sizes that are not supported
    for _ in 0..3 {
        let b = match cx.choose(3) {
            0 => cx.choose(256) as u8,
            1 => [0u8, 1, 2, 3, 5, 6, 7, 9, 10, 12, 15, 17, 20, 24, 32, 64, 128, 255][cx.choose(18)],
            _ => cx.choose(32) as u8,
        };
        if matches!(b, 4 | 8 | 16) {
            continue;
        }
        let m = seen[cx.choose(seen.len())];
        let c = all[cx.choose(all.len())].chunks.clone();
        cx.fault("unsupported_size");
        cx.check();
        ensure!(cx.lib("decompose", || utils::decompose(&m, b))?.is_err(), "split:unsupported_accepted", "decompose accepts {} bits", b);
        ensure!(cx.lib("compose", || utils::compose::<P>(&c, b))?.is_err(), "split:unsupported_accepted", "compose accepts {} bits", b);
    }
    Ok(())
}

/// one packet of one session, or its completion
fn step<P: PrimeField>(cx: &mut Cx, all: &mut [Sess<P>], i: usize, what: &str, budget: i64) -> R {
    let calm = budget < 1500;
    let s = &mut all[i];
    if s.wire.is_empty() {
        // resend what is missing
        for k in 0..s.got.len() {
            if s.got[k].is_none() {
                s.wire.push((k, s.chunks[k]));
            }
        }
    }
    // deliver a burst
    let burst = 1 + cx.choose(8);
    for _ in 0..burst {
        if s.wire.is_empty() {
            break;
        }
        let k = if cx.chance(1, 2) { cx.choose(s.wire.len()) } else { 0 };
        let (at, c) = s.wire.remove(k);
        if k > 0 {
            cx.fault("packet_reordered");
        }
        if !calm && cx.chance(1, 12) {
            cx.fault("packet_lost");
            continue;
        }
        if !calm && cx.chance(1, 16) {
            s.wire.push((at, c));
            cx.fault("packet_duplicated");
        }
        s.got[at] = Some(c);
    }
    if s.got.iter().any(|c| c.is_none()) {
        if cx.chance(1, 6) {
            // joining too early: whatever the joiner makes of the received prefix is that prefix's value
            let v: Vec<Chunk> = s.got.iter().map_while(|c| *c).collect();
            let bits = s.bits;
            cx.fault("joined_incomplete");
            let r = { let v = v.clone(); elsewhere(cx, "compose", move || utils::compose::<P>(&v, bits))? };
            cx.check();
            if let Ok(x) = r {
                ensure!(x == model_join::<P>(&v, bits), "split:prefix_wrong", "{} of {} chunks of {} bits recomposed to something else than their value", v.len(), s.got.len(), bits);
            }
        }
        return Ok(());
    }
    let v: Vec<Chunk> = s.got.iter().map(|c| c.unwrap()).collect();
    let (bits, m) = (s.bits, s.m);
    if !calm && cx.chance(1, 4) {
        // damaged in one place
        let mut w = v.clone();
        let at = cx.choose(w.len());
        match cx.choose(4) {
            0 => w[at] ^= 1 << cx.choose(bits as usize),
            1 => w[at] = w[at].wrapping_add(max_of(bits) as Chunk).wrapping_add(1),
            2 => w[at] = u16::MAX,
            _ => {
                let b = cx.choose(w.len());
                w.swap(at, b)
            }
        }
        cx.fault("chunk_damaged");
        let r = { let w = w.clone(); elsewhere(cx, "compose", move || utils::compose::<P>(&w, bits))? };
        cx.check();
        let fits = w.iter().all(|c| *c as u32 <= max_of(bits));
        match r {
            Err(_) => ensure!(!fits || w != v, "split:join_refused", "chunks of a {} element refused", what),
            Ok(x) => {
                ensure!(fits, "split:range_ignored", "a chunk beyond {} bits is accepted when recomposing", bits);
                ensure!(x == model_join::<P>(&w, bits), "split:join_wrong", "recomposing {} bit chunks gives another value", bits);
            }
        }
    }
    let r = { let v = v.clone(); elsewhere(cx, "compose", move || utils::compose::<P>(&v, bits))? };
    cx.check();
    match r {
        Ok(x) => ensure!(x == m, "split:not_inverse", "a {} element does not survive splitting into {} bit chunks and back", what, bits),
        Err(e) => return viol("split:join_refused", format!("chunks of a {} element refused with {} bits: {:?}", what, bits, e)),
    }
    // and once more where it came from
    let again = elsewhere(cx, "decompose", move || utils::decompose(&m, bits))?;
    ensure!(again.as_ref().ok() == Some(&v), "split:not_repeatable", "splitting a {} element again into {} bit chunks gives something else", what, bits);
    s.done = true;
    cx.st.steps += 1;
    Ok(())
}

pub fn run<E: Curve>(cx: &mut Cx) -> R {
    let outer = sim::save();
    let threads = [1usize, 2, 8, 64][cx.choose(4)];
    sim::install(sim::Policy::Random, h64(&[cx.seed, 0x14]), threads);
    let r = if E::REAL {
        go::<F<E>>(cx, "scalar")
    } else {
        match cx.choose(4) {
            0 => go::<ark_bls12_381::Fr>(cx, "BLS12-381 scalar"),
            1 => go::<F<E>>(cx, "61-bit scalar"),
            2 => go::<<E as Pairing>::BaseField>(cx, "63-bit base field"),
            _ => go::<ark_bls12_381::Fq>(cx, "BLS12-381 base field"),
        }
    };
    sim::restore(outer);
    r
}
