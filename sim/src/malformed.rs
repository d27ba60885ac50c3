//! C10: operations fed material that does not fit together. Sizes, chunk sizes, keys, shares and
//! tables are perturbed independently; whether a call may succeed is decided from what was passed,
//! and what a successful call returns is compared with the reference model over the whole input.
use crate::cluster::draw_bits;
use crate::core::*;
use crate::ensure;
use crate::kit::*;
use crate::sys::*;
use ark_ec::pairing::{Pairing, PairingOutput};
use ark_ff::{Field, One, PrimeField, UniformRand, Zero};
use dist_saver::circuit::BitsizeCheckCircuit;
use dist_saver::commitment::ChunkedCommitment;
use dist_saver::encryption::{Ciphertext, Encryption};
use dist_saver::keygen::*;
use dist_saver::saver_groth16::{self, prepare_verifying_key};
use dist_saver::setup::{setup_for_groth16, ChunkedCommitmentGens, PreparedEncryptionGens};
use dist_saver::utils;

/// perturb the length of a vector
fn resize<T: Clone>(cx: &mut Cx, v: &mut Vec<T>, what: &str) {
    let n = v.len();
    let last = v.last().cloned();
    match cx.ch.weighted(&[3, 3, 2, 2, 2, 1, 1]) {
        0 => {
            v.pop();
        }
        1 => {
            if let Some(l) = last {
                v.push(l);
            }
        }
        2 => v.clear(),
        3 => v.truncate(n / 2),
        4 => {
            let x = v.clone();
            v.extend(x);
        }
        5 => v.truncate(1),
        _ => {
            if let Some(l) = last {
                // beyond what a u8 can count
                let to = [255usize, 256, 256 + n, 257][cx.choose(4)];
                v.resize(to.max(n), l);
            }
        }
    }
    if v.len() != n {
        cx.fault(&format!("resized_{}", what));
    }
}
/// with the given probability
fn maybe<T: Clone>(cx: &mut Cx, v: &mut Vec<T>, what: &str) {
    if cx.chance(1, 3) {
        resize(cx, v, what)
    }
}
fn wild_bits(cx: &mut Cx) -> u8 {
    [0u8, 1, 2, 3, 5, 7, 15, 17, 31, 32, 33, 60, 61, 62, 63, 64, 65, 127, 128, 200, 254, 255][cx.choose(22)]
}
fn ek_ok<E: Pairing>(ek: &EncryptionKey<E>) -> bool {
    ek.Y.len() == ek.X.len() && ek.Z.len() == ek.X.len() + 1 && ek.X.len() <= 255
}
fn dk_ok<E: Pairing>(dk: &DecryptionKey<E>) -> bool {
    dk.V_1.len() == dk.V_2.len() && dk.V_1.len() <= 255
}
fn bend_ek<E: Curve>(cx: &mut Cx, ek: &mut EncryptionKey<E>) {
    if cx.chance(1, 3) {
        match cx.choose(5) {
            0 => resize(cx, &mut ek.X, "X"),
            1 => resize(cx, &mut ek.Y, "Y"),
            2 => resize(cx, &mut ek.Z, "Z"),
            3 => {
                // a consistent key of another size
                let n = [0usize, 1, 2, 255, 256, 300][cx.choose(6)];
                if let (Some(x), Some(y), Some(z)) = (ek.X.first().cloned(), ek.Y.first().cloned(), ek.Z.first().cloned()) {
                    ek.X.resize(n, x);
                    ek.Y.resize(n, y);
                    ek.Z.resize(n + 1, z);
                    cx.fault("other_key_size");
                }
            }
            _ => {
                resize(cx, &mut ek.X, "X");
                resize(cx, &mut ek.Y, "Y");
                resize(cx, &mut ek.Z, "Z");
            }
        }
    }
}
fn bend_dk<E: Curve>(cx: &mut Cx, dk: &mut DecryptionKey<E>) {
    if cx.chance(1, 3) {
        match cx.choose(4) {
            0 => resize(cx, &mut dk.V_1, "V_1"),
            1 => resize(cx, &mut dk.V_2, "V_2"),
            2 => {
                let n = [0usize, 1, 255, 256, 300][cx.choose(5)];
                if let (Some(x), Some(y)) = (dk.V_1.first().cloned(), dk.V_2.first().cloned()) {
                    dk.V_1.resize(n, x);
                    dk.V_2.resize(n, y);
                    cx.fault("other_key_size");
                }
            }
            _ => {
                resize(cx, &mut dk.V_1, "V_1");
                resize(cx, &mut dk.V_2, "V_2");
            }
        }
    }
}

/// the call must have succeeded exactly when `fits`
fn exactly(cx: &mut Cx, op: &str, got: bool, fits: bool, why: String) -> R {
    cx.check();
    cx.log(|| format!("{} fits={} ok={} {}", op, fits, got, why));
    if fits {
        ensure!(got, format!("fitting_refused:{}", op), "{} refused input that fits: {}", op, why);
    } else {
        cx.probe("misfit_refused");
        ensure!(!got, format!("misfit_accepted:{}", op), "{} accepted input that does not fit together: {}", op, why);
    }
    Ok(())
}

struct World<E: Curve> {
    p: std::sync::Arc<Params<E>>,
    d: Dealer<E>,
    j: Joint<E>,
    ct: Ct<E>,
    dsk: SecretKey<F<E>>,
    dpk: FEncryptionKeyDest<E>,
}

pub fn run<E: Curve>(cx: &mut Cx) -> R {
    let snark = cx.chance(1, if E::REAL { 2 } else { 4 });
    let bits = if E::REAL { if !snark && cx.chance(1, 4) { wide_bits::<E>(cx) } else { 64 } } else { draw_bits::<E>(cx, snark) };
    let p = params::<E>(cx, bits, snark, 0, false)?;
    let n = 1 + cx.choose(3);
    let j = joint::<E>(cx, &p, n)?;
    let d = dealer::<E>(cx, &p)?;
    let (dsk, dpk) = dest::<E>(cx, &p)?;
    let vb = bits.min(if E::REAL { 4 } else { 6 });
    let m = gen_msg(cx, p.n, vb);
    let ct = encrypt::<E>(cx, &p, &d.ek, &m)?;
    let w = World { p, d, j, ct, dsk, dpk };
    for _ in 0..(if E::REAL { 3 } else { 5 }) {
        match cx.choose(if snark { 22 } else { 19 }) {
            0 => enc::<E>(cx, &w)?,
            1 => dec::<E>(cx, &w)?,
            2 => dec_tables::<E>(cx, &w)?,
            3 => tables::<E>(cx, &w)?,
            4 => commitment::<E>(cx, &w)?,
            5 => batch::<E>(cx, &w)?,
            6 => reshare::<E>(cx, &w)?,
            7 => combine_shares::<E>(cx, &w)?,
            8 => combine_ct::<E>(cx, &w)?,
            9 => add_cts::<E>(cx, &w)?,
            10 => dec_dest::<E>(cx, &w)?,
            11 => gen_keys::<E>(cx, &w)?,
            12 => compose::<E>(cx)?,
            13 => counts::<E>(cx, &w)?,
            14 => partials::<E>(cx, &w)?,
            15 => p1::<E>(cx, &w)?,
            16 => chunk_commitment::<E>(cx)?,
            17 => enc_message::<E>(cx, &w)?,
            18 => dec_message::<E>(cx, &w)?,
            19 => proofs::<E>(cx, &w)?,
            20 => proving::<E>(cx, &w)?,
            _ => setups::<E>(cx)?,
        }
    }
    Ok(())
}

fn enc<E: Curve>(cx: &mut Cx, w: &World<E>) -> R {
    let mut m = w.ct.m.clone();
    let mut ek = w.d.ek.clone();
    let mut g = w.p.g.clone();
    maybe(cx, &mut m, "message");
    bend_ek(cx, &mut ek);
    maybe(cx, &mut g, "generators");
    let mut rng = cx.rng();
    let r = cx.lib("encrypt_decomposed_message", || Encryption::<E>::encrypt_decomposed_message(&mut rng, m.clone(), &ek, &g))?;
    let fits = ek_ok(&ek) && m.len() == ek.X.len() && g.len() >= m.len();
    exactly(cx, "encrypt_decomposed_message", r.is_ok(), fits, format!("{} chunks, key {}/{}/{}, {} generators", m.len(), ek.X.len(), ek.Y.len(), ek.Z.len(), g.len()))?;
    if let Ok((v, r)) = r {
        let mut want = vec![mul(&ek.X_0, &r)];
        for j in 0..m.len() {
            want.push(add(&mul(&ek.X[j], &r), &mulu(&g[j], m[j] as u64)));
        }
        let mut psi = mul(&ek.P_1, &r);
        for j in 0..m.len() {
            psi = add(&psi, &mulu(&ek.Y[j], m[j] as u64));
        }
        want.push(psi);
        ensure!(v == want, "partly_processed:encrypt_decomposed_message", "{} chunks were not all encrypted", m.len());
    }
    Ok(())
}

fn enc_message<E: Curve>(cx: &mut Cx, w: &World<E>) -> R {
    let (f, _) = gen_field::<E>(cx, 8)?;
    let bits = if cx.chance(1, 2) { wild_bits(cx) } else { [4u8, 8, 16][cx.choose(3)] };
    cx.fault("chunk_size");
    let dec = cx.lib("decompose", || utils::decompose(&f, bits))?;
    exactly(cx, "decompose", dec.is_ok(), matches!(bits, 4 | 8 | 16), format!("{} bits", bits))?;
    let mut rng = cx.rng();
    let k = dec.map(|d| d.len()).unwrap_or(usize::MAX);
    let fits = k == w.p.n && w.p.g.len() >= k;
    let r = cx.lib("encrypt", || Encryption::<E>::encrypt(&mut rng, &f, &w.d.ek, &w.p.g, bits))?;
    exactly(cx, "encrypt", r.is_ok(), fits, format!("{} bits with a key for {} chunks", bits, w.p.n))?;
    if let Some(s) = &w.p.srs {
        let mut vk = s.vk().clone();
        maybe(cx, &mut vk.gamma_abc_g1, "gamma_abc");
        let g = vk.gamma_abc_g1.len().saturating_sub(1);
        let r = cx.lib("encrypt_given_snark_vk", || Encryption::<E>::encrypt_given_snark_vk(&mut rng, &f, &w.d.ek, &vk, bits))?;
        exactly(cx, "encrypt_given_snark_vk", r.is_ok(), k == w.p.n && g >= k, format!("{} bits, {} generators", bits, g))?;
    }
    Ok(())
}

fn dec<E: Curve>(cx: &mut Cx, w: &World<E>) -> R {
    let mut c = w.ct.ct.enc_chunks.clone();
    let mut dk = w.d.dk.clone();
    let mut g = w.p.g.clone();
    maybe(cx, &mut c, "ciphertext");
    bend_dk(cx, &mut dk);
    maybe(cx, &mut g, "generators");
    let bits = if cx.chance(1, 3) { wild_bits(cx).min(if E::REAL { 10 } else { 255 }) } else { w.p.bits.min(if E::REAL { 10 } else { 64 }) };
    let prepared = cx.chance(1, 2);
    let r = cx.lib("decrypt_to_chunks", || {
        if prepared {
            Encryption::<E>::decrypt_to_chunks(&w.ct.ct.X_r, &c, &w.d.sk, PreparedDecryptionKey::from(dk.clone()), &g, bits)
        } else {
            Encryption::<E>::decrypt_to_chunks(&w.ct.ct.X_r, &c, &w.d.sk, dk.clone(), &g, bits)
        }
    })?;
    let shape = dk_ok(&dk) && c.len() == dk.V_1.len() && g.len() >= c.len();
    if !shape {
        return exactly(cx, "decrypt_to_chunks", r.is_ok(), false, format!("{} chunks, key {}/{}, {} generators", c.len(), dk.V_1.len(), dk.V_2.len(), g.len()));
    }
    if bits == 0 {
        return Ok(());
    }
    // with a shape that fits, the first chunks are those of the message, in the honest positions
    let k = c.len().min(w.p.n);
    if let Ok((v, _)) = &r {
        cx.check();
        ensure!(v.len() == c.len(), "partly_processed:decrypt_to_chunks", "{} chunks in, {} out", c.len(), v.len());
        ensure!(v[..k] == w.ct.m[..k], "decrypt:different", "decrypted {:?} instead of {:?}", &v[..k], &w.ct.m[..k]);
    }
    if c.len() <= w.p.n && dk.V_1.len() <= w.p.n && g.len() >= c.len() {
        let over = w.ct.m[..k].iter().any(|x| *x as u32 > max_of(bits));
        exactly(cx, "decrypt_to_chunks", r.is_ok(), !over, format!("{} bits for chunks {:?}", bits, &w.ct.m[..k.min(8)]))?;
    }
    Ok(())
}

fn honest_tables<E: Curve>(cx: &mut Cx, w: &World<E>) -> R<(u8, Vec<Vec<PairingOutput<E>>>)> {
    let tb = w.p.bits.min(if E::REAL { 4 } else { 7 });
    let t = cx.ok("pairing_powers", || w.d.dk.pairing_powers(tb, &w.p.g))?;
    Ok((tb, t))
}

fn dec_tables<E: Curve>(cx: &mut Cx, w: &World<E>) -> R {
    let (tb, mut t) = honest_tables(cx, w)?;
    let mut c = w.ct.ct.enc_chunks.clone();
    let mut dk = w.d.dk.clone();
    maybe(cx, &mut c, "ciphertext");
    bend_dk(cx, &mut dk);
    if cx.chance(1, 3) {
        t.truncate(cx.choose(t.len() + 1));
        cx.fault("fewer_tables");
    }
    if cx.chance(1, 2) && !t.is_empty() {
        let i = cx.choose(t.len());
        let n = t[i].len();
        let k = match cx.choose(4) {
            0 => 0,
            1 => n.saturating_sub(1),
            // exactly around the entry this chunk needs
            2 => (w.ct.m[i] as usize).min(n),
            _ => (w.ct.m[i] as usize).saturating_sub(1).min(n),
        };
        t[i].truncate(k);
        cx.fault("short_table");
    }
    let bits = if cx.chance(1, 4) { wild_bits(cx).min(if E::REAL { 10 } else { 255 }) } else { tb };
    let m = &w.ct.m;
    let entry = cx.choose(3);
    let r = match entry {
        0 => cx.lib("decrypt_to_chunks_given_pairing_powers", || {
            Encryption::<E>::decrypt_to_chunks_given_pairing_powers(&w.ct.ct.X_r, &c, &w.d.sk, dk.clone(), &w.p.g, bits, Some(&t))
        })?.map(|(v, _)| Some(v)),
        1 => cx.lib("decrypt_given_pairing_powers", || {
            Encryption::<E>::decrypt_given_pairing_powers(&w.ct.ct.X_r, &c, &w.d.sk, dk.clone(), &w.p.g, bits, &t)
        })?.map(|_| None),
        _ => {
            let ct = Ciphertext::<E> { X_r: w.ct.ct.X_r, enc_chunks: c.clone(), commitment: w.ct.ct.commitment };
            cx.lib("Ciphertext::decrypt_given_pairing_powers", || ct.decrypt_given_pairing_powers(&w.d.sk, dk.clone(), &w.p.g, bits, &t))?.map(|_| None)
        }
    };
    let ok = r.is_ok();
    let shape = dk_ok(&dk) && c.len() == dk.V_1.len() && w.p.g.len() >= c.len();
    if !shape {
        return exactly(cx, "decrypt_given_pairing_powers", ok, false, format!("{} chunks, key {}/{}", c.len(), dk.V_1.len(), dk.V_2.len()));
    }
    if bits == 0 || c.len() > w.p.n {
        return Ok(());
    }
    let needs = |i: usize| m[i] == 0 || (i < t.len() && t[i].len() >= m[i] as usize);
    // an empty table list means "no tables"
    let avail = t.is_empty() || (0..c.len()).all(needs);
    let range = (0..c.len()).all(|i| m[i] as u32 <= max_of(bits));
    let composes = entry == 0 || matches!(bits, 8 | 16) || (bits == 4 && c.len() % 2 == 0);
    exactly(cx, "decrypt_given_pairing_powers", ok, avail && range && composes, format!("{} bits, {} tables of {:?} entries, chunks {:?}", bits, t.len(), t.iter().map(|x| x.len()).take(4).collect::<Vec<_>>(), &m[..c.len().min(8)]))?;
    if let Ok(Some(v)) = r {
        ensure!(v[..] == m[..c.len()], "decrypt:different", "decrypted {:?} instead of {:?}", v, m);
    }
    Ok(())
}

fn dec_message<E: Curve>(cx: &mut Cx, w: &World<E>) -> R {
    let bits = if cx.chance(2, 3) { wild_bits(cx).min(if E::REAL { 10 } else { 255 }) } else { [4u8, 8, 16][cx.choose(3)].min(if E::REAL { 8 } else { 16 }) };
    let ct = &w.ct.ct;
    let k = cx.choose(3);
    let r = match (k, &w.p.srs) {
        (1, Some(s)) => cx.lib("decrypt_given_groth16_vk", || ct.decrypt_given_groth16_vk(&w.d.sk, w.d.dk.clone(), s.vk(), bits))?,
        (2, Some(s)) => {
            let (_, t) = honest_tables(cx, w)?;
            cx.lib("decrypt_given_groth16_vk_and_pairing_powers", || ct.decrypt_given_groth16_vk_and_pairing_powers(&w.d.sk, w.d.dk.clone(), s.vk(), bits, &t))?
        }
        _ => cx.lib("decrypt", || ct.decrypt(&w.d.sk, w.d.dk.clone(), &w.p.g, bits))?,
    };
    if !matches!(bits, 4 | 8 | 16) {
        cx.fault("chunk_size");
        return exactly(cx, "decrypt", r.is_ok(), false, format!("{} bits", bits));
    }
    let range = w.ct.m.iter().all(|x| *x as u32 <= max_of(bits));
    let even = bits != 4 || w.p.n % 2 == 0;
    exactly(cx, "decrypt", r.is_ok(), range && even, format!("{} bits, chunks {:?}", bits, &w.ct.m[..w.p.n.min(8)]))?;
    if let Ok((f, _)) = r {
        let base = F::<E>::from(2u64).pow([bits as u64]);
        let want = w.ct.m.iter().fold(F::<E>::zero(), |a, x| a * base + F::<E>::from(*x as u64));
        ensure!(f == want, "decrypt:different", "decrypted another message than {:?}", w.ct.m);
    }
    Ok(())
}

fn tables<E: Curve>(cx: &mut Cx, w: &World<E>) -> R {
    let mut dk = w.d.dk.clone();
    let mut g = w.p.g.clone();
    bend_dk(cx, &mut dk);
    maybe(cx, &mut g, "generators");
    let big = cx.chance(1, if E::REAL { 1000 } else { 60 });
    let bits = if big { [15u8, 16, 17, 31, 64, 255][cx.choose(6)] } else { 1 + cx.choose(if E::REAL { 3 } else { 6 }) as u8 };
    if big {
        // a full-size table: for one or two generators only
        dk.V_1.truncate(1);
        dk.V_2.truncate(1);
        cx.fault("chunk_size");
    }
    let fits = dk_ok(&dk) && g.len() >= dk.V_1.len();
    let r = match (cx.choose(3), &w.p.srs) {
        (0, Some(s)) => {
            let mut vk = s.vk().clone();
            vk.gamma_abc_g1.truncate(1);
            vk.gamma_abc_g1.extend_from_slice(&g);
            cx.lib("pairing_powers_given_groth16_vk", || dk.pairing_powers_given_groth16_vk(bits, &vk))?
        }
        (1, _) => cx.lib("pairing_powers(prepared)", || PreparedDecryptionKey::from(dk.clone()).pairing_powers(bits, &g))?,
        _ => cx.lib("pairing_powers", || dk.pairing_powers(bits, &g))?,
    };
    exactly(cx, "pairing_powers", r.is_ok(), fits, format!("key {}/{}, {} generators, {} bits", dk.V_1.len(), dk.V_2.len(), g.len(), bits))?;
    if let Ok(t) = r {
        ensure!(t.len() == dk.V_1.len() && t.iter().all(|x| x.len() == max_of(bits) as usize), "partly_processed:pairing_powers", "{} tables of {:?} for {} generators of {} bits", t.len(), t.iter().map(|x| x.len()).collect::<Vec<_>>(), dk.V_1.len(), bits);
        if !t.is_empty() {
            let i = cx.choose(t.len());
            let k = if cx.chance(1, 2) { t[i].len() - 1 } else { cx.choose(t[i].len()) };
            ensure!(t[i][k] == pair::<E>(&mulu(&g[i], k as u64 + 1), &dk.V_2[i]), "tables:wrong", "entry {} of table {} is wrong", k, i);
        }
    }
    Ok(())
}

fn commitment<E: Curve>(cx: &mut Cx, w: &World<E>) -> R {
    let mut c = w.ct.ct.enc_chunks.clone();
    let mut ek = w.d.ek.clone();
    maybe(cx, &mut c, "ciphertext");
    bend_ek(cx, &mut ek);
    let ct = Ciphertext::<E> { X_r: w.ct.ct.X_r, enc_chunks: c.clone(), commitment: w.ct.ct.commitment };
    let r = if cx.chance(1, 2) {
        verdict(cx, "verify_commitment(prepared)", || ct.verify_commitment(PreparedEncryptionKey::from(ek.clone()), w.p.pgens.clone()))?
    } else {
        verdict(cx, "verify_commitment", || ct.verify_commitment(ek.clone(), w.p.gens.clone()))?
    };
    let fits = ek_ok(&ek) && spec_commitment::<E>(&ct.X_r, &c, &ct.commitment, &ek, &w.p.gens.H);
    exactly(cx, "verify_commitment", r, fits, format!("{} chunks, key {}/{}/{}", c.len(), ek.X.len(), ek.Y.len(), ek.Z.len()))
}

fn batch<E: Curve>(cx: &mut Cx, w: &World<E>) -> R {
    let k = cx.choose(4);
    let mut list: Vec<Ciphertext<E>> = (0..k).map(|_| w.ct.ct.clone()).collect();
    for c in list.iter_mut() {
        if cx.chance(1, 5) {
            resize(cx, &mut c.enc_chunks, "ciphertext");
        }
    }
    let mut ek = w.d.ek.clone();
    bend_ek(cx, &mut ek);
    let mut rs: Vec<F<E>> = (0..k).map(|_| F::<E>::rand(&mut cx.rng())).collect();
    match cx.choose(4) {
        0 => resize(cx, &mut rs, "weights"),
        1 => {
            for _ in 0..1 + cx.choose(3) {
                rs.push(F::<E>::one());
            }
            cx.fault("resized_weights");
        }
        _ => {}
    }
    let r = verdict(cx, "verify_commitments_in_batch", || Encryption::<E>::verify_commitments_in_batch(&list, &rs, ek.clone(), w.p.gens.clone()))?;
    let fits = rs.len() == list.len()
        && ek_ok(&ek)
        && list.iter().all(|c| spec_commitment::<E>(&c.X_r, &c.enc_chunks, &c.commitment, &ek, &w.p.gens.H));
    exactly(cx, "verify_commitments_in_batch", r, fits, format!("{} ciphertexts of {:?} chunks, {} weights, key {}/{}/{}", list.len(), list.iter().map(|c| c.enc_chunks.len()).collect::<Vec<_>>(), rs.len(), ek.X.len(), ek.Y.len(), ek.Z.len()))
}

fn reshare<E: Curve>(cx: &mut Cx, w: &World<E>) -> R {
    let mut c = w.ct.ct.enc_chunks.clone();
    let mut sk = w.j.sks[0].clone();
    maybe(cx, &mut c, "ciphertext");
    maybe(cx, &mut sk.s, "secret");
    maybe(cx, &mut sk.t, "secret_t");
    let mut rng = cx.rng();
    let r = cx.lib("re_encrypt_share", || Encryption::<E>::re_encrypt_share(&mut rng, &w.p.gens, &w.ct.ct.X_r, &c, &w.dpk, &sk))?;
    exactly(cx, "re_encrypt_share", r.is_ok(), sk.s.len() == c.len(), format!("{} chunks, {} secrets", c.len(), sk.s.len()))?;
    if let Ok((ws, g)) = r {
        ensure!(ws.len() == c.len(), "partly_processed:re_encrypt_share", "{} elements for {} chunks", ws.len(), c.len());
        // w_i + s_i·c_0 = rho·pk = p·(rho·G)
        for (i, x) in ws.iter().enumerate() {
            ensure!(add(x, &mul(&w.ct.ct.X_r, &sk.s[i])) == mul(&g, &w.dsk.0), "partly_processed:re_encrypt_share", "element {} of a share over {} chunks is wrong", i, c.len());
        }
    }
    Ok(())
}

fn points<E: Curve>(cx: &mut Cx, n: usize) -> Vec<G1<E>> {
    let mut rng = cx.rng();
    (0..n).map(|_| G1::<E>::rand(&mut rng)).collect()
}

fn combine_shares<E: Curve>(cx: &mut Cx, w: &World<E>) -> R {
    let mut a = points::<E>(cx, w.p.n);
    let mut b = points::<E>(cx, w.p.n);
    let (x, y) = (points::<E>(cx, 1)[0], points::<E>(cx, 1)[0]);
    maybe(cx, &mut a, "share");
    maybe(cx, &mut b, "share");
    let r = cx.lib("combine_re_encrypt_share", || Encryption::<E>::combine_re_encrypt_share(&x, &y, &a, &b))?;
    exactly(cx, "combine_re_encrypt_share", r.is_ok(), a.len() == b.len(), format!("{} and {} elements", a.len(), b.len()))?;
    if let Ok((v, g)) = r {
        let want: Vec<_> = a.iter().zip(&b).map(|(p, q)| add(p, q)).collect();
        ensure!(v == want && g == add(&x, &y), "partly_processed:combine_re_encrypt_share", "combined share of {} elements is not the sum", a.len());
    }
    Ok(())
}

fn combine_ct<E: Curve>(cx: &mut Cx, w: &World<E>) -> R {
    let mut a = w.ct.ct.enc_chunks.clone();
    let mut b = points::<E>(cx, w.p.n);
    let x = points::<E>(cx, 1)[0];
    maybe(cx, &mut a, "ciphertext");
    maybe(cx, &mut b, "share");
    let r = cx.lib("combine_ct_with_w", || Encryption::<E>::combine_ct_with_w(&w.p.gens, &a, &x, &b))?;
    exactly(cx, "combine_ct_with_w", r.is_ok(), a.len() == b.len(), format!("{} chunks and a share of {}", a.len(), b.len()))?;
    if let Ok(v) = r {
        let mut want = vec![x];
        want.extend(a.iter().zip(&b).map(|(p, q)| add(p, q)));
        ensure!(v == want, "partly_processed:combine_ct_with_w", "switched ciphertext of {} chunks is not the sum", a.len());
    }
    Ok(())
}

fn add_cts<E: Curve>(cx: &mut Cx, w: &World<E>) -> R {
    let mut a = to_vec(&w.ct.ct);
    let mut b = points::<E>(cx, w.p.n + 2);
    maybe(cx, &mut a, "ciphertext");
    maybe(cx, &mut b, "ciphertext");
    let r = cx.lib("add_cts", || Encryption::<E>::add_cts(&a, &b))?;
    exactly(cx, "add_cts", r.is_ok(), a.len() == b.len(), format!("{} and {} elements", a.len(), b.len()))?;
    if let Ok(v) = r {
        let want: Vec<_> = a.iter().zip(&b).map(|(p, q)| add(p, q)).collect();
        ensure!(v == want, "partly_processed:add_cts", "sum of {} elements is wrong", a.len());
    }
    Ok(())
}

fn dec_dest<E: Curve>(cx: &mut Cx, w: &World<E>) -> R {
    // a switched ciphertext made by the model
    let rho = F::<E>::rand(&mut cx.rng());
    let c0 = mul(&w.p.gens.G, &rho);
    let mask = mul(&w.dpk.pk, &rho);
    let m = &w.ct.m;
    let mut c: Vec<G1<E>> = (0..w.p.n).map(|j| add(&mask, &mulu(&w.p.g[j], m[j] as u64))).collect();
    let mut g = w.p.g.clone();
    maybe(cx, &mut c, "ciphertext");
    maybe(cx, &mut g, "generators");
    let bits = if cx.chance(1, 3) { wild_bits(cx).min(if E::REAL { 10 } else { 255 }) } else { w.p.bits.min(if E::REAL { 10 } else { 64 }) };
    let r = cx.lib("decrypt_to_chunks_after_re_encryption", || Encryption::<E>::decrypt_to_chunks_after_re_encryption(&c0, &c, &w.dsk, &g, bits))?;
    if g.len() < c.len() {
        return exactly(cx, "decrypt_to_chunks_after_re_encryption", r.is_ok(), false, format!("{} chunks, {} generators", c.len(), g.len()));
    }
    if bits == 0 {
        return Ok(());
    }
    let k = c.len().min(w.p.n);
    if c.len() <= w.p.n {
        let over = m[..k].iter().any(|x| *x as u32 > max_of(bits));
        exactly(cx, "decrypt_to_chunks_after_re_encryption", r.is_ok(), !over, format!("{} bits, chunks {:?}", bits, &m[..k.min(8)]))?;
    }
    if let Ok(v) = r {
        ensure!(v.len() == c.len() && v[..k] == m[..k], "decrypt:different", "decrypted {:?} instead of {:?}", &v[..v.len().min(8)], &m[..k.min(8)]);
    }
    Ok(())
}

fn gen_keys<E: Curve>(cx: &mut Cx, w: &World<E>) -> R {
    let bits = if cx.chance(1, 2) { w.p.bits } else { wild_bits(cx) };
    let mut g = w.p.g.clone();
    maybe(cx, &mut g, "generators");
    if bits != w.p.bits {
        cx.fault("chunk_size");
    }
    let need = if bits == 0 { usize::MAX } else { count::<E>(bits) };
    let fits = bits != 0 && g.len() >= need;
    let mut rng = cx.rng();
    let why = format!("{} bits with {} generators", bits, g.len());
    if cx.chance(1, 2) {
        let r = cx.lib("keygen", || keygen(&mut rng, bits, &w.p.gens, &g, &w.p.delta, &w.p.gamma))?;
        exactly(cx, "keygen", r.is_ok(), fits, why)?;
        if let Ok((_, ek, dk)) = r {
            ensure!(ek.X.len() == need && ek.Y.len() == need && ek.Z.len() == need + 1 && dk.V_1.len() == need && dk.V_2.len() == need, "partly_processed:keygen", "keys of {}/{}/{} for {} chunks", ek.X.len(), ek.Y.len(), ek.Z.len(), need);
        }
    } else {
        let r = cx.lib("FkeygenPartial", || FkeygenPartial(&mut rng, bits, &w.p.gens, &g, &w.p.delta, &w.p.gamma))?;
        exactly(cx, "FkeygenPartial", r.is_ok(), fits, why)?;
        if let Ok((sk, part)) = r {
            ensure!(part.X.len() == need && part.Y.len() == need && part.Z.len() == need + 1 && sk.s.len() == need && sk.t.len() == need + 1, "partly_processed:FkeygenPartial", "partial key of {}/{}/{} for {} chunks", part.X.len(), part.Y.len(), part.Z.len(), need);
        }
    }
    Ok(())
}

fn compose<E: Curve>(cx: &mut Cx) -> R {
    let bits = if cx.chance(1, 3) { wild_bits(cx) } else { [4u8, 8, 16][cx.choose(3)] };
    let db = [4u8, 8, 16][cx.choose(3)];
    let (f, mut d) = gen_field::<E>(cx, db)?;
    let own = match d.len() / (F::<E>::MODULUS_BIT_SIZE as usize).div_ceil(8) {
        2 => 4u8,
        1 => 8,
        _ => 16,
    };
    let n0 = d.len();
    maybe(cx, &mut d, "chunks");
    if cx.chance(1, 4) && !d.is_empty() {
        let i = cx.choose(d.len());
        d[i] = [16u16, 255, 256, 4096, 65535][cx.choose(5)];
        cx.fault("chunk_out_of_range");
    }
    let r = cx.lib("compose", || utils::compose::<F<E>>(&d, bits))?;
    let sane = matches!(bits, 4 | 8 | 16) && (bits != 4 || d.len() % 2 == 0) && d.iter().all(|x| *x as u32 <= max_of(bits));
    if d.len() > n0 && sane {
        // more chunks than an element has: refused or complete
        if let Ok(v) = r {
            let base = F::<E>::from(2u64).pow([bits as u64]);
            let want = d.iter().fold(F::<E>::zero(), |a, x| a * base + F::<E>::from(*x as u64));
            ensure!(v == want, "partly_processed:compose", "{} chunks were not all used", d.len());
        }
        return Ok(());
    }
    exactly(cx, "compose", r.is_ok(), sane, format!("{} chunks {:?} of {} bits", d.len(), &d[..d.len().min(8)], bits))?;
    if let Ok(v) = r {
        let base = F::<E>::from(2u64).pow([bits as u64]);
        let want = d.iter().fold(F::<E>::zero(), |a, x| a * base + F::<E>::from(*x as u64));
        ensure!(v == want, "partly_processed:compose", "{} chunks of {} bits compose to another value", d.len(), bits);
        if d.len() == n0 && bits == own {
            let back = cx.ok("decompose", || utils::decompose(&v, bits))?;
            ensure!(v != f || back == d, "compose:different", "chunks {:?} change in a round trip", d);
        }
    }
    Ok(())
}

fn counts<E: Curve>(cx: &mut Cx, w: &World<E>) -> R {
    let mut ek = w.d.ek.clone();
    bend_ek(cx, &mut ek);
    let fits = ek_ok(&ek);
    let why = format!("key {}/{}/{}", ek.X.len(), ek.Y.len(), ek.Z.len());
    let c = cx.lib("supported_chunks_count", || ek.supported_chunks_count())?;
    let v = verdict(cx, "validate", || ek.validate())?;
    let pe = PreparedEncryptionKey::from(ek.clone());
    let pc = cx.lib("supported_chunks_count(prepared)", || pe.supported_chunks_count())?;
    let pv = verdict(cx, "validate(prepared)", || pe.validate())?;
    exactly(cx, "supported_chunks_count", c.is_ok(), fits, why.clone())?;
    exactly(cx, "validate", v, fits, why.clone())?;
    exactly(cx, "supported_chunks_count", pc.is_ok(), fits, why.clone())?;
    exactly(cx, "validate", pv, fits, why)?;
    for c in [c, pc].into_iter().flatten() {
        ensure!(c as usize == ek.X.len(), "counts:wrong", "{} chunks reported for {}", c, ek.X.len());
    }
    let mut dk = w.d.dk.clone();
    bend_dk(cx, &mut dk);
    let fits = dk_ok(&dk);
    let why = format!("key {}/{}", dk.V_1.len(), dk.V_2.len());
    let c = cx.lib("supported_chunks_count(dk)", || dk.supported_chunks_count())?;
    let v = verdict(cx, "validate(dk)", || dk.validate())?;
    let pd = PreparedDecryptionKey::from(dk.clone());
    let pc = cx.lib("supported_chunks_count(pdk)", || pd.supported_chunks_count())?;
    exactly(cx, "supported_chunks_count(dk)", c.is_ok(), fits, why.clone())?;
    exactly(cx, "supported_chunks_count(dk)", pc.is_ok(), fits, why.clone())?;
    exactly(cx, "validate(dk)", v, fits, why)?;
    for c in [c, pc].into_iter().flatten() {
        ensure!(c as usize == dk.V_1.len(), "counts:wrong", "{} chunks reported for {}", c, dk.V_1.len());
    }
    Ok(())
}

/// combineEKs has no way to report an error: what it does on misfits is listed as findings
fn partials<E: Curve>(cx: &mut Cx, w: &World<E>) -> R {
    let k = cx.choose(4);
    let mut list = vec![];
    for _ in 0..k {
        list.push(partial::<E>(cx, &w.p)?.1);
    }
    if !list.is_empty() && cx.chance(1, 2) {
        let i = cx.choose(list.len());
        match cx.choose(3) {
            0 => resize(cx, &mut list[i].X, "partial_X"),
            1 => resize(cx, &mut list[i].Y, "partial_Y"),
            _ => resize(cx, &mut list[i].Z, "partial_Z"),
        }
    }
    let r = cx.lib("combineEKs", || combineEKs(&w.p.gamma, &list));
    cx.check();
    let lens: Vec<_> = list.iter().map(|q| (q.X.len(), q.Y.len(), q.Z.len())).collect();
    if list.is_empty() {
        return match r {
            Err(v) => cx.finding("combineEKs:panics_on_empty_list", v.detail),
            Ok(_) => Ok(()),
        };
    }
    let f = lens[0];
    let shorter = lens.iter().any(|l| l.0 < f.0 || l.1 < f.1 || l.2 < f.2);
    let longer = lens.iter().any(|l| l.0 > f.0 || l.1 > f.1 || l.2 > f.2);
    match r {
        Err(v) if shorter => cx.finding("combineEKs:panics_when_later_partial_is_shorter", v.detail),
        Err(v) => Err(v),
        Ok(c) => {
            if shorter {
                return viol("partly_processed:combineEKs", format!("partial keys of {:?} were combined into {}/{}/{}", lens, c.X.len(), c.Y.len(), c.Z.len()));
            }
            if longer {
                ensure!((c.X.len(), c.Y.len(), c.Z.len()) == f, "partly_processed:combineEKs", "partial keys of {:?} were combined into {}/{}/{}", lens, c.X.len(), c.Y.len(), c.Z.len());
                return cx.finding("combineEKs:drops_tail_of_longer_partial", format!("partial keys of {:?} were combined into {}/{}/{}", lens, c.X.len(), c.Y.len(), c.Z.len()));
            }
            let col = |sel: &dyn Fn(&FEncryptionKeyPartial<E>) -> Vec<G1<E>>| -> Vec<G1<E>> {
                let cols: Vec<Vec<G1<E>>> = list.iter().map(sel).collect();
                (0..cols[0].len()).map(|j| sum(&cols.iter().map(|c| c[j]).collect::<Vec<_>>())).collect()
            };
            let x = col(&|q| q.X.clone());
            let y = col(&|q| q.Y.clone());
            let z: Vec<G2<E>> = (0..f.2).map(|j| sum(&list.iter().map(|q| q.Z[j]).collect::<Vec<_>>())).collect();
            let p2 = add(&w.p.gamma, &sum(&list.iter().map(|q| q.P_2).collect::<Vec<_>>()));
            ensure!(c.X == x && c.Y == y && c.Z == z && c.P_2 == p2 && c.X_0 == list[0].X_0, "partly_processed:combineEKs", "combination of {} partial keys is not their sum", list.len());
            Ok(())
        }
    }
}

fn p1<E: Curve>(cx: &mut Cx, w: &World<E>) -> R {
    if cx.chance(1, 2) {
        let k = cx.choose(5);
        let v: Vec<P1share<E>> = points::<E>(cx, k).into_iter().map(|q| P1share { P_1: q }).collect();
        let r = cx.lib("combineP1share", || combineP1share(&v));
        cx.check();
        return match r {
            Err(e) if v.is_empty() => cx.finding("combineP1share:panics_on_empty_list", e.detail),
            Err(e) => Err(e),
            Ok(c) => {
                ensure!(c.P_1 == sum(&v.iter().map(|q| q.P_1).collect::<Vec<_>>()), "partly_processed:combineP1share", "combination of {} shares is not their sum", k);
                Ok(())
            }
        };
    }
    let mut ek = w.j.comb.clone();
    let mut sk = w.j.sks[0].clone();
    maybe(cx, &mut ek.X, "combined_X");
    maybe(cx, &mut sk.t, "secret_t");
    maybe(cx, &mut sk.s, "secret");
    let r = cx.lib("genP1share", || genP1share(&ek, &sk));
    cx.check();
    let need = ek.X.len() + 1;
    match r {
        Err(e) if sk.t.len() < need => cx.finding("genP1share:panics_when_secret_is_shorter_than_key", e.detail),
        Err(e) => Err(e),
        Ok(s) => {
            ensure!(sk.t.len() >= need, "partly_processed:genP1share", "a share over {} elements was made from {} secrets", ek.X.len(), sk.t.len());
            let mut want = mul(&ek.X_0, &sk.t[0]);
            for j in 0..ek.X.len() {
                want = add(&want, &mul(&ek.X[j], &sk.t[j + 1]));
            }
            ensure!(s.P_1 == want, "partly_processed:genP1share", "share over {} elements is wrong", ek.X.len());
            if sk.t.len() > need {
                return cx.finding("genP1share:ignores_tail_of_longer_secret", format!("{} secrets for {} elements", sk.t.len(), ek.X.len()));
            }
            Ok(())
        }
    }
}

fn chunk_commitment<E: Curve>(cx: &mut Cx) -> R {
    let mut rng = cx.rng();
    let gens = ChunkedCommitmentGens::<G1<E>>::new_using_rng(&mut rng);
    let (m, r) = (F::<E>::rand(&mut rng), F::<E>::rand(&mut rng));
    let bits = if cx.chance(1, 2) { wild_bits(cx) } else { [4u8, 8, 16][cx.choose(3)] };
    let good = matches!(bits, 4 | 8 | 16);
    if !good {
        cx.fault("chunk_size");
    }
    let want = add(&mul(&gens.G, &m), &mul(&gens.H, &r));
    let c = cx.lib("ChunkedCommitment::new", || ChunkedCommitment::new(&m, &r, bits, &gens))?;
    exactly(cx, "ChunkedCommitment::new", c.is_ok(), good, format!("{} bits", bits))?;
    if let Ok(c) = &c {
        ensure!(c.0 == want, "partly_processed:ChunkedCommitment", "commitment with {} bit chunks is not the commitment to the message", bits);
    }
    let kb = [4u8, 8, 16][cx.choose(3)];
    let mut key = cx.lib("commitment_key", || ChunkedCommitment::<G1<E>>::commitment_key(&gens, kb))?;
    maybe(cx, &mut key, "commitment_key");
    let n = if good { count::<E>(bits) } else { 0 };
    let r2 = cx.lib("get_commitment_given_commitment_key", || ChunkedCommitment::<G1<E>>::get_commitment_given_commitment_key(&m, &r, bits, &key))?;
    exactly(cx, "get_commitment_given_commitment_key", r2.is_ok(), good && key.len() == n + 1, format!("{} bits with a key of {} elements", bits, key.len()))?;
    if let Ok(v) = r2 {
        if kb == bits && key == ChunkedCommitment::<G1<E>>::commitment_key(&gens, kb) {
            ensure!(v == want, "partly_processed:ChunkedCommitment", "commitment with {} bit chunks is not the commitment to the message", bits);
        }
    }
    Ok(())
}

fn proofs<E: Curve>(cx: &mut Cx, w: &World<E>) -> R {
    let s = w.p.srs.as_ref().unwrap();
    let proof = prove::<E>(cx, &w.p, &w.d.ek, &w.ct)?;
    let mut ct = w.ct.ct.clone();
    maybe(cx, &mut ct.enc_chunks, "ciphertext");
    let mut vk = s.vk().clone();
    maybe(cx, &mut vk.gamma_abc_g1, "gamma_abc");
    let pvk = prepare_verifying_key(&vk);
    let spec = !vk.gamma_abc_g1.is_empty() && spec_proof::<E>(&vk, &proof, &ct);
    let why = format!("{} chunks, {} input elements", ct.enc_chunks.len(), vk.gamma_abc_g1.len());
    let r = verdict(cx, "verify_proof", || saver_groth16::verify_proof(&pvk, &proof, &ct))?;
    exactly(cx, "verify_proof", r, spec, why.clone())?;
    let r = verdict(cx, "calculate_d", || saver_groth16::calculate_d(&pvk, &ct))?;
    exactly(cx, "calculate_d", r, !vk.gamma_abc_g1.is_empty(), why.clone())?;
    let mut ek = w.d.ek.clone();
    bend_ek(cx, &mut ek);
    let both = spec && ek_ok(&ek) && spec_commitment::<E>(&ct.X_r, &ct.enc_chunks, &ct.commitment, &ek, &w.p.gens.H);
    let r = verdict(cx, "verify_commitment_and_proof", || ct.verify_commitment_and_proof(&proof, &pvk, ek.clone(), PreparedEncryptionGens::from(w.p.gens.clone())))?;
    exactly(cx, "verify_commitment_and_proof", r, both, why)
}

fn proving<E: Curve>(cx: &mut Cx, w: &World<E>) -> R {
    let s = w.p.srs.as_ref().unwrap();
    let mut vals: Vec<F<E>> = w.ct.m.iter().map(|x| F::<E>::from(*x as u64)).collect();
    let mut rng = cx.rng();
    // (a) one-call encryption and proof with a chunk size that is not the SRS's or the key's
    if cx.chance(1, 2) {
        let (f, _) = gen_field::<E>(cx, 8)?;
        let bits = if cx.chance(1, 3) { wild_bits(cx) } else { [4u8, 8, 16][cx.choose(3)] };
        let r = cx.lib("encrypt_with_proof", || Encryption::<E>::encrypt_with_proof(&mut rng, &f, &w.d.ek, &s.pk, bits))?;
        if matches!(bits, 4 | 8 | 16) && bits != w.p.bits && count::<E>(bits) == w.p.n {
            // same number of chunks: nothing about the sizes gives the mistake away
            return Ok(());
        }
        let fits = matches!(bits, 4 | 8 | 16) && bits == w.p.bits;
        exactly(cx, "encrypt_with_proof", r.is_ok(), fits, format!("{} bits with keys for {} bits", bits, w.p.bits))?;
        return Ok(());
    }
    // (b) a circuit without values, with values missing or too many, or of another chunk size
    let none = cx.chance(1, 5);
    let n = vals.len();
    maybe(cx, &mut vals, "values");
    let bits = if cx.chance(1, 4) { wild_bits(cx) } else { w.p.bits };
    let nv = if bits == 0 { Some(n as u8) } else { None };
    let circ = BitsizeCheckCircuit::new(bits, nv, if none { None } else { Some(vals.clone()) }, true);
    let mut ek = w.d.ek.clone();
    bend_ek(cx, &mut ek);
    let r = cx.lib("create_proof", || saver_groth16::create_proof(circ, &w.ct.r, &s.pk, &ek, &mut rng))?;
    cx.log(|| format!("create_proof {} values of {} bits none={} ok={}", vals.len(), bits, none, r.is_ok()));
    cx.check();
    if none {
        return exactly(cx, "create_proof", r.is_ok(), false, "no values".into());
    }
    match r {
        // whatever comes out for a statement that does not fit must not verify
        Ok(p) => {
            let good = vals.len() == n && bits == w.p.bits && vals.iter().zip(&w.ct.m).all(|(a, b)| *a == F::<E>::from(*b as u64)) && ek.P_2 == w.d.ek.P_2;
            let v = verdict(cx, "verify_proof", || saver_groth16::verify_proof(&s.pvk, &p, &w.ct.ct))?;
            ensure!(v == spec_proof::<E>(s.vk(), &p, &w.ct.ct), "verify:wrong", "proof verdict {} differs from the equation", v);
            if good && ek_ok(&ek) {
                ensure!(v, "proving:wrong", "a proof for the encrypted chunks does not verify");
            }
        }
        Err(_) => {
            ensure!(!(vals.len() == n && bits == w.p.bits && ek_ok(&ek) && ek.X.len() == n), "fitting_refused:create_proof", "create_proof refused a fitting statement");
        }
    }
    Ok(())
}

fn setups<E: Curve>(cx: &mut Cx) -> R {
    if E::REAL {
        return Ok(());
    }
    let bits = wild_bits(cx).max(if cx.chance(1, 3) { 0 } else { 15 });
    let mut rng = cx.rng();
    let gens = dist_saver::setup::EncryptionGens::<E>::new_using_rng(&mut rng);
    cx.fault("chunk_size");
    let r = cx.lib("setup_for_groth16", || setup_for_groth16::<E, _>(&mut rng, bits, &gens))?;
    exactly(cx, "setup_for_groth16", r.is_ok(), bits != 0, format!("{} bits", bits))?;
    if let Ok((pk, _, ek, dk)) = r {
        let n = count::<E>(bits);
        ensure!(pk.pk.vk.gamma_abc_g1.len() == n + 1 && ek.X.len() == n && dk.V_1.len() == n, "partly_processed:setup_for_groth16", "set-up for {} chunks of {} bits has {}/{}/{} elements", n, bits, pk.pk.vk.gamma_abc_g1.len(), ek.X.len(), dk.V_1.len());
    }
    Ok(())
}
