//! C05: whatever an honest encryptor produces is accepted by every verifier, whoever made the key,
//! however the objects travelled. C08: every decryption path of the authority agrees.
use crate::codec::*;
use crate::core::*;
use crate::ensure;
use crate::kit::*;
use crate::sys::*;
use ark_ec::pairing::{Pairing, PairingOutput};
use ark_ff::{One, UniformRand, Zero};
use ark_std::rand::RngCore;
use dist_saver::encryption::{Ciphertext, Encryption};
use dist_saver::keygen::*;
use dist_saver::saver_groth16::{self, Proof};
use dist_saver::setup::{setup_for_groth16, PreparedEncryptionGens};
use std::sync::Arc;

/// an operating-system generator that returns zeros for its first `stuck` words
pub struct StuckRng {
    pub inner: SimRng,
    pub stuck: u64,
}
impl RngCore for StuckRng {
    fn next_u32(&mut self) -> u32 {
        self.next_u64() as u32
    }
    fn next_u64(&mut self) -> u64 {
        let v = self.inner.next_u64();
        if self.inner.draws <= self.stuck {
            0
        } else {
            v
        }
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        for c in d.chunks_mut(8) {
            let v = self.next_u64().to_le_bytes();
            c.copy_from_slice(&v[..c.len()]);
        }
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), ark_std::rand::Error> {
        self.fill_bytes(d);
        Ok(())
    }
}

pub struct Snarked<E: Curve> {
    pub p: Arc<Params<E>>,
    pub ek: EncryptionKey<E>,
    pub dealer: Option<Dealer<E>>,
    pub joint: Option<Joint<E>>,
}
/// parameters with an SRS, and a key made by a dealer or by n holders
pub fn snarked<E: Curve>(cx: &mut Cx, bits_set: &[u8]) -> R<Snarked<E>> {
    if cx.chance(1, if E::REAL { 2 } else { 8 }) {
        let bits = if E::REAL || cx.chance(1, 2) { wide_bits::<E>(cx) } else { *cx.ch.pick(bits_set) };
        let p = inputs_params::<E>(cx, bits)?;
        return keyed(cx, p);
    }
    let bits = if E::REAL { 64.min(*bits_set.iter().max().unwrap()) } else { *cx.ch.pick(bits_set) };
    let fresh = !E::REAL && cx.chance(1, 12);
    let idx = if E::REAL { 0 } else { cx.choose(2) as u64 };
    let p = params::<E>(cx, bits, true, idx, fresh)?;
    keyed(cx, p)
}
fn keyed<E: Curve>(cx: &mut Cx, p: Arc<Params<E>>) -> R<Snarked<E>> {
    if cx.chance(1, 2) {
        let n = parties(cx, E::REAL);
        let j = joint::<E>(cx, &p, n)?;
        Ok(Snarked { p, ek: j.ek.clone(), dealer: None, joint: Some(j) })
    } else {
        let d = dealer::<E>(cx, &p)?;
        Ok(Snarked { p, ek: d.ek.clone(), dealer: Some(d), joint: None })
    }
}

/// acceptance through every combination of prepared/unprepared arguments
#[allow(clippy::too_many_arguments)]
pub fn accept_everywhere<E: Curve>(cx: &mut Cx, what: &str, p: &Params<E>, ek: &EncryptionKey<E>, ct: &Ciphertext<E>, proof: Option<&Proof<E>>, all: bool) -> R {
    let pek = cx.lib("PreparedEncryptionKey::from", || PreparedEncryptionKey::from(ek.clone()))?;
    cx.check();
    let bad = |op: &str| -> R { viol(&format!("honest_refused:{}", op), format!("{} refuses an honest {} ({} chunks of {} bits)", op, what, p.n, p.bits)) };
    let which: Vec<usize> = if all { (0..6).collect() } else { vec![cx.choose(6)] };
    for k in which {
        let ok = match k {
            0 => verdict(cx, "verify_commitment", || ct.verify_commitment(ek.clone(), p.gens.clone()))?,
            1 => verdict(cx, "verify_commitment(prepared)", || ct.verify_commitment(pek.clone(), p.pgens.clone()))?,
            2 => verdict(cx, "verify_commitment(prepared key)", || ct.verify_commitment(pek.clone(), p.gens.clone()))?,
            3 => verdict(cx, "verify_ciphertext_commitment", || Encryption::<E>::verify_ciphertext_commitment(&ct.X_r, &ct.enc_chunks, &ct.commitment, ek.clone(), p.pgens.clone()))?,
            4 => verdict(cx, "verify_commitments_in_batch(one)", || Encryption::<E>::verify_commitments_in_batch(&[ct.clone()], &[F::<E>::one()], pek.clone(), p.gens.clone()))?,
            _ => {
                let r = F::<E>::rand(&mut cx.rng());
                verdict(cx, "verify_commitments_in_batch(one)", || Encryption::<E>::verify_commitments_in_batch(&[ct.clone()], &[r], ek.clone(), PreparedEncryptionGens::from(p.gens.clone())))?
            }
        };
        if !ok {
            return bad(["verify_commitment", "verify_commitment", "verify_commitment", "verify_ciphertext_commitment", "batch", "batch"][k]);
        }
    }
    if let Some(pr) = proof {
        let s = p.srs.as_ref().unwrap();
        if !verdict(cx, "verify_proof", || saver_groth16::verify_proof(&s.pvk, pr, ct))? {
            return bad("verify_proof");
        }
        if !verdict(cx, "verify_commitment_and_proof", || ct.verify_commitment_and_proof(pr, &s.pvk, ek.clone(), p.gens.clone()))? {
            return bad("verify_commitment_and_proof");
        }
        if all && !verdict(cx, "verify_commitment_and_proof(prepared)", || ct.verify_commitment_and_proof(pr, &s.pvk, pek.clone(), p.pgens.clone()))? {
            return bad("verify_commitment_and_proof(prepared)");
        }
    }
    Ok(())
}

pub fn run_honest<E: Curve>(cx: &mut Cx) -> R {
    let s = if !E::REAL && cx.chance(1, 8) {
        // the one-call set-up
        let bits = [4u8, 8, 16][cx.choose(3)];
        let mut rng = cx.rng();
        let gens = cx.lib("EncryptionGens::new_using_rng", || dist_saver::setup::EncryptionGens::<E>::new_using_rng(&mut rng))?;
        let (pk, sk, ek, dk) = cx.ok("setup_for_groth16", || setup_for_groth16::<E, _>(&mut rng, bits, &gens))?;
        let g = saver_groth16::get_gs_for_encryption(&pk.pk.vk).to_vec();
        let pvk = saver_groth16::prepare_verifying_key(&pk.pk.vk);
        ensure!(g.len() == count::<E>(bits), "srs:shape", "set-up offers {} generators for {} chunks", g.len(), count::<E>(bits));
        let p = Arc::new(Params {
            pgens: PreparedEncryptionGens::from(gens.clone()),
            delta: pk.pk.delta_g1, gamma: pk.gamma_g1, g, bits, n: count::<E>(bits), gens, srs: Some(Srs { pk, pvk }), plain: false,
        });
        cx.probe("setup_for_groth16");
        Snarked { ek: ek.clone(), dealer: Some(Dealer { p: p.clone(), sk, ek, dk }), joint: None, p }
    } else if cx.chance(1, 3) {
        // no SRS: commitment only
        let bits = crate::cluster::draw_bits::<E>(cx, false);
        let p = params::<E>(cx, bits, false, 0, false)?;
        if cx.chance(1, 2) {
            let n = parties(cx, E::REAL);
            let j = joint::<E>(cx, &p, n)?;
            Snarked { p, ek: j.ek.clone(), dealer: None, joint: Some(j) }
        } else {
            let d = dealer::<E>(cx, &p)?;
            Snarked { p, ek: d.ek.clone(), dealer: Some(d), joint: None }
        }
    } else {
        snarked::<E>(cx, &[8, 16, 4, 8, 16, 4, 12, 20, 7, 31])?
    };
    let p = s.p.clone();
    cx.check();
    ensure!(spec_key_consistent(&p, &s.ek), "key:relations", "key made by {} violates the key relations", if s.joint.is_some() { "the holders" } else { "the authority" });
    let field_msgs = [4u8, 8, 16].contains(&p.bits);
    let k = if E::REAL { 1 + cx.choose(2) } else { 1 + cx.choose(4) };
    let mut accepted: Vec<(Ciphertext<E>, Option<Proof<E>>)> = vec![];
    let sent_mode = mode(cx);
    for _ in 0..k {
        let how = cx.ch.weighted(&[4, if field_msgs { 3 } else { 0 }, if field_msgs && p.srs.is_some() && !p.plain { 3 } else { 0 }, if field_msgs && p.srs.is_some() { 2 } else { 0 }]);
        let stuck = if cx.chance(1, 10) { 1 + cx.choose(4) as u64 } else { 0 };
        if stuck > 0 {
            cx.fault("rng_returns_zeros");
        }
        let mut rng = StuckRng { inner: cx.rng(), stuck };
        let (ct, r, m, proof): (Ciphertext<E>, F<E>, Vec<Chunk>, Option<Proof<E>>) = match how {
            0 => {
                let m = gen_msg(cx, p.n, p.bits.min(16));
                let (v, r) = cx.ok("encrypt_decomposed_message", || Encryption::<E>::encrypt_decomposed_message(&mut rng, m.clone(), &s.ek, &p.g))?;
                ensure!(v.len() == p.n + 2, "encrypt:shape", "{} elements for {} chunks", v.len(), p.n);
                let ct = to_ct::<E>(&v);
                let proof = if p.srs.is_some() { Some(prove::<E>(cx, &p, &s.ek, &Ct { ct: ct.clone(), r, m: m.clone() })?) } else { None };
                (ct, r, m, proof)
            }
            1 => {
                let (f, m) = gen_field::<E>(cx, p.bits)?;
                let (ct, r) = cx.ok("encrypt", || Encryption::<E>::encrypt(&mut rng, &f, &s.ek, &p.g, p.bits))?;
                (ct, r, m, None)
            }
            2 => {
                let (f, m) = gen_field::<E>(cx, p.bits)?;
                let pk = &p.srs.as_ref().unwrap().pk;
                let (ct, r, pr) = cx.ok("encrypt_with_proof", || Encryption::<E>::encrypt_with_proof(&mut rng, &f, &s.ek, pk, p.bits))?;
                (ct, r, m, Some(pr))
            }
            _ => {
                let (f, m) = gen_field::<E>(cx, p.bits)?;
                let vk = p.srs.as_ref().unwrap().vk();
                let (ct, r) = cx.ok("encrypt_given_snark_vk", || Encryption::<E>::encrypt_given_snark_vk(&mut rng, &f, &s.ek, vk, p.bits))?;
                (ct, r, m, None)
            }
        };
        cx.check();
        ensure!(to_vec(&ct) == model_ct(&p, &s.ek, &m, &r), "encrypt:wrong", "ciphertext (entry point {}) is not the encryption of {:?} under the returned randomness", how, &m[..m.len().min(6)]);
        // a proof made later, by the encryptor after a restart, from the returned randomness
        let proof = if proof.is_none() && p.srs.is_some() && cx.chance(1, 2) {
            cx.fault("proof_retried_after_restart");
            Some(prove::<E>(cx, &p, &s.ek, &Ct { ct: ct.clone(), r, m: m.clone() })?)
        } else {
            proof
        };
        if let Some(pr) = &proof {
            cx.check();
            ensure!(spec_proof(p.srs.as_ref().unwrap().vk(), pr, &ct), "honest_proof_invalid", "honest proof does not satisfy the Groth16 equation");
        }
        accept_everywhere(cx, "ciphertext", &p, &s.ek, &ct, proof.as_ref(), true)?;
        // the other side of the wire
        let md = if cx.chance(1, 2) { sent_mode } else { mode(cx) };
        let ct2 = ship(cx, md, &ct)?;
        let ek2 = ship(cx, md, &s.ek)?;
        let proof2 = match &proof {
            Some(pr) => {
                let b = crate::cluster::enc_ark(pr);
                Some(crate::cluster::dec_ark::<Proof<E>>(&b))
            }
            None => None,
        };
        cx.fault(&format!("transport_{:?}", md).to_lowercase());
        accept_everywhere(cx, "received ciphertext", &p, &ek2, &ct2, proof2.as_ref(), false)?;
        cx.log(|| format!("ct {} {:x}", how, hbytes(format!("{:?}", ct).as_bytes())));
        accepted.push((ct2, proof2));
    }
    // re-delivered, in any order, all together
    let n = accepted.len();
    let mut list = vec![];
    for _ in 0..(n + cx.choose(3)) {
        list.push(accepted[cx.choose(n)].0.clone());
    }
    let mut rng = cx.rng();
    let w: Vec<F<E>> = if cx.chance(1, 3) {
        // powers of one random weight
        let r = F::<E>::rand(&mut rng);
        let mut c = F::<E>::one();
        list.iter().map(|_| { let x = c; c *= r; x }).collect()
    } else {
        list.iter().map(|_| F::<E>::rand(&mut rng)).collect()
    };
    cx.check();
    ensure!(
        verdict(cx, "verify_commitments_in_batch", || Encryption::<E>::verify_commitments_in_batch(&list, &w, s.ek.clone(), p.gens.clone()))?,
        "honest_refused:batch", "batch of {} honest ciphertexts refused", list.len()
    );
    // somebody else's order: proofs still match their own ciphertexts
    for i in cx.ch.perm(n) {
        let (c, pr) = accepted[i].clone();
        accept_everywhere(cx, "re-delivered ciphertext", &p, &s.ek, &c, pr.as_ref(), false)?;
    }
    cx.sample.insert("curve".into(), E::NAME.into());
    cx.sample.insert("chunks".into(), format!("{:?}", (p.bits, p.n)));
    cx.sample.insert("key".into(), if s.joint.is_some() { "joint" } else { "authority" }.into());
    cx.sample.insert("ciphertexts".into(), n.to_string());
    cx.nontrivial = true;
    Ok(())
}

// --------------------------------------------------------------------------------------------

/// what a decryption entry point answered: chunks (if it returns them), message (if it returns it), nu
pub type Dec<E> = Option<(Option<Vec<u32>>, Option<F<E>>, G1<E>)>;

#[allow(clippy::too_many_arguments)]
pub fn dec_path<E: Curve>(
    cx: &mut Cx, path: usize, p: &Params<E>, ct: &Ciphertext<E>, sk: &SecretKey<F<E>>, dk: &DecryptionKey<E>, pdk: &PreparedDecryptionKey<E>,
    bits: u8, pp: &[Vec<PairingOutput<E>>],
) -> R<(&'static str, Dec<E>)> {
    fn fl<E: Pairing, X>(r: Result<(F<E>, G1<E>), X>) -> Option<(Option<Vec<u32>>, Option<F<E>>, G1<E>)> {
        r.ok().map(|(f, n)| (None, Some(f), n))
    }
    macro_rules! c { ($n:expr, $e:expr) => {{ let r: Result<(Vec<Chunk>, G1<E>), dist_saver::error::SaverError> = cx.lib($n, || $e)?; ($n, r.ok().map(|(v, n)| (Some(v.iter().map(|x| *x as u32).collect::<Vec<u32>>()), None, n))) }}; }
    macro_rules! f { ($n:expr, $e:expr) => {{ let r = cx.lib($n, || $e)?; ($n, fl::<E, _>(r)) }}; }
    let vk = p.srs.as_ref().map(|s| s.vk());
    Ok(match path {
        0 => c!("decrypt_to_chunks", Encryption::<E>::decrypt_to_chunks(&ct.X_r, &ct.enc_chunks, sk, dk.clone(), &p.g, bits)),
        1 => c!("decrypt_to_chunks(prepared)", Encryption::<E>::decrypt_to_chunks(&ct.X_r, &ct.enc_chunks, sk, pdk.clone(), &p.g, bits)),
        2 => c!("decrypt_to_chunks_given_pairing_powers", Encryption::<E>::decrypt_to_chunks_given_pairing_powers(&ct.X_r, &ct.enc_chunks, sk, pdk.clone(), &p.g, bits, Some(pp))),
        3 => c!("decrypt_to_chunks_given_pairing_powers(none)", Encryption::<E>::decrypt_to_chunks_given_pairing_powers(&ct.X_r, &ct.enc_chunks, sk, dk.clone(), &p.g, bits, None)),
        4 => f!("Encryption::decrypt", Encryption::<E>::decrypt(&ct.X_r, &ct.enc_chunks, sk, dk.clone(), &p.g, bits)),
        5 => f!("Encryption::decrypt_given_pairing_powers", Encryption::<E>::decrypt_given_pairing_powers(&ct.X_r, &ct.enc_chunks, sk, dk.clone(), &p.g, bits, pp)),
        6 => f!("Ciphertext::decrypt", ct.decrypt(sk, pdk.clone(), &p.g, bits)),
        7 => f!("Ciphertext::decrypt_given_pairing_powers", ct.decrypt_given_pairing_powers(sk, pdk.clone(), &p.g, bits, pp)),
        8 => f!("Encryption::decrypt_given_groth16_vk", Encryption::<E>::decrypt_given_groth16_vk(&ct.X_r, &ct.enc_chunks, sk, dk.clone(), vk.unwrap(), bits)),
        9 => f!("Encryption::decrypt_given_groth16_vk_and_pairing_powers", Encryption::<E>::decrypt_given_groth16_vk_and_pairing_powers(&ct.X_r, &ct.enc_chunks, sk, dk.clone(), vk.unwrap(), bits, pp)),
        10 => f!("Ciphertext::decrypt_given_groth16_vk", ct.decrypt_given_groth16_vk(sk, dk.clone(), vk.unwrap(), bits)),
        _ => f!("Ciphertext::decrypt_given_groth16_vk_and_pairing_powers", ct.decrypt_given_groth16_vk_and_pairing_powers(sk, pdk.clone(), vk.unwrap(), bits, pp)),
    })
}
pub fn paths<E: Curve>(p: &Params<E>, bits: u8) -> Vec<usize> {
    let mut v = vec![0, 1, 2, 3];
    if [4, 8, 16].contains(&bits) && bits == p.bits {
        v.extend([4, 5, 6, 7]);
        if p.srs.is_some() {
            v.extend([8, 9, 10, 11]);
        }
    }
    v
}
pub fn uses_table(path: usize) -> bool {
    [2, 5, 7, 9, 11].contains(&path)
}

/// the field element the chunks stand for
pub fn compose_ref<E: Curve>(m: &[u32], bits: u8) -> F<E> {
    let base = F::<E>::from(1u64 << bits);
    let mut f = F::<E>::zero();
    for x in m {
        f = f * base + F::<E>::from(*x as u64);
    }
    f
}

struct Auth<E: Curve> {
    d: Dealer<E>,
    pdk: PreparedDecryptionKey<E>,
    pp: Vec<Vec<PairingOutput<E>>>,
}

fn check_dealer<E: Curve>(cx: &mut Cx, d: &Dealer<E>) -> R {
    let p = &d.p;
    cx.check();
    ensure!(spec_key_consistent(p, &d.ek), "keygen:ek_relations", "authority's encryption key violates the key relations");
    ensure!(d.ek.X_0 == p.delta, "keygen:X_0", "X_0 is not the public delta");
    // V_0 = rho H;  e(X_j, V_2j) = e(rho X_0, V_1j)
    ensure!(d.dk.V_0 == mul(&p.gens.H, &d.sk.0), "keygen:V_0", "V_0 is not rho·H");
    let rx = mul(&d.ek.X_0, &d.sk.0);
    for j in 0..p.n {
        cx.check();
        ensure!(pair::<E>(&d.ek.X[j], &d.dk.V_2[j]) == pair::<E>(&rx, &d.dk.V_1[j]), "keygen:V", "V_1/V_2 do not belong to X at chunk {}", j);
        ensure!(d.dk.V_2[j] != G2::<E>::default() && d.dk.V_1[j] != G2::<E>::default(), "keygen:V_zero", "decryption key element {} is the identity", j);
    }
    Ok(())
}

pub fn run_authority<E: Curve>(cx: &mut Cx) -> R {
    // the authority serves several deployments at once; requests are interleaved
    let k = 1 + cx.choose(if E::REAL { 1 } else { 2 });
    let mut auths: Vec<Auth<E>> = vec![];
    for i in 0..k + 1 {
        let same = i > 0 && cx.chance(1, 2);
        let p = if same {
            auths[0].d.p.clone()
        } else if cx.chance(1, 3) {
            let bits = if E::REAL { [64u8, 4][cx.choose(2)] } else { [8u8, 4, 16][cx.choose(3)] };
            let idx = if E::REAL { 0 } else { cx.choose(2) as u64 };
            params::<E>(cx, if E::REAL { 64 } else { bits }, true, idx, false)?
        } else {
            let bits = if E::REAL { [4u8, 8, 16, 64, 2, 3, 1][cx.ch.weighted(&[2, 4, 2, 1, 2, 1, 1])] } else { [8u8, 4, 16, 1, 2, 3, 5, 6, 7, 10, 12, 20, 31, 61][cx.ch.weighted(&[6, 6, 5, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1])] };
            params::<E>(cx, bits, false, 0, false)?
        };
        let d = dealer::<E>(cx, &p)?;
        check_dealer(cx, &d)?;
        let pdk = cx.lib("PreparedDecryptionKey::from", || PreparedDecryptionKey::from(d.dk.clone()))?;
        // tables of up to 2^16 entries per chunk are made for few chunks
        let tb = if p.bits <= 8 { p.bits } else { 4 + cx.choose(3) as u8 };
        let tb = if !E::REAL && p.n <= 4 && p.bits >= 16 && cx.chance(1, 5) { if cx.chance(1, 3) { 16 } else { 9 + cx.choose(7) as u8 } } else { tb };
        let tb = if E::REAL { tb.min(5) } else { tb };
        let pp = match cx.choose(3) {
            0 => cx.ok("pairing_powers", || d.dk.pairing_powers(tb, &p.g))?,
            1 => cx.ok("pairing_powers(prepared)", || pdk.pairing_powers(tb, &p.g))?,
            _ => match &p.srs {
                Some(s) => cx.ok("pairing_powers_given_groth16_vk", || d.dk.pairing_powers_given_groth16_vk(tb, s.vk()))?,
                None => cx.ok("pairing_powers(prepared)", || pdk.pairing_powers(tb, &p.g))?,
            },
        };
        cx.check();
        ensure!(pp.len() == p.n && pp.iter().all(|v| v.len() == max_of(tb) as usize), "tables:shape", "table is {}x{:?} for {} chunks of {} bits", pp.len(), pp.first().map(|v| v.len()), p.n, tb);
        for j in [0, p.n - 1, cx.choose(p.n)] {
            let e = pair::<E>(&p.g[j], &d.dk.V_2[j]);
            let top = pp[j].len();
            for x in [1usize, 2, top, 1 + cx.choose(top)] {
                if x <= top {
                    ensure!(pp[j][x - 1] == e * F::<E>::from(x as u64), "tables:wrong", "entry {} of chunk {} is wrong", x, j);
                }
            }
        }
        auths.push(Auth { d, pdk, pp });
    }
    let reqs = if E::REAL { 2 } else { 3 + cx.choose(4) };
    for _ in 0..reqs {
        let ai = cx.choose(auths.len());
        let a = &auths[ai];
        let p = a.d.p.clone();
        let tb = (a.pp[0].len() + 1).trailing_zeros() as u8;
        // the stated size for this request; values within it
        let bits = match cx.ch.weighted(&[6, 2, 1]) {
            0 => p.bits.min(16),
            1 => tb.max(1),
            _ => (tb - 1).max(1),
        };
        let big = bits > 8 && (E::REAL || !cx.chance(1, 3));
        let m = if p.bits >= 4 && [4, 8, 16].contains(&p.bits) && cx.chance(1, 3) {
            // a whole field element
            let f = if p.bits == 16 { F::<E>::from(cx.choose(1 << 16) as u64) } else { F::<E>::rand(&mut cx.rng()) };
            dist_saver::utils::decompose(&f, p.bits).unwrap()
        } else {
            gen_msg(cx, p.n, bits.min(p.bits).min(if big { 6 } else { 16 }))
        };
        let mut m = m;
        let mut top = false;
        if !E::REAL && bits > 8 && !big && cx.chance(2, 3) {
            // a chunk at the very end of the stated range: found without a table
            let k = 1 + cx.choose(2);
            for _ in 0..k {
                let j = cx.choose(p.n);
                m[j] = if cx.chance(1, 3) {
                    let k = 8 + cx.choose((bits.min(16) - 8) as usize);
                    ((1u32 << k) + cx.choose(3) as u32 - 1) as Chunk
                } else if cx.chance(1, 3) {
                    cx.choose(1 << bits) as Chunk
                } else {
                    ((1u32 << bits) - 1 - [0, 0, 1, 2][cx.choose(4)]) as Chunk
                };
            }
            top = true;
            cx.probe("chunk_at_the_end_of_the_range");
        }
        let fits = m.iter().all(|x| *x as u32 <= max_of(bits));
        let c = encrypt::<E>(cx, &p, &a.d.ek, &m)?;
        let md = mode(cx);
        let ct = if cx.chance(1, 2) { ship(cx, md, &c.ct)? } else { c.ct.clone() };
        let dk = if cx.chance(1, 4) { ship(cx, md, &a.d.dk)? } else { a.d.dk.clone() };
        let want: Vec<u32> = m.iter().map(|x| *x as u32).collect();
        let nu = mul(&ct.X_r, &a.d.sk.0);
        let fits_table = m.iter().all(|x| *x as usize <= a.pp[0].len());
        let max_m = *want.iter().max().unwrap();
        let ps = paths(&p, bits);
        // refusals over 16 bits cost a full search: at most one path then
        let ps: Vec<usize> = if (bits > 8 && !fits) || E::REAL || max_m > 3000 { vec![*cx.ch.pick(&ps)] } else { ps };
        let ps = if top { let q: Vec<usize> = paths(&p, bits).into_iter().filter(|x| !uses_table(*x) || fits_table).collect(); vec![*cx.ch.pick(&q)] } else { ps };
        for path in ps {
            if uses_table(path) && tb < bits && !fits_table {
                // short table: must be refused, not answered
                let (name, r) = dec_path::<E>(cx, path, &p, &ct, &a.d.sk, &dk, &a.pdk, bits, &a.pp)?;
                cx.check();
                cx.fault("stale_short_table");
                // refused, or answered by other means: never a different message
                let right = match &r {
                    None => true,
                    Some((v, f, nu2)) => fits && *nu2 == nu && v.as_ref().map_or(true, |v| *v == want) && f.map_or(true, |f| f == compose_ref::<E>(&want, bits)),
                };
                ensure!(right, "decrypt:short_table", "{} answers {:?} from a table that does not contain the chunk", name, r.map(|x| (x.0, x.1)));
                continue;
            }
            let (name, r) = dec_path::<E>(cx, path, &p, &ct, &a.d.sk, &dk, &a.pdk, bits, &a.pp)?;
            cx.check();
            cx.log(|| format!("{} bits={} n={} ok={}", name, bits, p.n, r.is_some()));
            match r {
                None => ensure!(!fits, "decrypt:refused", "{} refuses an honest ciphertext of {:?} ({} bits)", name, crate::cluster::short(&want), bits),
                Some((chunks, f, got)) => {
                    ensure!(fits, "decrypt:out_of_range", "{} returns {:?} for chunks {:?} outside {} bits", name, chunks, crate::cluster::short(&want), bits);
                    if let Some(v) = chunks {
                        ensure!(v == want, "decrypt:wrong", "{} returns {:?}, message {:?} ({} bits)", name, crate::cluster::short(&v), crate::cluster::short(&want), bits);
                    }
                    if let Some(f) = f {
                        let w = compose_ref::<E>(&want, bits);
                        ensure!(f == w, "decrypt:wrong_message", "{} returns another message for chunks {:?} ({} bits)", name, crate::cluster::short(&want), bits);
                    }
                    ensure!(got == nu, "decrypt:nu", "{} returns a commitment to the randomness that is not rho·X_r", name);
                }
            }
        }
        // faults: wrong material
        for _ in 0..2 {
            let o = &auths[(ai + 1) % auths.len()];
            let mut sk = a.d.sk.clone();
            let mut dk = a.d.dk.clone();
            let mut pp = a.pp.clone();
            let mut c2 = ct.clone();
            // decryption needs all the chunks to be wrong only where the fault touches
            let what = ["wrong_secret", "foreign_decryption_key", "foreign_table", "foreign_header", "chunk_from_other_ciphertext", "swapped_chunks", "chunk_out_of_range", "blank_chunk", "blank_header", "negated_chunk", "generator_as_chunk", "reversed_table"][cx.choose(12)];
            let mut table_only = false;
            let nz = want.iter().any(|x| *x > 0);
            match what {
                "wrong_secret" => sk = SecretKey(a.d.sk.0 + F::<E>::from(1 + cx.choose(3) as u64)),
                "foreign_decryption_key" => {
                    if !Arc::ptr_eq(&o.d.p, &p) || o.d.dk == a.d.dk {
                        continue;
                    }
                    dk = o.d.dk.clone();
                }
                "foreign_table" => {
                    // only non-zero chunks consult the table
                    if o.d.dk == a.d.dk || !nz {
                        continue;
                    }
                    pp = o.pp.clone();
                    table_only = true;
                }
                "foreign_header" => {
                    let other = encrypt::<E>(cx, &p, &a.d.ek, &m)?;
                    c2.X_r = other.ct.X_r;
                }
                "chunk_from_other_ciphertext" => {
                    let other = encrypt::<E>(cx, &p, &a.d.ek, &m)?;
                    let j = cx.choose(p.n);
                    c2.enc_chunks[j] = other.ct.enc_chunks[j];
                }
                "swapped_chunks" => {
                    if p.n < 2 {
                        continue;
                    }
                    let i = cx.choose(p.n);
                    let j = (i + 1 + cx.choose(p.n - 1)) % p.n;
                    c2.enc_chunks.swap(i, j);
                }
                "chunk_out_of_range" => {
                    let j = cx.choose(p.n);
                    let over = max_of(bits.min(16)) as u64 + 1 + cx.choose(3) as u64;
                    if bits > 8 && !cx.chance(1, 20) {
                        continue;
                    }
                    let extra = over - want[j] as u64;
                    c2.enc_chunks[j] = add(&c2.enc_chunks[j], &mulu(&p.g[j], extra));
                }
                "blank_chunk" => {
                    let j = cx.choose(p.n);
                    c2.enc_chunks[j] = G1::<E>::default();
                }
                "blank_header" => c2.X_r = G1::<E>::default(),
                "negated_chunk" => {
                    let j = cx.choose(p.n);
                    c2.enc_chunks[j] = neg(&c2.enc_chunks[j]);
                }
                "generator_as_chunk" => {
                    let j = cx.choose(p.n);
                    c2.enc_chunks[j] = [p.g[j], p.gens.G, a.d.ek.X[j], c2.X_r][cx.choose(4)];
                }
                _ => {
                    if !nz || p.n < 2 {
                        continue;
                    }
                    pp.reverse();
                    // the middle table of an odd number stays in place
                    if (0..p.n).all(|j| want[j] == 0 || p.n - 1 - j == j) {
                        continue;
                    }
                    table_only = true;
                }
            }
            if (E::REAL || bits > 8) && bits > 6 && !table_only && !cx.chance(1, 25) {
                // a refusal searches the whole range
                continue;
            }
            cx.fault(&format!("decrypt_{}", what));
            let pdk = PreparedDecryptionKey::from(dk.clone());
            let mut ps: Vec<usize> = paths(&p, bits).into_iter().filter(|x| !table_only || uses_table(*x)).collect();
            if E::REAL || bits > 8 {
                let x = *cx.ch.pick(&ps);
                ps = vec![x];
            }
            for path in ps {
                cx.check();
                let (name, r) = dec_path::<E>(cx, path, &p, &c2, &sk, &dk, &pdk, bits, &pp)?;
                ensure!(r.is_none(), format!("decrypt_misuse:{}", what), "{} answers {:?} with {}", name, r.map(|x| (x.0, x.1)), what);
            }
        }
    }
    cx.sample.insert("curve".into(), E::NAME.into());
    cx.sample.insert("deployments".into(), format!("{:?}", auths.iter().map(|a| (a.d.p.bits, a.d.p.n)).collect::<Vec<_>>()));
    cx.nontrivial = true;
    Ok(())
}
