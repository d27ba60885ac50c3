//! Building blocks shared by the scenarios: small deployments driven step by step, in seeded order.
use crate::codec::*;
use crate::core::*;
use crate::ensure;
use crate::sys::*;
use dist_saver::circuit::BitsizeCheckCircuit;
use dist_saver::encryption::{Ciphertext, Encryption};
use dist_saver::keygen::*;
use dist_saver::saver_groth16::{self, Proof};
use dist_saver::utils;
use std::sync::Arc;

/// A finished distributed key generation (driven directly, contributions in seeded order).
pub struct Joint<E: Curve> {
    pub p: Arc<Params<E>>,
    pub sks: Vec<SecretKeyST<E>>,
    pub parts: Vec<FEncryptionKeyPartial<E>>,
    pub comb: FEncryptionKeyPartial<E>,
    pub shares: Vec<P1share<E>>,
    pub ek: EncryptionKey<E>,
}
impl<E: Curve> Joint<E> {
    /// Σ s_j over the parties
    pub fn s(&self, j: usize) -> F<E> {
        self.sks.iter().map(|k| k.s[j]).sum()
    }
}
pub fn partial<E: Curve>(cx: &mut Cx, p: &Params<E>) -> R<(SecretKeyST<E>, FEncryptionKeyPartial<E>)> {
    let mut rng = cx.rng();
    let (sk, part) = cx.ok("FkeygenPartial", || FkeygenPartial(&mut rng, p.bits, &p.gens, &p.g, &p.delta, &p.gamma))?;
    ensure!(
        sk.s.len() == p.n && sk.t.len() == p.n + 1 && part.X.len() == p.n && part.Y.len() == p.n && part.Z.len() == p.n + 1,
        "partial:shape",
        "partial key with {}/{}/{} elements and {}/{} secrets for {} chunks", part.X.len(), part.Y.len(), part.Z.len(), sk.s.len(), sk.t.len(), p.n
    );
    Ok((sk, part))
}
pub fn joint<E: Curve>(cx: &mut Cx, p: &Arc<Params<E>>, n: usize) -> R<Joint<E>> {
    let mut sks = vec![];
    let mut parts = vec![];
    for _ in 0..n {
        let (a, b) = partial(cx, p)?;
        sks.push(a);
        parts.push(b);
    }
    let ord = cx.ch.perm(n);
    let list: Vec<_> = ord.iter().map(|i| parts[*i].clone()).collect();
    let comb = cx.lib("combineEKs", || combineEKs(&p.gamma, &list))?;
    let mut shares = vec![];
    for i in 0..n {
        shares.push(cx.lib("genP1share", || genP1share(&comb, &sks[i]))?);
    }
    let ord = cx.ch.perm(n);
    let list: Vec<_> = ord.iter().map(|i| shares[*i].clone()).collect();
    let p1 = cx.lib("combineP1share", || combineP1share(&list))?;
    let ek = cx.lib("keygenFinal", || keygenFinal(&comb, &p1))?;
    let want = model_joint_key(p, &sks);
    cx.check();
    if let Some(d) = diff_key(&ek, &want) {
        return viol("joint_key:wrong", format!("component {} of the joint key of {} parties is not what their secrets define", d, n));
    }
    Ok(Joint { p: p.clone(), sks, parts, comb, shares, ek })
}

/// Keys of a single authority.
pub struct Dealer<E: Curve> {
    pub p: Arc<Params<E>>,
    pub sk: SecretKey<F<E>>,
    pub ek: EncryptionKey<E>,
    pub dk: DecryptionKey<E>,
}
pub fn dealer<E: Curve>(cx: &mut Cx, p: &Arc<Params<E>>) -> R<Dealer<E>> {
    let mut rng = cx.rng();
    let (sk, ek, dk) = cx.ok("keygen", || keygen(&mut rng, p.bits, &p.gens, &p.g, &p.delta, &p.gamma))?;
    let c = cx.ok("supported_chunks_count", || ek.supported_chunks_count())? as usize;
    let d = cx.ok("supported_chunks_count(dk)", || dk.supported_chunks_count())? as usize;
    ensure!(c == p.n && d == p.n, "keygen:shape", "authority keys support {}/{} chunks, expected {}", c, d, p.n);
    cx.ok("validate", || ek.validate())?;
    cx.ok("validate(dk)", || dk.validate())?;
    Ok(Dealer { p: p.clone(), sk, ek, dk })
}

pub struct Ct<E: Curve> {
    pub ct: Ciphertext<E>,
    pub r: F<E>,
    pub m: Vec<Chunk>,
}
impl<E: Curve> Clone for Ct<E> {
    fn clone(&self) -> Self {
        Ct { ct: self.ct.clone(), r: self.r, m: self.m.clone() }
    }
}
pub fn to_ct<E: Curve>(v: &[G1<E>]) -> Ciphertext<E> {
    Ciphertext { X_r: v[0], enc_chunks: v[1..v.len() - 1].to_vec(), commitment: v[v.len() - 1] }
}
pub fn to_vec<E: Curve>(c: &Ciphertext<E>) -> Vec<G1<E>> {
    let mut v = vec![c.X_r];
    v.extend_from_slice(&c.enc_chunks);
    v.push(c.commitment);
    v
}
pub fn encrypt<E: Curve>(cx: &mut Cx, p: &Params<E>, ek: &EncryptionKey<E>, m: &[Chunk]) -> R<Ct<E>> {
    let mut rng = cx.rng();
    let (v, r) = cx.ok("encrypt_decomposed_message", || Encryption::<E>::encrypt_decomposed_message(&mut rng, m.to_vec(), ek, &p.g))?;
    cx.check();
    ensure!(v == model_ct(p, ek, m, &r), "encrypt:wrong", "ciphertext is not the encryption of the chunks {:?} under the returned randomness", &m[..m.len().min(8)]);
    Ok(Ct { ct: to_ct(&v), r, m: m.to_vec() })
}
pub fn prove<E: Curve>(cx: &mut Cx, p: &Params<E>, ek: &EncryptionKey<E>, c: &Ct<E>) -> R<Proof<E>> {
    let srs = p.srs.as_ref().unwrap();
    let mut rng = cx.rng();
    let vals: Vec<F<E>> = c.m.iter().map(|x| F::<E>::from(*x as u64)).collect();
    if p.plain {
        let circ = InputsOnly { n: p.n, vals: Some(vals), free: !srs.pk.pk.l_query.is_empty() };
        return cx.ok("create_proof", || saver_groth16::create_proof(circ, &c.r, &srs.pk, ek, &mut rng));
    }
    let circ = BitsizeCheckCircuit::new(p.bits, None, Some(vals), true);
    cx.ok("create_proof", || saver_groth16::create_proof(circ, &c.r, &srs.pk, ek, &mut rng))
}

/// verdict of a library verification call (never a panic)
pub fn verdict<T, Er>(cx: &mut Cx, op: &'static str, f: impl FnOnce() -> Result<T, Er>) -> R<bool> {
    Ok(cx.lib(op, f)?.is_ok())
}

/// re-encryption share of one party, checked against its secret
pub type Share<E> = (Vec<G1<E>>, G1<E>);
pub fn share<E: Curve>(cx: &mut Cx, p: &Params<E>, ct: &Ciphertext<E>, pk: &FEncryptionKeyDest<E>, sk: &SecretKeyST<E>) -> R<Share<E>> {
    let mut rng = cx.rng();
    let (w, g) = cx.ok("re_encrypt_share", || Encryption::<E>::re_encrypt_share(&mut rng, &p.gens, &ct.X_r, &ct.enc_chunks, pk, sk))?;
    ensure!(w.len() == ct.enc_chunks.len(), "share:shape", "share has {} elements for {} chunks", w.len(), ct.enc_chunks.len());
    Ok((w, g))
}
pub fn fold_shares<E: Curve>(cx: &mut Cx, v: Vec<Share<E>>) -> R<Share<E>> {
    crate::cluster::tree_fold(cx, v, |cx, x, y| {
        cx.ok("combine_re_encrypt_share", || Encryption::<E>::combine_re_encrypt_share(&x.1, &y.1, &x.0, &y.0))
    })
}
pub fn switch<E: Curve>(cx: &mut Cx, p: &Params<E>, ct: &Ciphertext<E>, s: &Share<E>) -> R<(G1<E>, Vec<G1<E>>)> {
    let v = cx.ok("combine_ct_with_w", || Encryption::<E>::combine_ct_with_w(&p.gens, &ct.enc_chunks, &s.1, &s.0))?;
    ensure!(v.len() == ct.enc_chunks.len() + 1, "switch:shape", "switched ciphertext has {} elements", v.len());
    Ok((v[0], v[1..].to_vec()))
}
pub fn dest<E: Curve>(cx: &mut Cx, p: &Params<E>) -> R<(SecretKey<F<E>>, FEncryptionKeyDest<E>)> {
    let mut rng = cx.rng();
    let (sk, pk) = cx.ok("Fkeygen_dest", || Fkeygen_dest::<_, E>(&mut rng, &p.gens))?;
    cx.check();
    ensure!(pk.pk == mul(&p.gens.G, &sk.0), "dest:wrong", "destination public key is not G times its secret");
    Ok((sk, pk))
}

pub fn parties(cx: &mut Cx, real: bool) -> usize {
    if real {
        [2usize, 1, 3, 4][cx.ch.weighted(&[4, 1, 4, 1])]
    } else {
        if cx.chance(1, 40) {
            // beyond what fits a byte, now and then
            return if cx.chance(1, 8) { 250 + cx.choose(20) } else { 8 + cx.choose(33) };
        }
        [2usize, 1, 3, 4, 5, 6, 7][cx.ch.weighted(&[4, 1, 5, 3, 2, 1, 1])]
    }
}
/// message of field-element form together with its chunks
pub fn gen_field<E: Curve>(cx: &mut Cx, bits: u8) -> R<(F<E>, Vec<Chunk>)> {
    use ark_ff::{One, UniformRand, Zero};
    let f = match cx.ch.weighted(&[2, 2, 2, 2, 8, 2]) {
        0 => F::<E>::zero(),
        1 => F::<E>::one(),
        2 => -F::<E>::one(),
        3 => F::<E>::from(cx.choose(70000) as u64),
        4 => F::<E>::rand(&mut cx.rng()),
        _ => -F::<E>::from(cx.choose(300) as u64 + 1),
    };
    let d = cx.ok("decompose", || utils::decompose(&f, bits))?;
    Ok((f, d))
}
pub fn mode(cx: &mut Cx) -> Mode {
    MODES[cx.choose(4)]
}

/// is `v` a small multiple of `g` in 0..=max ?
pub fn small_multiple<E: Curve>(g: &G1<E>, v: &G1<E>, max: u32) -> Option<u32> {
    use ark_ec::AffineRepr;
    use ark_ff::Zero;
    let mut cur = <E as ark_ec::pairing::Pairing>::G1::zero();
    for k in 0..=max {
        if cur == v.into_group() {
            return Some(k);
        }
        cur += g;
    }
    None
}
