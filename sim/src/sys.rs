//! System parameters (generators, SRS), and the executable reference model used as oracle.
//!
//! The model never calls the function it judges: it works from the secrets the library returned,
//! with plain scalar multiplication and single pairings from ark-ec (trusted).
use crate::core::*;
use crate::ensure;
use crate::toy;
use ark_ec::pairing::{Pairing, PairingOutput};
use ark_ec::{AffineRepr, CurveGroup, Group};
use ark_ff::{Field, One, PrimeField, UniformRand, Zero};
use ark_relations::lc;
use ark_relations::r1cs::{ConstraintSynthesizer, ConstraintSystemRef, SynthesisError, Variable};
use dist_saver::circuit::BitsizeCheckCircuit;
use dist_saver::encryption::Ciphertext;
use dist_saver::keygen::*;
use dist_saver::saver_groth16::{self, PreparedVerifyingKey, Proof, VerifyingKey};
use dist_saver::setup::{EncryptionGens, PreparedEncryptionGens};
use std::any::Any;
use std::collections::HashMap;
use std::sync::{Arc, Mutex};

pub type G1<E> = <E as Pairing>::G1Affine;
pub type G2<E> = <E as Pairing>::G2Affine;
pub type F<E> = <E as Pairing>::ScalarField;
pub type Chunk = u16;

pub trait Curve: Pairing {
    const NAME: &'static str;
    const REAL: bool;
    /// a point on the curve but outside the prime-order group
    fn g1_outside(rng: &mut SimRng) -> G1<Self>;
    fn g2_outside(rng: &mut SimRng) -> G2<Self>;
    /// not on the curve at all
    fn g1_off(p: &G1<Self>) -> G1<Self>;
    fn g2_off(p: &G2<Self>) -> G2<Self>;
    fn g1_ok(p: &G1<Self>) -> bool;
    fn g2_ok(p: &G2<Self>) -> bool;
}
impl Curve for toy::Toy {
    const NAME: &'static str = "toy";
    const REAL: bool = false;
    fn g1_outside(rng: &mut SimRng) -> G1<Self> {
        outside::<toy::G1Config>(rng)
    }
    fn g2_outside(rng: &mut SimRng) -> G2<Self> {
        outside::<toy::G2Config>(rng)
    }
    fn g1_off(p: &G1<Self>) -> G1<Self> {
        off(p)
    }
    fn g2_off(p: &G2<Self>) -> G2<Self> {
        off(p)
    }
    fn g1_ok(p: &G1<Self>) -> bool {
        member(p)
    }
    fn g2_ok(p: &G2<Self>) -> bool {
        member(p)
    }
}
impl Curve for ark_bls12_381::Bls12_381 {
    const NAME: &'static str = "bls12_381";
    const REAL: bool = true;
    fn g1_outside(rng: &mut SimRng) -> G1<Self> {
        outside::<ark_bls12_381::g1::Config>(rng)
    }
    fn g2_outside(rng: &mut SimRng) -> G2<Self> {
        outside::<ark_bls12_381::g2::Config>(rng)
    }
    fn g1_off(p: &G1<Self>) -> G1<Self> {
        off(p)
    }
    fn g2_off(p: &G2<Self>) -> G2<Self> {
        off(p)
    }
    fn g1_ok(p: &G1<Self>) -> bool {
        member(p)
    }
    fn g2_ok(p: &G2<Self>) -> bool {
        member(p)
    }
}
fn outside<C: ark_ec::short_weierstrass::SWCurveConfig>(
    rng: &mut SimRng,
) -> ark_ec::short_weierstrass::Affine<C> {
    loop {
        let x = C::BaseField::rand(rng);
        if let Some(p) = ark_ec::short_weierstrass::Affine::<C>::get_point_from_x_unchecked(x, false) {
            if !p.is_in_correct_subgroup_assuming_on_curve() {
                return p;
            }
        }
    }
}

type Sw<C> = ark_ec::short_weierstrass::Affine<C>;
fn off<C: ark_ec::short_weierstrass::SWCurveConfig>(p: &Sw<C>) -> Sw<C> {
    let mut y = p.y;
    loop {
        y += C::BaseField::one();
        let q = Sw::<C>::new_unchecked(p.x, y);
        if !q.is_on_curve() {
            return q;
        }
    }
}
/// y² = x³ + ax + b and r·P = 0, computed here rather than by the deserialiser's own check
fn member<C: ark_ec::short_weierstrass::SWCurveConfig>(p: &Sw<C>) -> bool {
    if p.infinity {
        return true;
    }
    let rhs = p.x * p.x * p.x + C::COEFF_A * p.x + C::COEFF_B;
    p.y * p.y == rhs && p.mul_bigint(C::ScalarField::characteristic()).is_zero()
}

pub struct Srs<E: Pairing> {
    pub pk: saver_groth16::ProvingKey<E>,
    pub pvk: PreparedVerifyingKey<E>,
}
impl<E: Pairing> Srs<E> {
    pub fn vk(&self) -> &VerifyingKey<E> {
        &self.pk.pk.vk
    }
}

/// Public parameters of one deployment.
pub struct Params<E: Pairing> {
    pub gens: EncryptionGens<E>,
    pub pgens: PreparedEncryptionGens<E>,
    pub g: Vec<G1<E>>,
    pub delta: G1<E>,
    pub gamma: G1<E>,
    pub bits: u8,
    pub n: usize,
    pub srs: Option<Srs<E>>,
    /// the SRS belongs to `InputsOnly`, not to the library's range check
    pub plain: bool,
}

static CACHE: Mutex<Option<HashMap<(&'static str, u8, bool, u64), Arc<dyn Any + Send + Sync>>>> =
    Mutex::new(None);
static CACHE_SEED: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(1);
pub fn set_cache_seed(s: u64) {
    CACHE_SEED.store(s, std::sync::atomic::Ordering::SeqCst);
}
pub fn cache_seed() -> u64 {
    CACHE_SEED.load(std::sync::atomic::Ordering::SeqCst)
}

pub fn count<E: Pairing>(bits: u8) -> usize {
    let s = F::<E>::MODULUS_BIT_SIZE as usize;
    (s + bits as usize - 1) / bits as usize
}

fn make<E: Curve>(cx: &mut Cx, rng: &mut SimRng, bits: u8, snark: bool, extra: usize) -> R<Params<E>> {
    let n = count::<E>(bits);
    let gens = cx.lib("EncryptionGens::new_using_rng", || EncryptionGens::<E>::new_using_rng(rng))?;
    let pgens = cx.lib("PreparedEncryptionGens::from", || PreparedEncryptionGens::from(gens.clone()))?;
    let (g, delta, gamma, srs) = if snark {
        let circuit = BitsizeCheckCircuit::<F<E>>::new(bits, None, None, true);
        let pk = cx.ok("generate_srs", || saver_groth16::generate_srs::<E, _, _>(circuit, &gens, rng))?;
        let pvk = saver_groth16::prepare_verifying_key(&pk.pk.vk);
        let g = cx.lib("get_gs_for_encryption", || saver_groth16::get_gs_for_encryption(&pk.pk.vk).to_vec())?;
        ensure!(g.len() == n, "srs:shape", "SRS offers {} message generators, {} chunks expected", g.len(), n);
        let d = pk.pk.delta_g1;
        let ga = pk.gamma_g1;
        (g, d, ga, Some(Srs { pk, pvk }))
    } else {
        let g = (0..n + extra).map(|_| G1::<E>::rand(rng)).collect::<Vec<_>>();
        let delta = mul(&gens.G, &F::<E>::rand(rng));
        let gamma = mul(&gens.G, &F::<E>::rand(rng));
        (g, delta, gamma, None)
    };
    Ok(Params { gens, pgens, g, delta, gamma, bits, n, srs, plain: false })
}

/// Parameters for `bits`; SRSs are built by the library and shared between runs (`idx` selects one
/// of a few; `fresh` builds a private one for this run).
pub fn params<E: Curve>(cx: &mut Cx, bits: u8, snark: bool, idx: u64, fresh: bool) -> R<Arc<Params<E>>> {
    if !snark {
        let mut rng = cx.rng();
        let extra = if cx.chance(1, 4) { 1 + cx.choose(4) } else { 0 };
        return Ok(Arc::new(make::<E>(cx, &mut rng, bits, false, extra)?));
    }
    if fresh {
        let mut rng = cx.rng();
        return Ok(Arc::new(make::<E>(cx, &mut rng, bits, true, 0)?));
    }
    let key = (E::NAME, bits, snark, idx);
    if let Some(p) = CACHE.lock().unwrap().get_or_insert_with(HashMap::new).get(&key) {
        return Ok(p.clone().downcast::<Params<E>>().unwrap());
    }
    // built outside the run's rayon schedule and statistics so that a cache hit and a cache miss
    // leave the run in the same state
    let seed = h64(&[cache_seed(), hstr(E::NAME), bits as u64, idx, 77]);
    let mut rng = SimRng::new(seed);
    let mut cx2 = Cx::new(&cx.prop, seed, Ch::replay(vec![]), cx.thorough, false);
    let saved = rayon_core::sim::save();
    rayon_core::sim::install(rayon_core::sim::Policy::Sequential, 0, 1);
    let r = make::<E>(&mut cx2, &mut rng, bits, true, 0);
    rayon_core::sim::restore(saved);
    let p = Arc::new(r?);
    CACHE.lock().unwrap().get_or_insert_with(HashMap::new).insert(key, p.clone());
    Ok(p)
}

/// A statement with `n` public inputs and no range check: what a deployment with its own circuit
/// proves. Cheap enough to reach the widest keys the library allows.
#[derive(Clone)]
pub struct InputsOnly<Fr: Field> {
    pub n: usize,
    pub vals: Option<Vec<Fr>>,
    /// with private variables
    pub free: bool,
}
impl<Fr: Field> ConstraintSynthesizer<Fr> for InputsOnly<Fr> {
    fn generate_constraints(self, cs: ConstraintSystemRef<Fr>) -> Result<(), SynthesisError> {
        let mut sum = lc!();
        let mut total = Fr::zero();
        for i in 0..self.n {
            let v = self.vals.as_ref().map(|v| v[i]);
            let x = cs.new_input_variable(|| v.ok_or(SynthesisError::AssignmentMissing))?;
            sum += (Fr::one(), x);
            total += v.unwrap_or(Fr::zero());
        }
        if !self.free {
            return cs.enforce_constraint(sum.clone(), lc!() + Variable::One, sum);
        }
        let w = cs.new_witness_variable(|| Ok(total))?;
        cs.enforce_constraint(sum, lc!() + Variable::One, lc!() + w)?;
        let sq = cs.new_witness_variable(|| Ok(total * total))?;
        cs.enforce_constraint(lc!() + w, lc!() + w, lc!() + sq)
    }
}
/// Parameters whose SRS belongs to `InputsOnly`; built for this run.
pub fn inputs_params<E: Curve>(cx: &mut Cx, bits: u8) -> R<Arc<Params<E>>> {
    let n = count::<E>(bits);
    let mut rng = cx.rng();
    let gens = cx.lib("EncryptionGens::new_using_rng", || EncryptionGens::<E>::new_using_rng(&mut rng))?;
    let pgens = cx.lib("PreparedEncryptionGens::from", || PreparedEncryptionGens::from(gens.clone()))?;
    let circuit = InputsOnly::<F<E>> { n, vals: None, free: !cx.chance(1, 4) };
    let pk = cx.ok("generate_srs", || saver_groth16::generate_srs::<E, _, _>(circuit, &gens, &mut rng))?;
    let pvk = saver_groth16::prepare_verifying_key(&pk.pk.vk);
    let g = cx.lib("get_gs_for_encryption", || saver_groth16::get_gs_for_encryption(&pk.pk.vk).to_vec())?;
    ensure!(g.len() == n, "srs:shape", "SRS offers {} message generators, {} chunks expected", g.len(), n);
    let (delta, gamma) = (pk.pk.delta_g1, pk.gamma_g1);
    cx.probe("wide_key_with_its_own_circuit");
    Ok(Arc::new(Params { gens, pgens, g, delta, gamma, bits, n, srs: Some(Srs { pk, pvk }), plain: true }))
}
/// chunk sizes that give the widest keys
pub fn wide_bits<E: Curve>(cx: &mut Cx) -> u8 {
    [2u8, 3, 1][cx.ch.weighted(&[3, 2, 1])]
}

// ---------------------------------------------------------------------------------------------
// arithmetic helpers (trusted: ark-ec)

pub fn mul<A: AffineRepr>(p: &A, s: &A::ScalarField) -> A {
    p.mul_bigint(s.into_bigint()).into_affine()
}
pub fn mulu<A: AffineRepr>(p: &A, s: u64) -> A {
    p.mul_bigint([s]).into_affine()
}
pub fn add<A: AffineRepr>(a: &A, b: &A) -> A {
    let mut g = a.into_group();
    g += b;
    g.into_affine()
}
pub fn sub<A: AffineRepr>(a: &A, b: &A) -> A {
    let mut g = a.into_group();
    g -= b;
    g.into_affine()
}
pub fn neg<A: AffineRepr>(a: &A) -> A {
    (-a.into_group()).into_affine()
}
pub fn sum<A: AffineRepr>(v: &[A]) -> A {
    let mut g = A::Group::zero();
    for x in v {
        g += x;
    }
    g.into_affine()
}
pub fn pair<E: Pairing>(a: &G1<E>, b: &G2<E>) -> PairingOutput<E> {
    E::pairing(*a, *b)
}

// ---------------------------------------------------------------------------------------------
// reference model

/// The key the parties' secrets define, whatever order shares travelled in.
pub fn model_joint_key<E: Pairing>(p: &Params<E>, sks: &[SecretKeyST<E>]) -> EncryptionKey<E> {
    let n = p.n;
    let s: Vec<F<E>> = (0..n).map(|j| sks.iter().map(|k| k.s[j]).sum()).collect();
    let t: Vec<F<E>> = (0..=n).map(|j| sks.iter().map(|k| k.t[j]).sum()).collect();
    let p1: F<E> = t[0] + (0..n).map(|j| s[j] * t[j + 1]).sum::<F<E>>();
    let p2: F<E> = F::<E>::one() + s.iter().sum::<F<E>>();
    EncryptionKey {
        X_0: p.delta,
        X: s.iter().map(|x| mul(&p.delta, x)).collect(),
        Y: (0..n).map(|j| mul(&p.g[j], &t[j + 1])).collect(),
        Z: t.iter().map(|x| mul(&p.gens.H, x)).collect(),
        P_1: mul(&p.delta, &p1),
        P_2: mul(&p.gamma, &p2),
    }
}

pub fn diff_key<E: Pairing>(a: &EncryptionKey<E>, b: &EncryptionKey<E>) -> Option<String> {
    if a.X_0 != b.X_0 {
        return Some("X_0".into());
    }
    if a.X != b.X {
        return Some(format!("X {:?}", first_diff(&a.X, &b.X)));
    }
    if a.Y != b.Y {
        return Some(format!("Y {:?}", first_diff(&a.Y, &b.Y)));
    }
    if a.Z != b.Z {
        return Some(format!("Z {:?}", first_diff(&a.Z, &b.Z)));
    }
    if a.P_1 != b.P_1 {
        return Some("P_1".into());
    }
    if a.P_2 != b.P_2 {
        return Some("P_2".into());
    }
    None
}
fn first_diff<T: PartialEq>(a: &[T], b: &[T]) -> String {
    if a.len() != b.len() {
        return format!("length {} vs {}", a.len(), b.len());
    }
    match (0..a.len()).find(|i| a[*i] != b[*i]) {
        Some(i) => format!("[{}]", i),
        None => "-".into(),
    }
}

/// Public-only consistency of an encryption key with the parameters:
/// P_1 and Y tied to X, Z; and P_2 tied to X via the SRS's G2 elements when there is one.
pub fn spec_key_consistent<E: Pairing>(p: &Params<E>, ek: &EncryptionKey<E>) -> bool {
    let n = ek.X.len();
    if ek.Y.len() != n || ek.Z.len() != n + 1 || p.g.len() < n {
        return false;
    }
    let mut acc = pair::<E>(&ek.X_0, &ek.Z[0]);
    for j in 0..n {
        acc += pair::<E>(&ek.X[j], &ek.Z[j + 1]);
        if pair::<E>(&ek.Y[j], &p.gens.H) != pair::<E>(&p.g[j], &ek.Z[j + 1]) {
            return false;
        }
    }
    if acc != pair::<E>(&ek.P_1, &p.gens.H) {
        return false;
    }
    if let Some(s) = &p.srs {
        let mut x = ek.X_0.into_group();
        for y in &ek.X {
            x += y;
        }
        let l = pair::<E>(&ek.P_2, &s.vk().delta_g2);
        let r = pair::<E>(&(-x).into_affine(), &s.vk().gamma_g2);
        if l != r {
            return false;
        }
    }
    true
}

/// e(c_0,Z_0) + Σ e(c_i,Z_i) == e(psi,H)
pub fn spec_commitment<E: Pairing>(
    x_r: &G1<E>,
    c: &[G1<E>],
    psi: &G1<E>,
    ek: &EncryptionKey<E>,
    h: &G2<E>,
) -> bool {
    if c.len() + 1 != ek.Z.len() || c.len() != ek.X.len() || ek.Y.len() != c.len() {
        return false;
    }
    let mut acc = pair::<E>(x_r, &ek.Z[0]);
    for j in 0..c.len() {
        acc += pair::<E>(&c[j], &ek.Z[j + 1]);
    }
    acc == pair::<E>(psi, h)
}

/// SAVER-Groth16 equation: e(A,B) = e(α,β) + e(abc_0 + X_r + Σc_i, γ) + e(C, δ)
pub fn spec_proof<E: Pairing>(vk: &VerifyingKey<E>, proof: &Proof<E>, ct: &Ciphertext<E>) -> bool {
    let mut d = vk.gamma_abc_g1[0].into_group();
    d += ct.X_r;
    for c in &ct.enc_chunks {
        d += c;
    }
    let lhs = pair::<E>(&proof.a, &proof.b);
    let rhs = pair::<E>(&vk.alpha_g1, &vk.beta_g2)
        + pair::<E>(&d.into_affine(), &vk.gamma_g2)
        + pair::<E>(&proof.c, &vk.delta_g2);
    lhs == rhs
}

/// What `encrypt_decomposed_message` must produce for randomness r.
pub fn model_ct<E: Pairing>(p: &Params<E>, ek: &EncryptionKey<E>, m: &[Chunk], r: &F<E>) -> Vec<G1<E>> {
    let mut v = vec![mul(&ek.X_0, r)];
    for j in 0..m.len() {
        v.push(add(&mul(&ek.X[j], r), &mulu(&p.g[j], m[j] as u64)));
    }
    let mut psi = mul(&ek.P_1, r).into_group();
    for j in 0..m.len() {
        psi += mulu(&ek.Y[j], m[j] as u64);
    }
    v.push(psi.into_affine());
    v
}

/// Decrypt one chunk knowing Σ s_j: c_j - s_j·c_0 must be m·g_j.
pub fn model_open<E: Pairing>(s: &F<E>, c_0: &G1<E>, c: &G1<E>) -> G1<E> {
    sub(c, &mul(c_0, s))
}

pub fn frand<Fq: Field>(rng: &mut SimRng) -> Fq {
    Fq::rand(rng)
}

/// exponent group element of a scalar, for quick comparisons
pub fn is_zero<A: AffineRepr>(a: &A) -> bool {
    a.is_zero()
}

pub fn group_order_check<G: Group>(g: &G) -> bool {
    g.mul_bigint(G::ScalarField::characteristic()).is_zero()
}

// ---------------------------------------------------------------------------------------------
// workload generators

pub fn max_of(bits: u8) -> u32 {
    if bits >= 16 {
        65535
    } else {
        (1u32 << bits) - 1
    }
}

/// One chunk value for a chunk of `bits` bits, biased to the edges.
pub fn gen_chunk(cx: &mut Cx, bits: u8) -> Chunk {
    let max = max_of(bits) as usize;
    if max <= 15 {
        return match cx.ch.weighted(&[3, 2, 2, 9]) {
            0 => 0,
            1 => 1.min(max),
            2 => max,
            _ => cx.choose(max + 1),
        } as Chunk;
    }
    (match cx.ch.weighted(&[8, 6, 6, 6, 6, 24, 2]) {
        0 => 0,
        1 => 1,
        2 => {
            if bits <= 8 {
                max
            } else {
                255
            }
        }
        3 => {
            if bits <= 8 {
                max - 1
            } else {
                // around the powers of two and at the end of the range
                let k = 8 + cx.choose((bits.min(16) - 8) as usize);
                [256, 256, 1 << k, (1 << k) + 1, (2 << k) - 1, max - 1][cx.choose(6)]
            }
        }
        4 => 2,
        5 => cx.choose(max.min(700) + 1),
        _ => cx.choose(max + 1),
    }) as Chunk
}
pub fn gen_msg(cx: &mut Cx, n: usize, bits: u8) -> Vec<Chunk> {
    match cx.ch.weighted(&[1, 1, 10]) {
        0 => vec![0; n],
        1 if bits <= 8 => vec![max_of(bits) as Chunk; n],
        _ => {
            // short choice encoding: a few distinct chunks, the rest derived
            let mut v: Vec<Chunk> = Vec::with_capacity(n);
            let k = n.min(6);
            for _ in 0..k {
                v.push(gen_chunk(cx, bits));
            }
            let mut rng = cx.rng();
            use ark_std::rand::RngCore;
            while v.len() < n {
                let x = rng.next_u32() % (max_of(bits).min(40) + 1);
                v.push(x as Chunk);
            }
            if cx.chance(1, 2) {
                v.reverse();
            }
            v
        }
    }
}
